#include "h_smallvec.inc"
void part3()
{
    vh::cases("tracked_n1", 400, 20000, [](auto& r, auto& c) { history<Tracked, 1>(r, c, false); });
    vh::cases("tracked_n5", 500, 20000, [](auto& r, auto& c) { history<Tracked, 5>(r, c, false); });
    vh::cases("tracked_faults", 1200, 60000, [](auto& r, auto& c) { history<Tracked, 5>(r, c, true); });
}
