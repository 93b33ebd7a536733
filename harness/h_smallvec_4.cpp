#include "h_smallvec.inc"
void part4()
{
    vh::cases("throwing_move_faults", 1000, 60000, [](auto& r, auto& c) { history<TrackedTM, 4>(r, c, true); });
    vh::cases("convert_int_double", 150, 3000, [](auto& r, auto& c) { conversions<double, int>(r, c); });
    vh::cases("convert_float_double", 150, 3000, [](auto& r, auto& c) { conversions<double, float>(r, c); });
    vh::cases("convert_double_float", 150, 3000, [](auto& r, auto& c) { conversions<float, double>(r, c); });
    vh::cases("convert_short_long", 150, 3000, [](auto& r, auto& c) { conversions<long, short>(r, c); });
}
