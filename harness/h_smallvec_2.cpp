#include "h_smallvec.inc"
void part2()
{
    vh::cases("string_n3", 500, 20000, [](auto& r, auto& c) { history<std::string, 3>(r, c, false); });
    vh::cases("over_n2", 300, 10000, [](auto& r, auto& c) { history<Over, 2>(r, c, false); });
}
