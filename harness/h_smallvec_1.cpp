#include "h_smallvec.inc"
void part1()
{
    vh::cases("int_n4", 600, 20000, [](auto& r, auto& c) { history<int, 4>(r, c, false); });
    vh::cases("double_default", 800, 30000, [](auto& r, auto& c) { history<double, gapp::detail::default_small_size_v<double>>(r, c, false); });
}
