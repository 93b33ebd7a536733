#include "vh.hpp"
#include <gapp.hpp>
using vh::Rng; using vh::Case;
#define D(n) void host_run_##n(Rng&, Case&); void host_fault_##n(Rng&, Case&); void host_history_##n(Rng&, Case&); void host_operators_##n(Rng&, Case&);
D(bin) D(int) D(real) D(perm)
void host_moo(Rng&, Case&);
#define K(n) vh::cases(#n "-run", q, t, [](Rng& r, Case& c) { host_run_##n(r, c); }); vh::cases(#n "-fault", q, t, [](Rng& r, Case& c) { host_fault_##n(r, c); }); \
    vh::cases(#n "-history", q / 2, t / 2, [](Rng& r, Case& c) { host_history_##n(r, c); }); vh::cases(#n "-operators", q, t, [](Rng& r, Case& c) { host_operators_##n(r, c); });
int main(int argc, char** argv)
{
    (void)gapp::rng::randomBool();
    return vh::run(argc, argv, [](const std::string& area)
    {
        const uint64_t q = area == "P08v" ? 16 : area == "P08g" ? 300 : 1200, t = q * 40;
        K(bin) K(int) K(real) K(perm)
        vh::cases("moo-extreme", area == "P08" ? 8000 : q, area == "P08" ? 200000 : t, host_moo);
    });
}
