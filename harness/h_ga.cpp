#include "vh.hpp"
#include <gapp.hpp>
void ga_bin(const std::string&, uint64_t, uint64_t); void ga_int(const std::string&, uint64_t, uint64_t); void ga_real(const std::string&, uint64_t, uint64_t); void ga_perm(const std::string&, uint64_t, uint64_t);
int main(int argc, char** argv)
{
    (void)gapp::rng::randomBool();   // the main thread is the first user of the generators
    return vh::run(argc, argv, [](const std::string& prop)
    {
        const uint64_t q = prop == "P04" || prop == "P06" ? 500 : prop == "P36" ? 5000 : 1600, t = q * 40;
        ga_bin(prop, q, t); ga_int(prop, q, t); ga_real(prop, q, t); ga_perm(prop, q, t);
    });
}
