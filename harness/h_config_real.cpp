#include "h_config.inc"
void config_real(uint64_t q, uint64_t t) { vh::cases("real", q, t, [](Rng& r, Case& c) { configCase<RealE>(r, c); }); }
