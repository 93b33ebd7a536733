#include "h_config.inc"
void config_int(uint64_t q, uint64_t t) { vh::cases("integer", q, t, [](Rng& r, Case& c) { configCase<IntE>(r, c); }); }
