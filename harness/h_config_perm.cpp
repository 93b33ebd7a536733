#include "h_config.inc"
void config_perm(uint64_t q, uint64_t t) { vh::cases("perm", q, t, [](Rng& r, Case& c) { configCase<PermE>(r, c); }); }
