#include "h_config.inc"
void config_bin(uint64_t q, uint64_t t) { vh::cases("binary", q, t, [](Rng& r, Case& c) { configCase<BinE>(r, c); }); }
