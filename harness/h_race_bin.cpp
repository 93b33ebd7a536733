#include "h_race.inc"
void race_bin(Rng& r, Case& c) { raceCase<BinE>(r, c); }
void race_one_bin(uint64_t seed) { raceOne<BinE>(seed); }
void race_nested_bin(Rng& r, Case& c) { nestedCase<BinE>(r, c); }
