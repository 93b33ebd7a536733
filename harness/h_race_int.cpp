#include "h_race.inc"
void race_int(Rng& r, Case& c) { raceCase<IntE>(r, c); }
void race_one_int(uint64_t seed) { raceOne<IntE>(seed); }
void race_nested_int(Rng& r, Case& c) { nestedCase<IntE>(r, c); }
