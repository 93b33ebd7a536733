#include "h_race.inc"
void race_real(Rng& r, Case& c) { raceCase<RealE>(r, c); }
void race_one_real(uint64_t seed) { raceOne<RealE>(seed); }
void race_nested_real(Rng& r, Case& c) { nestedCase<RealE>(r, c); }
