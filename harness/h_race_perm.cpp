#include "h_race.inc"
void race_perm(Rng& r, Case& c) { raceCase<PermE>(r, c); }
void race_one_perm(uint64_t seed) { raceOne<PermE>(seed); }
void race_nested_perm(Rng& r, Case& c) { nestedCase<PermE>(r, c); }
