#include "h_ga.inc"
void ga_int(const std::string& p, uint64_t q, uint64_t t) { gaArea<IntE>(p, q, t); }
