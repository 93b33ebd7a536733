#include "h_ga.inc"
void ga_real(const std::string& p, uint64_t q, uint64_t t) { gaArea<RealE>(p, q, t); }
