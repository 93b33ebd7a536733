#include "h_ga.inc"
void ga_perm(const std::string& p, uint64_t q, uint64_t t) { gaArea<PermE>(p, q, t); }
