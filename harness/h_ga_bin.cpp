#include "h_ga.inc"
void ga_bin(const std::string& p, uint64_t q, uint64_t t) { gaArea<BinE>(p, q, t); }
