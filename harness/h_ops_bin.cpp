#include "h_ops.inc"
void ops_bin(const std::string& p) { opsArea<BinE>(p, 1); }
