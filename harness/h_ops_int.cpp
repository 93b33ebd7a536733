#include "h_ops.inc"
void ops_int(const std::string& p) { opsArea<IntE>(p, 1); }
