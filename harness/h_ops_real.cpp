#include "h_ops.inc"
void ops_real(const std::string& p) { opsArea<RealE>(p, 1); }
