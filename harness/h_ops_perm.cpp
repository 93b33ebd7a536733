#include "h_ops.inc"
void ops_perm(const std::string& p) { opsArea<PermE>(p, 1); }
