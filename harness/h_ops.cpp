#include "vh.hpp"
void ops_bin(const std::string&); void ops_int(const std::string&); void ops_real(const std::string&); void ops_perm(const std::string&);
int main(int argc, char** argv) { return vh::run(argc, argv, [](const std::string& p) { ops_bin(p); ops_int(p); ops_real(p); ops_perm(p); }); }
