#include "vh.hpp"
void config_bin(uint64_t, uint64_t); void config_int(uint64_t, uint64_t); void config_real(uint64_t, uint64_t); void config_perm(uint64_t, uint64_t);
int main(int argc, char** argv) { return vh::run(argc, argv, [](const std::string&) { config_bin(800, 12000); config_int(800, 12000); config_real(800, 12000); config_perm(800, 12000); }); }
