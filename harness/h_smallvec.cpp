#include "vh.hpp"
void part1(); void part2(); void part3(); void part4();
int main(int argc, char** argv) { return vh::run(argc, argv, [](const std::string&) { part1(); part2(); part3(); part4(); }); }
