/* Reference hypervolume by slicing along the last objective; independent of the library's algorithm. */
#ifndef VH_HV_HPP
#define VH_HV_HPP
#include <vector>
#include <algorithm>
#include <cstddef>
using Row = std::vector<double>;
using Rows = std::vector<Row>;
inline long double hvRef(std::vector<Row> p, const Row& ref, size_t m)
{
    if (p.empty()) return 0;
    if (m == 1) { double b = ref[0]; for (auto& x : p) b = std::max(b, x[0]); return (long double)b - ref[0]; }
    std::sort(p.begin(), p.end(), [m](const Row& a, const Row& b) { return a[m - 1] > b[m - 1]; });
    long double v = 0; std::vector<Row> top;
    for (size_t i = 0; i < p.size(); i++)
    {
        top.push_back(p[i]); const double next = i + 1 < p.size() ? p[i + 1][m - 1] : ref[m - 1];
        if (p[i][m - 1] > next) v += ((long double)p[i][m - 1] - next) * hvRef(top, ref, m - 1);
    }
    return v;
}
#endif
