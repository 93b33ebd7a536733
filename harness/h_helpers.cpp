/* Numeric helpers and the cone tree (P29), sequence and functional helpers (P31). */
#include "vh.hpp"
#include "utility/algorithm.hpp"
#include "utility/functional.hpp"
#include "utility/scope_exit.hpp"
#include "utility/indestructible.hpp"
#include "utility/bounded_value.hpp"
#include "utility/math.hpp"
#include "utility/cone_tree.hpp"
#include "utility/utility.hpp"
#include "utility/type_id.hpp"
#include <thread>
#include <list>
#include <memory>
#include <array>
#include <optional>
using namespace gapp; using namespace gapp::detail;
using vh::Case; using vh::Rng;
static constexpr double INF = std::numeric_limits<double>::infinity();

// ------------------------------------------------------------------------------------------ float comparison
template<typename T> T someFloat(Rng& r)
{
    switch (r.below(8))
    {
    case 0: return T(r.range(-5, 5));
    case 1: return r.pick({ T(0), -T(0), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon() });
    case 2: return T(r.real(-1, 1));
    case 3: return T(r.real(-1e6, 1e6));
    case 4: return T(std::ldexp(r.real(-1, 1), int(r.range(-100, 100))));
    default: return T(r.range(-20, 20)) / T(4);
    }
}
/* Values near each other on the scale of the tolerances. */
template<typename T> T near(Rng& r, T x, double a, double rel)
{
    if (!std::isfinite(x)) return r.chance(.5) ? x : someFloat<T>(r);
    switch (r.below(6))
    {
    case 0: return x;
    case 1: return std::nextafter(x, r.chance(.5) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest());
    case 2: return T(x + r.real(-2, 2) * a);
    case 3: return T(x + r.real(-2, 2) * rel * std::abs(double(x)));
    case 4: return T(-x);
    default: return someFloat<T>(r);
    }
}
struct Tol { double a, r; };
static Tol someTol(Rng& r)
{
    switch (r.below(5)) { case 0: return { 0, 0 }; case 1: return { 1e-12, 10 * std::numeric_limits<double>::epsilon() }; case 2: return { r.pick({ 0.0, 1e-6, 0.5, 10.0 }), 0 }; case 3: return { 0, r.pick({ 1e-9, 0.01, 0.5, 0.9 }) }; default: return { r.real(0, 1), r.real(0, 1) }; }
}
template<typename T> void floatLaws(Rng& r, Case& cs)
{
    const Tol tol = someTol(r); math::ScopedTolerances guard(tol.a, tol.r); uint64_t eq = 0, ne = 0;
    VH_REQUIRE(math::Tolerances::abs<double>() == tol.a && math::Tolerances::rel<double>(1.0) == tol.r, "tolerances-not-set", tol.a, " ", tol.r);
    for (int i = 0; i < 60; i++)
    {
        const T x = someFloat<T>(r), y = near<T>(r, x, tol.a, tol.r);
        const bool e = math::floatIsEqual(x, y), l = math::floatIsLess(x, y), g = math::floatIsGreater(x, y); const auto c = math::floatCompare(x, y);
        auto what = [&] { std::ostringstream o; o.precision(21); o << x << " and " << y << " with absolute " << tol.a << " and relative " << tol.r; return o.str(); };
        VH_REQUIRE(int(e) + int(l) + int(g) == 1, "float-trichotomy", what(), ": equal ", e, " less ", l, " greater ", g);
        VH_REQUIRE((c == 0) == e && (c < 0) == l && (c > 0) == g, "float-three-way", what());
        VH_REQUIRE(math::floatIsEqual(y, x) == e && math::floatIsLess(y, x) == g && math::floatIsGreater(y, x) == l, "float-symmetry", what());
        VH_REQUIRE(math::floatIsLessEq(x, y) == !g && math::floatIsGreaterEq(x, y) == !l, "float-less-eq", what());
        if (!g) VH_REQUIRE(math::floatIsLessAssumeNotGreater(x, y) == l, "float-less-assume", what());
        VH_REQUIRE(math::floatIsEqual(x, x) && (x != y || e), "float-equal-contains-exact", what());
        VH_REQUIRE(!l || x < y, "float-less-implies-less", what());
        if (tol.a == 0 && tol.r == 0) VH_REQUIRE(e == (x == y) && l == (x < y), "float-zero-tolerance", what());
        if (std::isfinite(x) && std::isfinite(y) && std::isfinite(x - y))
        {   // equal well within the tolerance, different well outside of it
            const long double d = std::abs((long double)x - y), t = std::max<long double>(tol.a, (long double)tol.r * std::max(std::abs((long double)x), std::abs((long double)y)));
            if (d < t * 0.999L - 8 * (long double)std::numeric_limits<T>::denorm_min()) VH_REQUIRE(e, "float-within-tolerance", what()); if (d > t * 1.001L + 8 * (long double)std::numeric_limits<T>::denorm_min()) VH_REQUIRE(!e, "float-beyond-tolerance", what());
        }
        (e ? eq : ne)++; cs.sig(double(x)); cs.sig(double(y));
    }
    cs.nontrivial = eq && ne; vh::stat("float_pairs", 60); vh::stat("float_pairs_equal", eq);
    std::vector<T> a(r.below(6)), b; for (auto& x : a) x = someFloat<T>(r); b = a; if (b.size() && r.chance(.5)) { auto& x = r.pick(b); x = near<T>(r, x, tol.a, tol.r); } if (r.chance(.2)) b.push_back(T(1));
    bool all = a.size() == b.size(); for (size_t i = 0; all && i < a.size(); i++) all = math::floatIsEqual(a[i], b[i]);
    VH_REQUIRE(math::floatVecIsEqual<T>(a, b) == all, "float-vec-equal", a.size(), " ", b.size());
}
static void tolNesting(Rng& r, Case& cs)
{
    const double a0 = math::Tolerances::abs<double>(), r0 = math::Tolerances::rel<double>(1.0);
    std::function<void(int)> nest = [&](int depth)
    {
        const Tol t{ r.real(0, 1), r.real(0, 1) }; math::ScopedTolerances g(t.a, t.r);
        try { math::ScopedTolerances h(0.25, 0.125); VH_REQUIRE(math::Tolerances::abs<double>() == 0.25 && math::Tolerances::rel<double>(2.0) == 0.25, "tolerances-inner", depth); if (depth) nest(depth - 1); if (r.chance(.5)) throw 1; } catch (int) {}
        VH_REQUIRE(math::Tolerances::abs<double>() == t.a && math::Tolerances::rel<double>(1.0) == t.r, "tolerances-not-restored", "depth ", depth);
    };
    nest(int(r.below(5))); VH_REQUIRE(math::Tolerances::abs<double>() == a0 && math::Tolerances::rel<double>(1.0) == r0, "tolerances-not-restored", "outermost"); cs.sig(r.next()); cs.nontrivial = true;
}
static void paretoLaws(Rng& r, Case& cs)
{
    const Tol tol = someTol(r); math::ScopedTolerances guard(tol.a, tol.r); int doms = 0, inc = 0;
    for (int i = 0; i < 30; i++)
    {
        const size_t n = 1 + r.below(6); std::vector<double> x(n), y(n);
        const int dir = int(r.below(3));
        for (size_t k = 0; k < n; k++) { x[k] = someFloat<double>(r); y[k] = near<double>(r, x[k], tol.a, tol.r); if (dir && std::isfinite(x[k]) && ((y[k] < x[k]) == (dir == 1))) std::swap(x[k], y[k]); }
        bool lower = false, higher = false; for (size_t k = 0; k < n; k++) { lower |= math::floatIsLess(x[k], y[k]); higher |= math::floatIsLess(y[k], x[k]); }
        const int want = lower == higher ? 0 : lower ? -1 : 1; const int got = math::paretoCompare(x, y);
        auto what = [&] { return vh::str(vh::vec(x), " and ", vh::vec(y), " with absolute ", tol.a, " and relative ", tol.r); };
        VH_REQUIRE(got == want, "pareto-compare", what(), ": ", got, " expected ", want); VH_REQUIRE(math::paretoCompare(y, x) == -want, "pareto-antisymmetry", what());
        VH_REQUIRE(math::paretoCompareLess(x, y) == (want < 0) && math::paretoCompareLess(y, x) == (want > 0), "pareto-less", what(), ": three-way says ", want); VH_REQUIRE(!math::paretoCompareLess(x, x) && math::paretoCompare(x, x) == 0, "pareto-irreflexive", what());
        (want ? doms : inc)++; for (double v : x) cs.sig(v); for (double v : y) cs.sig(v);
    }
    cs.nontrivial = doms && inc; vh::stat("pareto_pairs", 30); vh::stat("pareto_dominated_pairs", doms);
}

// ------------------------------------------------------------------------------------------ vectors
static bool close(long double a, long double b, long double scale, long double rel = 1e-12L) { return std::abs(a - b) <= rel * scale + 1e-300L; }
static void vectorLaws(Rng& r, Case& cs)
{
    const size_t n = 1 + (r.chance(.2) ? r.below(400) : r.below(12)); const double mag = r.pick({ 1.0, 1e-3, 1e6, 1e60, 1e-60 });
    std::vector<double> x(n), y(n); for (auto& v : x) v = r.chance(.1) ? 0.0 : r.real(-1, 1) * mag; for (auto& v : y) v = r.chance(.1) ? 0.0 : r.real(-1, 1) * mag; if (r.chance(.1)) y = x; if (r.chance(.1)) std::fill(x.begin(), x.end(), r.real(-1, 1) * mag);
    long double sq = 0, d2 = 0, dot = 0, sum = 0, sabs = 0, vol = 1; for (size_t i = 0; i < n; i++) { sq += (long double)x[i] * x[i]; const long double d = (long double)x[i] - y[i]; d2 += d * d; dot += (long double)x[i] * y[i]; sum += x[i]; sabs += std::abs((long double)x[i]); }
    VH_REQUIRE(close(math::euclideanNorm(x), std::sqrt(sq), std::sqrt(sq)), "euclidean-norm", n, " values of size ", mag);
    VH_REQUIRE(close(math::euclideanDistanceSq(x, y), d2, d2, 1e-9L) || d2 < 1e-20L * sq, "euclidean-distance", n); VH_REQUIRE(math::euclideanDistanceSq(x, x) == 0 && math::euclideanDistanceSq(x, y) == math::euclideanDistanceSq(y, x), "euclidean-distance-symmetry", n);
    VH_REQUIRE(close(math::mean(x), sum / n, sabs / n), "mean", n, ": ", math::mean(x), " expected ", (double)(sum / n));
    long double var = 0; for (double v : x) var += (v - sum / n) * (v - sum / n); const long double sd = std::sqrt(var / n);
    VH_REQUIRE(close(math::stdDev(x), sd, sabs / n + sd), "standard-deviation", n, ": ", math::stdDev(x), " expected ", (double)sd); VH_REQUIRE(close(math::stdDev(x, math::mean(x)), sd, sabs / n + sd), "standard-deviation-given-mean", n);
    if (sq > 0)
    {
        long double k = dot / sq, p2 = 0, yy = 0; for (size_t i = 0; i < n; i++) { long double d = y[i] - k * x[i]; p2 += d * d; yy += (long double)y[i] * y[i]; }
        VH_REQUIRE(close(math::perpendicularDistanceSq(x, y), p2, p2 + yy, 1e-11L), "perpendicular-distance", n, ": ", math::perpendicularDistanceSq(x, y), " expected ", (double)p2);
        auto u = x; math::normalizeVector(u); long double uu = 0; for (double v : u) uu += (long double)v * v; VH_REQUIRE(close(uu, 1, 1), "normalized-length", n); for (size_t i = 0; i < n; i++) VH_REQUIRE(close(u[i], x[i] / std::sqrt(sq), std::abs(u[i])), "normalized-direction", n);
    }
    if (n <= 12 && mag != 1e60 && mag != 1e-60) { for (size_t i = 0; i < n; i++) vol *= (long double)x[i] - y[i]; VH_REQUIRE(close(math::volumeBetween(x, y), std::abs(vol), std::abs(vol), 1e-10L), "volume-between", n); VH_REQUIRE(close(math::volumeBetween(x, y), math::volumeBetween(y, x), std::abs(vol)), "volume-symmetry", n); }
    const size_t e = r.below(12); const double a = r.real(0, 3.14159), b = r.real(0, 3.14159); long double q = 0; const int N = 400; const long double h = ((long double)b - a) / N; // Simpson
    for (int i = 0; i <= N; i++) q += (i == 0 || i == N ? 1 : i % 2 ? 4 : 2) * std::pow(std::sin(a + i * h), (long double)e); q *= h / 3;
    VH_REQUIRE(std::abs((long double)math::integralSinPow(e, b) - math::integralSinPow(e, a) - q) < 1e-8L, "integral-sin-pow", "exponent ", e, " over ", a, "..", b, ": ", math::integralSinPow(e, b) - math::integralSinPow(e, a), " expected ", (double)q);
    // range helpers
    { const int64_t lo = r.range(-50, 50), hi = lo + r.range(0, 100); VH_REQUIRE(range_length<int64_t>(lo, hi) == uint64_t(hi - lo), "range-length", lo); const size_t m = 1 + r.below(20), v = r.below(m); VH_REQUIRE(next_mod(v, m) == (v + 1) % m && prev_mod(v, m) == (v + m - 1) % m, "modular-step", v, " mod ", m); size_t w = v; increment_mod(w, m); decrement_mod(w, m); VH_REQUIRE(w == v, "modular-inverse", v); }
    VH_REQUIRE(range_length<int8_t>(-128, 127) == 255 && range_length<int64_t>(INT64_MIN, INT64_MAX) == UINT64_MAX && range_length<uint64_t>(0, UINT64_MAX) == UINT64_MAX, "range-length-extreme", "");
    // bounded values
    { const double v = r.real(-2, 2); using I = Interval<double>; for (bool li : { false, true }) for (bool ri : { false, true }) { const I in(-1, 1, li, ri); VH_REQUIRE(in.contains(v) == (v > -1 && v < 1) && in.contains(-1) == li && in.contains(1) == ri, "interval-contains", v); } if (v >= 0 && v <= 1) VH_REQUIRE(double(Probability(v)) == v && double(Normalized<double>(v)) == v, "bounded-value", v); }
    cs.nontrivial = n > 1 && var > 0; cs.sig(x[0]); cs.sig(uint64_t(n)); vh::stat("vector_laws");
}

// ------------------------------------------------------------------------------------------ cone tree
static void coneCase(Rng& r, Case& cs)
{
    const int shape = int(r.below(7)); const size_t dim = 1 + r.below(12), n = r.chance(.1) ? (shape ? 500 + r.below(1500) : 300) : r.below(120);
    std::vector<ConeTree::Point> pts; std::vector<double> dir(dim, 1.0);
    for (size_t i = 0; i < n; i++)
    {
        ConeTree::Point p(dim);
        for (size_t k = 0; k < dim; k++) p[k] = shape == 0 ? 1.0 : shape == 1 ? double(r.range(-1, 1)) : shape == 2 ? double(i) * (k + 1) : shape == 3 ? r.real(0, 1) : shape == 4 ? std::pow(10.0, r.real(-8, 8)) * (r.chance(.5) ? 1 : -1) : r.real(-1, 1);
        if (shape == 6 && i && r.chance(.5)) p = pts[r.below(i)];
        pts.push_back(std::move(p));
    }
    const ConeTree tree{ std::span<const ConeTree::Point>(pts) };
    auto what = [&] { return vh::str(n, " points in ", dim, " dimensions, shape ", shape); };
    VH_REQUIRE(tree.size() == n && tree.empty() == (n == 0) && size_t(tree.end() - tree.begin()) == n, "tree-size", what());
    std::multiset<std::vector<double>> in, out; for (auto& p : pts) in.insert(std::vector<double>(p.begin(), p.end())); for (size_t i = 0; i < n; i++) { std::vector<double> v = tree.data()[i]; out.insert(v); }
    VH_REQUIRE(in == out, "tree-points-changed", what());
    for (int q = 0; q < 20; q++)
    {
        std::vector<double> x(dim); for (auto& v : x) v = q == 0 ? 0.0 : shape == 4 ? std::pow(10.0, r.real(-8, 8)) * (r.chance(.5) ? 1 : -1) : r.real(-1, 1); if (q > 15 && n) { auto& p = r.pick(pts); x.assign(p.begin(), p.end()); } if (q == 15) for (auto& v : x) v *= -1;
        ConeTree::FindResult res; if (q % 5 == 3) { std::thread([&] { res = tree.findBestMatch(x); }).join(); vh::stat("cone_queries_on_a_new_thread"); } else res = tree.findBestMatch(x);
        if (!n) { VH_REQUIRE(res.elem == tree.end(), "empty-tree-match", what()); continue; }
        double best = -INF, scale = 0; for (auto& p : pts) { double s = std::inner_product(x.begin(), x.end(), p.begin(), 0.0), m = 0, xx = 0; for (size_t k = 0; k < dim; k++) { m += p[k] * p[k]; xx += x[k] * x[k]; } best = std::max(best, s); scale = std::max(scale, std::sqrt(m * xx)); }
        VH_REQUIRE(res.elem >= tree.begin() && res.elem < tree.end(), "match-not-in-tree", what());
        const std::vector<double> e = *res.elem; const double s = std::inner_product(x.begin(), x.end(), e.begin(), 0.0);
        VH_REQUIRE(std::abs(s - res.prod) <= 1e-12 * scale, "match-product", what(), ": reported ", res.prod, " is ", s); VH_REQUIRE(res.prod >= best - 1e-11 * scale, "not-the-best-match", what(), ": ", res.prod, " but the best is ", best, " for ", vh::vec(x)); vh::stat("cone_queries");
    }
    cs.nontrivial = n > 16 && shape; cs.sig(uint64_t(n * 100 + dim)); cs.sig(uint64_t(shape)); cs.sig(n ? pts[0][0] : 0.0); cs.sample_lazy("", what);
}

// ------------------------------------------------------------------------------------------ sequences
template<typename V> static void sequenceCase(Rng& r, Case& cs)
{
    const size_t n = r.chance(.15) ? 30 + r.below(300) : r.below(30); const int64_t span = r.pick({ 0, 1, 3, 50, 100000 });
    V v; for (size_t i = 0; i < n; i++) v.push_back(typename V::value_type(r.range(-span, span))); const V orig = v; using T = typename V::value_type;
    auto what = [&] { return vh::str(n, " values: ", vh::vec(std::vector<double>(v.begin(), v.end()))); };
    auto perm = [&](const auto& idx) { std::vector<size_t> s(idx.begin(), idx.end()); std::sort(s.begin(), s.end()); for (size_t i = 0; i < s.size(); i++) if (s[i] != i) return false; return s.size() == n; };
    auto sorted = [&](const auto& idx, size_t len, auto comp) { for (size_t i = 1; i < len; i++) if (comp(v[idx[i]], v[idx[i - 1]])) return false; for (size_t i = len; i < n; i++) if (len && comp(v[idx[i]], v[idx[len - 1]])) return false; return true; };
    const size_t first = r.below(5); { auto iv = index_vector(n, first); VH_REQUIRE(iv.size() == n, "index-vector", n); for (size_t i = 0; i < n; i++) VH_REQUIRE(iv[i] == first + i, "index-vector", i); }
    { auto a = argsort(v.begin(), v.end()); VH_REQUIRE(perm(a) && sorted(a, n, std::less<T>{}), "argsort", what()); }
    { auto a = argsort(v.begin(), v.end(), std::greater<T>{}); VH_REQUIRE(perm(a) && sorted(a, n, std::greater<T>{}), "argsort-greater", what()); }
    { auto a = argsort(v.rbegin(), v.rend()); VH_REQUIRE(perm(a) && sorted(a, n, std::greater<T>{}), "argsort-reverse", what()); }
    const size_t m = n ? (r.chance(.5) ? r.below(n + 1) : r.below(n / 5 + 1)) : 0;
    { auto a = partial_argsort(v.begin(), v.begin() + m, v.end()); VH_REQUIRE(perm(a) && sorted(a, m, std::less<T>{}), "partial-argsort", m, " of ", what()); }
    { auto a = partial_argsort(v.begin(), v.begin() + m, v.end(), std::greater<T>{}); VH_REQUIRE(perm(a) && sorted(a, m, std::greater<T>{}), "partial-argsort-greater", m, " of ", what()); }
    { auto a = partial_argsort(v.rbegin(), v.rbegin() + m, v.rend()); VH_REQUIRE(perm(a) && sorted(a, m, std::greater<T>{}), "partial-argsort-reverse", m, " of ", what()); }
    { V s = v; std::sort(s.begin(), s.end()); for (int t = 0; t < 8; t++) { const T x = s.size() && r.chance(.6) ? r.pick(s) + T(r.range(-1, 1)) : T(r.range(-span - 2, span + 2)); const size_t p = size_t(detail::lower_bound(s.begin(), s.end(), x) - s.begin()); VH_REQUIRE(p == size_t(std::lower_bound(s.begin(), s.end(), x) - s.begin()), "lower-bound", "value ", x, " position ", p, " in ", what());
      const size_t q = size_t(detail::lower_bound(s.rbegin(), s.rend(), x, std::greater<T>{}) - s.rbegin()); VH_REQUIRE(q == size_t(std::lower_bound(s.rbegin(), s.rend(), x, std::greater<T>{}) - s.rbegin()), "lower-bound-reverse", "value ", x, " in ", what()); } }
    {   // the first of equal extremes
        auto neg = [](T x) { return T(-x); };
        VH_REQUIRE(detail::max_element(v.begin(), v.end()) == std::max_element(v.begin(), v.end()) && detail::min_element(v.begin(), v.end()) == std::min_element(v.begin(), v.end()), "extreme-element", what());
        VH_REQUIRE(detail::max_element(v.begin(), v.end(), neg) == std::min_element(v.begin(), v.end()) && detail::min_element(v.begin(), v.end(), neg) == std::max_element(v.begin(), v.end()), "extreme-element-transformed", what());
        if (n)
        {
            VH_REQUIRE(argmax(v.begin(), v.end()) == size_t(std::max_element(v.begin(), v.end()) - v.begin()) && argmin(v.begin(), v.end()) == size_t(std::min_element(v.begin(), v.end()) - v.begin()), "argmax-argmin", what());
            VH_REQUIRE(v[argmax(v.rbegin(), v.rend())] == *std::max_element(v.begin(), v.end()) && v[argmin(v.rbegin(), v.rend())] == *std::min_element(v.begin(), v.end()), "argmax-argmin-reverse", what());
            const size_t a = r.below(n), b = a + 1 + r.below(n - a); VH_REQUIRE(argmax(v.begin() + a, v.begin() + b, neg) == size_t(std::min_element(v.begin() + a, v.begin() + b) - (v.begin() + a)) && argmin(v.begin() + a, v.begin() + b, neg) == size_t(std::max_element(v.begin() + a, v.begin() + b) - (v.begin() + a)), "argmax-subrange", what());
            VH_REQUIRE(detail::max(v[a], v[b - 1], v[0]) == std::max({ v[a], v[b - 1], v[0] }) && detail::min(v[a], v[b - 1], v[0], v[n - 1]) == std::min({ v[a], v[b - 1], v[0], v[n - 1] }) && detail::max(v[a], v[0]) == std::max(v[a], v[0]) && detail::min(v[a], v[0]) == std::min(v[a], v[0]), "variadic-max-min", what());
        }
    }
    const T x = n && r.chance(.7) ? r.pick(v) : T(r.range(-span - 1, span + 1)); const auto pos = size_t(std::find(v.begin(), v.end(), x) - v.begin()); const bool has = pos < n; auto pred = [&](const T& y) { return y <= x; };
    VH_REQUIRE(detail::contains(v.begin(), v.end(), x) == has && index_of(v, x) == (has ? std::optional<size_t>(pos) : std::nullopt), "contains-index-of", x, " in ", what());
    { std::vector<T> want; std::vector<size_t> idx; for (size_t i = 0; i < n; i++) if (pred(v[i])) { want.push_back(v[i]); idx.push_back(i); }
      auto fa = find_all(v.begin(), v.end(), pred); auto fi = find_indices(v, pred); VH_REQUIRE(std::equal(fa.begin(), fa.end(), want.begin(), want.end()), "find-all", what()); VH_REQUIRE(std::equal(fi.begin(), fi.end(), idx.begin(), idx.end()), "find-indices", what());
      VH_REQUIRE(find_index(v, pred) == (idx.empty() ? std::nullopt : std::optional<size_t>(idx[0])), "find-index", what()); }
    { V w; for (size_t i = 0; i < n; i++) w.push_back(T(r.range(-span, span))); V lo = v, hi = v; elementwise_min(lo, w, inplace_t{}); elementwise_max(hi, w, inplace_t{}); for (size_t i = 0; i < n; i++) VH_REQUIRE(lo[i] == std::min(v[i], w[i]) && hi[i] == std::max(v[i], w[i]), "elementwise", i, " of ", what()); }
    { V w = v; const bool erased = erase_first_stable(w, x); V want = v; if (has) want.erase(want.begin() + pos); VH_REQUIRE(erased == has && w == want, "erase-first-stable", x, " from ", what()); }
    { std::vector<size_t> idx; if (n) for (size_t i = r.below(8); i > 0; i--) idx.push_back(r.below(n)); auto s = detail::select(v, idx); VH_REQUIRE(s.size() == idx.size(), "select-size", what()); for (size_t i = 0; i < idx.size(); i++) VH_REQUIRE(s[i] == v[idx[i]], "select-values", what());
      std::vector<std::string> strs, copy; for (auto y : v) strs.push_back("a long enough string " + std::to_string(y)); copy = strs; auto s1 = detail::select(strs, idx); VH_REQUIRE(strs == copy, "select-changed-lvalue", what()); for (size_t i = 0; i < idx.size(); i++) VH_REQUIRE(s1[i] == copy[idx[i]], "select-strings", what());
      std::sort(idx.begin(), idx.end()); idx.erase(std::unique(idx.begin(), idx.end()), idx.end()); auto s2 = detail::select(std::move(strs), idx); for (size_t i = 0; i < idx.size(); i++) VH_REQUIRE(s2[i] == copy[idx[i]], "select-moved-strings", what()); }
    { V w = v; erase_duplicates(w); std::set<T> s(v.begin(), v.end()); VH_REQUIRE(w.size() == s.size() && std::equal(w.begin(), w.end(), s.begin()), "erase-duplicates", what()); }
    { V w = v; partial_shuffle(w.begin(), w.begin() + m, w.end(), r); V a = w, b = v; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); VH_REQUIRE(a == b, "partial-shuffle-permutation", what()); }
    VH_REQUIRE(v == orig, "input-changed", what());
    cs.nontrivial = n > 2; for (size_t i = 0; i < std::min<size_t>(n, 8); i++) cs.sig(double(v[i])); cs.sig(uint64_t(n)); vh::stat("sequences"); cs.sample_lazy("", what);
}
/* partial_shuffle: every ordered choice of the first elements equally likely. */
static void shuffleCase(Rng& r, Case& cs)
{
    const size_t n = 2 + r.below(3), m = 1 + r.below(n); std::map<std::vector<int>, uint64_t> seen; const uint64_t N = 24000; size_t cells = 1; for (size_t i = 0; i < m; i++) cells *= n - i;
    for (uint64_t t = 0; t < N; t++) { std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); partial_shuffle(v.begin(), v.begin() + m, v.end(), r); seen[{ v.begin(), v.begin() + m }]++; }
    VH_REQUIRE(seen.size() == cells, "partial-shuffle-missing", seen.size(), " of ", cells, " outcomes");
    double chi = 0; for (auto& [k, c] : seen) { const double e = double(N) / cells; chi += (c - e) * (c - e) / e; } const double df = double(cells - 1);
    VH_REQUIRE(df < 1 || chi < df + 8 * std::sqrt(2 * df) + 40, "partial-shuffle-biased", "chi-square ", chi, " with ", df, " degrees of freedom"); cs.nontrivial = cells > 1; cs.sig(uint64_t(n * 10 + m)); vh::stat("shuffles", N);
}

// ------------------------------------------------------------------------------------------ functional
struct Counted { static inline int live = 0; int v; Counted(int x) : v(x) { live++; } Counted(const Counted& o) : v(o.v) { live++; } Counted(Counted&& o) noexcept : v(o.v) { o.v = -1; live++; } ~Counted() { live--; } int operator()(int x) { return v += x; } };
static int freeFn(int a) { return a * 3; }
struct Member { int f = 4; int times(int k) const { return f * k; } };
static void functionalCase(Rng& r, Case& cs)
{
    const int live0 = Counted::live; const int a = int(r.range(-50, 50)), b = int(r.range(1, 50)); const double d = r.real(-3, 3);
    VH_REQUIRE(multiply_by(b)(a) == a * b && divide_by(b)(a) == a / b && detail::add(b)(a) == a + b && subtract(b)(a) == a - b && multiply_add(b, 7)(a) == b * a + 7 && divide_by(2.0)(d) == d / 2 && multiply_add(2.0, 1.0)(d) == 2.0 * d + 1.0, "arithmetic-function-objects", a, " ", b);
    VH_REQUIRE(detail::equal_to(b)(a) == (a == b) && detail::not_equal_to(b)(a) == (a != b) && greater_than(b)(a) == (a > b) && greater_eq_than(b)(a) == (a >= b) && less_than(b)(a) == (a < b) && less_eq_than(b)(a) == (a <= b), "comparison-function-objects", a, " ", b);
    { const int lo = std::min(a, b), hi = std::max(a, b), x = int(r.range(-60, 60)); VH_REQUIRE(between(lo, hi)(x) == (lo <= x && x <= hi) && between(lo, hi)(lo) && between(lo, hi)(hi), "between", lo, " ", x, " ", hi); }
    std::vector<int> v(r.below(10)); for (auto& x : v) x = int(r.range(-9, 9)); const auto orig = v;
    { int k = 0; auto m = detail::map(v, [&](int x) { k++; return x * 0.5; }); VH_REQUIRE(m.size() == v.size() && k == int(v.size()), "map-size", v.size()); for (size_t i = 0; i < v.size(); i++) VH_REQUIRE(m[i] == v[i] * 0.5, "map-values", i);
      std::vector<std::string> s; for (int x : v) s.push_back(std::to_string(x)); auto ms = detail::map(s, [](const std::string& x) { return x + "!"; }); for (size_t i = 0; i < s.size(); i++) VH_REQUIRE(ms.size() == s.size() && ms[i] == s[i] + "!", "map-strings", i);
      auto ma = detail::map(std::array<int, 3>{ a, b, 5 }, [](int x) { return long(x) + 1; }); VH_REQUIRE(ma[0] == a + 1 && ma[1] == b + 1 && ma[2] == 6, "map-array", a); VH_REQUIRE(v == orig, "map-changed-input", ""); 
      VH_REQUIRE(is_size(v.size())(v) && !is_size(v.size() + 1)(v), "is-size", v.size()); if (!v.empty()) { size_t i = r.below(v.size()); VH_REQUIRE(element_at(i)(v) == v[i], "element-at", i); } }
    VH_REQUIRE(Fn<&freeFn>(a) == a * 3 && Fn<&Member::times>(Member{}, b) == 4 * b, "Fn", a);
    {   // function_ref: refers, does not own
        function_ref<int(int)> f; VH_REQUIRE(!f && !function_ref<int(int)>(nullptr), "function-ref-empty", ""); Counted c(a); f = c; VH_REQUIRE(bool(f) && f(b) == a + b && c.v == a + b, "function-ref-calls-referenced", a); auto g = f; VH_REQUIRE(g(1) == a + b + 1 && c.v == a + b + 1, "function-ref-copy", a);
        auto lam = [&](int x) { return x - a; }; function_ref<int(int)> h(lam); VH_REQUIRE(h(b) == b - a, "function-ref-lambda", a); h = f; VH_REQUIRE(h(1) == a + b + 2, "function-ref-reassigned", a);
        auto mv = [](std::unique_ptr<int> p) { return *p; }; function_ref<int(std::unique_ptr<int>)> mo(mv); VH_REQUIRE(mo(std::make_unique<int>(b)) == b, "function-ref-move-argument", b); int target = 0; auto byref = [](int& x) { x = 17; }; function_ref<void(int&)> rf(byref); rf(target); VH_REQUIRE(target == 17, "function-ref-reference-argument", target);
        auto thr = [](int) -> int { throw std::runtime_error("x"); }; function_ref<int(int)> tf(thr); bool threw = false; try { tf(1); } catch (const std::runtime_error&) { threw = true; } VH_REQUIRE(threw, "function-ref-exception", "");
        VH_REQUIRE(Counted::live == live0 + 1, "function-ref-owns", "");
    }
    {   // move_only_function: owns exactly one callable
        using M = move_only_function<int(int)>; M e, n(nullptr); VH_REQUIRE(!e && !n, "function-empty", ""); M f(Counted{ a }); VH_REQUIRE(bool(f) && f(b) == a + b && f(1) == a + b + 1, "function-call-state", a); VH_REQUIRE(Counted::live == live0 + 1, "function-lifetime", Counted::live - live0);
        M g(std::move(f)); VH_REQUIRE(!f && g(1) == a + b + 2 && Counted::live == live0 + 1, "function-move", a); e = std::move(g); VH_REQUIRE(!g && e(0) == a + b + 2, "function-move-assign", a); e = Counted{ 5 }; VH_REQUIRE(e(1) == 6 && Counted::live == live0 + 1, "function-reassign", Counted::live - live0);
        M s([p = std::make_unique<int>(b)](int x) { return *p + x; }); s.swap(e); VH_REQUIRE(e(1) == b + 1 && s(1) == 7, "function-swap", b); auto args = [](std::unique_ptr<int> p, int& o) { o = *p; return 1; }; move_only_function<int(std::unique_ptr<int>, int&)> m2(args); int o = 0; m2(std::make_unique<int>(b), o); VH_REQUIRE(o == b, "function-arguments", o);
        M t([](int x) -> int { if (x) throw x; return 9; }); int caught = 0; try { t(b); } catch (int x) { caught = x; } VH_REQUIRE(caught == b && t(0) == 9, "function-exception", caught); std::vector<M> many; for (int i = 0; i < 20; i++) many.push_back([i](int x) { return i * x; }); for (int i = 0; i < 20; i++) VH_REQUIRE(many[i](b) == i * b, "function-container", i); s = M(nullptr); VH_REQUIRE(!s, "function-reset", "");
    }
    VH_REQUIRE(Counted::live == live0, "function-leak", Counted::live - live0);
    {   // scope guards
        int n = 0; { scope_exit g{ [&] { n++; } }; VH_REQUIRE(n == 0, "scope-exit-early", n); } VH_REQUIRE(n == 1, "scope-exit-count", n); { scope_exit g{ [&] { n++; } }; g.release(); } VH_REQUIRE(n == 1, "scope-exit-released", n); try { scope_exit g{ [&] { n++; } }; throw 1; } catch (int) {} VH_REQUIRE(n == 2, "scope-exit-exception", n);
        std::vector<int> x = v; std::string s = "some string that is long enough to be on the heap"; const auto s0 = s; double y = d; try { restore_on_exit g{ x, s, y }; VH_REQUIRE(x == v && s == s0, "restore-changed-early", ""); x.push_back(1); s = "other"; y = 99; if (r.chance(.5)) throw 1; } catch (int) {} VH_REQUIRE(x == v && s == s0 && y == d, "restore-on-exit", "");
    }
    { Indestructible<std::vector<int>>* p = new Indestructible<std::vector<int>>(v); VH_REQUIRE(p->get() == v && (*p)->size() == v.size() && **p == v, "indestructible", ""); std::vector<int> take = std::move(p->get()); { int before = Counted::live; alignas(Indestructible<Counted>) char buf[sizeof(Indestructible<Counted>)]; auto* q = new (buf) Indestructible<Counted>(3); q->~Indestructible<Counted>(); VH_REQUIRE(Counted::live == before + 1, "indestructible-destroyed", ""); Counted::live--; } delete p; }
    VH_REQUIRE(type_id<int>() == type_id<int>() && type_id<int>() != type_id<long>() && type_id<std::string>() != type_id<double>(), "type-id", "");
    cs.nontrivial = true; cs.sig(uint64_t(a + 100)); cs.sig(uint64_t(b)); cs.sig(d); vh::stat("functional");
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](const std::string& prop)
    {
        if (prop == "P29")
        {
            vh::cases("float-double", 4000, 200000, [](Rng& r, Case& c) { floatLaws<double>(r, c); });
            vh::cases("float-single", 2000, 100000, [](Rng& r, Case& c) { floatLaws<float>(r, c); });
            vh::cases("tolerances", 500, 10000, [](Rng& r, Case& c) { tolNesting(r, c); });
            vh::cases("pareto", 4000, 200000, [](Rng& r, Case& c) { paretoLaws(r, c); });
            vh::cases("vectors", 4000, 200000, [](Rng& r, Case& c) { vectorLaws(r, c); });
            vh::cases("cone-tree", 1500, 40000, [](Rng& r, Case& c) { coneCase(r, c); });
        }
        else
        {
            vh::cases("sequence-double", 4000, 200000, [](Rng& r, Case& c) { sequenceCase<std::vector<double>>(r, c); });
            vh::cases("sequence-small", 4000, 200000, [](Rng& r, Case& c) { sequenceCase<gapp::small_vector<int>>(r, c); });
            vh::cases("shuffle", 40, 400, [](Rng& r, Case& c) { shuffleCase(r, c); });
            vh::cases("functional", 4000, 100000, [](Rng& r, Case& c) { functionalCase(r, c); });
        }
    });
}
