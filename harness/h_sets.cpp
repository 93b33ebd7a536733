/* Non-dominated sorting, Pareto sets, reference lines, hypervolume (P15, P16, P25). */
#include "ga_common.hpp"
#include "stats.hpp"
#include "hv.hpp"
#include <algorithm/nd_sort.hpp>
#include <algorithm/reference_lines.hpp>
#include <metrics/pop_stats.hpp>
#include <core/population.hpp>
#include <optional>

static FitnessMatrix toMat(const Rows& r) { FitnessMatrix m; for (auto& x : r) m.append_row(x); return m; }
static Rows toRows(const FitnessMatrix& m) { Rows r; for (size_t i = 0; i < m.size(); i++) r.emplace_back(m[i].begin(), m[i].end()); return r; }
static bool dom(const Row& a, const Row& b) { bool s = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] < b[i]) return false; if (a[i] > b[i]) s = true; } return s; }
static std::string rowsText(const Rows& r) { std::string s; for (size_t i = 0; i < r.size() && i < 40; i++) s += vh::vec(r[i]) + " "; return s + (r.size() > 40 ? "..." : ""); }
static std::vector<size_t> peel(const Rows& f)
{
    // longest chain of dominating points
    std::vector<size_t> rank(f.size(), SIZE_MAX); size_t left = f.size();
    for (size_t r = 0; left; r++)
    {
        std::vector<size_t> now;
        for (size_t i = 0; i < f.size(); i++) if (rank[i] == SIZE_MAX) { bool d = false; for (size_t j = 0; j < f.size() && !d; j++) d = rank[j] == SIZE_MAX && dom(f[j], f[i]); if (!d) now.push_back(i); }
        for (size_t i : now) rank[i] = r;
        left -= now.size();
    }
    return rank;
}
static Rows genPoints(Rng& r, size_t n, size_t m, bool exact_tol)
{
    Rows f; const int kind = int(r.below(exact_tol ? 11 : 7));
    for (size_t i = 0; i < n; i++)
    {
        Row v(m);
        switch (kind)
        {
            case 0: for (auto& x : v) x = r.unit(); break;
            case 1: for (auto& x : v) x = double(r.below(3)); break;
            case 2: for (auto& x : v) x = double(r.below(10)); break;
            case 3: { double s = 0; for (auto& x : v) { x = r.unit(); s += x; } for (auto& x : v) x /= s; } break;
            case 4: for (auto& x : v) x = double(i % 7); break;                                     // totally ordered, with duplicates
            case 5: for (size_t k = 0; k < m; k++) v[k] = (k % 2 ? -1.0 : 1.0) * double(i % 11); break;   // mutually non-dominated for m > 1
            case 6: { double b = double(r.below(6)); for (auto& x : v) x = b + double(r.below(2)); } break;
            case 7: for (auto& x : v) x = (r.chance(0.5) ? 1 : -1) * std::pow(10.0, r.real(-300, 300)); break;
            case 8: for (auto& x : v) x = 1.0 + double(r.below(5)) * 0x1p-52; break;                 // neighbouring values
            case 9: for (auto& x : v) x = r.chance(0.2) ? (r.chance(0.5) ? math::inf<double> : -math::inf<double>) : double(r.below(3)); break;
            default: for (auto& x : v) x = r.chance(0.5) ? 0.0 : (r.chance(0.5) ? -0.0 : double(r.range(-1, 1)) * 5e-324); break;
        }
        if (i && r.chance(0.1)) v = f[r.below(i)];
        f.push_back(v);
    }
    return f;
}
/* values that differ by much less than the tolerance are equal: noise around levels that differ by much more */
static Rows withNoise(Rng& r, const Rows& f, double amount) { Rows g = f; for (auto& v : g) for (auto& x : v) x += amount * r.real(-1, 1); return g; }
static Rows levels(Rng& r, size_t n, size_t m) { const int k = r.pick({2, 3, 6}); Rows f(n, Row(m)); for (auto& v : f) for (auto& x : v) x = double(r.range(-k, k)); return f; }
using SortFn = std::vector<algorithm::dtl::FrontElement>(*)(FitnessMatrix::const_iterator, FitnessMatrix::const_iterator);
static void checkFronts(const char* name, const std::vector<algorithm::dtl::FrontElement>& got, const std::vector<size_t>& rank, const Rows& f)
{
    auto desc = [&] { std::string s; for (auto& e : got) s += vh::str("(", e.idx, ",", e.rank, ")"); return vh::str(name, " of ", rowsText(f), ": ", s); };
    VH_REQUIRE(got.size() == f.size(), "wrong-length", desc());
    std::vector<char> seen(f.size(), 0);
    for (size_t i = 0; i < got.size(); i++)
    {
        VH_REQUIRE(got[i].idx < f.size() && !seen[got[i].idx], "index-repeated", desc()); seen[got[i].idx] = 1;
        VH_REQUIRE(got[i].rank == rank[got[i].idx], "wrong-front", desc(), ": point ", got[i].idx, " is in front ", rank[got[i].idx]);
        VH_REQUIRE(i == 0 || got[i - 1].rank <= got[i].rank, "not-ordered", desc());
    }
}
static void sortCase(Rng& rg, Case& cs)
{
    std::optional<math::ScopedTolerances> tol; const bool exact = rg.chance(0.6); if (exact) tol.emplace(0.0, 0.0);
    execution_threads(rg.pick({1, 1, 2, 4, 8}));
    const size_t n = rg.chance(0.05) ? 100 + rg.below(200) : 1 + rg.below(40), m = size_t(rg.pick({1, 2, 2, 3, 4, 6, 9}));
    const bool noisy = !exact && rg.chance(0.5); const double t = noisy ? rg.pick({1e-2, 1e-5, 1e-8}) : 0; if (noisy) { if (rg.chance(0.5)) tol.emplace(t, 0.0); else tol.emplace(t, t); }
    const Rows all = noisy ? levels(rg, n + 4, m) : genPoints(rg, n + 4, m, exact);
    const size_t off = rg.below(3); const FitnessMatrix whole = toMat(noisy ? withNoise(rg, all, t / 4) : all); if (noisy) vh::stat("sets_with_near_equal_values");
    const Rows f(all.begin() + off, all.begin() + off + n);
    const auto first = whole.begin() + off, last = first + n;
    const auto rank = peel(f);
    checkFronts("fast non-dominated sort", algorithm::dtl::fastNonDominatedSort(first, last), rank, f);
    checkFronts("dominance degree sort", algorithm::dtl::dominanceDegreeSort(first, last), rank, f);
    checkFronts("efficient non-dominated sort", algorithm::dtl::efficientNonDominatedSort(first, last), rank, f);
    {
        auto pf = algorithm::dtl::nonDominatedSort(first, last);
        std::vector<algorithm::dtl::FrontElement> v(pf.begin(), pf.end()); checkFronts("non-dominated sort", v, rank, f);
        VH_REQUIRE(pf.ranks() == rank, "ranks", rowsText(f), ": ", vh::vec(pf.ranks()));
        size_t at = 0, r = 0;
        for (auto& fr : pf.fronts()) { VH_REQUIRE(!fr.empty(), "empty-front", rowsText(f)); for (auto& e : fr) { VH_REQUIRE(e == v[at] && e.rank == r, "fronts", rowsText(f), " front ", r); at++; } r++; }
        VH_REQUIRE(at == n && r == *std::max_element(rank.begin(), rank.end()) + 1, "fronts", rowsText(f), ": ", r, " fronts with ", at, " points");
        for (int k = 0; k < 4; k++)
        {
            const size_t size = 1 + rg.below(n); auto part = pf.partialFront(size);
            // the front that is only partly among the first `size` points, or nothing
            std::set<size_t> want, got;
            if (size < n && v[size - 1].rank == v[size].rank) for (size_t i = 0; i < n; i++) if (rank[i] == v[size].rank) want.insert(i);
            for (auto& e : part) got.insert(e.idx);
            VH_REQUIRE(want == got && part.size() == want.size(), "partial-front", rowsText(f), " size ", size);
            if (!want.empty()) vh::stat("partial_fronts");
        }
        const size_t cut = 1 + rg.below(n); pf.resize(cut); VH_REQUIRE(pf.size() == cut && std::equal(pf.begin(), pf.end(), v.begin()), "resize", rowsText(f));
        auto again = algorithm::dtl::nonDominatedSort(toMat(noisy ? withNoise(rg, f, t / 4) : f)); VH_REQUIRE(again.ranks() == rank, "ranks", rowsText(f));
    }
    cs.nontrivial = *std::max_element(rank.begin(), rank.end()) > 0; for (size_t r : rank) cs.sig(uint64_t(r)); vh::stat("points_sorted", n); vh::maximum("fronts", double(*std::max_element(rank.begin(), rank.end()) + 1));
}
static void frontCase(Rng& rg, Case& cs)
{
    std::optional<math::ScopedTolerances> tol; const bool exact = rg.chance(0.6); if (exact) tol.emplace(0.0, 0.0);
    execution_threads(rg.pick({1, 1, 2, 4, 8}));
    const size_t n = rg.chance(0.05) ? 100 + rg.below(200) : 1 + rg.below(40), m = size_t(rg.pick({1, 2, 2, 3, 4, 6, 9}));
    const bool noisy = !exact && rg.chance(0.3); const double t = noisy ? rg.pick({1e-2, 1e-5, 1e-8}) : 0; if (noisy) { if (rg.chance(0.5)) tol.emplace(t, 0.0); else tol.emplace(t, t); }
    const Rows exactf = noisy ? levels(rg, n, m) : genPoints(rg, n, m, exact), f = noisy ? withNoise(rg, exactf, t / 4) : exactf; const FitnessMatrix fm = toMat(f); if (noisy) vh::stat("sets_with_near_equal_values");
    std::set<size_t> want; for (size_t i = 0; i < n; i++) { bool d = false; for (size_t j = 0; j < n && !d; j++) d = dom(exactf[j], exactf[i]); if (!d) want.insert(i); }
    auto check = [&](const char* name, const auto& got) { std::set<size_t> s(got.begin(), got.end()); VH_REQUIRE(s == want && got.size() == want.size(), "wrong-pareto-front", name, " of ", rowsText(f), ": ", vh::vec(std::vector<size_t>(got.begin(), got.end())), " instead of ", vh::vec(std::vector<size_t>(want.begin(), want.end()))); vh::stat("fronts_checked"); };
    if (m == 1) check("findParetoFront1D", detail::findParetoFront1D(fm));
    else check("findParetoFrontKung", detail::findParetoFrontKung(fm));
    check("findParetoFrontSort", detail::findParetoFrontSort(fm)); check("findParetoFrontBest", detail::findParetoFrontBest(fm)); check("findParetoFront", detail::findParetoFront(fm));
    Population<RealGene> pop; for (size_t i = 0; i < n; i++) { Candidate<RealGene> c(Chromosome<RealGene>{ double(i) }); c.fitness = FitnessVector(f[i].begin(), f[i].end()); c.is_evaluated = true; pop.push_back(c); }
    { std::vector<size_t> got; for (auto& c : detail::findParetoFront(pop)) { got.push_back(size_t(c.chromosome[0])); VH_REQUIRE(std::equal(c.fitness.begin(), c.fitness.end(), f[got.back()].begin()), "wrong-pareto-front", "candidate with another fitness"); } check("findParetoFront(population)", got); }
    { Row nad; for (size_t i : want) { if (nad.empty()) nad = f[i]; for (size_t k = 0; k < m; k++) nad[k] = std::min(nad[k], f[i][k]); } auto g = detail::findNadirPoint(fm); VH_REQUIRE(std::equal(g.begin(), g.end(), nad.begin(), nad.end()), "nadir-point", rowsText(f), ": ", vh::vec(Row(g.begin(), g.end()))); Rows fr; for (size_t i : want) fr.push_back(f[i]); auto h = detail::findFrontNadirPoint(toMat(fr)); VH_REQUIRE(std::equal(h.begin(), h.end(), nad.begin(), nad.end()), "nadir-point", rowsText(fr)); }
    // merging the Pareto sets of two parts gives the Pareto set of the whole
    Candidates<RealGene> a, b; const double q = rg.pick({0.0, 0.1, 0.5, 0.9, 1.0});
    for (auto& c : pop) (rg.unit() < q ? a : b).push_back(c);
    a = detail::findParetoFront(a); b = detail::findParetoFront(b);
    { std::vector<size_t> got; for (auto& c : detail::mergeParetoSets(a, b)) { got.push_back(size_t(c.chromosome[0])); VH_REQUIRE(got.back() < n && std::equal(c.fitness.begin(), c.fitness.end(), f[got.back()].begin(), f[got.back()].end()), "wrong-pareto-front", "merged candidate with another fitness"); } check("mergeParetoSets", got); }
    VH_REQUIRE(detail::findParetoFront(FitnessMatrix{}).empty() && detail::findParetoFront(Population<RealGene>{}).empty(), "empty-set", "front of nothing");
    cs.nontrivial = want.size() < n; for (size_t i : want) cs.sig(uint64_t(i)); cs.sig(uint64_t(n));
}

/* ---------- P16 ---------- */
struct NamedGen { const char* name; algorithm::reflines::RefLineGenerator f; };
static const NamedGen gens[] = { { "mirror", algorithm::reflines::quasirandomSimplexPointsMirror }, { "sort", algorithm::reflines::quasirandomSimplexPointsSort }, { "root", algorithm::reflines::quasirandomSimplexPointsRoot }, { "log", algorithm::reflines::quasirandomSimplexPointsLog } };
static void checkSimplex(const std::string& what, const Rows& p, size_t dim, size_t n)
{
    VH_REQUIRE(p.size() == n, "point-count", what, ": ", p.size(), " points instead of ", n);
    std::set<Row> distinct;
    for (auto& x : p)
    {
        VH_REQUIRE(x.size() == dim, "dimension", what, ": ", x.size());
        double s = 0; for (double v : x) { VH_REQUIRE(v >= 0 && v <= 1, "coordinate-outside", what, ": ", vh::vec(x)); s += v; }
        VH_REQUIRE(std::abs(s - 1) < 1e-12, "sum-not-one", what, ": ", vh::vec(x), " sums to ", s);
        distinct.insert(x);
    }
    VH_REQUIRE(dim == 1 || distinct.size() == n, "repeated-points", what, ": ", distinct.size(), " distinct points of ", n);
    vh::stat("reference_points", n);
}
static void refCase(Rng& rg, Case& cs)
{
    const auto& g = gens[rg.below(4)]; const size_t dim = 1 + rg.below(12), n = rg.chance(0.1) ? 500 + rg.below(1500) : rg.below(200);
    const std::string what = vh::str(g.name, "(", dim, ",", n, ")"); cs.sig(uint64_t(dim * 100000 + n)); cs.sig(uint64_t(g.name[0])); cs.sig(uint64_t(g.name[1]));
    const Rows p = toRows(g.f(dim, n)); checkSimplex(what, p, dim, n);
    VH_REQUIRE(toRows(g.f(dim, n)) == p, "not-repeatable", what);
    if (dim > 1 && n >= 500)
    {
        // the marginals of the uniform distribution on the simplex are Beta(1, dim - 1)
        double worst = 0;
        for (size_t o = 0; o < dim; o++)
        {
            std::vector<double> x; for (auto& r : p) x.push_back(r[o]);
            double ks = vh::ksScore(x, [&](double v) { return 1 - std::pow(1 - std::clamp(v, 0.0, 1.0), double(dim - 1)); }) / std::sqrt(double(n)); worst = std::max(worst, ks);
        }
        vh::maximum(vh::str("marginal_distance_", g.name), worst);
        VH_REQUIRE(worst < (std::string(g.name).find("mirror") != std::string::npos ? 0.3 : 0.15), "not-spread", what, ": a coordinate's distribution is off by ", worst);
        vh::stat("spread_checks");
    }
    cs.nontrivial = n > 1 && dim > 1;
}
static void subsetCase(Rng& rg, Case& cs)
{
    const auto& g = gens[rg.below(4)]; const size_t dim = 1 + rg.below(8), n = rg.below(40), k = 1 + rg.below(12);
    const std::string what = vh::str("pickSparseSubset(", dim, ",", n, ",", g.name, ",", k, ")"); cs.sig(uint64_t(dim * 100000 + n * 100 + k)); cs.sig(uint64_t(g.name[0])); cs.sig(uint64_t(g.name[1]));
    const Rows all = toRows(g.f(dim, n * k)), p = toRows(rg.chance(0.2) && k == 10 ? algorithm::reflines::pickSparseSubset(dim, n, g.f) : algorithm::reflines::pickSparseSubset(dim, n, g.f, k));
    checkSimplex(what, p, dim, n);
    std::multiset<Row> pool(all.begin(), all.end());
    for (auto& x : p) { auto it = pool.find(x); VH_REQUIRE(it != pool.end(), "not-a-candidate", what, ": ", vh::vec(x)); pool.erase(it); }
    auto d2 = [](const Row& a, const Row& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return s; };
    double inner = math::inf<double>, outer = 0;
    for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < i; j++) inner = std::min(inner, d2(p[i], p[j]));
    if (n) for (auto& x : pool) { double d = math::inf<double>; for (auto& y : p) d = std::min(d, d2(x, y)); outer = std::max(outer, d); }
    if (n > 1 && dim > 1) { VH_REQUIRE(inner >= outer * (1 - 1e-9), "not-sparse", what, ": picked points are ", inner, " apart, a left out candidate is ", outer, " away from all of them"); vh::stat("subsets_checked"); cs.nontrivial = k > 1; }
}

/* ---------- P25 ---------- */
static void hvCase(Rng& rg, Case& cs)
{
    std::optional<math::ScopedTolerances> tol; if (rg.chance(0.4)) tol.emplace(0.0, 0.0);
    const int threads = rg.pick({1, 1, 2, 4, 8}); execution_threads(threads);
    const size_t m = size_t(rg.pick({1, 2, 2, 3, 3, 4, 5, 6})); const size_t cap = m <= 2 ? 60 : m == 3 ? 30 : m == 4 ? 16 : 9; const size_t n = rg.below(cap + 1);
    const int kind = int(rg.below(6)); Row ref(m); const double offs = rg.pick({0.0, -5.0, 1000.0});
    for (auto& x : ref) x = offs + double(rg.range(-3, 3));
    Rows p;
    for (size_t i = 0; i < n; i++)
    {
        Row v(m);
        for (size_t o = 0; o < m; o++) switch (kind)
        {
            case 0: v[o] = ref[o] + double(rg.below(4)); break;
            case 1: v[o] = ref[o] + double(rg.below(100)); break;
            case 2: v[o] = ref[o] + rg.unit() * 8; break;
            case 3: v[o] = ref[o] + double(1 + (i + o * 5) % 13); break;
            case 4: v[o] = ref[o] + (rg.chance(0.3) ? 0.0 : double(1 + rg.below(20))); break;
            default: v[o] = ref[o] + double(o == i % m ? 10 + i : 1 + rg.below(3)); break;
        }
        if (kind == 2 && rg.chance(0.3)) { double s = 0; for (size_t o = 0; o < m; o++) s += v[o] - ref[o]; if (s > 0) for (size_t o = 0; o < m; o++) v[o] = ref[o] + (v[o] - ref[o]) / s; }
        if (i && rg.chance(0.15)) v = p[rg.below(i)];
        p.push_back(v);
    }
    const long double want = hvRef(p, ref, m);
    const double tolv = kind == 2 ? 1e-9 : 0; double box = 1; for (size_t o = 0; o < m; o++) { double w = 0; for (auto& x : p) w = std::max(w, x[o] - ref[o]); box *= w; }
    auto near = [&](double a, long double b) { return std::abs(a - b) <= tolv * box + 1e-12 * (long double)box * double(n + 1); };
    auto desc = [&](const char* t, double v) { return vh::str(t, ": hypervolume ", v, " of ", rowsText(p), "from ", vh::vec(ref), " on ", threads, " threads should be ", double(want)); };
    const double got = detail::hypervolume(toMat(p), ref);
    VH_REQUIRE(near(got, want), "wrong-volume", desc("as given", got));
    Rows s = p; rg.shuffle(s); double v = detail::hypervolume(toMat(s), ref); VH_REQUIRE(near(v, want), "order-dependent", desc("shuffled", v));
    for (size_t i = 0; i < n; i++) if (rg.chance(0.3)) s.push_back(p[i]);
    for (size_t i = 0; i < n && i < 5; i++) { Row q = p[i]; for (size_t o = 0; o < m; o++) q[o] = ref[o] + std::floor((q[o] - ref[o]) * rg.unit()); s.push_back(q); }
    for (int i = 0; i < 2; i++) { Row q(m); for (size_t o = 0; o < m; o++) q[o] = ref[o] + double(rg.below(50)); q[rg.below(m)] = ref[rg.below(1) + 0]; size_t z = rg.below(m); q[z] = ref[z]; for (size_t o = 0; o < m; o++) q[o] = std::max(q[o], ref[o]); q[z] = ref[z]; if (n) s.push_back(q); }
    rg.shuffle(s); v = detail::hypervolume(toMat(s), ref);
    { double b2 = 1; for (size_t o = 0; o < m; o++) { double w = 0; for (auto& x : s) w = std::max(w, x[o] - ref[o]); b2 *= w; } VH_REQUIRE(std::abs(v - want) <= tolv * b2 + 1e-12 * b2 * double(s.size() + 1), "dominated-points-count", desc("with duplicates, dominated and boundary points", v), rowsText(s)); }
    execution_threads(1); v = detail::hypervolume(toMat(p), ref); VH_REQUIRE(near(v, want), "thread-dependent", desc("on one thread", v));
    Rows more = p; { Row q(m); for (size_t o = 0; o < m; o++) q[o] = ref[o] + double(rg.below(12)); more.push_back(q); }
    v = detail::hypervolume(toMat(more), ref); VH_REQUIRE(v >= got - tolv * box - 1e-12 * box * double(n + 1), "not-monotone", desc("with one more point", v));
    VH_REQUIRE(near(v, hvRef(more, ref, m)) || box == 0 || std::abs(v - hvRef(more, ref, m)) <= 1e-9 * hvRef(more, ref, m), "wrong-volume", desc("with one more point", v), vh::vec(more.back()));
    vh::stat("volumes_compared", 5); cs.sig(double(want)); cs.sig(uint64_t(n * 10 + m)); cs.nontrivial = want > 0 && n > 1;
}
/* many short parallel computations with known results: no part of the volume is lost whatever the interleaving */
static void hvStress(Rng& rg, Case& cs)
{
    const int threads = rg.pick({2, 4, 8}); execution_threads(size_t(threads));
    const size_t n = size_t(rg.pick({8, 32, 64, 64, 128})), m = size_t(rg.pick({2, 2, 3})); Rows p; double want = 0;
    for (size_t i = 0; i < n; i++) { Row v = { double(i + 1), double(n - i) }; want += double(n - i) * (m == 3 ? 2 : 1); if (m == 3) v.push_back(2); p.push_back(v); }
    rg.shuffle(p); const auto mat = toMat(p); const Row ref(m, 0.0); const int reps = n > 64 ? 100 : 400;
    for (int k = 0; k < reps; k++) { const double got = detail::hypervolume(mat, ref); VH_REQUIRE(got == want, "lost-volume", n, " points of ", m, " objectives on ", threads, " threads: ", got, " instead of ", want, " in repetition ", k); }
    execution_threads(1); vh::stat("parallel_volumes", reps); cs.sig(rg.next()); cs.nontrivial = true;
}
static void areas(const std::string& p)
{
    if (p == "P15") { vh::cases("nd-sort", 6000, 300000, sortCase); vh::cases("pareto-front", 8000, 400000, frontCase); }
    if (p == "P16") { vh::cases("generator", 1500, 40000, refCase); vh::cases("sparse-subset", 800, 20000, subsetCase); }
    if (p == "P25") vh::cases("hypervolume", 6000, 300000, hvCase);
    if (p == "P25") vh::cases("parallel", 60, 2000, hvStress);
}
int main(int argc, char** argv) { return vh::run(argc, argv, areas); }
