#include "vh.hpp"
#include <gapp.hpp>
#include <algorithm/nd_sort.hpp>
#include <metrics/pop_stats.hpp>
#include <utility/cone_tree.hpp>
#include <core/population.hpp>
#include <thread>
using vh::Rng; using vh::Case;
#define D(n) void race_##n(Rng&, Case&); void race_one_##n(uint64_t); void race_nested_##n(Rng&, Case&);
D(bin) D(int) D(real) D(perm)
static void one(uint64_t seed) { switch (vh::mix(seed) % 4) { case 0: race_one_bin(seed); break; case 1: race_one_int(seed); break; case 2: race_one_real(seed); break; default: race_one_perm(seed); } }
static void independentCase(Rng& r, Case& cs)
{
    gapp::execution_threads(r.pick({1, 2, 4, 8})); const size_t n = size_t(r.range(2, 4)); std::vector<std::thread> t; std::atomic<size_t> ready{0}, failed{0};
    for (size_t i = 0; i < n; i++) { const uint64_t s = r.next(); cs.sig(s); t.emplace_back([&, s] { ready++; while (ready < n) {} try { one(s); } catch (const vh::CaseFail&) { failed++; } catch (const std::exception& e) { failed++; vh::fail("unexpected-exception", e.what()); } }); }
    for (auto& x : t) x.join(); if (failed) throw vh::CaseFail{}; vh::stat("independent_groups"); cs.nontrivial = true;
}
/* the algorithms with loops of their own on the worker threads, called directly, from one or from several user threads */
static void algorithmsOnce(Rng& r, bool alone)
{
    using namespace gapp; const size_t nobj = size_t(r.range(1, 4)), n = size_t(r.pick({1, 2, 5, 20, 60, 130})); const int64_t levels = r.pick({2, 5, 1000});
    FitnessMatrix m; for (size_t i = 0; i < n; i++) { FitnessVector v(nobj); for (auto& x : v) x = double(r.range(0, levels)); m.append_row(v); }
    const auto ranks = [&](std::vector<algorithm::dtl::FrontElement> f) { std::vector<size_t> v(n); for (auto& e : f) v[e.idx] = e.rank; return v; };
    const auto ens = ranks(algorithm::dtl::efficientNonDominatedSort(m.begin(), m.end()));
    VH_REQUIRE(ranks(algorithm::dtl::dominanceDegreeSort(m.begin(), m.end())) == ens, "sorts-disagree", "dominance degree sort of ", n, " points of ", nobj, " objectives");
    if (alone) VH_REQUIRE(ranks(algorithm::dtl::fastNonDominatedSort(m.begin(), m.end())) == ens, "sorts-disagree", "fast sort of ", n, " points of ", nobj, " objectives");
    VH_REQUIRE(detail::hypervolume(m, FitnessVector(nobj, -1.0)) > 0, "no-volume", n);
    Candidates<RealGene> a, b; for (size_t i = 0; i < n; i++) if (ens[i] == 0) { Candidate<RealGene> c(Chromosome<RealGene>{ double(i) }); c.fitness = FitnessVector(m[i].begin(), m[i].end()); (r.chance(0.5) ? a : b).push_back(c); }
    for (auto& c : b) if (r.chance(0.5)) c.fitness[r.below(nobj)] -= 1.0;
    auto front = [](Candidates<RealGene> s) { Candidates<RealGene> out; for (auto& c : s) { bool dom = false; for (auto& o : s) dom |= math::paretoCompareLess(c.fitness, o.fitness); if (!dom) out.push_back(c); } return out; };
    const auto merged = detail::mergeParetoSets(front(a), front(b)); VH_REQUIRE(a.size() + b.size() == 0 || !merged.empty(), "merge-lost-all", n);
    std::vector<detail::ConeTree::Point> pts(n, detail::ConeTree::Point(nobj + 1)); for (auto& p : pts) for (auto& x : p) x = r.real(-1, 1); const detail::ConeTree tree{ std::span<const detail::ConeTree::Point>(pts) };
    std::vector<double> best(64); std::vector<detail::ConeTree::Point> qs(64, detail::ConeTree::Point(nobj + 1)); for (auto& q : qs) for (auto& x : q) x = r.real(-1, 1);
    detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(qs.size()), [&](size_t i) { best[i] = tree.findBestMatch(qs[i]).prod; });
    for (size_t i = 0; i < qs.size(); i++) { double e = -1e300; for (auto& p : pts) { double s = 0; for (size_t k = 0; k < p.size(); k++) s += p[k] * qs[i][k]; e = std::max(e, s); } VH_REQUIRE(std::abs(e - best[i]) < 1e-9, "wrong-nearest", "query ", i, " of a tree of ", n, " points: ", best[i], " instead of ", e); }
    vh::stat("direct_algorithm_calls", 5 + 64);
}
static void algorithmsCase(Rng& r, Case& cs)
{
    gapp::execution_threads(r.pick({2, 3, 4, 8})); const size_t n = size_t(r.pick({1, 1, 2, 3})); std::vector<std::thread> t; std::atomic<size_t> ready{0}, failed{0}; cs.nontrivial = true;
    for (size_t i = 0; i < n; i++) { const uint64_t s = r.next(); cs.sig(s); t.emplace_back([&, s] { ready++; while (ready < n) {} Rng q(s); try { algorithmsOnce(q, n == 1); } catch (const vh::CaseFail&) { failed++; } catch (const std::exception& e) { failed++; vh::fail("unexpected-exception", e.what()); } }); }
    for (auto& x : t) x.join(); if (failed) throw vh::CaseFail{};
}
int main(int argc, char** argv)
{
    (void)gapp::rng::randomBool();
    return vh::run(argc, argv, [](const std::string&)
    {
        const uint64_t q = 1000, t = 25000;
        vh::cases("binary-run", q, t, [](Rng& r, Case& c) { race_bin(r, c); });
        vh::cases("integer-run", q, t, [](Rng& r, Case& c) { race_int(r, c); });
        vh::cases("real-run", q, t, [](Rng& r, Case& c) { race_real(r, c); });
        vh::cases("perm-run", q, t, [](Rng& r, Case& c) { race_perm(r, c); });
        vh::cases("independent", q, t, [](Rng& r, Case& c) { independentCase(r, c); });
        vh::cases("algorithms", q, t, [](Rng& r, Case& c) { algorithmsCase(r, c); });
        vh::cases("nested", q / 4, t / 4, [](Rng& r, Case& c) { switch (r.below(4)) { case 0: race_nested_bin(r, c); break; case 1: race_nested_int(r, c); break; case 2: race_nested_real(r, c); break; default: race_nested_perm(r, c); } });
    });
}
