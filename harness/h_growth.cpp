/* Memory in use (P38): the live heap bytes, as counted by the allocator, don't grow with the generations of a run, with the runs of a GA object, with the GA objects
   created and destroyed, with changes of the number of threads, or with threads and scratch uses of the utilities. */
#include "ga_common.hpp"
#include "utility/rcu.hpp"
#include "utility/cache.hpp"
#include "utility/concurrent_queue.hpp"
#include <sanitizer/allocator_interface.h>

static long long live() { return (long long)__sanitizer_get_current_allocated_bytes(); }

template<class En> struct PlainF final : FitnessFunctionBase<typename En::Gene>
{
    using T = typename En::Gene; Cfg c_;
    explicit PlainF(const Cfg& c) : FitnessFunctionBase<T>(c.len, c.dynamic ? FitnessFunctionInfo::Type::Dynamic : FitnessFunctionInfo::Type::Static), c_(c) {}
    FitnessVector invoke(const Chromosome<T>& ch) const override { return pureFitness(ch, c_.nobj, c_.fkind); }
};
/* growth from an early window to the end: how much more than the most that was used early on is in use all the time at the end */
static long long growth(const std::vector<long long>& v)
{
    const size_t n = v.size(); if (n < 8) return 0;
    return *std::min_element(v.end() - long(n / 4), v.end()) - *std::max_element(v.begin() + long(n / 4), v.begin() + long(n / 2));
}
static std::string shape(const std::vector<long long>& v) { std::string s; for (size_t i = 0; i < v.size(); i += std::max<size_t>(1, v.size() / 12)) s += vh::str(" ", v[i]); return s; }
template<class En> static Cfg growthCfg(Rng& r)
{
    Cfg c = randomCfg<En>(r); c.metrics = 0; c.keep_all = false; c.stop = 9; c.pop = std::min<size_t>(c.pop, 23); c.len = std::min<size_t>(c.len, 64); c.initk = 0; if (c.boundk == 4) c.boundk = 0;
    if (c.pc == 0 && c.pm == 0) c.pm = 0.2; return c;
}
template<class En> static long long cacheRoom(const Cfg& c) { return (long long)(c.cache * c.pop) * (long long)(2 * c.len * sizeof(typename En::Gene) + 8 * c.nobj + 400); }
template<class En> static auto solve(typename En::GAT& ga, const Cfg& c, const BoundsVector<typename En::Gene>& b, size_t gens)
{
    if constexpr (En::bounded) return ga.solve(std::make_unique<PlainF<En>>(c), b, gens); else return ga.solve(std::make_unique<PlainF<En>>(c), gens);
}

template<class En> static void generations(Rng& r, Case& cs)
{
    const Cfg c = growthCfg<En>(r); const auto b = makeBounds<En>(c); execution_threads(c.threads); rng::prng.seed(c.seed);
    const size_t gens = vh::thorough() ? 600 : size_t(r.pick({120, 240, 400})); std::vector<long long> use; use.reserve(gens + 1);
    typename En::GAT ga(c.pop); configure<En>(ga, c, b, nullptr);
    ga.on_generation_end([&](const GaInfo&) { use.push_back(live()); });
    solve<En>(ga, c, b, gens);
    // when the cache is not full yet, it may still grow, but not beyond its size; a run keeps scratch memory of the largest size needed so far
    const long long g = growth(use), room = cacheRoom<En>(c) + 700, total = use.back() - use.front() - cacheRoom<En>(c); vh::maximum("growth_in_a_run", double(g) - double(cacheRoom<En>(c)));
    VH_REQUIRE(g <= room, "memory-grows-with-generations", c.text(En::name), ": ", gens, " generations, live bytes", shape(use)); vh::maximum("total_growth_in_a_run", double(total));
    vh::stat("generations_measured", use.size()); if (c.cache) vh::stat("runs_with_cache"); cs.nontrivial = use.size() > 50; cs.sig(c.seed); cs.sig(uint64_t(use.back() - use.front())); cs.sample(vh::str(c.text(En::name), ": live bytes", shape(use)));
}
template<class En> static void runs(Rng& r, Case& cs)
{
    using T = typename En::Gene; Cfg c = growthCfg<En>(r); c.keep_all = r.chance(0.4); c.metrics = int(r.below(3)); const auto b = makeBounds<En>(c); execution_threads(c.threads); rng::prng.seed(c.seed);
    const bool fresh = r.chance(0.5), fail = r.chance(0.4), resize = r.chance(0.3); const size_t n = c.pop * c.len > 400 ? 24 : 60; std::vector<long long> use; use.reserve(n);
    auto own = std::make_unique<typename En::GAT>(c.pop); configure<En>(*own, c, b, nullptr);
    for (size_t k = 0; k < n; k++)
    {
        if (fresh) { own.reset(); own = std::make_unique<typename En::GAT>(c.pop); configure<En>(*own, c, b, nullptr); }
        if (resize) { execution_threads(1 + k % 3); execution_threads(c.threads); }
        if (fail) { own->on_generation_end([](const GaInfo& g) { if (g.generation_cntr() == 1) throw std::runtime_error("stop"); }); try { solve<En>(*own, c, b, 3); } catch (const std::runtime_error&) {} own->on_generation_end(nullptr); }
        { auto s = solve<En>(*own, c, b, 3); vh::stat("runs_measured"); }
        if (fresh) own.reset();
        use.push_back(live());
    }
    // a kept GA keeps its last population, whose size may differ by what the kept solutions need
    const long long g = growth(use), room = (fresh ? 0 : c.keep_all ? (long long)(c.pop * 4 * (c.len * sizeof(T) * 2 + 200)) : 200) + 400; vh::maximum("growth_over_runs", double(g));
    VH_REQUIRE(g <= room, "memory-grows-with-runs", c.text(En::name), ": ", fresh ? "a new GA for every run" : "one GA", fail ? ", with failed runs" : "", resize ? ", with changes of the number of threads" : "", ", live bytes", shape(use));
    if (fail) vh::stat("histories_with_failures"); if (resize) vh::stat("histories_with_resizes"); cs.nontrivial = true; cs.sig(c.seed); cs.sig(uint64_t(use.back())); cs.sample(vh::str(c.text(En::name), fresh ? " new GAs" : " one GA", ": live bytes", shape(use)));
}
static void utilities(Rng& r, Case& cs)
{
    const int k = int(r.below(5)); const size_t n = 40; std::vector<long long> use; use.reserve(n); const char* what = "";
    detail::rcu_obj<std::vector<int>> obj(std::vector<int>(50, 1)); detail::fifo_cache<uint64_t, std::string> cache(1 + r.below(30)); detail::concurrent_queue<std::string> queue; uint64_t key = 0;
    for (size_t i = 0; i < n; i++)
    {
        switch (k)
        {
            case 0: what = "threads drawing random numbers"; for (int t = 0; t < 3; t++) std::thread([] { (void)rng::randomBool(); (void)rng::randomNormal(); (void)rng::sampleUnique(0, 200, 20); }).join(); if (i % 4 == 0) rng::prng.seed(i + 1); break;
            case 1: what = "values published and read by short-lived threads"; for (int t = 0; t < 3; t++) std::thread([&] { obj.lock_shared(); volatile int x = obj.get()[3]; (void)x; obj.unlock_shared(); obj = std::vector<int>(50, t); }).join(); break;
            case 2: what = "insertions into a full cache"; for (int t = 0; t < 60; t++) { cache.insert(key, std::string(60, 'x')); key += 1 + (t % 7 == 0); } break;
            case 3: what = "elements passed through a queue"; for (int t = 0; t < 40; t++) { (void)queue.emplace(std::string(60, 'x')); } for (int t = 0; t < 40; t++) (void)queue.take(); break;
            default: what = "loops on changing numbers of threads"; execution_threads(1 + (i * 7) % 5); { std::atomic<int> s = 0; detail::parallel_for(detail::iota_iterator(size_t(0)), detail::iota_iterator(size_t(40)), [&](size_t j) { s += int(j); }); } execution_threads(3); break;
        }
        use.push_back(live());
    }
    const long long g = growth(use); vh::maximum("growth_in_utilities", double(g));
    VH_REQUIRE(g <= 700, "memory-grows-with-use", what, ": live bytes", shape(use)); vh::stat("utility_histories"); cs.nontrivial = true; cs.sig(uint64_t(k)); cs.sig(uint64_t(use.back())); cs.sig(r.next()); cs.sample(vh::str(what, ": live bytes", shape(use)));
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](const std::string&)
    {
        const uint64_t q = 120, t = 2500;
        vh::cases("generations-binary", q, t, generations<BinE>); vh::cases("generations-integer", q, t, generations<IntE>); vh::cases("generations-real", q, t, generations<RealE>); vh::cases("generations-permutation", q, t, generations<PermE>);
        vh::cases("runs-binary", q, t, runs<BinE>); vh::cases("runs-integer", q, t, runs<IntE>); vh::cases("runs-real", q, t, runs<RealE>); vh::cases("runs-permutation", q, t, runs<PermE>);
        vh::cases("utilities", 100, 1200, utilities);
    });
}
