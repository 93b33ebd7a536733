/* Complete runs of one encoding under the race detector (P07). The user functions are thread-safe, and add no
 * synchronisation of their own (relaxed atomics only), so that only the library orders its memory accesses. */
#include "ga_common.hpp"
#include <thread>

struct RaceShared
{
    std::atomic<size_t> calls{0}, callbacks{0}, in_flight{0}, peak{0}; std::atomic<bool> running{false}, finished{false};
    std::atomic<uint64_t> observed{0}, bad_order{0}, bad_total{0};
};
inline void jitter(uint64_t h) { for (volatile uint64_t i = 0, n = h % 7 == 0 ? 4000 : h % 200; i < n; i = i + 1) {} if (h % 23 == 0) std::this_thread::yield(); }

template<class En> class RaceFitness final : public FitnessFunctionBase<typename En::Gene>
{
public:
    using T = typename En::Gene;
    RaceFitness(const Cfg& c, RaceShared& s) : FitnessFunctionBase<T>(c.len, c.dynamic ? FitnessFunctionInfo::Type::Dynamic : FitnessFunctionInfo::Type::Static), c_(c), s_(&s) {}
private:
    Cfg c_; RaceShared* s_;
    FitnessVector invoke(const Chromosome<T>& ch) const override
    {
        const auto relaxed = std::memory_order_relaxed;
        const size_t now = s_->in_flight.fetch_add(1, relaxed) + 1; size_t p = s_->peak.load(relaxed); while (now > p && !s_->peak.compare_exchange_weak(p, now, relaxed)) {}
        jitter(chromHash(ch)); s_->calls.fetch_add(1, relaxed); auto f = pureFitness(ch, c_.nobj, c_.fkind); if (c_.dynamic) f[0] += double(rng::randomInt(0, 3)); s_->in_flight.fetch_sub(1, relaxed); return f;
    }
};
/* reads everything the GA offers to operators while it runs */
template<class En> class ReadingMutation final : public mutation::Mutation<typename En::Gene>
{
public:
    using T = typename En::Gene; ReadingMutation(Probability pm, BoundsVector<T> b, RaceShared& s) : mutation::Mutation<T>(pm), b_(std::move(b)), s_(&s) {}
private:
    BoundsVector<T> b_; RaceShared* s_;
    void mutate(const GA<T>& ga, const Candidate<T>&, Chromosome<T>& ch) const override
    {
        size_t x = ga.population_size() + ga.max_gen() + ga.generation_cntr() + ga.num_objectives() + ga.chrom_len() + ga.num_fitness_evals() + ga.population().size() + ga.fitness_matrix().size() + ga.solutions().size();
        x += ga.population()[x % ga.population().size()].fitness.size() + size_t(ga.fitness_matrix()[0][0] > 0) + size_t(double(ga.crossover_rate()) > 0) + size_t(double(ga.mutation_rate()) > 0);
        if constexpr (En::bounded) x += ga.gene_bounds().size();
        jitter(x); userMutate<En>(ch, b_, double(this->mutation_rate()));
    }
};

template<class En> Cfg raceCfg(Rng& r)
{
    Cfg c = randomCfg<En>(r); c.pop = r.pick({2, 5, 8, 16, 17, 40, 64}); c.gens = r.pick({2, 3, 5, 8}); c.threads = r.pick({2, 3, 4, 8}); c.len = r.pick({1, 3, 5, 8, 17});
    if (c.stop == 2) c.stop = 3;
    if (r.chance(0.06)) { c.pop = r.pick({210, 300}); c.gens = 2; c.nobj = r.pick({1, 2, 3}); c.algo = c.nobj == 1 ? 0 : 3; c.keep_all = r.chance(0.5); vh::stat("large_populations"); }   // NSGA-III associates in blocks of 200
    return c;
}
template<class En> void raceSetup(typename En::GAT& ga, const Cfg& c, const BoundsVector<typename En::Gene>& b, RaceShared& s, Rng& r)
{
    configure<En>(ga, c, b, nullptr);
    if (r.chance(0.4)) ga.mutation_method(std::make_unique<ReadingMutation<En>>(c.pm, b, s));
    const FitnessVector ref(c.nobj, -1e7);
    switch (r.below(4)) { case 0: ga.track(metrics::Hypervolume{ ref }, metrics::FitnessMean{}, metrics::NadirPoint{}); break; case 1: ga.track(metrics::AutoHypervolume{}, metrics::FitnessEvaluations{}); break; case 2: ga.track(metrics::FitnessMin{}, metrics::FitnessMax{}, metrics::FitnessStdDev{}); break; default: break; }
    if (r.chance(0.3)) ga.stop_condition(stopping::FitnessEvals(c.stop_n * 3) || stopping::FitnessMeanStall(3, 0.5));
    ga.on_generation_end([&s](const GaInfo& g)
    {
        const size_t n = s.callbacks.fetch_add(1, std::memory_order_relaxed);
        if (g.num_fitness_evals() + 1 != s.calls.load(std::memory_order_relaxed)) s.bad_total++;     // one probe call
        if (g.generation_cntr() != n) s.bad_order++;
        volatile double sum = 0; for (const auto& row : g.fitness_matrix()) sum = sum + row[0];
        s.running.store(true, std::memory_order_release);
    });
}
template<class En> Candidates<typename En::Gene> raceSolve(typename En::GAT& ga, const Cfg& c, const BoundsVector<typename En::Gene>& b, RaceShared& s)
{
    auto f = std::make_unique<RaceFitness<En>>(c, s); auto init = makeInitial<En>(c, b);
    if constexpr (En::bounded) return ga.solve(std::move(f), b, c.gens, std::move(init)); else return ga.solve(std::move(f), c.gens, std::move(init));
}
/* reads the evaluation counter of a running GA */
inline void observe(const GaInfo& ga, RaceShared& s)
{
    while (!s.running.load(std::memory_order_acquire)) { if (s.finished.load(std::memory_order_relaxed)) return; std::this_thread::yield(); }
    size_t last = 0; while (!s.finished.load(std::memory_order_relaxed))
    {
        const size_t n = ga.num_fitness_evals(); if (n < last) s.bad_order++; last = n; s.observed.fetch_add(1, std::memory_order_relaxed); std::this_thread::yield();
    }
}
inline void raceVerdict(const RaceShared& s, const std::string& text)
{
    VH_REQUIRE(s.bad_total == 0, "evaluation-counter-in-callback", text, ": ", s.bad_total.load(), " generation callbacks saw a wrong number of evaluations");
    VH_REQUIRE(s.bad_order == 0, "counter-went-backwards", text);
    VH_REQUIRE(s.in_flight == 0, "evaluation-after-return", text, ": ", s.in_flight.load(), " evaluations still running after solve() returned");
    vh::stat("fitness_calls", s.calls); vh::stat("generations", s.callbacks); vh::stat("counter_reads_while_running", s.observed); vh::maximum("most_concurrent_evaluations", double(s.peak.load()));
    if (s.peak > 1) vh::stat("runs_with_concurrent_evaluations");
}
template<class En> void raceCase(Rng& r, Case& cs)
{
    const Cfg c = raceCfg<En>(r); const auto b = makeBounds<En>(c); RaceShared s; execution_threads(c.threads);
    typename En::GAT ga(c.pop); raceSetup<En>(ga, c, b, s, r);
    if (r.chance(0.3)) { (void)raceSolve<En>(ga, c, b, s); s.calls = 0; s.callbacks = 0; s.running = false; }
    std::thread obs; if (r.chance(0.5)) obs = std::thread([&] { observe(ga, s); });
    Candidates<typename En::Gene> sols; std::exception_ptr ex; try { sols = raceSolve<En>(ga, c, b, s); } catch (...) { ex = std::current_exception(); }
    s.finished.store(true, std::memory_order_relaxed); if (obs.joinable()) obs.join(); if (ex) std::rethrow_exception(ex);
    VH_REQUIRE(!sols.empty(), "no-solutions", c.text(En::name)); raceVerdict(s, c.text(En::name)); vh::stat("runs");
    cs.nontrivial = s.peak > 1; cs.sig(c.seed); cs.sig(uint64_t(s.peak.load())); cs.sample(c.text(En::name) + vh::str(" -> calls=", s.calls.load(), " at most ", s.peak.load(), " at once"));
}
/* one GA on the calling thread, among others */
template<class En> void raceOne(uint64_t seed)
{
    Rng r(seed); Cfg c = raceCfg<En>(r); c.pop = r.pick({2, 5, 8, 16}); c.gens = 3; const auto b = makeBounds<En>(c); RaceShared s; typename En::GAT ga(c.pop); raceSetup<En>(ga, c, b, s, r);
    const auto sols = raceSolve<En>(ga, c, b, s); VH_REQUIRE(!sols.empty(), "no-solutions", c.text(En::name)); raceVerdict(s, c.text(En::name)); vh::stat("independent_runs");
}
/* fitness function that runs a GA of its own on the worker threads */
template<class En> void nestedCase(Rng& r, Case& cs)
{
    using T = typename En::Gene; Cfg c = raceCfg<En>(r); c.pop = r.pick({3, 6, 9}); c.gens = 2; const auto b = makeBounds<En>(c); execution_threads(r.pick({2, 3, 4})); std::atomic<size_t> inner{0}, calls{0};
    typename En::GAT ga(c.pop); configure<En>(ga, c, b, nullptr); ga.repair_function(nullptr);
    auto f = std::make_unique<detail::FitnessLambda<T>>(c.len, [&, nobj = c.nobj](const Chromosome<T>& ch)
    {
        calls.fetch_add(1, std::memory_order_relaxed); BinaryGA small(4); const auto s = small.solve(std::make_unique<detail::FitnessLambda<BinaryGene>>(6, [&](const Chromosome<BinaryGene>& x) { inner.fetch_add(1, std::memory_order_relaxed); jitter(chromHash(x)); return pureFitness(x, 1, F_SMOOTH); }), 2);
        auto v = pureFitness(ch, nobj, F_SMOOTH); v[0] += s[0].fitness[0]; return v;
    });
    Candidates<T> s; if constexpr (En::bounded) s = ga.solve(std::move(f), b, c.gens); else s = ga.solve(std::move(f), c.gens);
    VH_REQUIRE(!s.empty() && inner >= calls * 5 && ga.num_fitness_evals() + 1 == calls, "nested-run", c.text(En::name), ": ", calls.load(), " outer and ", inner.load(), " inner evaluations"); vh::stat("nested_inner_evaluations", inner); cs.nontrivial = true; cs.sig(c.seed); cs.sig(uint64_t(inner.load()));
}
