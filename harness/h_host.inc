/* Complete runs of one encoding with hostile but allowed configurations, values, faults and object histories (P08).
 * The sanitizers and the library's own assertions are the oracle; the rest is a sanity check of what came out. */
#include "ga_common.hpp"
#include <cfloat>

enum HKind { H_INF_MIX, H_NEG_INF, H_POS_INF, H_HUGE, H_TINY, H_CONST, H_SCALES, H_NEAR, H_ZEROS, H_SMOOTH, H_N };
inline bool finiteKind(int k) { return k >= H_HUGE; }
template<class T> FitnessVector hostileFitness(const Chromosome<T>& ch, size_t nobj, int kind)
{
    constexpr double inf = std::numeric_limits<double>::infinity(); FitnessVector f(nobj); uint64_t h = chromHash(ch);
    for (size_t j = 0; j < nobj; j++)
    {
        h = vh::mix(h + j);
        switch (kind)
        {
            case H_INF_MIX: { const double v[] = { inf, -inf, 0.0, -0.0, 1.0, -1.0, 1e308, -1e308 }; f[j] = v[h % 8]; break; }
            case H_NEG_INF: f[j] = -inf; break;
            case H_POS_INF: f[j] = h % 3 ? inf : 1.0; break;
            case H_HUGE:    { const double v[] = { 1e300, -1e300, 1.5e300, 0.0, 1.0, -2e299, 1.0000001e300, -1e300 }; f[j] = v[h % 8]; break; }
            case H_TINY:    f[j] = double(int64_t(h % 9) - 4) * 4.9406564584124654e-324 * (h % 2 ? 1.0 : 1e6); break;
            case H_CONST:   f[j] = -7.25; break;
            case H_SCALES:  f[j] = double(int64_t(h % 2001) - 1000) * std::pow(10.0, double(int(j * 97 % 400) - 200)); break;
            case H_NEAR:    f[j] = 1.0 + double(h % 64) * 0.7e-15; break;
            case H_ZEROS:   f[j] = h % 2 ? 0.0 : -0.0; break;
            default:        f[j] = double(int64_t(h % 2001) - 1000) / 7.0; break;
        }
    }
    return f;
}
/* counts the calls of user code, and throws from one of them */
struct Faults { std::atomic<long> n{0}; long at = -1; void hit() { if (at >= 0 && n.fetch_add(1) == at) throw std::domain_error("injected"); else if (at < 0) n.fetch_add(1, std::memory_order_relaxed); } };

template<class En> class HostFitness final : public FitnessFunctionBase<typename En::Gene>
{
public:
    using T = typename En::Gene;
    HostFitness(const Cfg& c, int hk, Faults& f) : FitnessFunctionBase<T>(c.len, c.dynamic ? FitnessFunctionInfo::Type::Dynamic : FitnessFunctionInfo::Type::Static), nobj_(c.nobj), hk_(hk), f_(&f) {}
private:
    size_t nobj_; int hk_; Faults* f_; std::vector<double> payload_ = std::vector<double>(7, 1.0);
    FitnessVector invoke(const Chromosome<T>& ch) const override { f_->hit(); return hostileFitness(ch, nobj_, hk_); }
};
class FaultAlgorithm final : public algorithm::Algorithm
{
public:
    explicit FaultAlgorithm(Faults& f) : f_(&f) {}
private:
    Faults* f_; std::vector<size_t> state_;
    void initializeImpl(const GaInfo& ga) override { f_->hit(); state_.assign(ga.population_size(), 0); }
    void prepareSelectionsImpl(const GaInfo&, const FitnessMatrix& m) override { f_->hit(); state_.assign(m.size(), 1); }
    size_t selectImpl(const GaInfo&, const FitnessMatrix& m) const override { f_->hit(); return rng::randomIndex(m); }
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& m) override { f_->hit(); return rng::sampleUnique<size_t>(0, m.size(), ga.population_size()); }
};
class FaultStop final : public stopping::StopCondition
{
public:
    explicit FaultStop(Faults& f) : f_(&f) {}
private:
    Faults* f_; void initialize(const GaInfo&) override { f_->hit(); } bool stop_condition(const GaInfo&) override { f_->hit(); return false; }
};
template<class En> Cfg hostCfg(Rng& r)
{
    Cfg c = randomCfg<En>(r);
    c.pop = r.pick({1, 1, 2, 3, 4, 5, 8, 9, 33, 70}); c.len = r.pick({1, 1, 2, 3, 7, 8, 9, 16, 31, 64, 65, 200}); c.gens = r.pick({1, 2, 3, 5, 8}); c.cache = r.pick({0, 1, 2, 7, 50}); c.threads = r.pick({1, 2, 4, 8});
    c.nobj = r.pick({1, 1, 1, 2, 2, 3, 4, 7, 12}); c.algo = c.nobj == 1 ? r.pick({0, 1, 1, 1, 4}) : r.pick({0, 2, 2, 3, 3, 3, 4});
    if (c.len > 60) c.pop = std::min<size_t>(c.pop, 9);
    return c;
}
template<class En> BoundsVector<typename En::Gene> hostBounds(Rng& r, const Cfg& c)
{
    auto b = makeBounds<En>(c);
    if constexpr (std::is_same_v<En, RealE>) if (r.chance(0.5))
    {
        const std::pair<double, double> special[] = { {0.0, 0.0}, {-0.0, 0.0}, {1e300, 1e300}, {-1e300, 1e300}, {0.0, 1e300}, {4.9406564584124654e-324, 4.9406564584124654e-324}, {0.0, 4.9406564584124654e-324}, {-1e-310, 1e-310}, {DBL_MIN, 2 * DBL_MIN}, {1.0, 1.0 + DBL_EPSILON}, {-1e16, -1e16 + 2}, {DBL_MAX, DBL_MAX}, {-DBL_MAX, -DBL_MAX}, {-1.0, 1e-300} };
        for (auto& x : b) if (r.chance(0.6)) { const auto& s = special[r.below(std::size(special))]; x = Bounds<double>(s.first, s.second); }
    }
    return b;
}
template<class En> void hostConfigure(typename En::GAT& ga, const Cfg& c, const BoundsVector<typename En::Gene>& b, int hk, Faults& f, Rng& r, bool faulty)
{
    using T = typename En::Gene;
    configure<En>(ga, c, b, nullptr);
    if (!finiteKind(hk) && (c.algo == 1)) { Cfg d = c; d.sel = r.pick({1, 2, 5}); ga.algorithm(makeAlgorithm(d)); }
    if (r.chance(0.6))
    {
        const FitnessVector ref(c.nobj, -2e307);
        switch (r.below(4)) { case 0: ga.track(metrics::FitnessMin{}, metrics::FitnessMax{}, metrics::FitnessMean{}, metrics::FitnessVariance{}, metrics::FitnessStdDev{}, metrics::NadirPoint{}, metrics::FitnessEvaluations{}); break;
            case 1: if (finiteKind(hk) && c.pop * c.nobj < 40) ga.track(metrics::Hypervolume{ ref }, metrics::AutoHypervolume{}); break; case 2: ga.track(metrics::NadirPoint{}); break; default: ga.track(); }
    }
    constexpr double inf = std::numeric_limits<double>::infinity(), fin = 1e300; 
    switch (r.below(8))
    {
        case 0: ga.stop_condition(stopping::FitnessValue(FitnessVector(c.nobj, r.pick({inf, -inf, fin, 0.0})))); break;
        case 1: ga.stop_condition(stopping::FitnessMeanStall(r.pick({0, 1, 1000000000}), r.pick({0.0, 1.0, fin}))); break;
        case 2: ga.stop_condition(stopping::FitnessBestStall(r.pick({0, 1, 1000000000}), r.pick({0.0, 1e-300, fin})) && !stopping::FitnessEvals(3)); break;
        case 3: ga.stop_condition(stopping::FitnessEvals(size_t(-1)) || stopping::FitnessEvals(7)); break;
        case 4: ga.stop_condition(nullptr); break;
        default: break;
    }
    if (!faulty) return;
    if (r.chance(0.4)) ga.crossover_method([&f](const GA<T>&, const Candidate<T>& x, const Candidate<T>& y) { f.hit(); return userCross<En>(x, y); });
    if (r.chance(0.4)) ga.mutation_method([&f, b, pm = c.pm](const GA<T>&, const Candidate<T>&, Chromosome<T>& ch) { userMutate<En>(ch, b, pm); f.hit(); });
    if (r.chance(0.4)) ga.repair_function([&f, c, b](const GA<T>&, const Chromosome<T>& ch) { f.hit(); return repaired<En>(c, b, ch); });
    if (r.chance(0.4)) ga.on_generation_end([&f](const GaInfo&) { f.hit(); });
    if (r.chance(0.3)) ga.stop_condition(FaultStop(f)); else if (r.chance(0.3)) ga.stop_condition([&f](const GaInfo&) { f.hit(); return false; });
    if (r.chance(0.3)) ga.algorithm(FaultAlgorithm(f));
    else if (c.nobj == 1 && r.chance(0.5)) ga.algorithm(std::make_unique<algorithm::SingleObjective>(std::make_unique<selection::Lambda>([&f](const GaInfo&, const FitnessMatrix& m) { f.hit(); return size_t(rng::randomIndex(m)); }), std::make_unique<replacement::Lambda>([&f](const GaInfo& g, const FitnessMatrix& m) { f.hit(); return rng::sampleUnique<size_t>(0, m.size(), g.population_size()); })));
    else if (c.nobj > 1 && r.chance(0.4)) ga.algorithm(algorithm::NSGA3([&f](size_t dim, size_t n) { f.hit(); return algorithm::reflines::quasirandomSimplexPointsMirror(dim, n); }));
}
template<class En> Candidates<typename En::Gene> hostSolve(typename En::GAT& ga, const Cfg& c, const BoundsVector<typename En::Gene>& b, int hk, Faults& f)
{
    auto fit = std::make_unique<HostFitness<En>>(c, hk, f); Population<typename En::Gene> init;
    if (c.initk >= 3) { Rng q(c.iseed); for (size_t i = 0, n = q.below(c.pop + 4); i < n; i++) { init.emplace_back(randomChrom<En>(q, c, b)); if (q.chance(0.3)) { init.back().fitness = hostileFitness(init.back().chromosome, c.nobj, hk); init.back().is_evaluated = true; } } }
    if constexpr (En::bounded) return ga.solve(std::move(fit), b, c.gens, std::move(init)); else return ga.solve(std::move(fit), c.gens, std::move(init));
}
template<class En> void hostCheck(const typename En::GAT& ga, const Candidates<typename En::Gene>& sols, const Cfg& c, const BoundsVector<typename En::Gene>& b, const std::string& text)
{
    VH_REQUIRE(!sols.empty(), "no-solutions", text); VH_REQUIRE(ga.population().size() == c.pop, "population-size", text, ": ", ga.population().size());
    for (const auto* set : { &sols, &ga.population() }) for (const auto& s : *set)
    {
        VH_REQUIRE(s.is_evaluated && s.fitness.size() == c.nobj, "not-evaluated", text);
        const auto e = invalidChrom<En>(s.chromosome, c, b); VH_REQUIRE(e.empty(), "invalid-chromosome", text, ": ", e);
    }
}
struct HostTolerances
{
    std::optional<math::ScopedTolerances> t; std::string text = "default";
    explicit HostTolerances(Rng& r) { if (r.chance(0.4)) { const double a = r.pick({0.0, 1e-12, 1.0, 1e6, 1e300}), q = r.pick({0.0, 1e-15, 1e-3, 0.5, 1.0}); t.emplace(a, q); text = vh::str(a, ",", q); } }
};

/* one run, then possibly another one after the fault */
template<class En> void hostRun(Rng& r, Case& cs, bool faulty)
{
    const Cfg c = hostCfg<En>(r); const auto b = hostBounds<En>(r, c); const int hk = int(r.below(H_N)); HostTolerances tol(r); Faults f; execution_threads(c.threads); rng::prng.seed(c.seed);
    const std::string text = c.text(En::name) + vh::str(" values=", hk, " tolerances=", tol.text);
    if (!vh::st().only_kind.empty()) std::fprintf(stderr, "%s\n", text.c_str());
    typename En::GAT ga(c.pop); hostConfigure<En>(ga, c, b, hk, f, r, faulty); if (faulty) f.at = long(r.below(r.pick({4, 30, 300})));
    bool thrown = false; Candidates<typename En::Gene> s;
    try { s = hostSolve<En>(ga, c, b, hk, f); } catch (const std::domain_error& e) { if (!faulty) throw; thrown = true; vh::stat("exceptions_delivered"); }
    VH_REQUIRE(!faulty || thrown == (f.n > f.at), "exception-lost", text, ": thrown at call ", f.at, " of ", f.n.load());
    if (thrown) { f.at = -1; f.n = 0; if (r.chance(0.7)) { s = hostSolve<En>(ga, c, b, hk, f); hostCheck<En>(ga, s, c, b, text); vh::stat("runs_after_an_exception"); } }
    else hostCheck<En>(ga, s, c, b, text);
    vh::stat("runs"); vh::stat("user_calls", uint64_t(f.n)); if (!finiteKind(hk)) vh::stat("runs_with_infinite_fitness"); if (c.pop == 1) vh::stat("runs_with_one_candidate"); if (c.len == 1) vh::stat("runs_with_one_gene");
    cs.nontrivial = f.n > 2; cs.sig(c.seed); cs.sig(uint64_t(hk)); for (auto& x : s) cs.sig(chromHash(x.chromosome)); cs.sample(text + vh::str(" -> user calls=", f.n.load(), " thrown=", thrown, " solutions=", s.size()));
}
/* histories of one or more GA objects */
template<class En> void hostHistory(Rng& r, Case& cs)
{
    using T = typename En::Gene; std::vector<std::unique_ptr<typename En::GAT>> gas; gas.push_back(std::make_unique<typename En::GAT>(r.pick({1, 2, 5}))); std::string log; Faults f; std::vector<char> ran(1, 0);
    for (int step = 0, n = int(r.range(3, 12)); step < n; step++)
    {
        const size_t i = r.below(gas.size()); auto& ga = *gas[i]; const int op = int(r.below(14)); log += vh::str(op, " ");
        switch (op)
        {
            case 0: { gas.push_back(std::make_unique<typename En::GAT>(std::move(ga))); ran.push_back(ran[i]); gas[i] = std::make_unique<typename En::GAT>(3); ran[i] = 0; vh::stat("moves"); break; }
            case 1: { typename En::GAT other(4); other = std::move(ga); gas[i] = std::make_unique<typename En::GAT>(2); std::swap(*gas[i], other); vh::stat("moves"); break; }
            case 2: if (gas.size() > 1) { gas.erase(gas.begin() + long(i)); ran.erase(ran.begin() + long(i)); } break;
            case 3: ga.population_size(r.pick({1, 2, 3, 8, 20})); break;
            case 4: ga.algorithm(nullptr); break;
            case 5: ga.stop_condition(nullptr); break;
            case 6: ga.cache_size(r.pick({0, 1, 9})); break;
            case 7: ga.on_generation_end(nullptr); ga.repair_function(nullptr); break;
            case 8: ga.crossover_rate(r.pick({0.0, 1.0})); ga.mutation_rate(r.pick({0.0, 1.0})); break;
            case 9: { volatile size_t x = ga.population().size() + ga.solutions().size() + ga.fitness_matrix().size() + ga.generation_cntr() + ga.num_fitness_evals() + ga.chrom_len() + ga.max_gen(); (void)x; (void)ga.fitness_function(); (void)ga.template get_metric_if<metrics::FitnessMax>(); (void)ga.algorithm(); (void)ga.stop_condition(); (void)ga.crossover_method(); (void)ga.mutation_method(); if constexpr (En::bounded) (void)ga.gene_bounds(); break; }
            case 10: { auto sols = ga.solutions(); auto pop = ga.population(); Population<T> keep(pop); (void)sols; break; }
            default:
            {
                const Cfg c = hostCfg<En>(r); const auto b = hostBounds<En>(r, c); const int hk = int(r.range(H_HUGE, H_N - 1)); f.at = r.chance(0.3) ? long(r.below(60)) : -1; f.n = 0; execution_threads(c.threads);
                hostConfigure<En>(ga, c, b, hk, f, r, true); ran[i] = 1;
                try { const auto s = hostSolve<En>(ga, c, b, hk, f); hostCheck<En>(ga, s, c, b, log + c.text(En::name)); } catch (const std::domain_error&) { vh::stat("exceptions_delivered"); }
                vh::stat("runs"); cs.nontrivial = true; cs.sig(c.seed);
            }
        }
    }
    vh::stat("object_histories"); cs.sample(log);
}
/* operator calls outside a run, on unevaluated, equal and one gene candidates */
template<class En> void hostOperators(Rng& r, Case& cs)
{
    using T = typename En::Gene; Cfg c = hostCfg<En>(r); c.gens = 1; c.stop = 7; c.nobj = 1; c.algo = 0; c.repair = 0; c.metrics = 0; const auto b = hostBounds<En>(r, c); Faults f; typename En::GAT ga(2); HostTolerances tol(r);
    ga.population_size(2); (void)hostSolve<En>(ga, c, b, H_SMOOTH, f);
    for (int which = 0; which < numCross<En>(); which++)
    {
        const auto x = makeCrossover<En>(c, which); Candidate<T> p(randomChrom<En>(r, c, b)), q(r.chance(0.4) ? p.chromosome : randomChrom<En>(r, c, b));
        for (auto* k : { &p, &q }) { k->fitness = hostileFitness(k->chromosome, 1, r.pick({int(H_INF_MIX), int(H_HUGE), int(H_CONST), int(H_SMOOTH)})); k->is_evaluated = true; }
        const auto [u, v] = (*x)(ga, p, q); for (auto* k : { &u, &v }) { const auto e = invalidChrom<En>(k->chromosome, c, b); VH_REQUIRE(e.empty(), "invalid-child", c.text(En::name), " crossover ", which, ": ", e, " from ", vh::vec(p.chromosome), " and ", vh::vec(q.chromosome)); }
        vh::stat("operator_calls"); cs.sig(chromHash(u.chromosome));
    }
    for (int which = 0; which < numMut<En>(); which++)
    {
        const auto m = makeMutation<En>(c, which, b); Candidate<T> p(randomChrom<En>(r, c, b)); if (r.chance(0.5)) { p.fitness = hostileFitness(p.chromosome, 1, H_SMOOTH); p.is_evaluated = true; }
        const auto before = p.chromosome; (*m)(ga, p); const auto e = invalidChrom<En>(p.chromosome, c, b); VH_REQUIRE(e.empty(), "invalid-mutant", c.text(En::name), " mutation ", which, ": ", e, " from ", vh::vec(before));
        vh::stat("operator_calls"); cs.sig(chromHash(p.chromosome));
    }
    cs.nontrivial = c.len > 1; cs.sample(c.text(En::name));
}
