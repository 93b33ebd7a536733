/* Parameters of the built-in components: documented defaults, constructors, setters, getters and copies say the same thing, and they have the documented effect (P35). */
#include "ga_common.hpp"

template<class En> struct RunCfg { size_t pop, len, gens, nobj; int fkind; uint64_t seed, bseed; };
template<class En> struct Fit final : FitnessFunctionBase<typename En::Gene>
{
    using T = typename En::Gene; size_t nobj; int kind;
    Fit(size_t len, size_t n, int k) : FitnessFunctionBase<T>(len), nobj(n), kind(k) {}
    FitnessVector invoke(const Chromosome<T>& c) const override { return pureFitness(c, nobj, kind); }
};
template<class En, class G> auto solveIt(G& ga, const RunCfg<En>& c)
{
    Cfg g; g.len = c.len; g.bseed = c.bseed; g.boundk = 1; const auto b = makeBounds<En>(g);
    if constexpr (En::bounded) return ga.solve(Fit<En>(c.len, c.nobj, c.fkind), b, c.gens); else return ga.solve(Fit<En>(c.len, c.nobj, c.fkind), c.gens);
}
/* history of a run of a GA that `install` has put the component into */
template<class En, class I> std::vector<uint64_t> history(const RunCfg<En>& c, I&& install)
{
    using T = typename En::Gene;
    typename En::GAT ga(c.pop); ga.crossover_rate(0.9); ga.mutation_rate(0.4);
    install(ga);
    std::vector<uint64_t> h;
    ga.on_generation_end([&h](const GaInfo& i)
    {
        const auto& x = dynamic_cast<const GA<T>&>(i); uint64_t d = i.generation_cntr();
        for (const auto& cd : x.population()) d = vh::mix(d ^ chromHash(cd.chromosome));
        h.push_back(d);
    });
    rng::prng.seed(c.seed);
    solveIt<En>(ga, c);
    return h;
}
/* one parameter of one component class */
template<class En, class C, class P> struct Param
{
    std::string name;
    std::function<C(P)> full;                                             // everything in the constructor
    std::function<C()> base;                                              // the parameter is not mentioned
    std::function<void(C&, P)> set;
    std::function<P(const C&)> get;
    std::function<void(typename En::GAT&, C)> install;
    std::function<void(typename En::GAT&, std::unique_ptr<C>)> installPtr;
    std::function<const C&(const typename En::GAT&)> installed;
    bool has_default; P dflt;
    std::vector<P> values;                                                // the first and the last one must not give the same runs
    std::function<double(const C&)> rate; double base_rate = -1;          // the probability of the operator, if it has one
};
template<class En, class C, class P> void paramCase(Rng& r, Case& cs, const Param<En, C, P>& p)
{
    execution_threads(1);
    RunCfg<En> c{ size_t(r.pick({6, 9, 14})), size_t(r.pick({7, 10, 16})), 2 + r.below(5), 1, r.pick({int(F_SMOOTH), int(F_WIDE), int(F_FRAC)}), r.next(), r.next() };
    const P v = p.values[r.below(p.values.size())], q = p.values[r.below(p.values.size())];
    auto tx = [&](const char* how) { return vh::str(p.name, " ", how, " (pop=", c.pop, " len=", c.len, " gens=", c.gens, " seed=", c.seed, ")"); };
    auto run = [&](C comp, const P& expect, const char* how)
    {
        VH_REQUIRE(p.get(comp) == expect, "getter", tx(how), ": the getter reports another value than the one set");
        if (p.rate) VH_REQUIRE(p.rate(comp) == p.base_rate, "rate", tx(how), ": rate ", p.rate(comp), " instead of ", p.base_rate);
        return history<En>(c, [&](auto& ga)
        {
            p.install(ga, std::move(comp));
            VH_REQUIRE(p.get(p.installed(ga)) == expect, "getter-in-ga", tx(how), ": the component inside of the GA reports another value");
        });
    };
    const auto ref = run(p.full(v), v, "constructor");
    auto same = [&](const std::vector<uint64_t>& h, const char* how) { VH_REQUIRE(h == ref, "another-run", tx(how), ": not the run that results from the constructor argument"); vh::stat("forms_compared"); };
    { C x = p.base(); p.set(x, v); same(run(std::move(x), v, "setter"), "setter"); }
    { C x = p.full(q); p.set(x, q); for (int k = int(r.below(3)); k > 0; k--) p.set(x, r.pick(p.values)); p.set(x, v); same(run(std::move(x), v, "setter twice"), "setter twice"); }
    switch (r.below(5))
    {
        case 0: { C x = p.full(v); C y(x); p.set(x, q); same(run(std::move(y), v, "copy"), "copy"); break; }
        case 1: { C x = p.full(v); C y = p.full(q); y = x; p.set(x, q); same(run(std::move(y), v, "copy assignment"), "copy assignment"); break; }
        case 2: { C x = p.full(v); C y = p.full(q); y = std::move(x); same(run(std::move(y), v, "move assignment"), "move assignment"); break; }
        case 3: { C x = p.full(v); C y(std::move(x)); same(run(std::move(y), v, "move"), "move"); break; }
        default: { same(history<En>(c, [&](auto& ga) { p.installPtr(ga, std::make_unique<C>(p.full(v))); VH_REQUIRE(p.get(p.installed(ga)) == v, "getter-in-ga", tx("pointer")); }), "pointer"); }
    }
    if (p.has_default)
    {
        const auto d = run(p.full(p.dflt), p.dflt, "documented default"), e = run(p.base(), p.dflt, "left out");
        VH_REQUIRE(d == e, "default", tx("left out"), ": not the run that results from the documented default"); vh::stat("defaults_compared");
    }
    // the parameter matters at all
    bool matters = false;
    for (int k = 0; k < 12 && !matters; k++)
    {
        RunCfg<En> c0 = c; c.seed = r.next(); c.gens = 6; c.pop = 14; c.len = 16;
        matters = run(p.full(p.values.front()), p.values.front(), "first value") != run(p.full(p.values.back()), p.values.back(), "last value"); c = c0;
    }
    VH_REQUIRE(matters, "parameter-without-effect", p.name, ": 12 runs with the same seed don't differ between the extreme values of the parameter");
    vh::stat("parameters_with_effect");
    cs.nontrivial = ref.size() > 1; cs.sig(vh::hash_str(p.name)); for (auto x : ref) cs.sig(x);
    cs.sample(tx("constructor"));
}
template<class En, class C, class P> Param<En, C, P> cross(const char* name, std::function<C(double, P)> full, std::function<C(double)> base, std::function<P(const C&)> get, bool hd, P d, std::vector<P> vals, Rng& r)
{
    Param<En, C, P> p; const double pc = r.pick({0.3, 0.8, 1.0}); 
    p.name = name; p.full = [=](P v) { return full(pc, v); }; p.base = [=] { return base(pc); }; p.get = get; p.has_default = hd; p.dflt = d; p.values = std::move(vals);
    p.install = [](auto& ga, C c) { ga.crossover_method(std::move(c)); }; p.installPtr = [](auto& ga, std::unique_ptr<C> c) { ga.crossover_method(std::move(c)); };
    p.installed = [](const auto& ga) -> const C& { return dynamic_cast<const C&>(ga.crossover_method()); };
    p.rate = [](const C& c) { return double(c.crossover_rate()); }; p.base_rate = pc;
    return p;
}
template<class En, class C, class P> Param<En, C, P> mut(const char* name, std::function<C(double, P)> full, std::function<C(double)> base, std::function<P(const C&)> get, bool hd, P d, std::vector<P> vals, Rng& r)
{
    Param<En, C, P> p; const double pm = r.pick({0.3, 0.6, 1.0});
    p.name = name; p.full = [=](P v) { return full(pm, v); }; p.base = [=] { return base(pm); }; p.get = get; p.has_default = hd; p.dflt = d; p.values = std::move(vals);
    p.install = [](auto& ga, C c) { ga.mutation_method(std::move(c)); }; p.installPtr = [](auto& ga, std::unique_ptr<C> c) { ga.mutation_method(std::move(c)); };
    p.installed = [](const auto& ga) -> const C& { return dynamic_cast<const C&>(ga.mutation_method()); };
    p.rate = [](const C& c) { return double(c.mutation_rate()); }; p.base_rate = pm;
    return p;
}
template<class C, class P> Param<RealE, C, P> sel(const char* name, std::function<C(P)> full, std::function<P(const C&)> get, bool hd, P d, std::vector<P> vals)
{
    Param<RealE, C, P> p; using namespace algorithm;
    p.name = name; p.full = full; p.base = [] { return C{}; }; p.get = get; p.has_default = hd; p.dflt = d; p.values = std::move(vals);
    p.install = [](RCGA& ga, C c) { ga.algorithm(SingleObjective(std::move(c), replacement::KeepChildren{})); };
    p.installPtr = [](RCGA& ga, std::unique_ptr<C> c) { SingleObjective so; so.selection_method(std::move(c)); so.replacement_method(replacement::KeepChildren{}); ga.algorithm(std::move(so)); };
    p.installed = [](const RCGA& ga) -> const C& { return dynamic_cast<const C&>(dynamic_cast<const SingleObjective&>(ga.algorithm()).selection_method()); };
    return p;
}
template<class C, class P> Param<RealE, C, P> stop(const char* name, std::function<C(P)> full, std::function<C()> base, std::function<P(const C&)> get, bool hd, P d, std::vector<P> vals)
{
    Param<RealE, C, P> p;
    p.name = name; p.full = full; p.base = base; p.get = get; p.has_default = hd; p.dflt = d; p.values = std::move(vals);
    p.install = [](RCGA& ga, C c) { ga.stop_condition(std::move(c)); }; p.installPtr = [](RCGA& ga, std::unique_ptr<C> c) { ga.stop_condition(std::move(c)); };
    p.installed = [](const RCGA& ga) -> const C& { return dynamic_cast<const C&>(ga.stop_condition()); };
    return p;
}
static constexpr int NPARAMS = 23;
static void oneParam(int k, Rng& r, Case& cs)
{
    using PP = std::pair<double, double>;
    switch (k)
    {
        case 0: { using C = crossover::binary::NPoint; auto p = cross<BinE, C, size_t>("binary n-point crossover: number of points", [](double pc, size_t n) { return C(pc, n); }, [](double pc) { return C(pc, 4); }, [](const C& c) { return c.num_crossover_points(); }, false, 0, { 1, 2, 3, 6 }, r); p.set = [](C& c, size_t n) { c.num_crossover_points(n); }; paramCase(r, cs, p); break; }
        case 1: { using C = crossover::integer::NPoint; auto p = cross<IntE, C, size_t>("integer n-point crossover: number of points", [](double pc, size_t n) { return C(pc, n); }, [](double pc) { return C(pc, 4); }, [](const C& c) { return c.num_crossover_points(); }, false, 0, { 1, 2, 3, 6 }, r); p.set = [](C& c, size_t n) { c.num_crossover_points(n); }; paramCase(r, cs, p); break; }
        case 2: { using C = crossover::binary::Uniform; auto p = cross<BinE, C, double>("binary uniform crossover: swap probability", [](double pc, double v) { return C(pc, v); }, [](double pc) { return C(pc); }, [](const C& c) { return double(c.swap_probability()); }, true, 0.5, { 0.0, 0.2, 0.5, 0.7 }, r); p.set = [](C& c, double v) { c.swap_probability(v); }; paramCase(r, cs, p); break; }
        case 3: { using C = crossover::integer::Uniform; auto p = cross<IntE, C, double>("integer uniform crossover: swap probability", [](double pc, double v) { return C(pc, v); }, [](double pc) { return C(pc); }, [](const C& c) { return double(c.swap_probability()); }, true, 0.5, { 0.0, 0.2, 0.5, 0.7 }, r); p.set = [](C& c, double v) { c.swap_probability(v); }; paramCase(r, cs, p); break; }
        case 4: { using C = crossover::real::BLXa; auto p = cross<RealE, C, double>("BLX-alpha crossover: alpha", [](double pc, double v) { return C(pc, v); }, [](double pc) { return C(pc); }, [](const C& c) { return c.alpha(); }, true, 0.5, { 0.0, 0.3, 0.5, 1.5 }, r); p.set = [](C& c, double v) { c.alpha(v); }; paramCase(r, cs, p); break; }
        case 5: { using C = crossover::real::SimulatedBinary; auto p = cross<RealE, C, double>("simulated binary crossover: eta", [](double pc, double v) { return C(pc, v); }, [](double pc) { return C(pc); }, [](const C& c) { return c.eta(); }, true, 4.0, { 0.0, 1.0, 4.0, 5.0 }, r); p.set = [](C& c, double v) { c.eta(v); }; paramCase(r, cs, p); break; }
        case 6: { using C = mutation::real::NonUniform; auto p = mut<RealE, C, double>("non-uniform mutation: beta", [](double pm, double v) { return C(pm, v); }, [](double pm) { return C(pm); }, [](const C& c) { return c.beta(); }, true, 2.0, { 0.0, 1.0, 2.0, 5.0 }, r); p.set = [](C& c, double v) { c.beta(v); }; paramCase(r, cs, p); break; }
        case 7: { using C = mutation::real::Gauss; auto p = mut<RealE, C, double>("Gauss mutation: sigma", [](double pm, double v) { return C(pm, v); }, [](double pm) { return C(pm); }, [](const C& c) { return c.sigma(); }, true, 6.0, { 0.5, 2.0, 6.0, 50.0 }, r); p.set = [](C& c, double v) { c.sigma(v); }; paramCase(r, cs, p); break; }
        case 8: { using C = mutation::real::Polynomial; auto p = mut<RealE, C, double>("polynomial mutation: eta", [](double pm, double v) { return C(pm, v); }, [](double pm) { return C(pm); }, [](const C& c) { return c.eta(); }, true, 40.0, { 0.0, 5.0, 40.0, 100.0 }, r); p.set = [](C& c, double v) { c.eta(v); }; paramCase(r, cs, p); break; }
        case 9: { using C = mutation::perm::Inversion; auto p = mut<PermE, C, double>("inversion: largest range", [](double pm, double v) { return C(pm, v); }, [](double pm) { return C(pm); }, [](const C& c) { return c.range_max(); }, true, 0.75, { 0.0, 0.4, 0.75, 1.0 }, r); p.set = [](C& c, double v) { c.range_max(v); }; paramCase(r, cs, p); break; }
        case 10: { using C = mutation::perm::Shuffle; auto p = mut<PermE, C, double>("shuffle: largest range", [](double pm, double v) { return C(pm, v); }, [](double pm) { return C(pm); }, [](const C& c) { return c.range_max(); }, true, 0.5, { 0.0, 0.5, 0.75, 1.0 }, r); p.set = [](C& c, double v) { c.range_max(v); }; paramCase(r, cs, p); break; }
        case 11: { using C = mutation::perm::Shift; auto p = mut<PermE, C, double>("shift: largest range", [](double pm, double v) { return C(pm, v); }, [](double pm) { return C(pm); }, [](const C& c) { return c.range_max(); }, true, 0.75, { 0.0, 0.4, 0.75, 1.0 }, r); p.set = [](C& c, double v) { c.range_max(v); }; paramCase(r, cs, p); break; }
        case 12: { using C = selection::Tournament; auto p = sel<C, size_t>("tournament: size", [](size_t n) { return C(n); }, [](const C& c) { return c.size(); }, true, 2, { 1, 2, 3, 6 }); p.set = [](C& c, size_t n) { c.size(n); }; paramCase(r, cs, p); break; }
        case 13: { using C = selection::Rank; auto p = sel<C, PP>("rank selection: weights", [](PP w) { return C(w.first, w.second); }, [](const C& c) { const PP w = c.weights(); VH_REQUIRE(w.first == c.min_weight() && w.second == c.max_weight(), "getter", "rank selection weights"); return w; }, true, { 0.1, 1.1 }, { { 1.0, 1.0 }, { 0.1, 1.1 }, { 0.5, 2.0 }, { 2.0, 3.0 }, { 4.0, 50.0 }, { 0.0, 0.05 }, { 0.0, 1.0 } }); p.set = [](C& c, PP w) { c.weights(w.first, w.second); }; paramCase(r, cs, p); break; }
        case 14: { using C = selection::Sigma; auto p = sel<C, double>("sigma scaling: scale", [](double v) { return C(v); }, [](const C& c) { return c.scale(); }, true, 3.0, { 0.5, 1.0, 3.0, 30.0 }); p.set = [](C& c, double v) { c.scale(v); }; paramCase(r, cs, p); break; }
        case 15:
        {
            using C = replacement::Elitism; Param<RealE, C, size_t> p; using namespace algorithm;
            p.name = "elitism: number of elites"; p.full = [](size_t n) { return C(n); }; p.base = [] { return C{}; }; p.set = [](C& c, size_t n) { c.elite_num(n); }; p.get = [](const C& c) { return c.elite_num(); }; p.has_default = true; p.dflt = 1; p.values = { 0, 1, 2, 5 };
            p.install = [](RCGA& ga, C c) { ga.algorithm(SingleObjective(selection::Tournament{}, std::move(c))); };
            p.installPtr = [](RCGA& ga, std::unique_ptr<C> c) { ga.algorithm(SingleObjective(std::make_unique<selection::Tournament>(), std::move(c))); };
            p.installed = [](const RCGA& ga) -> const C& { return dynamic_cast<const C&>(dynamic_cast<const SingleObjective&>(ga.algorithm()).replacement_method()); };
            paramCase(r, cs, p); break;
        }
        case 16: { using C = stopping::FitnessEvals; auto p = stop<C, size_t>("fitness evaluation limit", [](size_t n) { return C(n); }, [] { return C(77); }, [](const C& c) { return c.max_fitness_evals(); }, false, 0, { 1, 20, 33, 10000 }); p.set = [](C& c, size_t n) { c.max_fitness_evals(n); }; paramCase(r, cs, p); break; }
        case 17: { using C = stopping::FitnessValue; auto p = stop<C, double>("fitness threshold", [](double v) { return C(FitnessVector{ v }); }, [] { return C(FitnessVector{ 3.0 }); }, [](const C& c) { VH_REQUIRE(c.fitness_threshold().size() == 1, "getter", "fitness threshold"); return c.fitness_threshold()[0]; }, false, 0, { -1e12, 0.0, 100.0, 1e12 }); p.set = [](C& c, double v) { c.fitness_threshold(FitnessVector{ v }); }; paramCase(r, cs, p); break; }
        case 18: { using C = stopping::FitnessBestStall; auto p = stop<C, size_t>("best fitness stall: patience", [](size_t n) { return C(n, 1e9); }, [] { return C(7, 1e9); }, [](const C& c) { return c.patience(); }, false, 0, { 0, 1, 2, 4 }); p.set = [](C& c, size_t n) { c.patience(n); }; paramCase(r, cs, p); break; }
        case 19: { using C = stopping::FitnessBestStall; auto p = stop<C, double>("best fitness stall: delta", [](double v) { return C(0, v); }, [] { return C(0); }, [](const C& c) { return c.delta(); }, true, 1e-6, { -1.0, 0.0, 1e-6, 1e9 }); p.set = [](C& c, double v) { c.delta(v); }; paramCase(r, cs, p); break; }
        case 20: { using C = stopping::FitnessMeanStall; auto p = stop<C, size_t>("mean fitness stall: patience", [](size_t n) { return C(n, 1e9); }, [] { return C(7, 1e9); }, [](const C& c) { return c.patience(); }, false, 0, { 0, 1, 2, 4 }); p.set = [](C& c, size_t n) { c.patience(n); }; paramCase(r, cs, p); break; }
        case 21: { using C = stopping::FitnessMeanStall; auto p = stop<C, double>("mean fitness stall: delta", [](double v) { return C(0, v); }, [] { return C(0); }, [](const C& c) { return c.delta(); }, true, 1e-6, { -1e9, 0.0, 1e-6, 1e9 }); p.set = [](C& c, double v) { c.delta(v); }; paramCase(r, cs, p); break; }
        default:
        {   // the temperature function of the Boltzmann selection
            RunCfg<RealE> c{ 14, 10, 6, 1, int(F_WIDE), r.next(), r.next() }; execution_threads(1);
            auto h = [&](selection::Boltzmann b) { return history<RealE>(c, [&](RCGA& ga) { ga.algorithm(algorithm::SingleObjective(std::move(b), replacement::KeepChildren{})); }); };
            bool matters = false;
            for (int k = 0; k < 12 && !matters; k++) { c.seed = r.next(); matters = h(selection::Boltzmann([](size_t, size_t) { return 0.01; })) != h(selection::Boltzmann([](size_t, size_t) { return 1e9; })); }
            VH_REQUIRE(matters, "parameter-without-effect", "Boltzmann selection: the temperature makes no difference");
            std::vector<std::pair<size_t, size_t>> at; const auto a = h(selection::Boltzmann([&](size_t g, size_t m) { at.emplace_back(g, m); return 0.5; })), b = h(selection::Boltzmann([](size_t, size_t) { return 0.5; }));
            VH_REQUIRE(a == b, "another-run", "Boltzmann selection with the same temperatures");
            for (size_t i = 0; i < at.size(); i++) VH_REQUIRE(at[i].first < c.gens && at[i].second == c.gens, "temperature-arguments", "temperature asked for generation ", at[i].first, " of ", at[i].second);
            VH_REQUIRE(at.size() == a.size() - 1, "temperature-arguments", "temperature asked ", at.size(), " times in ", a.size(), " generations");
            vh::stat("parameters_with_effect"); cs.nontrivial = true; for (auto x : a) cs.sig(x);
        }
    }
}

/* defaults of the GAs themselves */
template<class En> void gaDefaults(Rng& r, Case& cs)
{
    using T = typename En::Gene; using GAT = typename En::GAT; using Tr = GaTraits<T>;
    execution_threads(1);
    GAT ga; VH_REQUIRE(ga.population_size() == 100 && ga.max_gen() == 500, "ga-default", En::name, ": population size ", size_t(ga.population_size()), " and ", size_t(ga.max_gen()), " generations instead of 100 and 500");
    VH_REQUIRE(double(ga.crossover_rate()) == 0.8, "ga-default", En::name, ": crossover rate ", double(ga.crossover_rate()));
    VH_REQUIRE(typeid(ga.crossover_method()) == typeid(typename Tr::DefaultCrossover) && typeid(ga.mutation_method()) == typeid(typename Tr::DefaultMutation), "ga-default", En::name, ": operators");
    VH_REQUIRE(!ga.keep_all_optimal_solutions() && ga.generation_cntr() == 0 && ga.num_fitness_evals() == 0 && ga.solutions().empty() && ga.population().empty(), "ga-default", En::name, ": state before the first run");
    for (size_t len : { size_t(1), size_t(1 + r.below(5)), size_t(6 + r.below(60)) })
    {
        GAT g(6); RunCfg<En> c{ 6, len, 2, r.pick({size_t(1), size_t(2)}), F_SMOOTH, r.next(), r.next() }; solveIt<En>(g, c);
        const double pm = double(g.mutation_rate()), want = std::is_same_v<En, PermE> ? 0.6 : 1.0 / double(len);
        VH_REQUIRE(std::abs(pm - want) < 1e-12, "ga-default", En::name, ": mutation rate ", pm, " for chromosomes of length ", len);
        cs.sig(uint64_t(len));
    }
    vh::stat("ga_defaults"); cs.nontrivial = true;
}

/* the documented direction of the effect of a parameter on how far the genes move */
static void effectCase(Rng& r, Case& cs)
{
    execution_threads(1); rng::prng.seed(r.next());
    const size_t len = 40, reps = 300; BoundsVector<RealGene> b(len, Bounds<RealGene>(-100.0, 100.0));
    const int k = int(cs.h % 6); const size_t gens = 20, at = 2 + r.below(15);
    struct F final : FitnessFunctionBase<RealGene> { using FitnessFunctionBase<RealGene>::FitnessFunctionBase; FitnessVector invoke(const Chromosome<RealGene>& c) const override { return { c[0] }; } };
    RCGA ga(4); double mean[2] = { 0, 0 }, sq[2] = { 0, 0 }; const char* what = ""; bool done = false, want_grow = true; double lo = 0, hi = 0, up = 0, dn = 0;
    auto go = [&](const GA<RealGene>& g, int side, double v)
    {
        Chromosome<RealGene> a(len), c(len); for (size_t i = 0; i < len; i++) { a[i] = double(i % 7) - 3; c[i] = a[i] + (i % 2 ? 2.0 : -2.0); }
        for (size_t n = 0; n < reps; n++)
        {
            if (k <= 1)
            {
                Candidate<RealGene> p(a), q(c); p.fitness = q.fitness = { 1.0 }; p.is_evaluated = q.is_evaluated = true;
                CandidatePair<RealGene> ch{ p, q };
                if (k == 0) ch = crossover::real::BLXa(1.0, v)(g, p, q); else ch = crossover::real::SimulatedBinary(1.0, v)(g, p, q);
                // how far the children spread around the middle of the parents
                for (size_t i = 0; i < len; i++) for (double x : { ch.first.chromosome[i], ch.second.chromosome[i] }) { const double d = std::abs(x - (a[i] + c[i]) / 2); mean[side] += d; sq[side] += d * d; (x > (a[i] + c[i]) / 2 ? up : dn)++; }
            }
            else
            {
                Candidate<RealGene> p(a); p.fitness = { 1.0 }; p.is_evaluated = true;
                if (k == 2) mutation::real::Gauss(1.0, v)(g, p); else if (k == 3) mutation::real::Polynomial(1.0, v)(g, p); else mutation::real::NonUniform(1.0, k == 4 ? v : 2.0)(g, p);
                for (size_t i = 0; i < len; i++) { const double d = std::abs(p.chromosome[i] - a[i]); mean[side] += d; sq[side] += d * d; (p.chromosome[i] > a[i] ? up : dn)++; }
            }
        }
    };
    ga.on_generation_end([&](const GaInfo& gi)
    {
        const auto& g = dynamic_cast<const GA<RealGene>&>(gi);
        if (k == 5)
        {   // non-uniform: closer to the original in a later generation
            what = "non-uniform mutation, generation"; want_grow = false; lo = double(at) - 2; hi = double(at) + 2;
            if (g.generation_cntr() == at - 2) go(g, 0, 0); if (g.generation_cntr() == at + 2) { go(g, 1, 0); done = true; }
            return;
        }
        if (g.generation_cntr() != at) return;
        switch (k)
        {
            case 0: what = "BLX-alpha, alpha"; lo = r.real(0.1, 1.0); hi = lo * 1.7; break;
            case 1: what = "simulated binary crossover, eta"; lo = r.real(0.0, 2.0); hi = lo + 2.0; break;
            case 2: what = "Gauss mutation, sigma"; want_grow = false; lo = r.real(1.0, 10.0); hi = lo * 1.5; break;
            case 3: what = "polynomial mutation, eta"; want_grow = false; lo = r.real(0.0, 40.0); hi = lo * 1.5 + 1; break;
            default: what = "non-uniform mutation, beta"; want_grow = false; lo = r.real(0.3, 2.0); hi = lo + 3; break;
        }
        go(g, 0, lo); go(g, 1, hi); done = true;
    });
    ga.solve(F(len), b, gens + 1);
    if (!done) return;
    const double n = double(reps * len * (k <= 1 ? 2 : 1)); double m[2], s[2];
    for (int i = 0; i < 2; i++) { m[i] = mean[i] / n; s[i] = std::sqrt(std::max(0.0, sq[i] / n - m[i] * m[i]) / n); }
    const double diff = (m[1] - m[0]) * (want_grow ? 1 : -1), sd = std::sqrt(s[0] * s[0] + s[1] * s[1]);
    // most of these differ by dozens of standard deviations; the heavy-tailed crossover only has to be on the right side
    VH_REQUIRE(diff > (k == 1 ? -3.0 : 3.0) * sd && (k == 1 || diff > 0), "effect-direction", what, " ", lo, " -> ", hi, ": mean distance ", m[0], " -> ", m[1], " (sd ", sd, ")");
    VH_REQUIRE(std::abs(up - dn) < 8 * std::sqrt(up + dn), "one-sided", what, " ", lo, " -> ", hi, ": ", up, " genes moved up, ", dn, " down");
    vh::stat("effects_compared"); vh::maximum("effect_sd", diff / std::max(sd, 1e-300)); cs.nontrivial = true; cs.sig(lo); cs.sig(m[0]);
    cs.sample(vh::str(what, " ", lo, " -> ", hi, ": mean distance ", m[0], " -> ", m[1]));
}
int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](const std::string&)
    {
        vh::cases("parameter", 1400, 40000, [](Rng& r, Case& c) { oneParam(int(r.below(NPARAMS)), r, c); });
        vh::cases("ga-defaults", 80, 1000, [](Rng& r, Case& c) { switch (r.below(4)) { case 0: gaDefaults<BinE>(r, c); break; case 1: gaDefaults<IntE>(r, c); break; case 2: gaDefaults<RealE>(r, c); break; default: gaDefaults<PermE>(r, c); } });
        vh::cases("effect", 240, 6000, [](Rng& r, Case& c) { c.h = r.next(); effectCase(r, c); });
    });
}
