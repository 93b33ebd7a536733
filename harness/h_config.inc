/* The same configuration given in different documented forms must give the same run (P33). */
#include "ga_common.hpp"

template<class T> struct Hist { std::vector<uint64_t> gens; uint64_t sols = 0; size_t evals = 0; double pc = 0, pm = 0; std::string types; };
struct PCfg { size_t pop, len, nobj, gens, cache; int algo, cross, mut, stop, fkind; bool callable_defaults, keep_all, single_bounds, deduced_rate; double pc, pm; uint64_t seed, bseed, iseed; size_t preset; size_t stop_n; };

template<class En> struct PFit final : FitnessFunctionBase<typename En::Gene>
{
    using T = typename En::Gene; size_t nobj; int kind;
    PFit(size_t len, size_t n, int k) : FitnessFunctionBase<T>(len), nobj(n), kind(k) {}
    FitnessVector invoke(const Chromosome<T>& c) const override { return pureFitness(c, nobj, kind); }
};
template<class En, size_t N> struct PFitN final : FitnessFunction<typename En::Gene, N>
{
    using T = typename En::Gene; size_t nobj; int kind;
    PFitN(size_t n, int k) : nobj(n), kind(k) {}
    FitnessVector invoke(const Chromosome<T>& c) const override { return pureFitness(c, nobj, kind); }
};

/* user-defined operators, as a class and as a callable with the same behaviour */
template<class En> class PUserX final : public crossover::Crossover<typename En::Gene> { using T = typename En::Gene; public: using crossover::Crossover<T>::Crossover;
    CandidatePair<T> crossover(const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) const override { return userCross<En>(a, b); } };
template<class En> const BoundsVector<typename En::Gene>& gaBounds(const GA<typename En::Gene>& ga) { if constexpr (En::bounded) return ga.gene_bounds(); else { static const BoundsVector<typename En::Gene> none; return none; } }
template<class En> class PUserM final : public mutation::Mutation<typename En::Gene> { using T = typename En::Gene; public: using mutation::Mutation<T>::Mutation;
    void mutate(const GA<T>& ga, const Candidate<T>&, Chromosome<T>& c) const override { userMutate<En>(c, gaBounds<En>(ga), double(this->mutation_rate())); } };

template<class En> struct Ops;
template<> struct Ops<BinE>  { using X0 = crossover::binary::TwoPoint; using X1 = crossover::binary::Uniform; using M0 = mutation::binary::Flip; using M1 = mutation::binary::Flip; };
template<> struct Ops<IntE>  { using X0 = crossover::integer::TwoPoint; using X1 = crossover::integer::Uniform; using M0 = mutation::integer::Uniform; using M1 = mutation::integer::Uniform; };
template<> struct Ops<RealE> { using X0 = crossover::real::Wright; using X1 = crossover::real::BLXa; using M0 = mutation::real::Gauss; using M1 = mutation::real::NonUniform; };
template<> struct Ops<PermE> { using X0 = crossover::perm::Order2; using X1 = crossover::perm::Edge; using M0 = mutation::perm::Inversion; using M1 = mutation::perm::Swap2; };

template<class En, class F> void withX(int k, double pc, F&& f) { using O = Ops<En>; if (k == 0) f(typename O::X0(pc)); else if (k == 1) f(typename O::X1(pc)); else f(PUserX<En>(pc)); }
template<class En, class F> void withM(int k, double pm, F&& f) { using O = Ops<En>; if (k == 0) f(typename O::M0(pm)); else if (k == 1) f(typename O::M1(pm)); else f(PUserM<En>(pm)); }
inline size_t tourney(const GaInfo&, const FitnessMatrix& f) { const size_t a = rng::randomIndex(f), b = rng::randomIndex(f); return f[a][0] >= f[b][0] ? a : b; }
inline small_vector<size_t> keepLast(const GaInfo& ga, const FitnessMatrix& f) { small_vector<size_t> v; for (size_t i = 0; i < ga.population_size(); i++) v.push_back(i % 3 ? f.size() - 1 - i : i); return v; }
class USel final : public selection::Selection { public: size_t selectImpl(const GaInfo& g, const FitnessMatrix& f) const override { return tourney(g, f); } };
class URepl final : public replacement::Replacement { public: small_vector<size_t> nextPopulationImpl(const GaInfo& g, const FitnessMatrix& f) override { return keepLast(g, f); } };
/* algo: 0 unspecified, 1 SOGA with parts (roulette, elitism), 2 SOGA with user parts, 3 NSGA2, 4 NSGA3 */
inline algorithm::SingleObjective sogaForm(int algo, int form)
{
    using namespace algorithm;
    if (algo == 1) switch (form % 6)
    {
        case 0: return SingleObjective(selection::Roulette{}, replacement::Elitism{ 2 });
        case 1: return SingleObjective(std::make_unique<selection::Roulette>(), std::make_unique<replacement::Elitism>(2));
        case 2: { SingleObjective s; s.selection_method(selection::Roulette{}); s.replacement_method(replacement::Elitism{ 2 }); return s; }
        case 3: { SingleObjective s; s.selection_method(std::make_unique<selection::Roulette>()); s.replacement_method(std::make_unique<replacement::Elitism>(2)); return s; }
        case 4: { SingleObjective s{ selection::Roulette{} }; s.replacement_method(replacement::Elitism{ 2 }); return s; }
        default: { replacement::Elitism e; e.elite_num(2); SingleObjective s{ std::make_unique<selection::Roulette>() }; s.replacement_method(std::move(e)); SingleObjective t(std::move(s)); return t; }
    }
    switch (form % 6)
    {
        case 0: return SingleObjective(USel{}, URepl{});
        case 1: return SingleObjective(tourney, keepLast);
        case 2: { SingleObjective s; s.selection_method(tourney); s.replacement_method(keepLast); return s; }
        case 3: { SingleObjective s{ SingleObjective::SelectionCallable(tourney) }; s.replacement_method(URepl{}); return s; }
        case 4: { SingleObjective s{ USel{} }; s.replacement_method(std::make_unique<URepl>()); return s; }
        default: { SingleObjective s{ std::make_unique<USel>(), std::make_unique<URepl>() }; SingleObjective t; t = std::move(s); return t; }
    }
}
template<class F> void withA(const PCfg& c, int form, F&& f)
{
    switch (c.algo) { case 0: if (c.nobj == 1) f(algorithm::SingleObjective{}); else f(algorithm::NSGA3{}); break; case 1: case 2: f(sogaForm(c.algo, form)); break; case 3: f(algorithm::NSGA2{}); break; default: f(algorithm::NSGA3{}); }
}
template<class F> void withS(const PCfg& c, int form, F&& f)
{
    switch (c.stop)
    {
        case 0: f(stopping::NoEarlyStop{}); break;
        case 1: if (form % 2) { stopping::FitnessEvals s(1); s.max_fitness_evals(c.stop_n); f(std::move(s)); } else f(stopping::FitnessEvals(c.stop_n)); break;
        default: if (form % 2) { stopping::FitnessBestStall s; s.patience(2); s.delta(1.0); f(std::move(s)); } else f(stopping::FitnessBestStall(2, 1.0)); break;
    }
}
template<class B, class D> std::unique_ptr<B> up(D d) { return std::make_unique<D>(std::move(d)); }

/* `form` selects how everything is said. 0: the reference. */
template<class En> std::unique_ptr<typename En::GAT> construct(const PCfg& c, Rng& r, bool ref, std::string& how)
{
    using T = typename En::Gene; using GAT = typename En::GAT; using A = algorithm::Algorithm; using S = stopping::StopCondition; using X = crossover::Crossover<T>; using M = mutation::Mutation<T>;
    std::unique_ptr<GAT> ga;
    const int form = ref ? 0 : 1 + int(r.below(8)); const int af = ref ? 0 : int(r.below(6)), sf = ref ? 0 : int(r.below(2));
    bool need_pop = false, need_a = true, need_x = true, need_m = true, need_s = true;
    const bool unspec = c.algo == 0 && !ref;
    how += vh::str(" ctor=", form);
    auto makeX = [&]{ std::unique_ptr<X> p; withX<En>(c.cross, c.pc, [&](auto x) { p = up<X>(std::move(x)); }); return p; };
    auto makeM = [&]{ std::unique_ptr<M> p; withM<En>(c.mut, c.pm, [&](auto x) { p = up<M>(std::move(x)); }); return p; };
    auto makeA = [&]{ std::unique_ptr<A> p; withA(c, af, [&](auto x) { p = up<A>(std::move(x)); }); return p; };
    auto makeS = [&]{ std::unique_ptr<S> p; withS(c, sf, [&](auto x) { p = up<S>(std::move(x)); }); return p; };
    switch (form)
    {
        case 1: ga = std::make_unique<GAT>(); need_pop = true; break;
        case 2: if (unspec) ga = std::make_unique<GAT>(c.pop, std::unique_ptr<A>()); else withA(c, af, [&](auto a) { ga = std::make_unique<GAT>(c.pop, std::move(a)); }); need_a = false; break;
        case 3: ga = std::make_unique<GAT>(c.pop, unspec ? std::unique_ptr<A>() : makeA()); need_a = false; break;
        case 4:
            if (c.deduced_rate) { ga = std::make_unique<GAT>(c.pop); break; }
            withX<En>(c.cross, c.pc, [&](auto x) { withM<En>(c.mut, c.pm, [&](auto m) { if (c.stop == 0 || r.chance(0.5)) { ga = std::make_unique<GAT>(c.pop, std::move(x), std::move(m)); need_s = c.stop != 0 || r.chance(0.5); }
                else withS(c, sf, [&](auto s) { ga = std::make_unique<GAT>(c.pop, std::move(x), std::move(m), std::move(s)); need_s = false; }); }); });
            need_x = need_m = false; need_a = !unspec || r.chance(0.3); break;
        case 5:
            if (c.deduced_rate) { ga = std::make_unique<GAT>(c.pop); break; }
            if (r.chance(0.5)) { ga = std::make_unique<GAT>(c.pop, makeX(), makeM()); need_s = c.stop != 0; } else { ga = std::make_unique<GAT>(c.pop, makeX(), makeM(), c.stop == 0 && r.chance(0.5) ? std::unique_ptr<S>() : makeS()); need_s = false; }
            need_x = need_m = false; need_a = !unspec || r.chance(0.3); break;
        case 6:
            if (c.deduced_rate || unspec) { ga = std::make_unique<GAT>(c.pop); break; }
            withX<En>(c.cross, c.pc, [&](auto x) { withM<En>(c.mut, c.pm, [&](auto m) { withA(c, af, [&](auto a) { if (c.stop == 0) ga = std::make_unique<GAT>(c.pop, std::move(a), std::move(x), std::move(m)); else withS(c, sf, [&](auto s) { ga = std::make_unique<GAT>(c.pop, std::move(a), std::move(x), std::move(m), std::move(s)); }); }); }); });
            need_a = need_x = need_m = need_s = false; break;
        case 7:
            if (c.deduced_rate) { ga = std::make_unique<GAT>(c.pop); break; }
            ga = std::make_unique<GAT>(c.pop, unspec ? std::unique_ptr<A>() : makeA(), makeX(), makeM(), c.stop == 0 && r.chance(0.5) ? std::unique_ptr<S>() : makeS());
            need_a = need_x = need_m = need_s = false; break;
        case 8: ga = std::make_unique<GAT>(1 + r.below(50)); need_pop = true; break;
        default: ga = std::make_unique<GAT>(c.pop);
    }
    if (need_pop) ga->population_size(c.pop);
    // something else first, then the final setting, sometimes
    if (!ref && r.chance(0.3)) { ga->algorithm(algorithm::NSGA2{}); need_a = true; how += " overwritten-algorithm"; }
    if (!ref && !c.deduced_rate && r.chance(0.3)) { ga->crossover_method(PUserX<En>(0.1)); ga->mutation_method(PUserM<En>(0.9)); need_x = need_m = true; how += " overwritten-operators"; }
    if (!ref && r.chance(0.3)) { ga->stop_condition(stopping::FitnessEvals(1)); need_s = true; how += " overwritten-stop"; }
    if (need_a)
    {
        const int k = ref ? 0 : int(r.below(3)); how += vh::str(" algo-setter=", k);
        if (unspec) { if (k == 0 && !ref) { if (how.find("overwritten-algorithm") != std::string::npos) ga->algorithm(nullptr); } else if (k == 1) ga->algorithm(nullptr); else ga->algorithm(std::unique_ptr<A>()); }
        else if (k == 0) ga->algorithm(makeA()); else withA(c, af, [&](auto a) { ga->algorithm(std::move(a)); });
    }
    const bool late_rates = !ref && r.chance(0.5); double lx = c.pc, lm = c.pm;
    if (need_x && !c.deduced_rate)
    {
        const int k = ref ? 0 : int(r.below(3)); how += vh::str(" x-setter=", k, late_rates ? " late-rates" : "");
        if (k == 2 && c.cross == 2) { ga->crossover_method([](const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) { return userCross<En>(a, b); }); if (c.callable_defaults) { how += " default-rate"; lx = -1; } else ga->crossover_rate(c.pc); }
        else if (k == 0 && !late_rates) ga->crossover_method(makeX());
        else { withX<En>(c.cross, late_rates ? 0.33 : c.pc, [&](auto x) { ga->crossover_method(std::move(x)); }); }
    }
    else lx = -1;
    if (need_m && !c.deduced_rate)
    {
        const int k = ref ? 0 : int(r.below(3)); how += vh::str(" m-setter=", k);
        if (k == 2 && c.mut == 2) { ga->mutation_method([](const GA<T>& g, const Candidate<T>&, Chromosome<T>& ch) { userMutate<En>(ch, gaBounds<En>(g), double(g.mutation_rate())); }); if (c.callable_defaults) { how += " default-rate"; lm = -1; vh::stat("default_rates_of_callables"); } else ga->mutation_rate(c.pm); }
        else if (k == 0 && !late_rates) ga->mutation_method(makeM());
        else { withM<En>(c.mut, late_rates ? 0.44 : c.pm, [&](auto x) { ga->mutation_method(std::move(x)); }); }
    }
    else lm = -1;
    if (late_rates) { if (lx >= 0) ga->crossover_rate(lx); if (lm >= 0) ga->mutation_rate(lm); }
    if (c.deduced_rate && ref)
    {   // said explicitly
        ga->crossover_method(typename GaTraits<T>::DefaultCrossover{});
        ga->mutation_method(typename GaTraits<T>::DefaultMutation(GaTraits<T>::defaultMutationRate(c.len)));
    }
    if (need_s)
    {
        const int k = ref ? 0 : int(r.below(3)); how += vh::str(" s-setter=", k);
        if (c.stop == 0 && k == 1) ga->stop_condition(nullptr); else if (c.stop == 0 && k == 2) ga->stop_condition(std::unique_ptr<S>());
        else if (c.stop == 1 && k == 2) ga->stop_condition([n = c.stop_n](const GaInfo& g) { return g.num_fitness_evals() >= n; });
        else if (k == 0) ga->stop_condition(makeS()); else withS(c, sf, [&](auto s) { ga->stop_condition(std::move(s)); });
    }
    ga->keep_all_optimal_solutions(c.keep_all); ga->cache_size(c.cache);
    return ga;
}
template<class En> Hist<typename En::Gene> runForm(const PCfg& c, Rng& r, bool ref, std::string& how)
{
    using T = typename En::Gene; using GAT = typename En::GAT;
    Cfg g; g.len = c.len; g.pop = c.pop; g.nobj = c.nobj; g.fkind = c.fkind; g.boundk = c.single_bounds ? 0 : 1; g.bseed = c.bseed; g.iseed = c.iseed; g.initk = 3;
    auto b = makeBounds<En>(g);
    Population<T> init; if (c.preset) { Rng pr(c.iseed); for (size_t i = 0; i < c.preset; i++) init.emplace_back(randomChrom<En>(pr, g, b)); }
    auto ga = construct<En>(c, r, ref, how);
    Hist<T> h;
    ga->on_generation_end([&h](const GaInfo& i)
    {
        const auto& x = dynamic_cast<const GA<T>&>(i); uint64_t d = i.generation_cntr() * 1000003 + i.max_gen();
        for (const auto& cd : x.population()) { d = vh::mix(d ^ chromHash(cd.chromosome)); for (double f : cd.fitness) { uint64_t u; std::memcpy(&u, &f, 8); d = vh::mix(d ^ u); } }
        h.gens.push_back(d);
    });
    std::unique_ptr<GAT> other;
    if (!ref && r.chance(0.25))
    {
        how += " moved";
        if (r.chance(0.5)) ga = std::make_unique<GAT>(std::move(*ga)); else { other = std::make_unique<GAT>(3); *other = std::move(*ga); ga = std::move(other); }
    }
    const int sv = ref ? 0 : int(r.below(8)); how += vh::str(" solve=", sv);
    const bool by_value = sv & 1, gens_arg = !(sv & 2), fixed = !ref && r.chance(0.4);
    if (!gens_arg) ga->max_gen(c.gens); else if (!ref) ga->max_gen(c.gens + 1 + r.below(9));
    const size_t max_gen = ga->max_gen();
    const bool pass_init = c.preset || (!ref && r.chance(0.5));
    Candidates<T> sols;
    rng::prng.seed(c.seed);
    auto solve = [&](auto fit)    // a fitness function object or a unique_ptr to one
    {
        auto bounded = [&](auto bounds)
        {
            if constexpr (En::bounded)
            {
                if (gens_arg) sols = pass_init ? ga->solve(std::move(fit), bounds, c.gens, init) : ga->solve(std::move(fit), bounds, c.gens);
                else sols = pass_init ? ga->solve(std::move(fit), bounds, init) : ga->solve(std::move(fit), bounds);
            }
        };
        if constexpr (En::bounded) { if (c.single_bounds && (sv & 4)) bounded(b[0]); else bounded(b); }
        else if (gens_arg) sols = pass_init ? ga->solve(std::move(fit), c.gens, init) : ga->solve(std::move(fit), c.gens);
        else sols = pass_init ? ga->solve(std::move(fit), init) : ga->solve(std::move(fit));
    };
    if (fixed && c.len == 6) { how += " FitnessFunction<6>"; if (by_value) solve(PFitN<En, 6>(c.nobj, c.fkind)); else solve(std::unique_ptr<FitnessFunctionBase<T>>(new PFitN<En, 6>(c.nobj, c.fkind))); }
    else if (by_value) solve(PFit<En>(c.len, c.nobj, c.fkind));
    else solve(std::unique_ptr<FitnessFunctionBase<T>>(new PFit<En>(c.len, c.nobj, c.fkind)));
    for (const auto& s : sols) { h.sols = vh::mix(h.sols ^ chromHash(s.chromosome)); for (double f : s.fitness) { uint64_t u; std::memcpy(&u, &f, 8); h.sols = vh::mix(h.sols ^ u); } }
    h.evals = ga->num_fitness_evals(); h.pc = double(ga->crossover_rate()); h.pm = double(ga->mutation_rate());
    VH_REQUIRE(ga->max_gen() == max_gen && ga->population_size() == c.pop && ga->chrom_len() == c.len && ga->num_objectives() == c.nobj && ga->keep_all_optimal_solutions() == c.keep_all && ga->population().size() == c.pop && ga->solutions().size() == sols.size(), "settings", how);
    if constexpr (En::bounded) { const auto& gb = ga->gene_bounds(); VH_REQUIRE(gb.size() == c.len, "settings", how); for (size_t i = 0; i < c.len; i++) VH_REQUIRE(gb[i].lower() == b[i].lower() && gb[i].upper() == b[i].upper(), "settings", how); }
    h.types = typeid(ga->algorithm()).name();
    return h;
}
template<class En> void configCase(Rng& r, Case& cs)
{
    using T = typename En::Gene;
    math::ScopedTolerances tol(0.0, 0.0);
    PCfg c{};
    c.pop = r.pick({1, 2, 5, 8, 13}); c.len = r.pick({1, 3, 6, 6, 6, 10}); c.nobj = r.pick({1, 1, 2, 3}); c.gens = 1 + r.below(7); c.cache = r.below(2); c.algo = c.nobj == 1 ? r.pick({0, 0, 1, 2}) : r.pick({0, 0, 3, 4}); c.cross = int(r.below(3)); c.mut = int(r.below(3));
    if (c.algo == 2 && c.pop < 2) c.algo = 0;
    c.stop = r.pick({0, 0, 1, 2}); c.stop_n = 1 + r.below(40); c.fkind = int(r.below(F_NKINDS)); c.keep_all = r.chance(0.4); c.single_bounds = r.chance(0.5); c.deduced_rate = r.chance(0.3); c.pc = r.pick({0.3, 0.8, 1.0}); c.pm = r.pick({0.1, 0.5}); c.seed = r.next(); c.bseed = r.next(); c.iseed = r.next(); c.preset = r.chance(0.4) ? r.below(c.pop + 3) : 0;
    if (r.chance(0.25)) { c.callable_defaults = true; c.deduced_rate = false; c.cross = c.mut = 2; c.pc = 0.8; c.pm = double(GaTraits<T>::defaultMutationRate(c.len)); }
    const std::string tx = vh::str(En::name, " pop=", c.pop, " len=", c.len, " nobj=", c.nobj, " gens=", c.gens, " cache=", c.cache, " algo=", c.algo, " cross=", c.cross, " mut=", c.mut, " stop=", c.stop, "/", c.stop_n, " fkind=", c.fkind, " keep_all=", c.keep_all, " deduced=", c.deduced_rate, " pc=", c.pc, " pm=", c.pm, " preset=", c.preset, " seed=", c.seed);
    execution_threads(1);
    std::string how0; const auto a = runForm<En>(c, r, true, how0);
    for (int k = 0; k < 3; k++)
    {
        std::string how; const auto h = runForm<En>(c, r, false, how);
        size_t g = 0; while (g < a.gens.size() && g < h.gens.size() && a.gens[g] == h.gens[g]) g++;
        VH_REQUIRE(a.types == h.types, "another-algorithm", tx, ": said as", how, ": ", h.types, " instead of ", a.types);
        VH_REQUIRE(a.pc == h.pc && a.pm == h.pm, "other-rates", tx, ": said as", how, ": ", h.pc, " ", h.pm, " instead of ", a.pc, " ", a.pm);
        VH_REQUIRE(a.gens == h.gens && a.sols == h.sols && a.evals == h.evals, "another-run", tx, ": said as", how, ": differs from generation ", g, " of ", a.gens.size(), "/", h.gens.size(), " on, evaluations ", a.evals, "/", h.evals);
        vh::stat("forms_compared"); cs.sig(vh::hash_str(how)); if (how.find("moved") != std::string::npos) vh::stat("moved_gas");
        if (k == 0) cs.sample(tx + ": said as" + how);
    }
    if (c.algo == 0) vh::stat(c.nobj == 1 ? "default_algorithm_single" : "default_algorithm_multi");
    if (c.deduced_rate) vh::stat("deduced_rates");
    cs.nontrivial = a.gens.size() > 1; for (auto g : a.gens) cs.sig(g);
}
