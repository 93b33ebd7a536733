/* Complete GA runs of one encoding under the run monitors (P01-P06, P08). */
#include "ga_common.hpp"

template<class En> struct RunRec
{
    using T = typename En::Gene;
    Cfg c; BoundsVector<T> b; Recorder<En> rec; Candidates<T> sols; size_t final_evals = 0;
    std::string text() const { return c.text(En::name); }
};

template<class T> uint64_t digestCands(const Candidates<T>& p)
{
    uint64_t h = p.size();
    for (const auto& c : p)
    {
        h = vh::mix(h ^ chromHash(c.chromosome)) + c.is_evaluated;
        for (double f : c.fitness) { uint64_t u; std::memcpy(&u, &f, 8); h = vh::mix(h ^ u); }
    }
    return h;
}
template<class En> uint64_t digestRun(const RunRec<En>& r)
{
    uint64_t h = 1;
    for (const auto& g : r.rec.gens)
    {
        h = vh::mix(h ^ digestCands(g.pop)); h = vh::mix(h ^ digestCands(g.sols));
        for (const auto& row : g.fmat) for (double f : row) { uint64_t u; std::memcpy(&u, &f, 8); h = vh::mix(h ^ u); }
        h = vh::mix(h ^ g.cntr); h = vh::mix(h ^ g.evals); h = vh::mix(h ^ g.max_gen); h = vh::mix(h ^ g.chrom_len); h = vh::mix(h ^ g.nobj);
    }
    for (const auto& c : r.rec.calls) h = vh::mix(h ^ chromHash(c.chrom));
    return vh::mix(h ^ digestCands(r.sols) ^ r.final_evals);
}

/* real encoding: most runs compare exactly; `tol` keeps the default tolerances */
struct MaybeExact { std::optional<math::ScopedTolerances> t; MaybeExact(bool exact) { if (exact) t.emplace(0.0, 0.0); } };

template<class En> void doRun(typename En::GAT& ga, RunRec<En>& r)
{
    if (r.c.threads) execution_threads(r.c.threads);       // 0: unchanged
    rng::prng.seed(r.c.seed);
    r.sols = solveRecorded<En>(ga, r.c, r.b, r.rec);
    r.final_evals = ga.num_fitness_evals();
    vh::stat("runs"); vh::stat("fitness_calls", r.rec.calls.size()); vh::stat("generations", r.rec.gens.size());
}
template<class En> void caseSig(Case& c, const RunRec<En>& r) { c.sig(digestRun(r)); c.sample(r.text() + vh::str(" -> generations=", r.rec.gens.size(), " calls=", r.rec.calls.size(), " solutions=", r.sols.size())); }

/* ---- P01 ---- */
template<class En> void checkValid(const RunRec<En>& r)
{
    for (size_t i = 0; i < r.rec.calls.size(); i++)
    {
        auto e = invalidChrom<En>(r.rec.calls[i].chrom, r.c, r.b);
        VH_REQUIRE(e.empty(), "invalid-chromosome-evaluated", r.text(), ": call ", i, " generation ", r.rec.calls[i].gen, ": ", e, " in ", vh::vec(r.rec.calls[i].chrom));
    }
    for (const auto& g : r.rec.gens)
        for (const auto* set : { &g.pop, &g.sols })
            for (const auto& c : *set)
            {
                auto e = invalidChrom<En>(c.chromosome, r.c, r.b);
                VH_REQUIRE(e.empty(), set == &g.pop ? "invalid-chromosome-in-population" : "invalid-chromosome-in-solutions", r.text(), ": generation ", g.cntr, ": ", e, " in ", vh::vec(c.chromosome));
            }
    for (const auto& c : r.sols) { auto e = invalidChrom<En>(c.chromosome, r.c, r.b); VH_REQUIRE(e.empty(), "invalid-solution", r.text(), ": ", e); }
}

/* ---- P02 ---- */
template<class En> void checkFitness(const RunRec<En>& r, bool exact)
{
    using T = typename En::Gene;
    auto close = [&](const Chromosome<T>& a, const Chromosome<T>& b)
    {
        if (a.size() != b.size()) return false;
        if constexpr (std::is_floating_point_v<T>)
        {
            if (exact) return a == b;
            const double steps = 4.0 * double(r.rec.gens.size() + 2);
            for (size_t i = 0; i < a.size(); i++) if (!(std::abs(a[i] - b[i]) <= steps * std::max(1e-12, 1e-14 * std::max(std::abs(a[i]), std::abs(b[i]))))) return false;
            return true;
        }
        else return a == b;
    };
    std::map<double, size_t> by_id;                                       // dynamic: the value identifies the call
    if (r.c.dynamic) for (size_t i = 0; i < r.rec.calls.size(); i++) by_id.emplace(r.rec.calls[i].fit[0], i);
    auto check = [&](const Candidate<T>& c, size_t gen, const char* where) -> size_t
    {
        VH_REQUIRE(c.is_evaluated, "not-evaluated", r.text(), ": generation ", gen, " ", where, ": ", candText(c));
        VH_REQUIRE(c.fitness.size() == r.c.nobj, "fitness-size", r.text(), ": generation ", gen, " ", where, ": ", candText(c));
        if (!r.c.dynamic)
        {
            if (c.fitness == pureFitness(c.chromosome, r.c.nobj, r.c.fkind)) return 0;
            bool ok = false;
            if (!exact && std::is_floating_point_v<T>)
                for (const auto& k : r.rec.calls) if (k.fit == c.fitness && close(k.chrom, c.chromosome)) { ok = true; break; }
            if (!ok && !exact && std::is_floating_point_v<T>)
                for (const auto& k : makeInitial<En>(r.c, r.b)) if (k.fitness == c.fitness && close(k.chromosome, c.chromosome)) { ok = true; break; }
            VH_REQUIRE(ok, "wrong-fitness", r.text(), ": generation ", gen, " ", where, ": ", candText(c), " but the fitness of the chromosome is ", vh::vec(pureFitness(c.chromosome, r.c.nobj, r.c.fkind)));
            return 0;
        }
        auto it = by_id.find(c.fitness[0]);
        VH_REQUIRE(it != by_id.end() && r.rec.calls[it->second].fit == c.fitness, "fitness-not-returned-by-any-call", r.text(), ": generation ", gen, " ", where, ": ", candText(c));
        VH_REQUIRE(close(r.rec.calls[it->second].chrom, c.chromosome), "fitness-of-another-chromosome", r.text(), ": generation ", gen, " ", where, ": ", candText(c), " has the fitness of ", vh::vec(r.rec.calls[it->second].chrom));
        VH_REQUIRE(r.rec.calls[it->second].gen <= gen, "fitness-from-the-future", r.text());
        return it->second;
    };
    std::map<size_t, size_t> first_gen_of_id;
    for (const auto& g : r.rec.gens)
    {
        std::set<size_t> ids;
        VH_REQUIRE(g.fmat.size() == g.pop.size(), "fitness-matrix-size", r.text());
        for (size_t i = 0; i < g.pop.size(); i++)
        {
            size_t id = check(g.pop[i], g.cntr, "population");
            VH_REQUIRE(g.fmat[i] == g.pop[i].fitness, "fitness-matrix-row", r.text(), ": generation ", g.cntr, " row ", i, " ", vh::vec(g.fmat[i]), " for ", candText(g.pop[i]));
            // a survivor occurs once per candidate of parents+children: a value may not be shared by two children
            if (r.c.dynamic && r.c.algo != 4 && r.c.repl != 3)
            {
                VH_REQUIRE(ids.insert(id).second, "shared-dynamic-value", r.text(), ": generation ", g.cntr, ": two candidates of the population carry the value of one call: ", candText(g.pop[i]));
            }
        }
        for (const auto& c : g.sols) check(c, g.cntr, "solutions");
    }
    for (const auto& c : r.sols) check(c, r.rec.gens.size(), "returned");
}

/* ---- P03 ---- */
template<class T> std::vector<Chromosome<T>> paretoChroms(const std::vector<const Candidate<T>*>& all, bool near = false)
{
    auto key = [&](const FitnessVector& f) { std::vector<double> v(f.begin(), f.end()); if (near) for (double& x : v) x = std::round(x); return v; };
    std::vector<Chromosome<T>> out;
    // distinct fitness vectors first
    std::map<std::vector<double>, bool> keep;
    for (auto* c : all) keep.emplace(key(c->fitness), true);
    for (auto& [f, k] : keep) for (auto& [g, k2] : keep) if (&k != &k2) { bool ge = true; for (size_t i = 0; i < f.size(); i++) if (g[i] < f[i]) { ge = false; break; } if (ge) { k = false; break; } }
    for (auto* c : all) if (keep[key(c->fitness)]) out.push_back(c->chromosome);
    std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
    return out;
}
template<class En> void checkOptimal(const RunRec<En>& r, const typename En::GAT& ga)
{
    using T = typename En::Gene; const bool near = r.c.fkind == F_NEAR;
    auto level = [&](FitnessVector f) { if (near) for (double& x : f) x = std::round(x); return f; };
    std::vector<Chromosome<T>> got;
    for (const auto& c : r.sols) got.push_back(c.chromosome);
    std::sort(got.begin(), got.end());
    for (size_t i = 1; i < got.size(); i++) VH_REQUIRE(got[i - 1] != got[i], "duplicate-solution", r.text(), ": ", vh::vec(got[i]), " returned twice");
    for (const auto& a : r.sols) for (const auto& b : r.sols) VH_REQUIRE(!dominates(level(a.fitness), level(b.fitness)), "dominated-solution", r.text(), ": ", candText(b), " is dominated by ", candText(a));
    VH_REQUIRE(digestCands(ga.solutions()) == digestCands(r.sols), "solutions-differ-from-result", r.text());
    VH_REQUIRE(digestCands(ga.population()) == digestCands(r.rec.gens.back().pop), "population-after-run", r.text());
    auto compare = [&](const std::vector<Chromosome<T>>& exp, const std::vector<Chromosome<T>>& have, const char* what)
    {
        std::vector<Chromosome<T>> missing, extra;
        std::set_difference(exp.begin(), exp.end(), have.begin(), have.end(), std::back_inserter(missing));
        std::set_difference(have.begin(), have.end(), exp.begin(), exp.end(), std::back_inserter(extra));
        VH_REQUIRE(missing.empty(), "missing-solution", r.text(), ": ", what, ": ", missing.size(), " of ", exp.size(), " optimal candidates missing, e.g. ", vh::vec(missing[0]));
        VH_REQUIRE(extra.empty(), "non-optimal-solution", r.text(), ": ", what, ": ", extra.size(), " too many, e.g. ", vh::vec(extra[0]));
    };
    std::vector<const Candidate<T>*> all;
    if (!r.c.keep_all) for (const auto& c : r.rec.gens.back().pop) all.push_back(&c);
    else for (const auto& g : r.rec.gens) for (const auto& c : g.pop) all.push_back(&c);
    compare(paretoChroms(all, near), got, r.c.keep_all ? "all generations" : "last generation");
    if (r.c.keep_all)
    {
        // also after every generation
        all.clear();
        for (size_t i = 0; i < r.rec.gens.size(); i++)
        {
            const auto& g = r.rec.gens[i];
            for (const auto& c : g.pop) all.push_back(&c);
            std::vector<Chromosome<T>> have; for (const auto& c : g.sols) have.push_back(c.chromosome);
            std::sort(have.begin(), have.end());
            for (size_t k = 1; k < have.size(); k++) VH_REQUIRE(have[k - 1] != have[k], "duplicate-solution", r.text(), ": generation ", i, ": ", vh::vec(have[k]));
            compare(paretoChroms(all, near), have, "up to a generation");
        }
    }
    vh::stat("solutions", r.sols.size());
}

/* ---- P04 ---- */
template<class En> void checkLifecycle(const RunRec<En>& r, const typename En::GAT& ga, size_t max_gen_before)
{
    using T = typename En::Gene;
    const auto& G = r.rec.gens;
    VH_REQUIRE(!G.empty(), "no-generation", r.text());
    VH_REQUIRE(G.size() <= r.c.gens, "too-many-generations", r.text(), ": ", G.size(), " generations");
    if (r.c.stop > 2) VH_REQUIRE(G.size() == r.c.gens, "too-few-generations", r.text(), ": ", G.size(), " generations without a stop condition");
    if (r.c.stop == 2) VH_REQUIRE(G.size() == std::min(r.c.gens, r.c.stop_n % 9 + 1), "user-stop-condition", r.text(), ": ", G.size(), " generations, user condition stops at generation ", r.c.stop_n % 9);
    for (size_t i = 0; i < G.size(); i++)
    {
        VH_REQUIRE(G[i].cntr == i, "generation-counter", r.text(), ": callback ", i, " saw generation ", G[i].cntr);
        VH_REQUIRE(G[i].popsize == r.c.pop && G[i].pop.size() == r.c.pop, "population-size", r.text(), ": generation ", i, " size ", G[i].pop.size());
        VH_REQUIRE(G[i].chrom_len == r.c.len && G[i].nobj == r.c.nobj, "chrom-len-or-objectives", r.text(), ": ", G[i].chrom_len, " ", G[i].nobj);
        VH_REQUIRE(G[i].max_gen == r.c.gens, "max-gen-during-run", r.text(), ": ", G[i].max_gen);
    }
    VH_REQUIRE(ga.max_gen() == max_gen_before, "max-gen-not-restored", r.text(), ": ", ga.max_gen(), " was ", max_gen_before);
    VH_REQUIRE(ga.generation_cntr() + 1 == G.size(), "final-generation-counter", r.text(), ": ", ga.generation_cntr());
    auto init = makeInitial<En>(r.c, r.b);
    std::multiset<Chromosome<T>> first; for (const auto& c : G[0].pop) first.insert(c.chromosome);
    for (size_t i = 0; i < std::min(init.size(), r.c.pop); i++)
    {
        auto it = first.find(init[i].chromosome);
        VH_REQUIRE(it != first.end(), "initial-candidate-missing", r.text(), ": preset candidate ", i, " of ", init.size(), " is not in the first population");
        first.erase(it);
    }
}

/* ---- P05 ---- */
template<class En> void checkEvals(const RunRec<En>& r)
{
    using T = typename En::Gene;
    const auto& G = r.rec.gens; const auto& K = r.rec.calls;
    for (size_t i = 0; i < G.size(); i++)
    {
        VH_REQUIRE(G[i].evals + 1 == G[i].calls, "evaluation-count", r.text(), ": generation ", i, ": reported ", G[i].evals, ", made ", G[i].calls, " calls including the probe");
        if (r.c.dynamic) VH_REQUIRE(G[i].calls - (i ? G[i - 1].calls : 1) == r.c.pop, "dynamic-evaluations-per-generation", r.text(), ": generation ", i, ": ", G[i].calls - (i ? G[i - 1].calls : 1), " calls for ", r.c.pop, " candidates");
    }
    VH_REQUIRE(r.final_evals + 1 == K.size(), "evaluation-count", r.text(), ": after the run: reported ", r.final_evals, ", made ", K.size());
    if (r.c.dynamic) return;

    // initial population
    std::map<Chromosome<T>, long> need;
    auto init = makeInitial<En>(r.c, r.b); const size_t np = std::min(init.size(), r.c.pop);
    size_t preset = 0;
    for (size_t i = 0; i < np; i++) if (!init[i].is_evaluated) need[init[i].chromosome]++; else preset++;
    VH_REQUIRE(G[0].calls - 1 <= r.c.pop - preset, "preset-fitness-recomputed", r.text(), ": ", G[0].calls - 1, " initial evaluations with ", preset, " of ", r.c.pop, " candidates preset");

    const bool user_mut = r.c.mut == numMut<En>() - 2, user_cross = r.c.cross == numCross<En>() - 2;
    if (r.c.pc == 0.0 && r.c.pm == 0.0 && !r.c.default_pm && r.c.repair < 2 && r.c.mut != numMut<En>() - 1)
    {
        VH_REQUIRE(K.size() == G[0].calls, "unchanged-candidates-recomputed", r.text(), ": ", K.size() - G[0].calls, " evaluations without crossover and mutation");
        vh::stat("runs_without_variation");
    }
    if (user_mut)
    {
        std::map<std::pair<size_t, Chromosome<T>>, long> m, cr;
        for (const auto& o : r.rec.ops.muts)
        {
            auto fin = repaired<En>(r.c, r.b, o.out);
            if (!(o.eval_in && o.in == o.out && fin == o.out)) m[{ o.gen, fin }]++;
        }
        for (const auto& k : K) if (k.gen > 0)
        {
            VH_REQUIRE(--m[std::make_pair(k.gen, k.chrom)] >= 0, "unchanged-candidate-recomputed", r.text(), ": generation ", k.gen, ": ", vh::vec(k.chrom), " evaluated more often than changed candidates with this chromosome were created");
            vh::stat("traced_evaluations");
        }
        if (user_cross || r.c.pc == 0.0)
        {
            for (const auto& o : r.rec.ops.crosses) if (!o.known) cr[{ o.gen, o.child }]++;
            for (const auto& o : r.rec.ops.muts) if (!o.eval_in)
                VH_REQUIRE(--cr[std::make_pair(o.gen, o.in)] >= 0, "copied-candidate-lost-its-fitness", r.text(), ": generation ", o.gen, ": child equal to a parent has no known fitness: ", vh::vec(o.in));
        }
    }
    if (r.c.cache)
    {
        std::map<Chromosome<T>, size_t> seen;
        for (size_t g = 0; g < G.size(); g++) for (const auto& c : G[g].pop) seen.emplace(c.chromosome, g);
        for (const auto& k : K)
        {
            auto it = seen.find(k.chrom);
            if (it == seen.end() || k.gen == 0) continue;
            const size_t s = it->second;
            VH_REQUIRE(!(k.gen >= s + 2 && k.gen <= s + 1 + r.c.cache), "cached-candidate-recomputed", r.text(), ": ", vh::vec(k.chrom), " entered the population in generation ", s, " and was evaluated again in generation ", k.gen, " with a cache of ", r.c.cache, " generations");
            if (k.gen > s) vh::stat("reevaluations_outside_cache");
        }
    }
}

template<class En> Cfg runCfg(Rng& r, bool exact)
{
    Cfg c = randomCfg<En>(r);
    // with default tolerances keep real bounds where the comparison scale is unambiguous
    if (!exact && std::is_same_v<En, RealE>) c.boundk = r.pick({0, 1, 3});
    return c;
}

/* one recorded run, checked by `chk` */
template<class En, class F> void oneRun(Rng& rg, Case& cs, F&& chk, std::function<void(Rng&, Cfg&)> tweak = nullptr)
{
    const bool exact = !std::is_same_v<En, RealE> || rg.chance(0.8);
    MaybeExact tol(exact);
    RunRec<En> r; r.c = runCfg<En>(rg, exact);
    if (tweak) tweak(rg, r.c);
    if (r.c.fkind == F_NEAR) { tol.t.reset(); tol.t.emplace(1e-3, 0.0); vh::stat("runs_with_near_equal_fitness"); }
    r.b = makeBounds<En>(r.c);
    typename En::GAT ga(r.c.pop);
    ga.max_gen(77);
    configure<En>(ga, r.c, r.b, &r.rec);
    if (rg.chance(0.35))
    {
        // the object was used before: another fitness function, possibly ended by an exception
        RunRec<En> pre; pre.c = r.c; pre.b = r.b;
        pre.c.fkind = (r.c.fkind + 1 + int(rg.below(F_NKINDS - 1))) % F_NKINDS; pre.c.seed = rg.chance(0.5) ? r.c.seed : rg.next(); pre.c.iseed = rg.next();
        if (rg.chance(0.2)) pre.c.dynamic = !r.c.dynamic;
        if (rg.chance(0.25)) pre.rec.throw_at = long(rg.below(60));
        try { doRun<En>(ga, pre); } catch (const std::domain_error&) {}
        r.rec.ops.muts.clear(); r.rec.ops.crosses.clear();
        vh::stat("used_objects");
    }
    doRun<En>(ga, r);
    cs.nontrivial = r.rec.gens.size() > 1; caseSig(cs, r);
    chk(r, ga, exact);
}

/* P04/P06: reuse. portable = nothing captured the old problem, so the object may be reused unconfigured */
template<class En> void makePortable(Cfg& c) { if (c.mut >= numMut<En>() - 2) c.mut = 0; c.repair = 0; }

template<class En> void reuseCase(Rng& rg, Case& cs)
{
    MaybeExact tol(true);
    const int mode = int(rg.below(4));   // 0: reconfigure everything, 1: only run other problems, 2: as 1, with a failing run in between, 3: default-constructed
    RunRec<En> a, fresh, again;
    fresh.c = randomCfg<En>(rg); fresh.c.threads = 1; fresh.c.dynamic = false;
    if (mode != 0) makePortable<En>(fresh.c);
    if (fresh.c.stop == 2) fresh.c.stop = 3;
    Cfg other = randomCfg<En>(rg); other.threads = fresh.c.threads == 1 ? rg.pick({1, 1, 4}) : 1;
    if (other.stop == 2) other.stop = 3;
    if (mode != 0)
    {
        // same object configuration, another problem
        Cfg o = fresh.c; o.len = other.len; o.gens = other.gens; o.fkind = other.fkind; o.boundk = other.boundk; o.bseed = other.bseed; o.initk = other.initk; o.iseed = other.iseed; o.seed = other.seed; o.threads = other.threads; o.dynamic = other.dynamic;
        if (o.algo == 0) o.nobj = other.nobj;    // the default algorithm adapts to the problem
        if (o.stop < 2) {}
        other = o;
    }
    fresh.b = makeBounds<En>(fresh.c); again.c = fresh.c; again.b = fresh.b;
    auto setup = [&](typename En::GAT& ga, const Cfg& c, const BoundsVector<typename En::Gene>& b) { if (mode == 3) { ga.keep_all_optimal_solutions(c.keep_all); ga.cache_size(c.cache); } else configure<En>(ga, c, b, nullptr); };
    {
        typename En::GAT ga(fresh.c.pop); setup(ga, fresh.c, fresh.b); doRun<En>(ga, fresh);
    }
    typename En::GAT used(mode == 0 ? other.pop : fresh.c.pop);
    const int nruns = 1 + int(rg.below(3));
    for (int k = 0; k < nruns; k++)
    {
        RunRec<En> o; o.c = other; o.c.seed = rg.next(); o.b = makeBounds<En>(o.c);
        if (mode == 0 || k == 0) setup(used, o.c, o.b);
        const bool failing = mode == 2 || rg.chance(0.3);
        if (failing) o.rec.throw_at = long(rg.below(rg.chance(0.5) ? 5 : 200));
        try { doRun<En>(used, o); } catch (const std::domain_error&) { vh::stat("failed_runs_before_reuse"); }
    }
    if (mode == 0) setup(used, again.c, again.b);
    doRun<En>(used, again);
    VH_REQUIRE(digestRun(fresh) == digestRun(again), "reused-ga-differs-from-new", "mode ", mode, " ", fresh.text(), " after ", other.text(En::name), ": gens ", fresh.rec.gens.size(), "/", again.rec.gens.size(), " calls ", fresh.rec.calls.size(), "/", again.rec.calls.size(), " evals ", fresh.final_evals, "/", again.final_evals);
    vh::stat("reuse_comparisons");
    cs.nontrivial = fresh.rec.gens.size() > 1; caseSig(cs, fresh);
}

template<class En> void throwCase(Rng& rg, Case& cs)
{
    MaybeExact tol(true);
    RunRec<En> r; r.c = randomCfg<En>(rg); r.c.default_pm = rg.chance(0.5); if (r.c.default_pm) r.c.mut = numMut<En>() - 1;
    r.b = makeBounds<En>(r.c);
    // count the user calls of the complete run first, then fail at one of them
    typename En::GAT probe(r.c.pop); Recorder<En> pr; pr.throw_at = std::numeric_limits<long>::max(); RunRec<En> p; p.c = r.c; p.c.threads = 1; p.b = r.b; p.rec.throw_at = std::numeric_limits<long>::max();
    configure<En>(probe, p.c, p.b, &p.rec); doRun<En>(probe, p);
    const long total = p.rec.throw_cnt.load();
    typename En::GAT ga(r.c.pop); ga.max_gen(123);
    configure<En>(ga, r.c, r.b, &r.rec);
    // number of calls depends on the schedule with several threads: fail in the part every schedule reaches
    r.rec.throw_at = r.c.threads == 1 ? long(rg.below(uint64_t(total))) : long(rg.below(2 + r.c.pop / 2));
    if (r.c.threads > 1 && !r.c.dynamic && r.c.initk >= 3) r.rec.throw_at = 0;
    bool caught = false;
    try { doRun<En>(ga, r); }
    catch (const std::domain_error& e) { caught = std::string(e.what()) == "injected by user function"; }
    VH_REQUIRE(caught, "exception-lost", r.text(), ": the exception thrown by user call ", r.rec.throw_at, " of ", total, " did not reach the caller of solve()");
    VH_REQUIRE(ga.max_gen() == 123, "max-gen-not-restored", r.text(), ": ", ga.max_gen(), " after a failed run");
    // the GA and the thread pool are usable afterwards
    RunRec<En> n; n.c = r.c; n.b = r.b; r.rec.throw_at = -1;
    doRun<En>(ga, n);
    VH_REQUIRE(n.rec.gens.size() >= 1 && n.sols.size() >= 1, "run-after-failure", r.text());
    vh::stat("exceptions_delivered"); vh::stat(vh::str("exceptions_with_", r.c.threads > 1 ? "many" : "one", "_thread"));
    cs.nontrivial = true; cs.sig(uint64_t(r.rec.throw_at)); caseSig(cs, n);
}

template<class En> void reproCase(Rng& rg, Case& cs)
{
    MaybeExact tol(true);
    RunRec<En> a, b, d;
    a.c = randomCfg<En>(rg); a.c.threads = 1;
    a.b = makeBounds<En>(a.c); b.c = a.c; b.b = a.b;
    typename En::GAT ga(a.c.pop); configure<En>(ga, a.c, a.b, &a.rec); doRun<En>(ga, a);
    // history: other runs, other threads counts, other draws
    const int n = int(rg.below(4));
    for (int k = 0; k < n; k++) forEncoding(rg, [&](auto en)
    {
        using E = decltype(en); RunRec<E> o; o.c = randomCfg<E>(rg); o.c.gens = std::min<size_t>(o.c.gens, 4); o.b = makeBounds<E>(o.c);
        typename E::GAT g(o.c.pop); configure<E>(g, o.c, o.b, &o.rec); doRun<E>(g, o);
    });
    if (rg.chance(0.5)) for (size_t i = 0, m = rg.below(20); i < m; i++) { (void)rng::randomNormal(0.0, 1.0); (void)rng::randomInt(0, 5); (void)rng::randomBool(); }
    b.rec.gens.clear();
    configure<En>(ga, a.c, a.b, nullptr);
    if (rg.chance(0.5)) { typename En::GAT ga2(b.c.pop); configure<En>(ga2, b.c, b.b, &b.rec); doRun<En>(ga2, b); }
    else doRun<En>(ga, b);
    size_t g = 0; while (g < a.rec.gens.size() && g < b.rec.gens.size() && digestCands(a.rec.gens[g].pop) == digestCands(b.rec.gens[g].pop)) g++;
    VH_REQUIRE(digestRun(a) == digestRun(b), "same-seed-different-run", a.text(), ": differs from generation ", g, " of ", a.rec.gens.size(), "/", b.rec.gens.size(), " on");
    if (a.c.len >= 8 && a.c.pop >= 6 && a.c.initk < 3 && (!En::bounded || a.c.boundk == 0 || a.c.boundk == 4))
    {
        d.c = a.c; d.c.seed = rg.next(); d.b = a.b;
        typename En::GAT g3(d.c.pop); configure<En>(g3, d.c, d.b, nullptr); doRun<En>(g3, d);
        VH_REQUIRE(digestRun(a) != digestRun(d), "different-seeds-same-run", a.text(), " and seed ", d.c.seed);
        vh::stat("different_seed_comparisons");
    }
    vh::stat("same_seed_comparisons");
    cs.nontrivial = a.rec.gens.size() > 1; caseSig(cs, a);
}

/* The same, with several threads: the number of threads does not change between the two runs. */
template<class En> uint64_t digestRunUnordered(const RunRec<En>& r)
{
    uint64_t h = 1, calls = 0;
    for (const auto& g : r.rec.gens) { h = vh::mix(h ^ digestCands(g.pop)); h = vh::mix(h ^ digestCands(g.sols)); h = vh::mix(h ^ g.evals); }
    for (const auto& c : r.rec.calls) calls += vh::mix(chromHash(c.chrom));
    return vh::mix(h ^ digestCands(r.sols) ^ r.final_evals) ^ calls;
}
template<class En> void reproThreadsCase(Rng& rg, Case& cs)
{
    MaybeExact tol(true);
    const size_t threads = rg.pick({2, 3, 4, 5, 8});
    if (rg.chance(0.5)) execution_threads(1);                       // new worker threads
    execution_threads(threads);
    RunRec<En> a, b; a.c = randomCfg<En>(rg); a.c.threads = 0; a.c.dynamic = false; a.c.pop = rg.pick({4, 7, 10, 16, 23, 40}); a.b = makeBounds<En>(a.c); b.c = a.c; b.b = a.b;
    typename En::GAT ga(a.c.pop); configure<En>(ga, a.c, a.b, &a.rec); doRun<En>(ga, a);
    const int n = int(rg.below(3));
    for (int k = 0; k < n; k++) forEncoding(rg, [&](auto en)
    {
        using E = decltype(en); RunRec<E> o; o.c = randomCfg<E>(rg); o.c.gens = std::min<size_t>(o.c.gens, 4); o.c.threads = 0; o.b = makeBounds<E>(o.c); if (rg.chance(0.3)) o.rec.throw_at = long(rg.below(40));
        typename E::GAT g(o.c.pop); configure<E>(g, o.c, o.b, &o.rec); try { doRun<E>(g, o); } catch (const std::domain_error&) {}
    });
    if (rg.chance(0.5)) for (size_t i = 0, m = rg.below(20); i < m; i++) { (void)rng::randomNormal(0.0, 1.0); (void)rng::randomInt(0, 5); (void)rng::randomBool(); }
    configure<En>(ga, a.c, a.b, nullptr);
    if (rg.chance(0.5)) { typename En::GAT ga2(b.c.pop); configure<En>(ga2, b.c, b.b, &b.rec); doRun<En>(ga2, b); }
    else doRun<En>(ga, b);
    size_t g = 0; while (g < a.rec.gens.size() && g < b.rec.gens.size() && digestCands(a.rec.gens[g].pop) == digestCands(b.rec.gens[g].pop)) g++;
    VH_REQUIRE(digestRunUnordered(a) == digestRunUnordered(b), "same-seed-different-run", a.text(), " with ", threads, " threads: differs from generation ", g, " of ", a.rec.gens.size(), "/", b.rec.gens.size(), " on");
    vh::stat("same_seed_comparisons_many_threads"); cs.nontrivial = a.rec.gens.size() > 1; cs.sig(digestRunUnordered(a));
    cs.sample(a.text() + vh::str(" -> generations=", a.rec.gens.size()));
}

template<class En> void gaArea(const std::string& prop, uint64_t q, uint64_t t)
{
    const std::string e = En::name;
    auto K = [&](const char* k) { return e + "-" + k; };
    /* Other builds of the library: every run monitor, and the digests of the runs are compared between the builds. */
    if (prop == "P36") vh::cases(K("run"), q, t, [](Rng& r, Case& c) { oneRun<En>(r, c, [](auto& rr, auto& ga, bool ex)
    {
        checkValid<En>(rr); checkFitness<En>(rr, ex); if (!rr.c.dynamic && ex) checkOptimal<En>(rr, ga); checkLifecycle<En>(rr, ga, 77); if (ex) checkEvals<En>(rr);
        vh::stat(rr.c.threads == 1 ? "runs_on_one_thread" : "runs_on_many_threads");
    }, [](Rng& g, Cfg& c) { if (c.nobj > 1 && c.algo == 1) c.algo = g.pick({0, 2, 3}); if (g.chance(0.3)) c.keep_all = true; c.threads = 1; }); });
#ifndef VH_BUILDS
    if (prop == "P01") vh::cases(K("run"), q, t, [](Rng& r, Case& c) { oneRun<En>(r, c, [](auto& rr, auto&, bool) { checkValid<En>(rr); }); });
    if (prop == "P02") vh::cases(K("run"), q, t, [](Rng& r, Case& c) { oneRun<En>(r, c, [](auto& rr, auto&, bool ex) { checkFitness<En>(rr, ex); }, [](Rng& g, Cfg& c) { if (g.chance(0.3)) { c.cache = g.pick({1, 2, 3}); c.len = g.pick({2, 3, 4}); c.gens = 14; } }); });
    if (prop == "P02") vh::cases(K("memetic"), q / 6, t / 6, [](Rng& r, Case& c) { oneRun<En>(r, c, [](auto& rr, auto&, bool ex) { checkFitness<En>(rr, ex); }, [](Rng& g, Cfg& c) { c.mut = g.chance(0.7) ? MUT_MEMETIC : MUT_NESTED_GA; c.default_pm = false; c.pc = g.pick({0.0, 0.3}); c.pm = g.pick({0.2, 0.6, 1.0}); c.dynamic = false; if (c.mut == MUT_NESTED_GA) { c.gens = std::min<size_t>(c.gens, 4); c.pop = std::min<size_t>(c.pop, 7); } }); });
    if (prop == "P03") vh::cases(K("run"), q, t, [](Rng& r, Case& c) { oneRun<En>(r, c, [](auto& rr, auto& ga, bool) { checkOptimal<En>(rr, ga); }, [](Rng& g, Cfg& c) { c.dynamic = c.dynamic && g.chance(0.0); if (g.chance(0.5)) c.keep_all = true; if (g.chance(0.3)) c.nobj = g.pick({2, 3}); if (c.nobj > 1 && c.algo == 1) c.algo = g.pick({0, 2, 3}); if (g.chance(0.3)) { c.len = g.pick({1, 2, 3, 4}); } }); });
    if constexpr (!std::is_same_v<En, RealE>)
        if (prop == "P03") vh::cases(K("near-equal"), q / 4, t / 4, [](Rng& r, Case& c) { oneRun<En>(r, c, [](auto& rr, auto& ga, bool) { checkOptimal<En>(rr, ga); }, [](Rng& g, Cfg& c) { c.dynamic = false; c.fkind = F_NEAR; c.nobj = g.pick({1, 2, 2, 3, 4}); c.algo = c.nobj > 1 ? g.pick({0, 2, 3}) : g.pick({0, 1}); if (g.chance(0.5)) c.keep_all = true; }); });
    if (prop == "P04")
    {
        vh::cases(K("run"), q, t, [](Rng& r, Case& c) { oneRun<En>(r, c, [](auto& rr, auto& ga, bool) { checkLifecycle<En>(rr, ga, 77); }); });
        vh::cases(K("reuse"), q, t, [](Rng& r, Case& c) { reuseCase<En>(r, c); });
        vh::cases(K("throw"), q, t, [](Rng& r, Case& c) { throwCase<En>(r, c); });
    }
    if (prop == "P05") vh::cases(K("run"), q, t, [](Rng& r, Case& c) { oneRun<En>(r, c, [](auto& rr, auto&, bool ex) { if (ex) checkEvals<En>(rr); }, [](Rng& g, Cfg& c)
    {
        if (g.chance(0.4)) c.mut = numMut<En>() - 2;
        if (g.chance(0.3)) c.cross = numCross<En>() - 2;
        if (g.chance(0.15)) { c.pc = c.pm = 0.0; c.repair = int(g.below(2)); }
        if (g.chance(0.3)) { c.cache = 1 + g.below(4); c.len = g.pick({2, 3, 4, 5}); c.gens = 14; c.dynamic = false; }
    }); });
    if (prop == "P06") { vh::cases(K("repro"), q, t, [](Rng& r, Case& c) { reproCase<En>(r, c); });
        vh::cases(K("repro-threads"), q, t, [](Rng& r, Case& c) { reproThreadsCase<En>(r, c); });
        vh::cases(K("repro-reuse"), q / 2, t / 2, [](Rng& r, Case& c) { reuseCase<En>(r, c); }); }
#endif
}
