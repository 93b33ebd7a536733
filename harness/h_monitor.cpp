/* P23 stop conditions, P24 metrics: the recorded history of a run judged against the definitions. */
#include "ga_common.hpp"
#include "hv.hpp"
#include <optional>
#include <memory>

/* ---- runs whose whole fitness history is scripted ---- */
struct Hist { std::vector<Rows> f; std::vector<size_t> evals; };

class KeepNew final : public algorithm::Algorithm      // the children replace the population
{
    void initializeImpl(const GaInfo&) override {}
    size_t selectImpl(const GaInfo&, const FitnessMatrix& f) const override { return rng::randomIndex(f); }
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix&) override { small_vector<size_t> v(ga.population_size()); for (size_t i = 0; i < v.size(); i++) v[i] = v.size() + i; return v; }
};
struct Script
{
    size_t pop = 1, nobj = 1; std::vector<Rows> rows;                  // rows[generation][candidate]
    std::atomic<size_t> gen{ 0 }, k{ 0 }, calls{ 0 }; long throw_gen = -1;
    void restart() { gen = 0; k = 0; calls = 0; }
};
class ScriptFitness final : public FitnessFunctionBase<BinaryGene>
{
public:
    ScriptFitness(size_t len, bool dynamic, std::shared_ptr<Script> s) : FitnessFunctionBase<BinaryGene>(len, dynamic ? FitnessFunctionInfo::Type::Dynamic : FitnessFunctionInfo::Type::Static), s_(std::move(s)) {}
private:
    std::shared_ptr<Script> s_;
    FitnessVector invoke(const Chromosome<BinaryGene>&) const override
    {
        const size_t g = s_->gen; s_->calls++;
        if (s_->throw_gen >= 0 && g >= size_t(s_->throw_gen)) throw std::domain_error("scripted");
        const Row& r = s_->rows[std::min(g, s_->rows.size() - 1)][s_->k++ % s_->pop];
        return FitnessVector(r.begin(), r.end());
    }
};
/* A history of fitness levels that rises, rests, falls and recovers, by steps around `step`. */
static std::shared_ptr<Script> makeScript(Rng& r, size_t pop, size_t nobj, size_t gens, double step)
{
    auto s = std::make_shared<Script>(); s->pop = pop; s->nobj = nobj;
    const double offset = r.pick({ 0.0, -100.0, 1000.0 }); const bool flat = r.chance(0.15), same = r.chance(0.2); const int shape = int(r.below(5));
    const bool fine = pop > 64 && r.chance(0.7); auto depth = [&] { return fine ? double(r.below(1 << 17)) / 65536 : double(r.below(32)) / 16; };   // all the values of a large population differ, or most of them are equal to others
    Row level(nobj); for (auto& x : level) x = offset + double(r.range(-40, 40)) / 4;
    std::vector<Row> back(pop, Row(nobj, 0.0)); for (size_t i = 0; i < pop; i++) for (auto& x : back[i]) x = same ? 0.0 : depth();
    Rows prev;
    for (size_t g = 0; g <= gens; g++)
    {
        Rows rows;
        if (shape == 4 && r.chance(0.3)) for (auto& b : back) for (auto& x : b) x = depth();
        for (size_t i = 0; i < pop; i++) { Row v(nobj); for (size_t o = 0; o < nobj; o++) v[o] = level[o] - back[i][o]; rows.push_back(v); }
        if (shape == 3 && r.chance(0.3)) for (auto& v : rows) for (auto& x : v) x = offset + double(r.range(-64, 64)) / 8;
        if (r.chance(0.1) && !prev.empty()) rows = prev;
        s->rows.push_back(rows); prev = rows;
        if (!flat) for (auto& x : level) switch (shape)
        {
            case 0: if (r.chance(0.6)) x += step * r.pick({ 1.0, 1.0, 0.5, 2.0 }); break;
            case 1: if (r.chance(0.25)) x += step * r.pick({ 1.0, -1.0, 0.5, 3.0, -3.0 }); break;
            case 2: x += step * double(r.range(-2, 2)) / 2; break;
            default: if (r.chance(0.4)) x += step * double(r.range(-4, 4)) / 4; break;
        }
    }
    return s;
}
static Hist g_hist;
template<class GAT> void record(GAT& ga, std::shared_ptr<Script> s, std::function<void(const GaInfo&)> extra = {})
{
    g_hist = {};
    ga.on_generation_end([s, extra](const GaInfo& info)
    {
        Rows rows; for (const auto& row : info.fitness_matrix()) rows.emplace_back(row.begin(), row.end());
        VH_CHECK(info.generation_cntr() == g_hist.f.size(), "generation-number", "generation ", g_hist.f.size(), " is reported as ", info.generation_cntr());
        g_hist.f.push_back(rows); g_hist.evals.push_back(info.num_fitness_evals());
        if (extra) extra(info);
        s->gen++; s->k = 0;
    });
}
static Row rowMax(const Rows& f) { Row m = f[0]; for (auto& x : f) for (size_t o = 0; o < m.size(); o++) m[o] = std::max(m[o], x[o]); return m; }
static Row rowMin(const Rows& f) { Row m = f[0]; for (auto& x : f) for (size_t o = 0; o < m.size(); o++) m[o] = std::min(m[o], x[o]); return m; }

/* ================= P23 ================= */
enum { EVALS, VALUE, MEAN, BEST, LAMBDA, NEVER, STATEFUL, AND, OR, NOT };
struct Node { int kind = NEVER; size_t n = 0; double delta = 0; Row thr; std::shared_ptr<Node> a, b; };
using NodeP = std::shared_ptr<Node>;
static std::string text(const Node& n)
{
    switch (n.kind)
    {
        case EVALS: return vh::str("evals(", n.n, ")"); case VALUE: return vh::str("value", vh::vec(n.thr)); case MEAN: return vh::str("meanstall(", n.n, ",", n.delta, ")"); case BEST: return vh::str("beststall(", n.n, ",", n.delta, ")");
        case LAMBDA: return vh::str("lambda(", n.n, ")"); case NEVER: return "never"; case STATEFUL: return vh::str("calls(", n.n, ")");
        case AND: return "(" + text(*n.a) + " && " + text(*n.b) + ")"; case OR: return "(" + text(*n.a) + " || " + text(*n.b) + ")"; default: return "!" + text(*n.a);
    }
}
/* A user-defined condition with its own state: true at every generation from its n-th evaluation on that is not a multiple of 3. */
class Stateful final : public stopping::StopCondition
{
public:
    explicit Stateful(size_t n) : n_(n) {}
private:
    size_t n_, calls_ = 1000;
    void initialize(const GaInfo&) override { calls_ = 0; }
    bool stop_condition(const GaInfo&) override { calls_++; return calls_ > n_ && calls_ % 3; }
};
class Any final : public stopping::StopCondition
{
public:
    explicit Any(std::shared_ptr<stopping::StopCondition> p) : p_(std::move(p)) {}
private:
    std::shared_ptr<stopping::StopCondition> p_;
    void initialize(const GaInfo& ga) override { p_->initialize(ga); }
    bool stop_condition(const GaInfo& ga) override { return (*p_)(ga); }
};
template<class C> Any any(C c) { return Any{ std::make_shared<C>(std::move(c)) }; }
static bool lambdaCond(size_t n, size_t g, const Row& best) { return (g * 7 + n) % 5 == 0 && best[0] > double(n) - 40; }
static Any build(const Node& n, Rng& r)
{
    using namespace stopping;
    const bool setters = r.chance(0.4);
    switch (n.kind)
    {
        case EVALS: { FitnessEvals c{ setters ? 1 : n.n }; if (setters) c.max_fitness_evals(n.n); VH_CHECK(c.max_fitness_evals() == n.n, "parameter", "max_fitness_evals"); return any(c); }
        case VALUE: { FitnessVector t(n.thr.begin(), n.thr.end()); FitnessValue c{ setters ? FitnessVector(1, 0.0) : t }; if (setters) c.fitness_threshold(t); VH_CHECK(c.fitness_threshold() == t, "parameter", "fitness_threshold"); return any(c); }
        case MEAN: { FitnessMeanStall c; if (setters) { c.patience(n.n); c.delta(n.delta); } else c = FitnessMeanStall{ n.n, n.delta }; VH_CHECK(c.patience() == n.n && c.delta() == n.delta, "parameter", "mean stall"); return any(c); }
        case BEST: { FitnessBestStall c; if (setters) { c.patience(n.n); c.delta(n.delta); } else c = FitnessBestStall{ n.n, n.delta }; VH_CHECK(c.patience() == n.n && c.delta() == n.delta, "parameter", "best stall"); return any(c); }
        case LAMBDA: return any(Lambda{ [n = n.n](const GaInfo& ga) { Row b; for (size_t o = 0; o < ga.num_objectives(); o++) { double m = ga.fitness_matrix()[0][o]; for (const auto& f : ga.fitness_matrix()) m = std::max(m, f[o]); b.push_back(m); } return lambdaCond(n, ga.generation_cntr(), b); } });
        case NEVER: return any(NoEarlyStop{});
        case STATEFUL: return any(Stateful{ n.n });
        case AND: return any(build(*n.a, r) && build(*n.b, r));
        case OR: return any(build(*n.a, r) || build(*n.b, r));
        default: return any(!build(*n.a, r));
    }
}
/* Truth of a condition at every generation of the history: 1 true, 0 false, -1 not decidable (rounding). */
static std::vector<int> truth(const Node& n, const Hist& h)
{
    const size_t G = h.f.size(); std::vector<int> t(G, 0);
    auto stall = [&](auto value, bool exact)
    {
        // improved in some objective: at least delta better than the value at the last improvement of that objective
        std::optional<Row> best; size_t waited = 0;
        for (size_t g = 0; g < G; g++)
        {
            const Row v = value(h.f[g]); bool improved = !best;
            if (!best) best = v;
            else for (size_t o = 0; o < v.size(); o++)
            {
                if (!exact && std::abs(v[o] - ((*best)[o] + n.delta)) <= 1e-9 * (1 + std::abs(v[o]))) { for (size_t k = g; k < G; k++) t[k] = -1; return; }
                if (v[o] >= (*best)[o] + n.delta) { (*best)[o] = v[o]; improved = true; }
            }
            waited = improved ? 0 : waited + 1;
            t[g] = waited > n.n;
        }
    };
    switch (n.kind)
    {
        case EVALS: for (size_t g = 0; g < G; g++) t[g] = h.evals[g] >= n.n; break;
        case VALUE: for (size_t g = 0; g < G; g++) for (auto& f : h.f[g]) { bool all = true; for (size_t o = 0; o < f.size(); o++) all &= f[o] >= n.thr[o]; t[g] |= all; } break;
        case BEST: stall(rowMax, true); break;
        case MEAN: { const size_t pop = h.f.empty() ? 1 : h.f[0].size(); stall([](const Rows& f) { Row m(f[0].size(), 0.0); for (auto& x : f) for (size_t o = 0; o < m.size(); o++) m[o] += x[o]; for (auto& x : m) x /= double(f.size()); return m; }, (pop & (pop - 1)) == 0); break; }
        case LAMBDA: for (size_t g = 0; g < G; g++) t[g] = lambdaCond(n.n, g, rowMax(h.f[g])); break;
        case NEVER: break;
        case STATEFUL: for (size_t g = 0; g < G; g++) t[g] = g + 1 > n.n && (g + 1) % 3; break;
        case AND: { auto a = truth(*n.a, h), b = truth(*n.b, h); for (size_t g = 0; g < G; g++) t[g] = a[g] == 0 || b[g] == 0 ? 0 : a[g] < 0 || b[g] < 0 ? -1 : 1; break; }
        case OR: { auto a = truth(*n.a, h), b = truth(*n.b, h); for (size_t g = 0; g < G; g++) t[g] = a[g] == 1 || b[g] == 1 ? 1 : a[g] < 0 || b[g] < 0 ? -1 : 0; break; }
        default: { auto a = truth(*n.a, h); for (size_t g = 0; g < G; g++) t[g] = a[g] < 0 ? -1 : !a[g]; break; }
    }
    return t;
}
static NodeP randomNode(Rng& r, int depth, const Script& s, double step, size_t gens, bool allow_value)
{
    auto n = std::make_shared<Node>();
    if (depth > 0 && r.chance(0.75))
    {
        n->kind = r.pick<int>({ AND, AND, OR, OR, NOT });
        n->a = randomNode(r, depth - 1, s, step, gens, allow_value); if (n->kind != NOT) n->b = randomNode(r, depth - 1, s, step, gens, allow_value);
        return n;
    }
    n->kind = r.pick<int>({ EVALS, VALUE, VALUE, MEAN, MEAN, BEST, BEST, BEST, LAMBDA, NEVER, STATEFUL });
    if (n->kind == VALUE && !allow_value) n->kind = BEST;
    switch (n->kind)
    {
        case EVALS: n->n = r.pick<size_t>({ s.pop * (1 + r.below(gens + 1)), r.below(s.pop * (gens + 2)), 0, s.pop * gens + 1000 }); break;
        case VALUE:
        {
            // around values of the history
            const Rows& f = s.rows[r.below(s.rows.size())]; n->thr = r.chance(0.5) ? f[r.below(f.size())] : rowMax(f);
            for (auto& x : n->thr) x += r.pick({ 0.0, 0.0, 0.25, -0.25, 1.0, -1.0 });
            if (s.nobj > 1 && r.chance(0.3)) n->thr[r.below(s.nobj)] += r.pick({ 50.0, -50.0 });
            break;
        }
        case MEAN: case BEST: n->n = r.pick<size_t>({ 0, 0, 1, 1, 2, 3, 5, 100 }); n->delta = r.pick({ step, step, step / 2, 2 * step, 0.0, 1e-6, 1.0 / 1024 }); break;
        default: n->n = r.below(gens + 2);
    }
    return n;
}
static void judge(const Node& cond, const Hist& h, size_t max_gen, const std::string& what)
{
    const auto t = truth(cond, h); const size_t G = h.f.size();
    VH_REQUIRE(G >= 1 && G <= max_gen, "too-many-generations", what, ": the run has ", G, " generations");
    for (size_t g = 0; g + 1 < G; g++)
    {
        if (t[g] < 0) { vh::stat("undecidable"); return; }
        VH_REQUIRE(!t[g], "stopped-late", what, ": the condition was met at generation ", g, ", the run went on to ", G - 1);
    }
    if (t[G - 1] < 0) { vh::stat("undecidable"); return; }
    VH_REQUIRE(t[G - 1] || G == max_gen, "stopped-early", what, ": the run stopped at generation ", G - 1, ", where the condition is not met");
    vh::stat("stops_judged"); vh::stat(t[G - 1] ? "stopped_by_condition" : "stopped_by_limit"); vh::stat("generations", G);
}
static std::string histText(const Hist& h) { std::string s; for (size_t g = 0; g < h.f.size() && g < 14; g++) { s += vh::str("\n  gen ", g, " evals ", h.evals[g], ":"); for (size_t i = 0; i < h.f[g].size() && i < 5; i++) s += " " + vh::vec(h.f[g][i]); } return s; }

static void conditions(Rng& r, Case& c)
{
    const size_t pop = r.chance(0.03) ? r.pick<size_t>({ 65, 130, 270 }) : r.pick<size_t>({ 1, 2, 2, 3, 4, 4, 5, 8 }), nobj = r.pick<size_t>({ 1, 1, 2, 3 }), gens = r.pick<size_t>({ 1, 2, 5, 12, 20, 40 }); const double step = r.pick({ 0.5, 0.25, 1.0 });
    const bool value = r.chance(0.5); auto s0 = makeScript(r, pop, nobj, gens, step);
    NodeP cond = randomNode(r, int(r.below(5)), *s0, step, gens, value);
    if (r.chance(0.25)) { auto inner = cond; cond = std::make_shared<Node>(); cond->kind = OR; cond->a = randomNode(r, 0, *s0, step, gens, value); cond->b = inner; }
    execution_threads(r.pick({ 1, 1, 2, 4 }));
    BinaryGA ga{ pop }; ga.algorithm(KeepNew{}); ga.crossover_method(crossover::binary::SinglePoint{ 0.5 });
    Any built = build(*cond, r);
    if (r.chance(0.5)) ga.stop_condition(std::move(built)); else ga.stop_condition(std::make_unique<Any>(std::move(built)));
    const int runs = 1 + int(r.below(3)); size_t last = 0;
    for (int k = 0; k < runs; k++)
    {
        const size_t m = k && !value && r.chance(0.4) ? r.pick<size_t>({ 1, 2, 4 }) : nobj;
        auto s = k ? makeScript(r, pop, m, gens, step) : s0; s->restart();
        const bool fails = k + 1 < runs && r.chance(0.3); if (fails) s->throw_gen = long(r.below(gens + 1));
        record(ga, s); bool threw = false; const bool dynamic = r.chance(0.8);
        const size_t limit = gens;
        try { if (r.chance(0.3)) { ga.max_gen(limit); ga.solve(ScriptFitness(8, dynamic, s)); } else ga.solve(ScriptFitness(8, dynamic, s), limit); }
        catch (const std::domain_error&) { threw = true; }
        if (threw) { VH_REQUIRE(fails, "unexpected-exception", "the scripted exception was thrown"); vh::stat("failed_runs"); continue; }
        auto what = vh::str(text(*cond), " run ", k, " of ", runs, ", at most ", limit, " generations", histText(g_hist));
        judge(*cond, g_hist, limit, what);
        last = g_hist.f.size(); c.sig(uint64_t(last)); c.sig(vh::hash_str(text(*cond)));
    }
    c.nontrivial = last > 1; c.sample(vh::str(text(*cond), ": ", last, " of at most ", gens, " generations"));
}
/* the statically typed operators, without type erasure between the parts */
static void typed(Rng& r, Case& c)
{
    using namespace stopping;
    const size_t pop = r.pick<size_t>({ 1, 2, 4, 8 }), nobj = r.pick<size_t>({ 1, 2 }), gens = r.pick<size_t>({ 5, 15, 30 }); const double step = 0.5;
    auto s = makeScript(r, pop, nobj, gens, step); auto leaf = [&](int kind) { for (;;) { auto n = randomNode(r, 0, *s, step, gens, true); if (n->kind == kind) return n; } };
    auto comp = [](int k, NodeP a, NodeP b = nullptr) { auto n = std::make_shared<Node>(); n->kind = k; n->a = a; n->b = b; return n; };
    NodeP m = leaf(MEAN), b = leaf(BEST), e = leaf(EVALS), v = leaf(VALUE), cond; BinaryGA ga{ pop }; ga.algorithm(KeepNew{});
    FitnessMeanStall M{ m->n, m->delta }; FitnessBestStall B{ b->n, b->delta }; FitnessEvals E{ e->n }; FitnessValue V{ FitnessVector(v->thr.begin(), v->thr.end()) };
    switch (r.below(7))
    {
        case 0: cond = comp(OR, comp(AND, m, b), e); ga.stop_condition((M && B) || E); break;
        case 1: cond = comp(AND, comp(OR, m, b), e); ga.stop_condition((M || B) && E); break;
        case 2: cond = comp(AND, comp(NOT, comp(OR, e, m)), b); ga.stop_condition(!(E || M) && B); break;
        case 3: cond = comp(OR, comp(AND, comp(OR, v, b), comp(OR, m, b)), comp(NOT, comp(NOT, v))); ga.stop_condition(((V || B) && (M || B)) || !!V); break;
        case 4: cond = comp(AND, comp(OR, comp(AND, b, m), v), comp(OR, v, b)); ga.stop_condition(((B && M) || V) && (V || B)); break;
        case 5: cond = b; ga.stop_condition(B); break;
        default: cond = comp(OR, comp(NOT, comp(OR, comp(NOT, m), comp(NOT, b))), comp(AND, e, v)); ga.stop_condition(!(!M || !B) || (E && V)); break;
    }
    for (int k = 0; k < 2; k++)
    {
        if (k) { auto s2 = makeScript(r, pop, nobj, gens, step); s->rows = s2->rows; } s->restart(); record(ga, s);
        ga.solve(ScriptFitness(6, true, s), gens); judge(*cond, g_hist, gens, vh::str(text(*cond), " (typed) run ", k, histText(g_hist)));
        c.sig(uint64_t(g_hist.f.size()));
    }
    c.nontrivial = g_hist.f.size() > 1; c.sig(vh::hash_str(text(*cond)));
}
/* complete runs with the built-in algorithms and a static fitness function */
static void realRuns(Rng& r, Case& c)
{
    Cfg cfg = randomCfg<BinE>(r); cfg.gens = r.pick({ 3, 8, 20 }); cfg.repair = 0; cfg.initk = 0; execution_threads(cfg.threads); cfg.fkind = r.pick<int>({ F_SMOOTH, F_LEVELS, F_WIDE, F_NEG });
    Recorder<BinE> rec; BinaryGA ga{ 5 }; configure<BinE>(ga, cfg, {}, &rec);
    Script ranges; ranges.pop = cfg.pop; ranges.nobj = cfg.nobj; { Rows rows; for (int i = 0; i < 6; i++) { auto ch = randomChrom<BinE>(r, cfg, {}); auto f = pureFitness(ch, cfg.nobj, cfg.fkind); rows.emplace_back(f.begin(), f.end()); } ranges.rows = { rows }; }
    if (cfg.dynamic) for (auto& row : ranges.rows[0]) row[0] *= 1048576.0;
    NodeP cond = randomNode(r, int(r.below(3)), ranges, 1.0, cfg.gens, true); ga.stop_condition(build(*cond, r)); ga.track();
    const bool huge = r.chance(0.2);     // no limit in practice: the condition has to end the run
    if (huge) { auto e = std::make_shared<Node>(); e->kind = BEST; e->n = 3; e->delta = 1e9; auto o = std::make_shared<Node>(); o->kind = OR; o->a = cond; o->b = e; cond = o; ga.stop_condition(build(*cond, r)); cfg.gens = std::numeric_limits<size_t>::max(); if (r.chance(0.5)) ga.track(metrics::FitnessMax{}, metrics::NadirPoint{}, metrics::FitnessEvaluations{}); }
    solveRecorded<BinE>(ga, cfg, {}, rec);
    Hist h; for (auto& g : rec.gens) { Rows rows; for (auto& f : g.fmat) rows.emplace_back(f.begin(), f.end()); h.f.push_back(rows); h.evals.push_back(g.calls - 1); }   // one call determines the number of objectives
    for (size_t g = 0; g < h.evals.size(); g++) VH_REQUIRE(h.evals[g] == rec.gens[g].evals, "self-test", "evaluations");
    judge(*cond, h, cfg.gens, vh::str(text(*cond), " in ", cfg.text("binary"), histText(h)));
    if (huge) vh::stat("unlimited_runs");
    c.nontrivial = h.f.size() > 1; c.sig(uint64_t(h.f.size())); c.sig(cfg.seed);
}
static void p23() { vh::cases("conditions", 8000, 400000, conditions); vh::cases("typed", 2400, 100000, typed); vh::cases("runs", 1600, 60000, realRuns); }

/* ================= P24 ================= */
class OwnMetric final : public metrics::Monitor<OwnMetric, std::vector<size_t>> { void update(const GaInfo& ga) override { data_.push_back(ga.generation_cntr()); } };
static bool domd(const Row& a, const Row& b) { bool s = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] < b[i]) return false; if (a[i] > b[i]) s = true; } return s; }

enum { M_MIN = 1, M_MAX = 2, M_MEAN = 4, M_VAR = 8, M_DEV = 16, M_NADIR = 32, M_HV = 64, M_AUTO = 128, M_EVALS = 256, M_OWN = 512 };
static int track(GaInfo& ga, int set, const Row& ref)
{
    using namespace metrics; Hypervolume hv{ FitnessVector(ref.begin(), ref.end()) };
    switch (set)
    {
        case 0: ga.track(FitnessMin{}, FitnessMax{}, FitnessMean{}, FitnessVariance{}, FitnessStdDev{}, NadirPoint{}, hv, AutoHypervolume{}, FitnessEvaluations{}, OwnMetric{}); return 1023;
        case 1: ga.track(AutoHypervolume{}); return M_AUTO;
        case 2: ga.track(hv, FitnessMin{}); return M_HV | M_MIN;
        case 3: ga.track(FitnessStdDev{}, FitnessVariance{}, FitnessMean{}); return M_DEV | M_VAR | M_MEAN;
        case 4: ga.track(FitnessEvaluations{}, OwnMetric{}, FitnessMax{}); return M_EVALS | M_OWN | M_MAX;
        case 5: ga.track(NadirPoint{}, AutoHypervolume{}, FitnessMean{}, FitnessMax{}); return M_NADIR | M_AUTO | M_MEAN | M_MAX;
        case 6: ga.track(FitnessEvaluations{}); return M_EVALS;
        default: ga.track(OwnMetric{}, FitnessEvaluations{}, AutoHypervolume{}, hv, NadirPoint{}, FitnessStdDev{}, FitnessVariance{}, FitnessMean{}, FitnessMax{}, FitnessMin{}); return 1023;
    }
}
static double magnitude(const Rows& f) { double m = 1e-300; for (auto& x : f) for (double v : x) m = std::max(m, std::abs(v)); return m; }

/* Checks every tracked metric against the history; only the last entry of a metric, unless `all`. */
static void checkMetrics(const GaInfo& ga, int mask, const Hist& h, const std::vector<size_t>& calls, const Row& ref, bool all, const std::string& what)
{
    using namespace metrics; const size_t G = h.f.size(), m = h.f[0][0].size();
    auto rows = [&](const char* name, bool tracked, const auto* metric, auto want, auto tol)
    {
        VH_REQUIRE(tracked == (metric != nullptr), "tracked", what, ": ", name, tracked ? " is not found" : " is found but not tracked"); if (!metric) return;
        VH_REQUIRE(metric->size() == G && metric->data().size() == G && size_t(std::distance(metric->begin(), metric->end())) == G, "wrong-size", what, ": ", name, " has ", metric->size(), " entries after ", G, " generations");
        for (size_t g = all ? 0 : G - 1; g < G; g++)
        {
            const std::vector<long double> w = want(g); const auto got = (*metric)[g]; const auto via = metric->begin()[std::ptrdiff_t(g)];
            VH_REQUIRE(got.size() == m, "wrong-size", what, ": ", name, " has ", got.size(), " columns");
            for (size_t o = 0; o < m; o++)
            {
                VH_REQUIRE(std::abs(got[o] - w[o]) <= tol(g), "wrong-value", what, ": ", name, " of generation ", g, " is ", got[o], " instead of ", double(w[o]), " in objective ", o);
                VH_REQUIRE(via[o] == got[o], "wrong-value", what, ": ", name, " accessed through an iterator");
            }
            vh::stat("entries_checked");
        }
    };
    auto zero = [](size_t) { return 0.0; };
    auto ld = [](const Row& r) { return std::vector<long double>(r.begin(), r.end()); };
    auto mean = [&](size_t g) { std::vector<long double> s(m, 0); for (auto& x : h.f[g]) for (size_t o = 0; o < m; o++) s[o] += x[o]; for (auto& x : s) x /= double(h.f[g].size()); return s; };
    auto var = [&](size_t g) { auto mu = mean(g); std::vector<long double> s(m, 0); if (h.f[g].size() > 1) { for (auto& x : h.f[g]) for (size_t o = 0; o < m; o++) s[o] += (x[o] - mu[o]) * (x[o] - mu[o]); for (auto& x : s) x /= double(h.f[g].size() - 1); } return s; };
    auto spread = [&](size_t g) { double w = 0; auto a = rowMin(h.f[g]), b = rowMax(h.f[g]); for (size_t o = 0; o < m; o++) w = std::max(w, b[o] - a[o]); return w; };
    auto n = [&](size_t g) { return double(h.f[g].size()); };
    auto mtol = [&](size_t g) { return 4e-16 * n(g) * magnitude(h.f[g]); };                                          // error of a mean
    auto vtol = [&](size_t g) { return 1e-14 * n(g) * spread(g) * spread(g) + 4 * mtol(g) * (spread(g) + mtol(g)); };
    auto dtol = [&](size_t g) { auto v = var(g); double t = 0; for (auto x : v) t = std::max(t, double(std::sqrt(x + vtol(g)) - std::sqrt(std::max<long double>(0, x - vtol(g))))); return t + 1e-300; };
    rows("FitnessMin", mask & M_MIN, ga.get_metric_if<FitnessMin>(), [&](size_t g) { return ld(rowMin(h.f[g])); }, zero);
    rows("FitnessMax", mask & M_MAX, ga.get_metric_if<FitnessMax>(), [&](size_t g) { return ld(rowMax(h.f[g])); }, zero);
    rows("FitnessMean", mask & M_MEAN, ga.get_metric_if<FitnessMean>(), mean, mtol);
    rows("FitnessVariance", mask & M_VAR, ga.get_metric_if<FitnessVariance>(), var, vtol);
    rows("FitnessStdDev", mask & M_DEV, ga.get_metric_if<FitnessStdDev>(), [&](size_t g) { auto v = var(g); for (auto& x : v) x = std::sqrt(x); return v; }, dtol);
    rows("NadirPoint", mask & M_NADIR, ga.get_metric_if<NadirPoint>(), [&](size_t g) { Rows opt; for (auto& x : h.f[g]) { bool d = false; for (auto& y : h.f[g]) d |= domd(y, x); if (!d) opt.push_back(x); } return ld(rowMin(opt)); }, zero);
    auto values = [&](const char* name, bool tracked, const auto* metric, auto want, auto tol)
    {
        VH_REQUIRE(tracked == (metric != nullptr), "tracked", what, ": ", name, tracked ? " is not found" : " is found but not tracked"); if (!metric) return;
        VH_REQUIRE(metric->size() == G && metric->data().size() == G, "wrong-size", what, ": ", name, " has ", metric->size(), " entries after ", G, " generations");
        for (size_t g = all ? 0 : G - 1; g < G; g++) { const long double w = want(g); VH_REQUIRE(std::abs((long double)(*metric)[g] - w) <= tol(g), "wrong-value", what, ": ", name, " of generation ", g, " is ", (*metric)[g], " instead of ", double(w)); vh::stat("entries_checked"); }
    };
    auto box = [&](const Row& from, size_t g) { long double b = 1; auto top = rowMax(h.f[g]); for (size_t o = 0; o < m; o++) b *= std::max(0.0, top[o] - from[o]); return double(b); };
    values("Hypervolume", mask & M_HV, ga.get_metric_if<Hypervolume>(), [&](size_t g) { return hvRef(h.f[g], ref, m); }, [&](size_t g) { return 1e-11 * box(ref, g) * n(g); });
    if (auto* hv = ga.get_metric_if<Hypervolume>()) VH_REQUIRE(Row(hv->ref_point().begin(), hv->ref_point().end()) == ref, "reference-point", what, ": the reference point changed");
    Row worst = rowMin(h.f[0]); for (auto& f : h.f) { auto w = rowMin(f); for (size_t o = 0; o < m; o++) worst[o] = std::min(worst[o], w[o]); }
    if (auto* av = ga.get_metric_if<AutoHypervolume>()) VH_REQUIRE(Row(av->ref_point().begin(), av->ref_point().end()) == worst, "reference-point", what, ": the reference point is ", vh::vec(av->ref_point()), " instead of ", vh::vec(worst));
    values("AutoHypervolume", mask & M_AUTO, ga.get_metric_if<AutoHypervolume>(), [&](size_t g) { return hvRef(h.f[g], worst, m); }, [&](size_t g) { return 1e-11 * box(worst, g) * n(g); });
    values("FitnessEvaluations", mask & M_EVALS, ga.get_metric_if<FitnessEvaluations>(), [&](size_t g) { return (long double)(calls[g] - (g ? calls[g - 1] : 0)); }, zero);
    values("a user-defined metric", mask & M_OWN, ga.get_metric_if<OwnMetric>(), [&](size_t g) { return (long double)(g); }, zero);
    if (mask & M_AUTO) { bool moved = false; Row w0 = rowMin(h.f[0]); moved = w0 != worst; if (moved && m > 2) vh::stat("moved_reference_points"); }
}
static void metricCase(Rng& r, Case& c)
{
    const bool large = r.chance(0.05);   // more candidates, at most two objectives
    const size_t pop = large ? r.pick<size_t>({ 65, 100, 130, 200 }) : r.pick<size_t>({ 1, 2, 3, 4, 7, 12 }), gens = large ? r.pick<size_t>({ 2, 4, 8 }) : r.pick<size_t>({ 1, 2, 4, 8, 12 }); BinaryGA ga{ pop }; ga.algorithm(KeepNew{}); const bool strict = r.chance(0.3);
    std::optional<math::ScopedTolerances> tol; if (strict) tol.emplace(0.0, 0.0);
    const int runs = 1 + int(r.below(3)); size_t nobj = large ? 1 : r.pick<size_t>({ 1, 2, 3, 4 }); int mask = 0; Row ref; bool tracked = false;
    for (int k = 0; k < runs; k++)
    {
        const int threads = r.pick({ 1, 1, 2, 4, 8 }); execution_threads(threads);
        if (k == 0 || (r.chance(0.4) && !(mask & M_HV))) nobj = large ? r.pick<size_t>({ 1, 2 }) : r.pick<size_t>({ 1, 2, 3, 4 });
        auto s = makeScript(r, pop, nobj, gens, r.pick({ 0.5, 4.0 }));
        if (r.chance(0.2)) { double scale = r.pick({ 1e-6, 1e6, 1e-3 }); for (auto& g : s->rows) for (auto& x : g) for (auto& v : x) v *= scale; }
        Row low = rowMin(s->rows[0]); for (auto& f : s->rows) { auto w = rowMin(f); for (size_t o = 0; o < nobj; o++) low[o] = std::min(low[o], w[o]); }
        if (!tracked || r.chance(0.3) || (mask & M_HV)) { ref = low; for (auto& x : ref) x -= double(r.below(3)) * 0.5 + (r.chance(0.5) ? 0.0 : 1.0); mask = track(ga, int(r.below(8)), ref); tracked = true; }
        std::vector<size_t> calls; const bool dynamic = r.chance(0.7);
        const bool fails = k + 1 < runs && r.chance(0.25); if (fails) s->throw_gen = long(r.below(gens + 1));
        const auto what = vh::str("run ", k, " of ", gens, " generations, ", pop, " candidates, ", nobj, " objectives, ", threads, " threads");
        bool bad = false;
        record(ga, s, [&](const GaInfo& info) { calls.push_back(s->calls - 1); if (!bad) try { checkMetrics(info, mask, g_hist, calls, ref, (mask & M_AUTO) != 0 && g_hist.f.size() < 6, what); } catch (vh::CaseFail&) { bad = true; } });
        try { ga.solve(ScriptFitness(r.pick({ 1, 5, 20 }), dynamic, s), gens); } catch (const std::domain_error&) { VH_REQUIRE(fails, "unexpected-exception", "the scripted exception was thrown"); vh::stat("failed_runs"); continue; }
        if (bad) throw vh::CaseFail{};
        VH_REQUIRE(g_hist.f.size() == gens, "self-test", "generations");
        checkMetrics(ga, mask, g_hist, calls, ref, true, what + " (end)"); vh::stat("runs"); vh::stat("generations", gens);
        c.nontrivial |= gens > 1 && pop > 1; c.sig(uint64_t(mask * 64 + gens)); c.sig(g_hist.f.back()[0][0]); c.sample(what); if (large) vh::stat("large_populations");
    }
}
/* real runs: the same metrics for every set of tracked metrics and number of threads, and against the recorded populations */
static void metricRuns(Rng& r, Case& c)
{
    Cfg cfg = randomCfg<BinE>(r); cfg.gens = r.pick({ 2, 5, 10 }); cfg.pop = std::min<size_t>(cfg.pop, 12); cfg.nobj = std::min<size_t>(cfg.nobj, 4); cfg.stop = 7; cfg.metrics = 0; if (cfg.nobj == 1) cfg.algo = 1; else cfg.algo = r.pick({ 2, 3 });
    if (cfg.fkind == F_FRAC || cfg.fkind == F_WIDE) cfg.fkind = F_LEVELS; if (cfg.dynamic) cfg.dynamic = false;
    execution_threads(cfg.threads); Recorder<BinE> rec; BinaryGA ga{ 5 }; configure<BinE>(ga, cfg, {}, &rec);
    Row ref(cfg.nobj, -5000.0); const int mask = track(ga, r.chance(0.5) ? 0 : int(r.below(8)), ref);
    Hist h; std::vector<size_t> calls; bool bad = false; const auto what = cfg.text("binary");
    auto init = makeInitial<BinE>(cfg, {});
    ga.on_generation_end([&](const GaInfo& info)
    {
        Rows rows; for (const auto& cand : static_cast<const BinaryGA&>(info).population()) rows.emplace_back(cand.fitness.begin(), cand.fitness.end());
        h.f.push_back(rows); calls.push_back(rec.ncalls - 1); rec.ngens++;
        if (!bad) try { checkMetrics(info, mask, h, calls, ref, false, what); } catch (vh::CaseFail&) { bad = true; }
    });
    ga.solve(std::make_unique<MonFitness<BinE>>(cfg, rec), cfg.gens, std::move(init));
    if (bad) throw vh::CaseFail{};
    checkMetrics(ga, mask, h, calls, ref, true, what + " (end)"); vh::stat("runs"); vh::stat("generations", h.f.size());
    c.nontrivial = h.f.size() > 1; c.sig(cfg.seed);
}
static void p24() { vh::cases("metrics", 6000, 300000, metricCase); vh::cases("runs", 1600, 80000, metricRuns); }

int main(int argc, char** argv) { return vh::run(argc, argv, [](const std::string& p) { if (p == "P23") p23(); else p24(); }); }
