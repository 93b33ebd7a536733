/* Selection, replacement, NSGA-II and NSGA-III (P11-P14). */
#include "ga_common.hpp"
#include "stats.hpp"

using Row = std::vector<double>;
using Rows = std::vector<Row>;
using VCand = Candidate<RealGene>;
using VPop = Population<RealGene>;

static FitnessMatrix toMat(const Rows& r) { FitnessMatrix m; for (auto& x : r) m.append_row(x); return m; }
static Rows toRows(const FitnessMatrix& m) { Rows r; for (size_t i = 0; i < m.size(); i++) r.emplace_back(m[i].begin(), m[i].end()); return r; }
/* candidates whose gene is their index */
static VPop indexPop(const Rows& f, size_t first, size_t last)
{
    VPop p;
    for (size_t i = first; i < last; i++) { VCand c(Chromosome<RealGene>{ double(i) }); c.fitness = FitnessVector(f[i].begin(), f[i].end()); c.is_evaluated = true; p.push_back(std::move(c)); }
    return p;
}
static bool dom(const Row& a, const Row& b) { bool s = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] < b[i]) return false; if (a[i] > b[i]) s = true; } return s; }
static std::vector<size_t> peel(const Rows& f)
{
    std::vector<size_t> rank(f.size(), SIZE_MAX); size_t left = f.size();
    for (size_t r = 0; left; r++)
    {
        std::vector<size_t> now;
        for (size_t i = 0; i < f.size(); i++) if (rank[i] == SIZE_MAX)
        {
            bool d = false; for (size_t j = 0; j < f.size() && !d; j++) d = rank[j] == SIZE_MAX && dom(f[j], f[i]);
            if (!d) now.push_back(i);
        }
        for (size_t i : now) rank[i] = r;
        left -= now.size();
    }
    return rank;
}

/* ---- fitness generators ---- */
enum Src { S_UNIF, S_LEVELS, S_PLANE, S_WIDE, S_CONST, S_ONECONST, S_CORR, S_NEG, S_HUGE, S_ZERO, S_BIGCOMMON, S_NSRC };
static Row genRow(Rng& r, int src, size_t m)
{
    Row v(m);
    switch (src)
    {
        case S_UNIF: for (auto& x : v) x = r.unit(); break;
        case S_LEVELS: for (auto& x : v) x = double(r.below(4)); break;
        case S_PLANE: { double s = 0; for (auto& x : v) { x = -std::log(1e-12 + r.unit()); s += x; } for (auto& x : v) x /= s; } break;
        case S_WIDE: for (auto& x : v) x = (r.chance(0.5) ? 1 : -1) * std::pow(10.0, r.real(-3, 6)); break;
        case S_CONST: for (auto& x : v) x = 7; break;
        case S_ONECONST: for (auto& x : v) x = r.real(-1, 1); v[0] = 3; break;
        case S_CORR: { double b = r.real(-2, 2); for (auto& x : v) x = b + 0.1 * r.unit(); } break;
        case S_NEG: for (auto& x : v) x = -1 - r.unit() * 50; break;
        case S_HUGE: for (auto& x : v) x = (r.chance(0.5) ? 1 : -1) * r.unit() * 1e308; break;
        case S_ZERO: for (auto& x : v) x = r.chance(0.5) ? 0.0 : r.unit(); break;
        case S_BIGCOMMON: for (auto& x : v) x = 1e9 + r.unit(); break;
    }
    return v;
}

/* A GA on one dummy gene whose fitness values come from a generator; `alg` decides everything else. */
struct Source { Rng rng; int src; size_t m; std::mutex mx; };
class SrcFitness final : public FitnessFunctionBase<RealGene>
{
public:
    explicit SrcFitness(Source& s) : FitnessFunctionBase<RealGene>(1, FitnessFunctionInfo::Type::Dynamic), s_(&s) {}
private:
    Source* s_;
    FitnessVector invoke(const Chromosome<RealGene>&) const override
    {
        std::lock_guard l(s_->mx); Row r = genRow(s_->rng, s_->src, s_->m); return FitnessVector(r.begin(), r.end());
    }
};

/* Forwards to a library algorithm through its public interface and lets a monitor look at every decision. */
struct Monitor
{
    virtual void initialized(const RCGA&, algorithm::Algorithm&, const Rows&) {}
    virtual void beforeNext(const RCGA&, const Rows&, size_t) {}
    virtual void nextPop(const RCGA&, algorithm::Algorithm&, const Rows&, size_t, const std::vector<size_t>&) {}
    virtual ~Monitor() = default;
};
class Spy final : public algorithm::Algorithm
{
public:
    Spy(std::unique_ptr<algorithm::Algorithm> in, Monitor& m) : in_(std::move(in)), m_(m) {}
    std::vector<size_t> last;
private:
    std::unique_ptr<algorithm::Algorithm> in_; Monitor& m_; VPop pop_;
    void initializeImpl(const GaInfo& g) override { const auto& ga = static_cast<const RCGA&>(g); in_->initialize(ga); m_.initialized(ga, *in_, toRows(ga.fitness_matrix())); }
    void prepareSelectionsImpl(const GaInfo& g, const FitnessMatrix& f) override { in_->prepareSelections(g, f); Rows r = toRows(f); pop_ = indexPop(r, 0, r.size()); }
    size_t selectImpl(const GaInfo& g, const FitnessMatrix& f) const override { return size_t(&in_->select(static_cast<const RCGA&>(g), pop_, f) - pop_.data()); }
    small_vector<size_t> nextPopulationImpl(const GaInfo& g, const FitnessMatrix& f) override
    {
        const auto& ga = static_cast<const RCGA&>(g);
        const Rows r = toRows(f); const size_t n = ga.population_size();
        m_.beforeNext(ga, r, n);
        VPop next = in_->nextPopulation(ga, indexPop(r, 0, n), indexPop(r, n, r.size()));
        std::vector<size_t> idx; for (auto& c : next) idx.push_back(size_t(c.chromosome[0]));
        for (size_t i = 0; i < idx.size(); i++) VH_REQUIRE(idx[i] < r.size() && Row(next[i].fitness.begin(), next[i].fitness.end()) == r[idx[i]], "foreign-survivor", "candidate ", i, " of the next population is not one of the parents and children");
        m_.nextPop(ga, *in_, r, n, idx);
        last = idx;
        return small_vector<size_t>(idx.begin(), idx.end());
    }
};
static void basicSurvivors(const Rows& r, size_t n, const std::vector<size_t>& idx, const std::string& what)
{
    VH_REQUIRE(idx.size() == n, "population-size", what, ": next population has ", idx.size(), " candidates instead of ", n);
    std::set<size_t> s(idx.begin(), idx.end());
    VH_REQUIRE(s.size() == n, "survivor-twice", what, ": a candidate survives twice: ", vh::vec(idx));
    (void)r;
}

/* =================================================== P11 selection =================================================== */
struct SelModel { std::vector<double> p; bool usable = true; };
static std::vector<std::vector<size_t>> tieGroups(const std::vector<double>& f)
{
    std::map<double, std::vector<size_t>> g; for (size_t i = 0; i < f.size(); i++) g[f[i]].push_back(i);
    std::vector<std::vector<size_t>> r; for (auto& [k, v] : g) r.push_back(v); return r;   // ascending
}
static void selectCase(Rng& rg, Case& cs)
{
    math::ScopedTolerances tol(0.0, 0.0);
    const size_t n = size_t(rg.pick({1, 2, 3, 4, 5, 8, 13, 20}));
    const size_t gens = 1 + rg.below(6);
    const size_t N = vh::thorough() ? 20000 : 3000;
    Source src{ Rng(rg.next()), S_UNIF, 1, {} };
    RCGA ga(n); Monitor mon; struct Keep final : algorithm::Algorithm { size_t selectImpl(const GaInfo&, const FitnessMatrix&) const override { return 0; } small_vector<size_t> nextPopulationImpl(const GaInfo& g, const FitnessMatrix&) override { small_vector<size_t> v(g.population_size()); std::iota(v.begin(), v.end(), 0); return v; } };
    ga.algorithm(std::make_unique<Keep>());
    rng::prng.seed(rg.next());
    uint64_t caseseed = rg.next();
    ga.on_generation_end([&](const GaInfo& info)
    {
        const auto& g = static_cast<const RCGA&>(info);
        Rng r(caseseed + g.generation_cntr());
        const int which = int(r.below(5));
        std::vector<double> f(n);
        const int sk = r.pick({S_UNIF, S_LEVELS, S_WIDE, S_CONST, S_NEG, S_HUGE, S_ZERO, S_BIGCOMMON});
        for (auto& x : f) x = genRow(r, sk, 1)[0];
        if (which == 3 && (sk == S_HUGE || sk == S_BIGCOMMON)) for (auto& x : f) x = r.real(-5, 5);   // the standard deviation itself overflows or is pure rounding
        if ((which == 1 || which == 2) && r.chance(0.2)) for (auto& x : f) if (r.chance(0.3)) x = r.chance(0.5) ? math::inf<double> : -math::inf<double>;
        Rows rows; for (double x : f) rows.push_back({ x });
        const FitnessMatrix fm = toMat(rows); const VPop pop = indexPop(rows, 0, n);
        std::unique_ptr<selection::Selection> sel; std::string what;
        size_t k = 2; double a = 0, b = 1; double temp = 0; bool setter = r.chance(0.5);
        std::vector<double> w(n, 0), p(n, 0);
        switch (which)
        {
            case 0:
            {
                sel = std::make_unique<selection::Roulette>(); what = "roulette";
                const double lo = *std::min_element(f.begin(), f.end());
                for (size_t i = 0; i < n; i++) w[i] = lo < 0 ? f[i] / 4 - lo / 2 : f[i] / 4;   // f - 2 * lowest when there are negative values
                break;
            }
            case 1:
            {
                k = 1 + r.below(7);
                auto s = std::make_unique<selection::Tournament>(setter ? 3 : k); if (setter) s->size(k);
                VH_REQUIRE(s->size() == k, "parameter", "tournament size ", s->size(), " instead of ", k);
                sel = std::move(s); what = vh::str("tournament of ", k);
                break;
            }
            case 2:
            {
                a = r.pick({0.0, 0.1, 0.5}); b = a + r.pick({0.0, 0.5, 1.0, 4.0}); if (a + b == 0) b = 1;
                auto s = std::make_unique<selection::Rank>(setter ? 0.0 : a, setter ? 9.0 : b); if (setter) s->weights(a, b);
                VH_REQUIRE(s->min_weight() == a && s->max_weight() == b && s->weights() == std::make_pair(a, b), "parameter", "rank weights");
                sel = std::move(s); what = vh::str("rank with weights ", a, ",", b);
                break;
            }
            case 3:
            {
                a = r.pick({0.2, 0.5, 1.0, 2.0, 3.0, 10.0});
                auto s = std::make_unique<selection::Sigma>(setter ? 7.0 : a); if (setter) s->scale(a);
                VH_REQUIRE(s->scale() == a, "parameter", "sigma scale");
                sel = std::move(s); what = vh::str("sigma with scale ", a);
                long double m = 0, v = 0; for (double x : f) m += x / (long double)n; for (double x : f) v += (x - m) * (x - m) / n;
                const long double sd = n == 1 ? 0 : std::sqrt(v); bool flat = true; for (double x : f) flat &= x == f[0];
                for (size_t i = 0; i < n; i++) w[i] = flat ? 1.0 : double(std::max(0.0L, 1 + (f[i] - m) / (a * sd)));
                break;
            }
            case 4:
            {
                temp = r.pick({0.0, 0.1, 0.5, 1.0, 3.0});
                if (temp > 0) sel = std::make_unique<selection::Boltzmann>([temp, &g](size_t gen, size_t mx) { VH_REQUIRE(gen == g.generation_cntr() && mx == g.max_gen(), "temperature-arguments", "temperature asked for ", gen, "/", mx, " in ", g.generation_cntr(), "/", g.max_gen()); return temp * (1 + double(gen)); });
                else sel = std::make_unique<selection::Boltzmann>();
                double T = temp > 0 ? temp * (1 + double(g.generation_cntr())) : -4.0 / (1.0 + std::exp(-10.0 * (double(g.generation_cntr()) / double(g.max_gen())) + 3.0)) + 4.0 + 0.2;
                what = vh::str("Boltzmann at temperature ", T);
                const double lo = *std::min_element(f.begin(), f.end()), hi = *std::max_element(f.begin(), f.end());
                for (size_t i = 0; i < n; i++) { double x = hi == lo ? 0 : (f[i] / 2 - lo / 2) / (hi / 2 - lo / 2); w[i] = std::exp((x - 1) / T); }
                break;
            }
        }
        const auto groups = tieGroups(f);
        if (which == 1) { size_t below = 0; for (auto& gr : groups) { double q = (std::pow(double(below + gr.size()) / n, k) - std::pow(double(below) / n, k)) / double(gr.size()); for (size_t i : gr) p[i] = q; below += gr.size(); } }
        else if (which == 2) { size_t rk = 0; for (auto& gr : groups) { double s = 0; for (size_t q = 0; q < gr.size(); q++, rk++) s += a + (b - a) * (n > 1 ? double(rk) / double(n - 1) : 0); for (size_t i : gr) p[i] = s / double(gr.size()); } }
        else p = w;
        double sum = 0, mx = *std::max_element(p.begin(), p.end()); if (mx <= 0) { p.assign(n, 1.0); mx = 1; } for (double x : p) sum += x / mx; for (double& x : p) x = x / mx / sum;

        algorithm::SingleObjective soga(std::move(sel), std::make_unique<replacement::KeepBest>());
        if (r.chance(0.3)) { algorithm::SingleObjective t(std::move(soga)); soga = std::move(t); }
        soga.initialize(g); soga.prepareSelections(g, fm);
        if (r.chance(0.3)) soga.prepareSelections(g, fm);   // preparing again gives the same distribution
        std::vector<double> cnt(n, 0);
        for (size_t i = 0; i < N; i++)
        {
            const auto* c = &soga.select(g, pop, fm);
            const size_t idx = size_t(c - pop.data());
            VH_REQUIRE(c >= pop.data() && idx < n, "not-a-member", what, " selected something outside the population");
            cnt[idx]++;
        }
        auto desc = [&] { return vh::str(what, ", fitness ", vh::vec(f), ": selected ", vh::vec(cnt), " times of ", N, ", expected probabilities ", vh::vec(p)); };
        // ties are only judged as a group
        std::vector<double> go, gp;
        for (auto& gr : groups) { double o = 0, q = 0; for (size_t i : gr) { o += cnt[i]; q += p[i]; } go.push_back(o); gp.push_back(q); }
        for (size_t i = 0; i < go.size(); i++) { VH_REQUIRE(gp[i] > 0 || go[i] == 0, "impossible-selection", desc()); VH_REQUIRE(gp[i] == 0 || vh::binomialOk(go[i], double(N), std::min(1.0, gp[i])), "selection-probability", desc()); }
        const double z = vh::chi2Score(go, gp); if (z < 1e8) vh::maximum("chi2_selection", z);
        VH_REQUIRE(z < vh::ZLIM, "selection-distribution", desc(), " z=", z);
        for (size_t i = 1; i < go.size(); i++) VH_REQUIRE(go[i] / groups[i].size() >= go[i - 1] / groups[i - 1].size() - 8 * std::sqrt(double(N)), "better-less-likely", desc());
        if (which != 2) for (auto& gr : groups) if (gr.size() > 1) { std::vector<double> t; for (size_t i : gr) t.push_back(cnt[i]); const double zz = vh::chi2Uniform(t); VH_REQUIRE(zz < vh::ZLIM, "equal-fitness-unequal-chance", desc()); }
        vh::stat("selections", N); vh::stat("distributions_compared"); vh::stat("sel_" + what.substr(0, what.find(' ')));
        if (groups.size() > 1) cs.nontrivial = true;
        cs.sig(uint64_t(which)); for (double x : cnt) cs.sig(x);
    });
    ga.solve(std::make_unique<SrcFitness>(src), BoundsVector<RealGene>{ Bounds<RealGene>(0.0, 1.0) }, gens);
}

/* =================================================== P12 replacement =================================================== */
struct ReplMonitor : Monitor
{
    int which; size_t elites; std::string what; Rows chosen; double best = -math::inf<double>;
    void nextPop(const RCGA&, algorithm::Algorithm&, const Rows& r, size_t n, const std::vector<size_t>& idx) override { check(r, n, idx); }
    void check(const Rows& r, size_t n, const std::vector<size_t>& idx)
    {
        auto desc = [&] { std::vector<double> f; for (auto& x : r) f.push_back(x[0]); return vh::str(what, " n=", n, " fitness ", vh::vec(f), ": survivors ", vh::vec(idx)); };
        basicSurvivors(r, n, idx, desc());
        std::vector<size_t> s(idx); std::sort(s.begin(), s.end());
        if (which == 0)
        {
            std::vector<double> all, got; for (auto& x : r) all.push_back(x[0]); for (size_t i : idx) got.push_back(r[i][0]);
            std::sort(all.rbegin(), all.rend()); std::sort(got.rbegin(), got.rend()); all.resize(n);
            VH_REQUIRE(got == all, "not-the-best", desc());
        }
        else
        {
            const size_t e = which == 1 ? 0 : std::min(elites, n);
            std::vector<double> el, par; size_t kids = 0;
            for (size_t i : s) if (i < n) el.push_back(r[i][0]); else { VH_REQUIRE(i == n + kids, "wrong-children", desc(), ": expected the first ", n - e, " children"); kids++; }
            VH_REQUIRE(el.size() == e, "elite-count", desc(), ": ", el.size(), " parents kept instead of ", e);
            for (size_t i = 0; i < n; i++) par.push_back(r[i][0]);
            std::sort(par.rbegin(), par.rend()); std::sort(el.rbegin(), el.rend()); par.resize(e);
            VH_REQUIRE(el == par, "not-the-elites", desc());
        }
        chosen.clear(); for (size_t i : idx) chosen.push_back(r[i]);
        double b = -math::inf<double>; for (auto& x : chosen) b = std::max(b, x[0]);
        double pb = -math::inf<double>; for (size_t i = 0; i < n; i++) pb = std::max(pb, r[i][0]);
        if (which == 0 || (which == 2 && elites > 0)) VH_REQUIRE(b >= pb, "best-got-worse", desc());
        vh::stat("replacements_checked"); vh::stat("survivors", n);
    }
};
static std::unique_ptr<replacement::Replacement> makeRepl(Rng& r, ReplMonitor& m)
{
    m.which = int(r.below(3)); m.elites = r.pick({0, 1, 2, 3, 5, 100});
    switch (m.which)
    {
        case 0: m.what = "KeepBest"; return std::make_unique<replacement::KeepBest>();
        case 1: m.what = "KeepChildren"; return std::make_unique<replacement::KeepChildren>();
        default:
        {
            m.what = vh::str("Elitism(", m.elites, ")");
            auto e = std::make_unique<replacement::Elitism>(r.chance(0.5) ? m.elites : 2); e->elite_num(m.elites);
            VH_REQUIRE(e->elite_num() == m.elites, "parameter", "elite count"); return e;
        }
    }
}
static void replRunCase(Rng& rg, Case& cs)
{
    std::unique_ptr<math::ScopedTolerances> tol; const bool exact = rg.chance(0.5); if (exact) tol = std::make_unique<math::ScopedTolerances>(0.0, 0.0);
    const size_t n = size_t(rg.pick({1, 2, 3, 4, 5, 7, 8, 12, 31}));
    Source src{ Rng(rg.next()), rg.pick({S_UNIF, S_LEVELS, S_WIDE, S_CONST, S_NEG, S_ZERO, S_HUGE}), 1, {} };
    ReplMonitor mon; auto repl = makeRepl(rg, mon);
    RCGA ga(n); ga.algorithm(std::make_unique<Spy>(std::make_unique<algorithm::SingleObjective>(std::make_unique<selection::Tournament>(), std::move(repl)), mon));
    ga.crossover_rate(rg.unit()); rng::prng.seed(rg.next());
    size_t gens = 0;
    ga.on_generation_end([&](const GaInfo& g)
    {
        if (g.generation_cntr() > 0)
        {
            Rows a = mon.chosen, b = toRows(g.fitness_matrix()); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            VH_REQUIRE(a == b, "population-not-the-survivors", mon.what, ": the population of generation ", g.generation_cntr(), " is not what the replacement selected");
        }
        gens++;
        for (auto& x : mon.chosen) cs.sig(x[0]);
    });
    ga.solve(std::make_unique<SrcFitness>(src), BoundsVector<RealGene>{ Bounds<RealGene>(0.0, 1.0) }, 2 + rg.below(6));
    cs.nontrivial = gens > 1;
}
/* direct calls with arbitrary matrices, also with infinite values and more children than needed */
static void replDirectCase(Rng& rg, Case& cs)
{
    math::ScopedTolerances tol(0.0, 0.0);
    const size_t n = 1 + rg.below(12); Source src{ Rng(rg.next()), S_UNIF, 1, {} };
    RCGA ga(n); ga.algorithm(std::make_unique<UserAlgorithm>()); rng::prng.seed(rg.next());
    ga.on_generation_end([&](const GaInfo& info)
    {
        const auto& g = static_cast<const RCGA&>(info);
        for (int k = 0; k < 30; k++)
        {
            const size_t kids = n + rg.below(3); Rows r; const int sk = rg.pick({S_UNIF, S_LEVELS, S_WIDE, S_CONST, S_NEG, S_HUGE, S_ZERO});
            for (size_t i = 0; i < n + kids; i++) { r.push_back(genRow(rg, sk, 1)); if (rg.chance(0.05)) r[i][0] = rg.chance(0.5) ? math::inf<double> : -math::inf<double>; }
            if (rg.chance(0.2)) std::sort(r.begin(), r.end()); else if (rg.chance(0.2)) std::sort(r.rbegin(), r.rend());
            ReplMonitor mon; algorithm::SingleObjective so(std::make_unique<selection::Tournament>(), makeRepl(rg, mon));
            so.initialize(g);
            VPop next = so.nextPopulation(g, indexPop(r, 0, n), indexPop(r, n, r.size()));
            std::vector<size_t> idx; for (auto& c : next) idx.push_back(size_t(c.chromosome[0]));
            for (size_t i = 0; i < idx.size(); i++) VH_REQUIRE(idx[i] < r.size() && next[i].fitness.size() == 1 && next[i].fitness[0] == r[idx[i]][0] && next[i].is_evaluated, "foreign-survivor", mon.what, ": candidate ", i);
            mon.check(r, n, idx); for (size_t i : idx) cs.sig(uint64_t(i));
        }
    });
    ga.solve(std::make_unique<SrcFitness>(src), BoundsVector<RealGene>{ Bounds<RealGene>(0.0, 1.0) }, 1);
    cs.nontrivial = true;
}
/* whole runs with a static fitness function: the best fitness never gets worse */
static void monotoneCase(Rng& rg, Case& cs)
{
    Cfg c = randomCfg<IntE>(rg); c.nobj = 1; c.dynamic = false; c.algo = 1; c.repl = rg.pick({0, 2}); c.gens = 4 + rg.below(20); c.stop = 9; c.threads = 1; c.boundk = 0; c.initk = 0; c.default_pm = false; c.repair = 0;
    execution_threads(1); rng::prng.seed(c.seed);
    Recorder<IntE> rec; IntegerGA ga; const auto b = makeBounds<IntE>(c); configure<IntE>(ga, c, b, &rec);
    solveRecorded<IntE>(ga, c, b, rec);
    double best = -math::inf<double>;
    for (auto& g : rec.gens)
    {
        double m = -math::inf<double>; for (auto& p : g.pop) m = std::max(m, p.fitness[0]);
        VH_REQUIRE(m >= best, "best-got-worse", c.text("integer"), ": generation ", g.cntr, " best ", m, " after ", best);
        if (m > best && best > -math::inf<double>) vh::stat("improvements");
        best = m; cs.sig(m);
    }
    cs.nontrivial = rec.gens.size() > 2; vh::stat("monotone_generations", rec.gens.size());
}

/* =================================================== P13 NSGA-II =================================================== */
struct Iv { double lo = 0, hi = 0; };
/* bounds of the crowding distances over every order of equal values */
static std::vector<Iv> crowding(const Rows& f, const std::vector<size_t>& front)
{
    std::vector<Iv> d(front.size()); if (front.empty()) return d;
    const double INF = math::inf<double>;
    for (size_t o = 0; o < f[0].size(); o++)
    {
        std::map<double, std::vector<size_t>> g; for (size_t k = 0; k < front.size(); k++) g[f[front[k]][o]].push_back(k);
        const double width = std::max(g.rbegin()->first - g.begin()->first, 1e-8);
        for (auto it = g.begin(); it != g.end(); ++it)
        {
            const size_t c = it->second.size(); double lo = INF, hi = 0;
            for (size_t pos = 0; pos < c; pos++)
            {
                double v = 0;
                if (pos == 0) v += it == g.begin() ? INF : it->first - std::prev(it)->first;
                if (pos + 1 == c) v += std::next(it) == g.end() ? INF : std::next(it)->first - it->first;
                lo = std::min(lo, v / width); hi = std::max(hi, v / width);
            }
            for (size_t k : it->second) { d[k].lo += lo; d[k].hi += hi; }
        }
    }
    return d;
}
static std::vector<size_t> frontOf(const std::vector<size_t>& rank, size_t r) { std::vector<size_t> v; for (size_t i = 0; i < rank.size(); i++) if (rank[i] == r) v.push_back(i); return v; }
static bool less9(double a, double b) { return std::isinf(b) ? !std::isinf(a) : a < b - 1e-9 * (std::abs(a) + std::abs(b)) - 1e-12; }

/* whole better fronts survive; returns the split front (indices) */
static std::vector<size_t> frontsKept(const Rows& r, size_t n, const std::vector<size_t>& idx, const std::vector<size_t>& rank, const std::string& what, std::set<size_t>& surv)
{
    basicSurvivors(r, n, idx, what);
    surv = std::set<size_t>(idx.begin(), idx.end());
    size_t worst = 0; for (size_t i : idx) worst = std::max(worst, rank[i]);
    for (size_t i = 0; i < r.size(); i++) VH_REQUIRE(rank[i] >= worst || surv.count(i), "better-front-dropped", what, ": candidate ", i, " of front ", rank[i], " was dropped although one of front ", worst, " survived");
    auto f = frontOf(rank, worst); bool whole = true; for (size_t i : f) whole &= surv.count(i) > 0;
    if (whole) f.clear();
    return f;
}
static std::string rowsText(const Rows& r) { std::string s; for (size_t i = 0; i < r.size() && i < 40; i++) s += vh::vec(r[i]) + " "; return s; }

struct Nsga2Monitor : Monitor
{
    Rng rg{1}; Case* cs = nullptr; Rows kept; size_t N = 2000;
    void initialized(const RCGA& ga, algorithm::Algorithm& a, const Rows& r) override { kept = r; tournaments(ga, a); optimal(ga, a); }
    void optimal(const RCGA& ga, algorithm::Algorithm& a)
    {
        const auto sols = a.optimalSolutions(ga, indexPop(kept, 0, kept.size()));
        std::set<size_t> got; for (auto& s : sols) got.insert(size_t(s.chromosome[0]));
        const auto rank = peel(kept); std::set<size_t> want; for (size_t i = 0; i < kept.size(); i++) if (!rank[i]) want.insert(i);
        VH_REQUIRE(got == want && sols.size() == want.size(), "optimal-set", "optimal solutions ", vh::vec(std::vector<size_t>(got.begin(), got.end())), " of ", rowsText(kept));
    }
    void nextPop(const RCGA& ga, algorithm::Algorithm& a, const Rows& r, size_t n, const std::vector<size_t>& idx) override
    {
        const auto rank = peel(r); const std::string what = vh::str("NSGA-II n=", n, " fitness ", rowsText(r), "survivors ", vh::vec(idx));
        std::set<size_t> surv; const auto split = frontsKept(r, n, idx, rank, what, surv);
        if (!split.empty())
        {
            const auto d = crowding(r, split);
            for (size_t i = 0; i < split.size(); i++) if (surv.count(split[i])) for (size_t j = 0; j < split.size(); j++) if (!surv.count(split[j]))
                VH_REQUIRE(!less9(d[i].hi, d[j].lo), "less-crowded-dropped", what, ": candidate ", split[i], " (distance ", d[i].lo, "..", d[i].hi, ") kept, ", split[j], " (distance ", d[j].lo, "..", d[j].hi, ") dropped");
            vh::stat("split_fronts");
        }
        kept.clear(); for (size_t i : idx) kept.push_back(r[i]);
        vh::stat("generations_checked"); vh::maximum("fronts", double(*std::max_element(rank.begin(), rank.end()) + 1));
        for (size_t i : idx) cs->sig(uint64_t(i));
        optimal(ga, a);
        tournaments(ga, a);
    }
    void tournaments(const RCGA& ga, algorithm::Algorithm& a)
    {
        const size_t n = kept.size(); const auto rank = peel(kept);
        std::vector<Iv> d(n); for (size_t r = 0; ; r++) { auto f = frontOf(rank, r); if (f.empty()) break; auto x = crowding(kept, f); for (size_t k = 0; k < f.size(); k++) d[f[k]] = x[k]; }
        const FitnessMatrix fm = toMat(kept); const VPop pop = indexPop(kept, 0, n); a.prepareSelections(ga, fm);
        std::vector<double> cnt(n, 0);
        for (size_t k = 0; k < N; k++) { const auto* c = &a.select(ga, pop, fm); VH_REQUIRE(c >= pop.data() && size_t(c - pop.data()) < n, "not-a-member", "selected outside the population"); cnt[size_t(c - pop.data())]++; }
        // the front of the winner is always determined
        std::map<size_t, double> size, hit; for (size_t i = 0; i < n; i++) { size[rank[i]]++; hit[rank[i]] += cnt[i]; }
        double better = 0; std::vector<double> o, p;
        for (auto& [r, c] : size) { double q = (c * c + 2 * c * (double(n) - better - c)) / double(n * n); o.push_back(hit[r]); p.push_back(q); better += c; }
        const std::string what = vh::str("NSGA-II population ", rowsText(kept), "selected ", vh::vec(cnt));
        for (size_t i = 0; i < o.size(); i++) VH_REQUIRE(vh::binomialOk(o[i], double(N), std::min(1.0, p[i])), "front-not-preferred", what, ": front ", i, " won ", o[i], " of ", N, ", expected ", p[i] * double(N));
        vh::stat("tournaments", N);
        bool clear = true;
        for (size_t i = 0; i < n && clear; i++) { clear = d[i].lo == d[i].hi || std::abs(d[i].hi - d[i].lo) < 1e-12; for (size_t j = 0; j < i && clear; j++) if (rank[i] == rank[j]) clear = (std::isinf(d[i].lo) && std::isinf(d[j].lo)) || less9(d[i].hi, d[j].lo) || less9(d[j].hi, d[i].lo); }
        if (!clear) { vh::stat("ambiguous_populations"); return; }
        std::vector<double> q(n, 0);
        for (size_t i = 0; i < n; i++)
        {
            q[i] = 1;
            for (size_t j = 0; j < n; j++) if (j != i)
                q[i] += rank[i] < rank[j] ? 2 : rank[i] > rank[j] ? 0 : less9(d[j].hi, d[i].lo) ? 2 : less9(d[i].hi, d[j].lo) ? 0 : 1;
            q[i] /= double(n * n);
        }
        for (size_t i = 0; i < n; i++) VH_REQUIRE(vh::binomialOk(cnt[i], double(N), std::min(1.0, q[i])), "crowding-not-preferred", what, ": candidate ", i, " (front ", rank[i], ", distance ", d[i].lo, ") expected ", q[i] * double(N), " wins of ", N);
        vh::stat("exact_tournaments");
    }
};

/* =================================================== P14 NSGA-III =================================================== */
struct Nsga3Monitor : Monitor
{
    Rng rg{1}; Case* cs = nullptr; Rows lines, kept; size_t N = 1500;
    Row ideal, nadir; Rows extreme; bool sure = true;      // sure: the normalisation is known without doubt
    std::vector<size_t> ref, rank; std::vector<double> dist; std::vector<char> known;   // of the kept population
    struct Assoc { size_t ref = 0; double dist = 0; bool known = false; };

    void normalisation(const Rows& r)
    {
        const size_t m = r[0].size();
        if (ideal.empty()) ideal = r[0];
        for (auto& x : r) for (size_t o = 0; o < m; o++) ideal[o] = std::max(ideal[o], x[o]);
        Rows all = r; all.insert(all.end(), extreme.begin(), extreme.end()); Rows ne;
        for (size_t o = 0; o < m; o++)
        {
            std::vector<std::pair<double, size_t>> v;
            for (size_t i = 0; i < all.size(); i++) { double d = -math::inf<double>; for (size_t q = 0; q < m; q++) d = std::max(d, (ideal[q] - all[i][q]) / (q == o ? 1.0 : 1e-6)); v.push_back({ d, i }); }
            std::sort(v.begin(), v.end());
            for (size_t k = 1; k < v.size() && v[k].first - v[0].first <= 1e-9 * (std::abs(v[0].first) + 1e-9); k++) if (all[v[k].second] != all[v[0].second]) sure = false;
            ne.push_back(all[v[0].second]);
        }
        extreme = ne; nadir = ne[0]; for (auto& x : ne) for (size_t o = 0; o < m; o++) nadir[o] = std::min(nadir[o], x[o]);
    }
    Assoc assoc(const Row& f) const
    {
        Row z(f.size()); for (size_t o = 0; o < f.size(); o++) z[o] = (ideal[o] - f[o]) / std::max(ideal[o] - nadir[o], 1e-8);
        double b = -math::inf<double>, second = b; Assoc a; double zz = 0; for (double x : z) zz += x * x;
        for (size_t l = 0; l < lines.size(); l++)
        {
            double p = 0, nn = 0; for (size_t o = 0; o < z.size(); o++) { p += z[o] * lines[l][o]; nn += lines[l][o] * lines[l][o]; }
            p /= std::sqrt(nn);
            if (p > b) { second = b; b = p; a.ref = l; } else second = std::max(second, p);
        }
        double d = 0, nn = 0; for (double x : lines[a.ref]) nn += x * x;
        for (size_t o = 0; o < z.size(); o++) { double k = b / std::sqrt(nn); d += (z[o] - k * lines[a.ref][o]) * (z[o] - k * lines[a.ref][o]); }
        a.dist = d; a.known = sure && (b - second) > 1e-9 * (1 + std::sqrt(zz));
        return a;
    }
    static bool close(double a, double b) { return std::abs(a - b) <= 1e-9 * (std::abs(a) + std::abs(b)) + 1e-18; }
    void keep(const Rows& r, const std::vector<size_t>& rk, const std::vector<size_t>& idx)
    {
        kept.clear(); ref.clear(); rank.clear(); dist.clear(); known.clear();
        for (size_t i : idx) { auto a = assoc(r[i]); kept.push_back(r[i]); ref.push_back(a.ref); dist.push_back(a.dist); known.push_back(a.known); rank.push_back(rk[i]); }
    }
    void initialized(const RCGA& ga, algorithm::Algorithm& a, const Rows& r) override
    {
        ideal.clear(); extreme.clear(); sure = true;
        normalisation(r); std::vector<size_t> idx(r.size()); std::iota(idx.begin(), idx.end(), 0); keep(r, peel(r), idx); tournaments(ga, a);
    }
    void nextPop(const RCGA& ga, algorithm::Algorithm& alg, const Rows& r, size_t n, const std::vector<size_t>& idx) override
    {
        const auto rk = peel(r); const std::string what = vh::str("NSGA-III n=", n, " lines=", lines.size(), " fitness ", rowsText(r), "survivors ", vh::vec(idx));
        std::set<size_t> surv; const auto split = frontsKept(r, n, idx, rk, what, surv);
        normalisation(r);
        if (!split.empty())
        {
            vh::stat("split_fronts");
            bool ok = sure; std::map<size_t, size_t> whole, avail, taken; std::map<size_t, std::vector<std::pair<double, size_t>>> cand;
            for (size_t i = 0; i < r.size() && ok; i++) if (rk[i] < rk[split[0]]) { auto a = assoc(r[i]); ok &= a.known; whole[a.ref]++; }
            for (size_t i : split) { if (!ok) break; auto a = assoc(r[i]); ok &= a.known; avail[a.ref]++; taken[a.ref] += surv.count(i); cand[a.ref].push_back({ a.dist, i }); }
            if (ok)
            {
                for (auto& [x, t] : taken) if (t) for (auto& [y, av] : avail) if (taken[y] < av)
                    VH_REQUIRE(whole[x] + t - 1 <= whole[y] + taken[y], "niche-not-emptiest", what, ": niche ", x, " (", whole[x], " before) was given ", t, " while niche ", y, " (", whole[y], " before) got ", taken[y], " of ", av, " available");
                for (auto& [x, v] : cand) for (auto& [d1, i] : v) if (surv.count(i)) for (auto& [d2, j] : v) if (!surv.count(j))
                    VH_REQUIRE(d1 <= d2 || close(d1, d2), "niche-not-closest", what, ": niche ", x, " took candidate ", i, " at distance ", d1, " and not ", j, " at ", d2);
                vh::stat("niching_checked"); vh::maximum("niches", double(avail.size()));
            }
            else vh::stat("niching_ambiguous");
        }
        keep(r, rk, idx); for (size_t i : idx) cs->sig(uint64_t(i));
        vh::stat("generations_checked");
        {
            const auto sols = alg.optimalSolutions(ga, indexPop(kept, 0, kept.size())); std::set<size_t> got, want; for (auto& s : sols) got.insert(size_t(s.chromosome[0]));
            for (size_t i = 0; i < n; i++) if (!rank[i]) want.insert(i);
            VH_REQUIRE(got == want, "optimal-set", what, ": optimal solutions ", vh::vec(std::vector<size_t>(got.begin(), got.end())));
        }
        tournaments(ga, alg);
    }
    void tournaments(const RCGA& ga, algorithm::Algorithm& a)
    {
        const size_t n = kept.size(); if (n > 60) return;
        const FitnessMatrix fm = toMat(kept); const VPop pop = indexPop(kept, 0, n); a.prepareSelections(ga, fm);
        std::vector<double> cnt(n, 0), q(n, 0);
        for (size_t k = 0; k < N; k++) { const auto* c = &a.select(ga, pop, fm); VH_REQUIRE(c >= pop.data() && size_t(c - pop.data()) < n, "not-a-member", "selected outside the population"); cnt[size_t(c - pop.data())]++; }
        vh::stat("tournaments", N);
        for (size_t i = 0; i < n; i++) if (!known[i]) { vh::stat("ambiguous_populations"); return; }
        for (size_t i = 0; i < n; i++)
        {
            q[i] = 1;
            for (size_t j = 0; j < n; j++) if (j != i)
            {
                if (ref[i] != ref[j]) q[i] += 1;
                else if (rank[i] != rank[j]) q[i] += rank[i] < rank[j] ? 2 : 0;
                else if (kept[i] == kept[j]) q[i] += 1;
                else if (close(dist[i], dist[j])) { vh::stat("ambiguous_populations"); return; }
                else q[i] += dist[i] < dist[j] ? 2 : 0;
            }
            q[i] /= double(n * n);
        }
        for (size_t i = 0; i < n; i++) VH_REQUIRE(vh::binomialOk(cnt[i], double(N), std::min(1.0, q[i])), "niche-tournament", "NSGA-III population ", rowsText(kept), "selected ", vh::vec(cnt), ": candidate ", i, " (niche ", ref[i], ", front ", rank[i], ", distance ", dist[i], ") expected ", q[i] * double(N), " wins of ", N);
        vh::stat("exact_tournaments");
    }
};

template<class M> static void mooCase(Rng& rg, Case& cs, bool third, bool big)
{
    std::unique_ptr<math::ScopedTolerances> tol; if (rg.chance(0.5)) tol = std::make_unique<math::ScopedTolerances>(0.0, 0.0);
    const size_t m = size_t(rg.pick({2, 2, 3, 3, 4, 5, 8})), n = big ? 230 + rg.below(60) : size_t(rg.pick({1, 2, 3, 4, 5, 6, 8, 10, 15, 24, 40}));
    Source src{ Rng(rg.next()), rg.pick({S_UNIF, S_UNIF, S_LEVELS, S_PLANE, S_WIDE, S_CONST, S_ONECONST, S_CORR, S_NEG}), m, {} };
    M mon; mon.rg = Rng(rg.next()); mon.cs = &cs; if (vh::thorough()) mon.N *= 4;
    std::unique_ptr<algorithm::Algorithm> inner;
    if constexpr (std::is_same_v<M, Nsga3Monitor>)
    {
        const int gk = int(rg.below(6)); uint64_t ls = rg.next();
        auto gen = [&mon, gk, ls](size_t dim, size_t cnt) -> FitnessMatrix
        {
            FitnessMatrix p; Rng r(ls);
            switch (gk)
            {
                case 0: p = algorithm::reflines::quasirandomSimplexPointsMirror(dim, cnt); break;
                case 1: p = algorithm::reflines::quasirandomSimplexPointsSort(dim, cnt); break;
                case 2: p = algorithm::reflines::quasirandomSimplexPointsRoot(dim, cnt); break;
                case 3: p = algorithm::reflines::quasirandomSimplexPointsLog(dim, cnt); break;
                case 4: p = algorithm::reflines::pickSparseSubset(dim, cnt, algorithm::reflines::quasirandomSimplexPointsLog); break;
                default: { const size_t k = 1 + r.below(2 * cnt); for (size_t i = 0; i < k; i++) { Row x(dim); double s = 0; for (auto& y : x) { y = r.unit() + 1e-3; s += y; } for (auto& y : x) y /= s; p.append_row(x); } }
            }
            mon.lines = toRows(p); return p;
        };
        inner = std::make_unique<algorithm::NSGA3>(gen);
        if (rg.chance(0.3)) inner = std::make_unique<algorithm::NSGA3>(static_cast<algorithm::NSGA3&>(*inner));
    }
    else inner = std::make_unique<algorithm::NSGA2>();
    execution_threads(big ? 4 : rg.pick({1, 1, 2}));
    RCGA ga(n); ga.algorithm(std::make_unique<Spy>(std::move(inner), mon));
    ga.crossover_rate(rg.unit()); rng::prng.seed(rg.next());
    ga.on_generation_end([&](const GaInfo& g)
    {
        Rows a = mon.kept, b = toRows(g.fitness_matrix()); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        VH_REQUIRE(a == b, "population-not-the-survivors", "the population of generation ", g.generation_cntr(), " is not what the algorithm selected");
    });
    for (int rep = rg.chance(0.25) ? 2 : 1; rep > 0; rep--)   // a second run reuses the algorithm object, also with another number of objectives
    {
        ga.solve(std::make_unique<SrcFitness>(src), BoundsVector<RealGene>{ Bounds<RealGene>(0.0, 1.0) }, big ? 3 : 2 + rg.below(7));
        if (rep > 1) { src.m = 2 + rg.below(4); if (rg.chance(0.5)) ga.population_size(n + rg.below(4)); vh::stat("reused_algorithms"); }
    }
    (void)third; cs.nontrivial = n > 1;
}

/* the places left after the last full round of the niches go to each of the equally empty niches with equal chances */
static void nicheTieCase(Rng& rg, Case& cs)
{
    math::ScopedTolerances tol(0.0, 0.0);
    const size_t m = 2 + rg.below(3), n = 2 + rg.below(9), lines = 2 + rg.below(2 * n);
    Source src{ Rng(rg.next()), S_PLANE, m, {} }; Nsga3Monitor mon;
    for (size_t i = 0; i < lines; i++) mon.lines.push_back(genRow(rg, S_PLANE, m));
    const Rows ls = mon.lines;
    RCGA ga(n); ga.algorithm(std::make_unique<UserAlgorithm>()); rng::prng.seed(rg.next());
    ga.on_generation_end([&](const GaInfo& info)
    {
        const auto& g = static_cast<const RCGA&>(info); const size_t N = vh::thorough() ? 3000 : 800;
        Rows r; const int sk = rg.pick({S_PLANE, S_PLANE, S_UNIF, S_LEVELS}); for (size_t i = 0; i < 2 * n; i++) r.push_back(genRow(rg, sk, m));
        algorithm::NSGA3 alg([&](size_t, size_t) { return toMat(ls); }); alg.initialize(g);
        mon.normalisation(toRows(g.fitness_matrix())); mon.normalisation(r);
        const auto rk = peel(r); size_t last = 0, before = 0; for (;; last++) { size_t c = frontOf(rk, last).size(); if (before + c > n) break; before += c; if (before == n) break; }
        if (before == n || !mon.sure) return;
        std::vector<size_t> cnt(ls.size()), avail(ls.size()), of(r.size());
        for (size_t i = 0; i < r.size(); i++) if (rk[i] <= last) { auto a = mon.assoc(r[i]); if (!a.known) return; of[i] = a.ref; if (rk[i] < last) cnt[a.ref]++; else avail[a.ref]++; }
        // whole rounds first
        std::vector<size_t> eligible; size_t places = n - before;
        for (;;)
        {
            size_t low = size_t(-1); eligible.clear();
            for (size_t l = 0; l < ls.size(); l++) if (avail[l]) low = std::min(low, cnt[l]);
            for (size_t l = 0; l < ls.size(); l++) if (avail[l] && cnt[l] == low) eligible.push_back(l);
            if (places <= eligible.size()) break;
            for (size_t l : eligible) { cnt[l]++; avail[l]--; places--; }
        }
        if (places == eligible.size()) return;
        std::vector<double> hits(ls.size());
        for (size_t k = 0; k < N; k++)
        {
            VPop next = alg.nextPopulation(g, indexPop(r, 0, n), indexPop(r, n, r.size()));
            std::vector<size_t> took(ls.size()); for (auto& c : next) if (size_t i = size_t(c.chromosome[0]); i < r.size() && rk[i] <= last) took[of[i]]++;
            for (size_t l : eligible) hits[l] += double(took[l] > cnt[l]);
            if (k < 3) for (auto& c : next) cs.sig(uint64_t(c.chromosome[0]));
        }
        const double q = double(places) / double(eligible.size());
        for (size_t l : eligible) VH_REQUIRE(vh::binomialOk(hits[l], double(N), q), "niche-tie-not-random", "NSGA-III n=", n, " lines ", rowsText(ls), "candidates ", rowsText(r), ": niche ", l, " is one of ", eligible.size(), " equally empty ones for ", places, " places, and got one in ", hits[l], " of ", N, " selections");
        vh::stat("niche_ties_checked"); vh::stat("repeated_selections", N); cs.nontrivial = true;
    });
    ga.solve(std::make_unique<SrcFitness>(src), BoundsVector<RealGene>{ Bounds<RealGene>(0.0, 1.0) }, 1);
}

static void areas(const std::string& p)
{
    if (p == "P11") vh::cases("selection", 4000, 20000, selectCase);
    if (p == "P12") { vh::cases("direct", 3000, 40000, replDirectCase); vh::cases("run", 4000, 60000, replRunCase); vh::cases("monotone", 1500, 20000, monotoneCase); }
    if (p == "P13") { vh::cases("nsga2", 2500, 40000, [](Rng& r, Case& c) { mooCase<Nsga2Monitor>(r, c, false, false); }); vh::cases("nsga2-large", 24, 400, [](Rng& r, Case& c) { mooCase<Nsga2Monitor>(r, c, false, true); }); }
    if (p == "P14") { vh::cases("nsga3", 3000, 40000, [](Rng& r, Case& c) { mooCase<Nsga3Monitor>(r, c, true, false); }); vh::cases("nsga3-large", 24, 400, [](Rng& r, Case& c) { mooCase<Nsga3Monitor>(r, c, true, true); }); vh::cases("nsga3-ties", 1500, 8000, nicheTieCase); }
}
int main(int argc, char** argv) { return vh::run(argc, argv, areas); }
