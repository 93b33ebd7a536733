/* Crossover and mutation operators called on generated candidates (P09, P10). */
#include "ga_common.hpp"
#include <crossover/crossover_impl.hpp>
#include "stats.hpp"

/* runs `f` in a GA of the given problem, in the generation end callback of every generation */
template<class En, class F> void withGA(const Cfg& c, const BoundsVector<typename En::Gene>& b, F&& f)
{
    Recorder<En> rec; Cfg k = c; k.dynamic = false; k.pop = 2; k.cache = 0;
    typename En::GAT ga(k.pop);
    ga.algorithm(std::make_unique<UserAlgorithm>());
    ga.crossover_rate(0.0); ga.mutation_method(std::make_unique<UserMutation<En>>(0.0, b));
    ga.on_generation_end([&](const GaInfo& g) { f(static_cast<const typename En::GAT&>(g)); });
    if constexpr (En::bounded) ga.solve(std::make_unique<MonFitness<En>>(k, rec), b, k.gens);
    else ga.solve(std::make_unique<MonFitness<En>>(k, rec), k.gens);
}
template<class T> bool sameCand(const Candidate<T>& a, const Candidate<T>& b) { return a.chromosome == b.chromosome && a.fitness == b.fitness && a.is_evaluated == b.is_evaluated; }

template<class T> Candidate<T> evaluated(Chromosome<T> ch, const Cfg& c)
{
    Candidate<T> r(std::move(ch)); r.fitness = pureFitness(r.chromosome, c.nobj, c.fkind); r.is_evaluated = true; return r;
}

/* ---------- crossover ---------- */
inline std::vector<size_t> ox(const std::vector<size_t>& a, const std::vector<size_t>& b, const std::vector<char>& direct, size_t start)
{
    const size_t n = a.size(); std::vector<size_t> r(n); std::vector<char> used(n, 0), filled(n, 0);
    for (size_t i = 0; i < n; i++) if (direct[i]) { r[i] = a[i]; used[a[i]] = 1; filled[i] = 1; }
    size_t pos = start % n, src = start % n;
    for (size_t k = 0; k < n; k++, src = (src + 1) % n)
    {
        if (used[b[src]]) continue;
        while (filled[pos]) pos = (pos + 1) % n;
        r[pos] = b[src]; filled[pos] = 1;
    }
    return r;
}
inline std::vector<size_t> pmx(const std::vector<size_t>& a, const std::vector<size_t>& b, size_t f, size_t l)
{
    const size_t n = a.size(); std::vector<size_t> r(n), pos(n);
    for (size_t i = 0; i < n; i++) pos[a[i]] = i;
    for (size_t i = 0; i < n; i++)
    {
        if (i >= f && i < l) { r[i] = a[i]; continue; }
        size_t g = b[i];
        while (pos[g] >= f && pos[g] < l) g = b[pos[g]];
        r[i] = g;
    }
    return r;
}
/* adjacency kept: a new edge is introduced only where the last gene has no unused neighbour */
inline std::string edgeBad(const std::vector<size_t>& ch, const std::vector<size_t>& a, const std::vector<size_t>& b, size_t& fresh)
{
    const size_t n = ch.size(); std::vector<std::set<size_t>> nb(n);
    for (auto* p : { &a, &b }) for (size_t i = 0; i + 1 < n; i++) { nb[(*p)[i]].insert((*p)[i + 1]); nb[(*p)[i + 1]].insert((*p)[i]); }
    std::vector<char> used(n, 0);
    for (size_t i = 0; i + 1 < n; i++)
    {
        used[ch[i]] = 1;
        if (nb[ch[i]].count(ch[i + 1])) continue;
        fresh++;
        /* a gene that is a neighbour in neither parent is only chosen when none is left, or when it would strand sooner than all of them */
        auto left = [&](size_t v) { size_t k = 0; for (size_t w : nb[v]) k += !used[w]; return k; };
        for (size_t v : nb[ch[i]]) if (!used[v] && left(v) <= left(ch[i + 1])) return vh::str("edge ", ch[i], "-", ch[i + 1], " is in neither parent although ", ch[i], "-", v, " is and ", v, " was still available");
    }
    return "";
}
inline size_t switches(const std::vector<int>& pat) { size_t n = 0; for (size_t i = 1; i < pat.size(); i++) n += pat[i] != pat[i - 1]; return n; }

template<class En> void checkForm(const Cfg& c, const BoundsVector<typename En::Gene>& b, int which, const Candidate<typename En::Gene>& p1, const Candidate<typename En::Gene>& p2, const CandidatePair<typename En::Gene>& r)
{
    using T = typename En::Gene;
    const auto &a = p1.chromosome, &d = p2.chromosome, &x = r.first.chromosome, &y = r.second.chromosome;
    const size_t n = a.size();
    auto where = [&]{ return vh::str(En::name, " crossover ", which, " param=", c.param, "/", c.param2, " parents ", vh::vec(a, 80), " ", vh::vec(d, 80), " children ", vh::vec(x, 80), " ", vh::vec(y, 80)); };
    if constexpr (std::is_same_v<En, BinE> || std::is_same_v<En, IntE>)
    {
        std::vector<int> pat;
        for (size_t i = 0; i < n; i++)
        {
            const bool keep = x[i] == a[i] && y[i] == d[i], swp = x[i] == d[i] && y[i] == a[i];
            VH_REQUIRE(keep || swp, "gene-not-inherited", where(), " at ", i);
            if (a[i] != d[i]) pat.push_back(swp);
        }
        const size_t s = switches(pat);
        if (which == 0) VH_REQUIRE(s <= 1, "single-point", where(), ": ", s, " points");
        if (which == 1) VH_REQUIRE(s <= 2, "two-point", where(), ": ", s, " points");
        if (which == 2) VH_REQUIRE(s <= 1 + size_t(c.param * 6), "n-point", where(), ": ", s, " points");
    }
    else if constexpr (std::is_same_v<En, RealE>)
    {
        size_t big = 0;
        for (size_t i = 0; i < n; i++) if (std::abs(a[i] - d[i]) > std::abs(a[big] - d[big])) big = i;
        auto inB = [&](double v, size_t i) { return b[i].lower() <= v && v <= b[i].upper(); };
        for (size_t i = 0; i < n; i++) VH_REQUIRE(inB(x[i], i) && inB(y[i], i), "child-out-of-bounds", where(), " at ", i);
        auto near = [&](double u, double v, size_t i) { return std::abs(u - v) <= 1e-9 * (std::abs(a[i]) + std::abs(d[i])) + 1e-300; };
        if (which == 0)
        {
            // the same weight for every gene; recover it from the gene that tells most
            if (a[big] != d[big] && std::abs(a[big] - d[big]) > 1e-3 * (std::abs(a[big]) + std::abs(d[big])))
            {
                const double be = (x[big] - d[big]) / (a[big] - d[big]);
                VH_REQUIRE(be >= -1e-9 && be <= 1 + 1e-9, "arithmetic-weight", where(), " weight ", be);
                for (size_t i = 0; i < n; i++)
                {
                    VH_REQUIRE(near(x[i], be * a[i] + (1 - be) * d[i], i), "arithmetic-child1", where(), " gene ", i, " weight ", be);
                    VH_REQUIRE(near(y[i], (1 - be) * a[i] + be * d[i], i), "arithmetic-child2", where(), " gene ", i, " weight ", be);
                }
            }
        }
        else if (which == 1)
            for (size_t i = 0; i < n; i++)
            {
                const double lo = std::min(a[i], d[i]), hi = std::max(a[i], d[i]), e = c.param * 2 * (hi - lo), s = 1e-9 * (std::abs(lo) + std::abs(hi) + e) + 1e-300;
                for (double v : { x[i], y[i] }) VH_REQUIRE(v >= lo - e - s && v <= hi + e + s, "blx-region", where(), " gene ", i);
            }
        else if (which == 2)
            for (size_t i = 0; i < n; i++)
            {
                const double mid = a[i] / 2 + d[i] / 2, s = 1e-9 * (std::abs(a[i]) + std::abs(d[i])) + 1e-300;
                if (a[i] == d[i]) { VH_REQUIRE(x[i] == a[i] && y[i] == a[i], "sbx-equal-genes", where(), " gene ", i); continue; }
                VH_REQUIRE(std::min(x[i], y[i]) <= mid + s && std::max(x[i], y[i]) >= mid - s, "sbx-sides", where(), " gene ", i);
            }
        else if (which == 3)
        {
            const bool d2 = dominates(p2.fitness, p1.fitness), d1 = dominates(p1.fitness, p2.fitness);
            std::string why;
            auto fits = [&](const Chromosome<T>& g, const Chromosome<T>& h, const Chromosome<T>& v)   // v = g + w (g - h), clamped
            {
                double lo = 0, hi = 1;
                for (size_t i = 0; i < n; i++)
                {
                    const double dir = g[i] - h[i];
                    if (std::abs(dir) <= 1e-3 * (std::abs(g[i]) + std::abs(h[i]))) continue;
                    const double w = (v[i] - g[i]) / dir, tol = 1e-9;
                    if (v[i] == g[i] && g[i] != b[i].lower() && g[i] != b[i].upper()) return false;   // a step of a random length
                    if (v[i] == b[i].lower() || v[i] == b[i].upper()) { lo = std::max(lo, w - tol); continue; }   // clamped: w at least this
                    lo = std::max(lo, w - tol); hi = std::min(hi, w + tol);
                }
                return lo <= hi;
            };
            for (auto* v : { &x, &y })
            {
                const bool f1 = fits(a, d, *v), f2 = fits(d, a, *v);
                VH_REQUIRE(d1 ? f1 : d2 ? f2 : (f1 || f2), "wright-form", where(), " better parent ", d1 ? 1 : d2 ? 2 : 0, " fitness ", vh::vec(p1.fitness), vh::vec(p2.fitness));
            }
        }
    }
    else
    {
        for (auto* v : { &x, &y }) { auto e = invalidChrom<En>(*v, c, b); VH_REQUIRE(e.empty(), "not-a-permutation", where(), ": ", e); }
        if (n < 2) { VH_REQUIRE(x == a && y == d, "short-chromosome", where()); return; }
        std::vector<char> direct(n, 0);
        if (which == 0 || which == 1 || which == 5)
        {
            if (n > 40) return;
            bool ok = false;
            for (size_t f = 0; f < n && !ok; f++) for (size_t l = f; l <= n && !ok; l++)
            {
                if (which == 5) { ok = pmx(a, d, f, l) == x && pmx(d, a, f, l) == y; continue; }
                std::fill(direct.begin(), direct.end(), 0); std::fill(direct.begin() + f, direct.begin() + l, 1);
                const size_t st = which == 0 ? l : 0;
                ok = ox(a, d, direct, st) == x && ox(d, a, direct, st) == y;
            }
            VH_REQUIRE(ok, which == 0 ? "order1-form" : which == 1 ? "order2-form" : "pmx-form", where(), ": no range explains the children");
        }
        else if (which == 2)
        {
            // positions copied directly are among those where the child agrees with its first parent: for n <= 12 try all subsets
            if (n > 12) return;
            bool ok = false;
            for (unsigned m = 0; m < (1u << n) && !ok; m++)
            {
                bool poss = true;
                for (size_t i = 0; i < n; i++) { direct[i] = (m >> i) & 1; if (direct[i] && (x[i] != a[i] || y[i] != d[i])) { poss = false; break; } }
                ok = poss && ox(a, d, direct, 0) == x && ox(d, a, direct, 0) == y;
            }
            VH_REQUIRE(ok, "position-form", where(), ": no set of positions explains the children");
        }
        else if (which == 3)
        {
            std::vector<size_t> posa(n); for (size_t i = 0; i < n; i++) posa[a[i]] = i;
            std::vector<char> seen(n, 0);
            for (size_t i = 0; i < n; i++)
            {
                const bool keep = x[i] == a[i] && y[i] == d[i], swp = x[i] == d[i] && y[i] == a[i];
                VH_REQUIRE(keep || swp, "cycle-gene-not-inherited", where(), " at ", i);
                if (seen[i]) continue;
                for (size_t j = i; !seen[j]; j = posa[d[j]])
                {
                    seen[j] = 1;
                    if (a[i] == d[i]) continue;
                    VH_REQUIRE((x[j] == a[j]) == (x[i] == a[i]), "cycle-split", where(), ": positions ", i, " and ", j, " belong to one cycle");
                }
            }
        }
        else if (which == 4)
        {
            size_t fresh = 0;
            auto e1 = edgeBad(x, a, d, fresh); VH_REQUIRE(e1.empty(), "edge-form", where(), ": child 1: ", e1);
            auto e2 = edgeBad(y, a, d, fresh); VH_REQUIRE(e2.empty(), "edge-form", where(), ": child 2: ", e2);
            vh::stat("edges_checked", 2 * (n - 1)); vh::stat("unavoidable_new_edges", fresh);
        }
    }
}

template<class En> void crossCase(Rng& rg, Case& cs)
{
    using T = typename En::Gene;
    math::ScopedTolerances tol(0.0, 0.0);
    Cfg c = randomCfg<En>(rg); c.gens = 1; c.dynamic = false; c.pc = rg.pick({0.0, 0.5, 1.0, 1.0, 1.0});
    if (std::is_same_v<En, PermE> && rg.chance(0.6)) c.len = rg.pick({2, 3, 4, 5, 6, 7, 8, 10, 11});
    const auto b = makeBounds<En>(c);
    const int which = int(rg.below(numCross<En>() - 2));
    rng::prng.seed(c.seed);
    withGA<En>(c, b, [&](const auto& ga)
    {
        auto op = makeCrossover<En>(c, which);
        for (int k = 0; k < 12; k++)
        {
            auto p1 = evaluated<T>(randomChrom<En>(rg, c, b), c), p2 = evaluated<T>(randomChrom<En>(rg, c, b), c);
            if (rg.chance(0.1)) p2 = p1;
            else if (rg.chance(0.2) && c.len > 1) { p2.chromosome = p1.chromosome; if constexpr (std::is_same_v<En, PermE>) { std::swap(p2.chromosome[0], p2.chromosome[rg.below(c.len)]); if (rg.chance(0.3)) std::reverse(p2.chromosome.begin(), p2.chromosome.end()); } else p2.chromosome[rg.below(c.len)] = randomChrom<En>(rg, c, b)[0 % c.len]; if (!invalidChrom<En>(p2.chromosome, c, b).empty()) p2.chromosome = p1.chromosome; p2 = evaluated<T>(p2.chromosome, c); }
            const auto q1 = p1, q2 = p2;
            const auto r = (*op)(ga, p1, p2);
            VH_REQUIRE(sameCand(p1, q1) && sameCand(p2, q2), "parents-modified", En::name, " crossover ", which, ": ", vh::vec(q1.chromosome), " ", vh::vec(q2.chromosome));
            if (c.pc == 0.0 || q1.chromosome == q2.chromosome) VH_REQUIRE(sameCand(r.first, q1) && sameCand(r.second, q2), "parents-not-returned", En::name, " crossover ", which, ": ", candText(q1), " ", candText(q2), " -> ", candText(r.first), " ", candText(r.second));
            for (auto* ch : { &r.first, &r.second })
            {
                auto e = invalidChrom<En>(ch->chromosome, c, b);
                VH_REQUIRE(e.empty(), "invalid-child", En::name, " crossover ", which, ": parents ", vh::vec(q1.chromosome), " ", vh::vec(q2.chromosome), ": ", e);
                const bool eq = ch->chromosome == q1.chromosome || ch->chromosome == q2.chromosome;
                VH_REQUIRE(ch->is_evaluated == eq, "child-evaluated-flag", En::name, " crossover ", which, ": ", candText(*ch), eq ? " equals a parent" : " differs from the parents");
                if (eq) VH_REQUIRE(ch->fitness == pureFitness(ch->chromosome, c.nobj, c.fkind), "child-fitness", En::name, " crossover ", which, ": ", candText(*ch));
            }
            const bool unchanged = r.first.chromosome == q1.chromosome && r.second.chromosome == q2.chromosome;
            if (!unchanged) { checkForm<En>(c, b, which, q1, q2, r); cs.nontrivial = true; vh::stat("crossovers_checked"); }
            cs.sig(chromHash(r.first.chromosome)); cs.sig(chromHash(r.second.chromosome));
            cs.sample_lazy("", [&]{ return vh::str("crossover ", which, ": ", vh::vec(q1.chromosome), " ", vh::vec(q2.chromosome), " -> ", vh::vec(r.first.chromosome), " ", vh::vec(r.second.chromosome)); });
        }
    });
}

/* the distribution of the simulated binary crossover's children */
template<class En> void sbxStat(Rng& rg, Case& cs)
{
    using T = typename En::Gene;
    math::ScopedTolerances tol(0.0, 0.0);
    Cfg c = randomCfg<En>(rg); c.gens = 1; c.dynamic = false; c.nobj = 1; c.fkind = F_WIDE; c.pc = 1.0;
    rng::prng.seed(c.seed);
    const int N = vh::thorough() ? 100000 : 40000;
    // the bounded spread distribution of the parameter: recover the uniform random number behind each child, also when it was clamped
    const double eta = rg.pick({ 0.0, 0.5, rg.real(0, 1), rg.real(0, 4) }); const crossover::real::SimulatedBinary op(1.0, eta); const size_t G = 5;
    BoundsVector<T> sb; Chromosome<T> sl(G), sh(G);
    for (size_t i = 0; i < G; i++)
    {
        const double scale = std::pow(10.0, rg.real(-3, 3)), off = rg.real(-1, 1) * scale, w = scale * rg.pick({ 1.0, 0.1, 1.0 });
        const double dl = rg.pick({ 0.0, 0.02, 0.2, 1.0, 30.0 }) * w, dh = rg.pick({ 0.0, 0.02, 0.2, 1.0, 30.0 }) * w;
        sl[i] = off; sh[i] = off + w; sb.emplace_back(sl[i] - dl, sh[i] + dh); if (rg.chance(.5)) std::swap(sl[i], sh[i]);
        if (rg.chance(.2)) { sh[i] = sl[i]; vh::stat("sbx_equal_genes"); }
    }
    if (sl == sh) { sb[G - 1] = { -1.0, 3.0 }; sl[G - 1] = 0.0; sh[G - 1] = 1.0; }
    Cfg c2 = c; c2.len = G;
    withGA<En>(c2, sb, [&](const auto& ga2)
    {
        Candidate<T> q1(sl), q2(sh); q1.fitness = { 2.0 }; q2.fitness = { 1.0 }; q1.is_evaluated = q2.is_evaluated = true;
        std::vector<std::vector<double>> us(2 * G);
        for (int k = 0; k < N; k++)
        {
            auto r = op(ga2, q1, q2);
            for (size_t i = 0; i < G; i++)
            {
                if (sl[i] == sh[i]) { VH_REQUIRE(r.first.chromosome[i] == sl[i] && r.second.chromosome[i] == sl[i], "sbx-equal-gene", "simulated binary crossover changed a gene that is ", sl[i], " in both parents"); us[2 * i].push_back(0.5); us[2 * i + 1].push_back(0.5); continue; }
                const double l = std::min(sl[i], sh[i]), h = std::max(sl[i], sh[i]), w = h - l, mid = (l + h) / 2, x[2] = { std::min(r.first.chromosome[i], r.second.chromosome[i]), std::max(r.first.chromosome[i], r.second.chromosome[i]) };
                for (int s = 0; s < 2; s++)
                {
                    const double room = s ? sb[i].upper() - h : l - sb[i].lower(), alpha = 2 - std::pow(1 + 2 * room / w, -(eta + 1)), most = 1 + 2 * room / w;
                    const double beta = std::max(0.0, (s ? x[1] - mid : mid - x[0]) * 2 / w); double v;
                    if (beta >= most * (1 - 1e-9)) v = rg.real(0, std::pow(most, -1 / (eta + 1)) / alpha);
                    else if (beta >= 1) v = std::pow(beta, -1 / (eta + 1)) / alpha;
                    else v = (2 - std::pow(beta, 1 / (eta + 1))) / alpha;
                    us[2 * i + s].push_back(v);
                }
            }
        }
        for (size_t i = 0; i < us.size(); i++)
        {
            if (sl[i / 2] == sh[i / 2]) continue;
            double ks = vh::ksScore(us[i], [](double x) { return std::clamp(x, 0.0, 1.0); }); vh::maximum("ks_sbx", ks);
            VH_REQUIRE(ks < vh::KSLIM, "sbx-distribution", "simulated binary crossover, eta=", eta, " parents ", vh::vec(sl), " ", vh::vec(sh), " gene ", i / 2, " bounds [", sb[i / 2].lower(), ", ", sb[i / 2].upper(), "], ", i % 2 ? "upper" : "lower", " child: not distributed as the parameter says, KS=", ks);
        }
        for (size_t i = 0; i < G; i++) for (size_t j : { 2 * i + 1, (2 * i + 2) % (2 * G) })
        {
            double sc = 0; for (int k = 0; k < N; k++) sc += (us[2 * i][k] - 0.5) * (us[j][k] - 0.5); sc /= N / 12.0;
            VH_REQUIRE(std::abs(sc) < 8 / std::sqrt(double(N)), "sbx-correlated", "simulated binary crossover: correlation ", sc);
        }
        vh::stat("sbx_distributions", us.size());
    });
    cs.nontrivial = true; cs.sig(eta); cs.sig(c.seed);
}

/* complementary parents: every gene differs */
template<class En> void crossStat(Rng& rg, Case& cs)
{
    using T = typename En::Gene;
    math::ScopedTolerances tol(0.0, 0.0);
    Cfg c = randomCfg<En>(rg); c.gens = 1; c.dynamic = false; c.nobj = 1; c.fkind = F_WIDE;
    rng::prng.seed(c.seed);
    const int which = int(cs.h % uint64_t(numCross<En>() - 2));
    const int N = vh::thorough() ? 20000 : 6000;
    auto differing = [&](const auto& ga, double pc, auto&& each)
    {
        (void)ga; (void)pc; (void)each;
    };
    (void)differing;
    if constexpr (std::is_same_v<En, BinE> || std::is_same_v<En, IntE>)
    {
        c.boundk = 5; c.len = size_t(rg.pick({8, 12, 20, 40})); c.pc = 1.0;
        const auto b = makeBounds<En>(c);
        Chromosome<T> lo(c.len), hi(c.len);
        for (size_t i = 0; i < c.len; i++) { lo[i] = std::is_same_v<En, BinE> ? T(0) : T(7); hi[i] = T(lo[i] + 1); }
        withGA<En>(c, b, [&](const auto& ga)
        {
            auto op = makeCrossover<En>(c, which);
            auto p1 = evaluated<T>(lo, c), p2 = evaluated<T>(hi, c);
            std::vector<double> cut(c.len, 0), swp(c.len, 0), nsw; std::vector<double> pts(c.len + 1, 0); double total = 0;
            for (int k = 0; k < N; k++)
            {
                auto r = (*op)(ga, p1, p2);
                std::vector<int> pat(c.len); double s = 0;
                for (size_t i = 0; i < c.len; i++) { pat[i] = r.first.chromosome[i] != lo[i]; s += pat[i]; swp[i] += pat[i]; }
                for (size_t i = 1; i < c.len; i++) cut[i] += pat[i] != pat[i - 1];
                pts[switches(pat)]++; total += s; nsw.push_back(s);
            }
            auto what = [&]{ return vh::str(En::name, " crossover ", which, " len=", c.len, " param=", c.param, "/", c.param2, " n=", N); };
            std::vector<double> inner(cut.begin() + 1, cut.end());
            if (which <= 2)
            {
                double z = vh::chi2Uniform(inner); vh::maximum("z_cut_positions", z);
                VH_REQUIRE(z < vh::ZLIM, "cut-positions", what(), ": crossover points not uniform: ", vh::vec(inner), " z=", z);
                const size_t most = which == 0 ? 1 : which == 1 ? 2 : 1 + size_t(c.param * 6);
                for (size_t i = most + 1; i < pts.size(); i++) VH_REQUIRE(pts[i] == 0, "too-many-cuts", what(), ": ", i, " points");
                VH_REQUIRE(most >= c.len || pts[most] > 0.1 * N, "too-few-cuts", what(), ": ", most, " points only ", pts[most], " times");
            }
            else
            {
                const double f = total / (double(N) * c.len), slack = c.len <= 5 ? 0 : 0.03, sd = std::sqrt(c.param2 * (1 - c.param2) / (double(N) * c.len));
                VH_REQUIRE(std::abs(f - c.param2) <= slack + 8 * sd, "uniform-swap-rate", what(), ": swapped ", f);
                if (f > 0 && f < 1) { double z = vh::chi2Uniform(swp); if (f < 0.9) VH_REQUIRE(z < vh::ZLIM, "uniform-swap-positions", what(), ": ", vh::vec(swp), " z=", z); }
                double var = 0; for (double s : nsw) var += (s - f * c.len) * (s - f * c.len); var /= N;
                const double ev = c.len * c.param2 * (1 - c.param2);
                if (ev > 1) VH_REQUIRE(var > 0.6 * ev && var < 1.6 * ev, "uniform-swap-variance", what(), ": variance ", var, " expected about ", ev);
            }
        });
    }
    else if constexpr (std::is_same_v<En, RealE>)
    {
        c.len = 3; c.pc = 1.0;
        BoundsVector<T> b(3, Bounds<T>(-1000.0, 1000.0));
        Chromosome<T> lo{ 1.0, -2.0, 10.0 }, hi{ 3.0, 5.0, -4.0 };
        withGA<En>(c, b, [&](const auto& ga)
        {
            auto op = makeCrossover<En>(c, which);
            Candidate<T> p1(lo), p2(hi); p1.fitness = { 2.0 }; p2.fitness = { 1.0 }; p1.is_evaluated = p2.is_evaluated = true;
            std::vector<std::vector<double>> u(6); double below = 0;
            for (int k = 0; k < N; k++)
            {
                auto r = (*op)(ga, p1, p2);
                for (int i = 0; i < 3; i++)
                {
                    const double l = std::min(lo[i], hi[i]), w = std::abs(hi[i] - lo[i]);
                    double x = r.first.chromosome[i], y = r.second.chromosome[i];
                    if (which == 0) { u[i].push_back((x - hi[i]) / (lo[i] - hi[i])); }
                    else if (which == 1) { const double al = c.param * 2; for (int j = 0; j < 2; j++) u[i + 3 * j].push_back(((j ? y : x) - l + al * w) / (w * (1 + 2 * al))); }
                    else if (which == 3) { u[i].push_back((x - lo[i]) / (lo[i] - hi[i])); u[i + 3].push_back((y - lo[i]) / (lo[i] - hi[i])); }
                    else below += x != lo[i] || y != hi[i];
                }
            }
            for (size_t i = 0; i < u.size(); i++) if (!u[i].empty())
            {
                double ks = vh::ksScore(u[i], [](double x) { return std::clamp(x, 0.0, 1.0); }); vh::maximum("ks_real_crossover", ks);
                VH_REQUIRE(ks < vh::KSLIM, "real-crossover-distribution", "real crossover ", which, " param=", c.param, " gene ", i % 3, " child ", i / 3, ": position in the documented region not uniform, KS=", ks);
            }
            if (which == 1 || which == 3)
            {
                // the two children use different random numbers
                double s = 0; for (int k = 0; k < N; k++) s += (u[0][k] - 0.5) * (u[3][k] - 0.5); s /= N / 12.0;
                VH_REQUIRE(std::abs(s) < 8 / std::sqrt(double(N)), "children-correlated", "real crossover ", which, ": correlation ", s);
            }
            if (which == 1) { double s = 0; for (int k = 0; k < N; k++) s += (u[0][k] - 0.5) * (u[1][k] - 0.5); s /= N / 12.0; VH_REQUIRE(std::abs(s) < 8 / std::sqrt(double(N)), "genes-correlated", "real crossover ", which, ": correlation ", s); }
            if (which == 2) VH_REQUIRE(below > 0.5 * N, "sbx-inactive", "simulated binary crossover changed only ", below, " genes");
        });
    }
    else
    {
        c.len = size_t(rg.pick({6, 7, 9})); c.pc = 1.0;
        const auto b = makeBounds<En>(c);
        withGA<En>(c, b, [&](const auto& ga)
        {
            auto op = makeCrossover<En>(c, which);
            size_t changed = 0, able = 0;
            std::vector<double> kept(c.len, 0);
            for (int k = 0; k < N; k++)
            {
                auto p1 = evaluated<T>(randomChrom<En>(rg, c, b), c), p2 = evaluated<T>(randomChrom<En>(rg, c, b), c);
                // number of cycles of two or more positions
                std::vector<size_t> pos(c.len); for (size_t i = 0; i < c.len; i++) pos[p1.chromosome[i]] = i;
                std::vector<char> seen(c.len, 0); size_t cyc = 0;
                for (size_t i = 0; i < c.len; i++) if (!seen[i]) { size_t l = 0; for (size_t j = i; !seen[j]; j = pos[p2.chromosome[j]]) { seen[j] = 1; l++; } cyc += l > 1; }
                if (cyc < 2) continue;
                auto r = (*op)(ga, p1, p2);
                able++;
                changed += (r.first.chromosome != p1.chromosome && r.first.chromosome != p2.chromosome) || (r.second.chromosome != p1.chromosome && r.second.chromosome != p2.chromosome);
                for (size_t i = 0; i < c.len; i++) kept[i] += r.first.chromosome[i] == p1.chromosome[i];
            }
            vh::stat("perm_crossovers_counted", able);
            VH_REQUIRE(able < 50 || changed > 0.25 * able, "perm-crossover-inactive", "perm crossover ", which, " len ", c.len, ": only ", changed, " of ", able, " pairs produced a new permutation");
        });
    }
    cs.nontrivial = true; cs.sig(uint64_t(which)); cs.sig(c.seed);
}

/* the rate: how often the operator itself is entered */
template<class En> class CountCross final : public crossover::Crossover<typename En::Gene>
{
public:
    using T = typename En::Gene; using crossover::Crossover<T>::Crossover; mutable size_t n = 0;
private:
    CandidatePair<T> crossover(const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) const override { n++; return { b, a }; }
};
template<class En> void crossRate(Rng& rg, Case& cs)
{
    using T = typename En::Gene;
    Cfg c = randomCfg<En>(rg); c.gens = 1; c.dynamic = false; c.len = 8; c.boundk = 0;
    const auto b = makeBounds<En>(c);
    const double pc = rg.chance(0.3) ? rg.pick({0.0, 1.0, 0.5, 0.01, 0.99}) : rg.unit();
    rng::prng.seed(c.seed);
    const size_t N = vh::thorough() ? 100000 : 40000;
    withGA<En>(c, b, [&](const auto& ga)
    {
        Candidate<T> p1 = evaluated<T>(randomChrom<En>(rg, c, b), c), p2 = p1;
        while (p2.chromosome == p1.chromosome) p2 = evaluated<T>(randomChrom<En>(rg, c, b), c);
        CountCross<En> op(pc); size_t swapped = 0;
        for (size_t i = 0; i < N; i++) { auto r = op(ga, p1, p2); swapped += r.first.chromosome == p2.chromosome; VH_REQUIRE(r.first.is_evaluated && r.second.is_evaluated && r.first.fitness == pureFitness(r.first.chromosome, c.nobj, c.fkind), "copied-child-fitness", candText(r.first)); }
        VH_REQUIRE(vh::binomialOk(double(op.n), double(N), pc), "crossover-rate", En::name, ": rate ", pc, " crossovers ", op.n, " of ", N);
        VH_REQUIRE(swapped == op.n, "crossover-result-lost", En::name, ": ", op.n, " crossovers, ", swapped, " results");
        // the rate of a built-in operator after it was changed on the operator
        auto bi = makeCrossover<En>(c, 0); bi->crossover_rate(pc); VH_REQUIRE(double(bi->crossover_rate()) == pc, "rate-getter", "");
    });
    cs.nontrivial = true; cs.sig(pc);
    vh::stat("rate_samples", N);
}

/* generic (any gene type) and unsigned implementations agree */
inline void genericPerm(Rng& rg, Case& cs)
{
    using namespace crossover::dtl;
    const size_t n = 2 + rg.below(14);
    Candidate<unsigned> a(n), b(n); for (size_t i = 0; i < n; i++) a.chromosome[i] = b.chromosome[i] = unsigned(i);
    rg.shuffle(a.chromosome); rg.shuffle(b.chromosome);
    std::vector<int> val(n); for (size_t i = 0; i < n; i++) val[i] = int(i) * 7 - 20;      // any distinct values
    auto tr = [&](const Candidate<unsigned>& c) { Candidate<int> r(n); for (size_t i = 0; i < n; i++) r.chromosome[i] = val[c.chromosome[i]]; return r; };
    auto A = tr(a), B = tr(b);
    size_t f = rg.below(n + 1), l = f + rg.below(n - f + 1);
    std::vector<size_t> idx; for (size_t i = 0; i < n; i++) if (rg.chance(0.5)) idx.push_back(i); rg.shuffle(idx);
    std::vector<size_t> pa(a.chromosome.begin(), a.chromosome.end()), pb(b.chromosome.begin(), b.chromosome.end());
    std::vector<char> d(n, 0), di(n, 0); std::fill(d.begin() + f, d.begin() + l, 1); for (size_t i : idx) di[i] = 1;
    auto eq = [&](const Candidate<unsigned>& u, const Candidate<int>& g, const std::vector<size_t>* ref, const char* what)
    {
        VH_REQUIRE(tr(u).chromosome == g.chromosome, "generic-differs", what, ": parents ", vh::vec(a.chromosome), " ", vh::vec(b.chromosome), " range ", f, " ", l, ": ", vh::vec(u.chromosome), " / ", vh::vec(g.chromosome));
        if (ref) VH_REQUIRE(std::equal(u.chromosome.begin(), u.chromosome.end(), ref->begin(), ref->end()), "differs-from-definition", what, ": parents ", vh::vec(a.chromosome), " ", vh::vec(b.chromosome), " range ", f, " ", l, ": ", vh::vec(u.chromosome), " expected ", vh::vec(*ref));
    };
    auto r1 = ox(pa, pb, d, l), r2 = ox(pa, pb, d, 0), r3 = ox(pa, pb, di, 0), r4 = pmx(pa, pb, f, l);
    if (f < l || l < n) eq(order1CrossoverImpl(a, b, f, l), order1CrossoverImpl(A, B, f, l), &r1, "order1");
    eq(order2CrossoverImpl(a, b, f, l), order2CrossoverImpl(A, B, f, l), &r2, "order2");
    eq(positionCrossoverImpl(a, b, std::span<const size_t>(idx)), positionCrossoverImpl(A, B, std::span<const size_t>(idx)), &r3, "position");
    eq(pmxCrossoverImpl(a, b, f, l), pmxCrossoverImpl(A, B, f, l), &r4, "pmx");
    auto cu = cycleCrossoverImpl(a, b); auto cg = cycleCrossoverImpl(A, B);
    eq(cu.first, cg.first, nullptr, "cycle"); eq(cu.second, cg.second, nullptr, "cycle");
    size_t fresh = 0;
    auto eg = edgeCrossoverImpl(A, B); std::map<int, size_t> inv; for (size_t i = 0; i < n; i++) inv[val[i]] = i;
    std::vector<size_t> back; std::set<int> distinct(eg.chromosome.begin(), eg.chromosome.end());
    VH_REQUIRE(distinct.size() == n && eg.chromosome.size() == n, "edge-not-a-permutation", vh::vec(eg.chromosome));
    for (int v : eg.chromosome) { VH_REQUIRE(inv.count(v), "edge-not-a-permutation", vh::vec(eg.chromosome)); back.push_back(inv[v]); }
    auto e = edgeBad(back, pa, pb, fresh); VH_REQUIRE(e.empty(), "edge-form", "generic: parents ", vh::vec(pa), vh::vec(pb), " child ", vh::vec(back), ": ", e);
    cs.nontrivial = pa != pb; cs.sig(chromHash(a.chromosome)); cs.sig(chromHash(b.chromosome));
    vh::stat("generic_comparisons");
}

/* ---------- mutation ---------- */
template<class En> void mutCase(Rng& rg, Case& cs)
{
    using T = typename En::Gene;
    math::ScopedTolerances tol(0.0, 0.0);
    Cfg c = randomCfg<En>(rg); c.dynamic = false; c.gens = rg.pick({1, 2, 5}); c.pm = rg.pick({0.0, 0.3, 1.0, 1.0});
    const auto b = makeBounds<En>(c);
    const int which = int(rg.below(numMut<En>() - 2));
    rng::prng.seed(c.seed);
    withGA<En>(c, b, [&](const auto& ga)
    {
        auto op = makeMutation<En>(c, which, b);
        for (int k = 0; k < 10; k++)
        {
            Candidate<T> cand(randomChrom<En>(rg, c, b)); if (rg.chance(0.6)) cand = evaluated<T>(cand.chromosome, c);
            const auto old = cand;
            (*op)(ga, cand);
            const auto &a = old.chromosome, &x = cand.chromosome; const size_t n = a.size();
            auto where = [&]{ return vh::str(En::name, " mutation ", which, " pm=", c.pm, " param=", c.param, "/", c.param2, " generation ", ga.generation_cntr(), ": ", vh::vec(a, 80), " -> ", vh::vec(x, 80)); };
            auto e = invalidChrom<En>(x, c, b); VH_REQUIRE(e.empty(), "invalid-mutant", where(), ": ", e);
            VH_REQUIRE(cand.is_evaluated == (old.is_evaluated && a == x), "mutant-evaluated-flag", where(), " flag ", cand.is_evaluated);
            if (cand.is_evaluated) VH_REQUIRE(cand.fitness == old.fitness, "mutant-fitness", where());
            size_t changed = 0, first = n, last = 0;
            for (size_t i = 0; i < n; i++) if (a[i] != x[i]) { changed++; first = std::min(first, i); last = i + 1; }
            if (c.pm == 0.0) VH_REQUIRE(changed == 0, "mutation-at-rate-0", where());
            if (changed) { cs.nontrivial = true; vh::stat("mutations_checked"); }
            if constexpr (std::is_same_v<En, BinE>) { if (c.pm == 1.0) VH_REQUIRE(changed == n, "flip-at-rate-1", where()); }
            else if constexpr (std::is_same_v<En, IntE>) { if (c.pm == 1.0) for (size_t i = 0; i < n; i++) VH_REQUIRE(a[i] != x[i] || b[i].lower() == b[i].upper(), "integer-gene-not-changed", where(), " gene ", i); }
            else if constexpr (std::is_same_v<En, RealE>) { if (which == 4 && c.pm == 1.0) for (size_t i = 0; i < n; i++) VH_REQUIRE(x[i] == b[i].lower() || x[i] == b[i].upper(), "boundary-mutation", where(), " gene ", i); }
            else
            {
                const size_t mx = which == 4 ? std::max<size_t>(1, size_t(c.param * n)) : std::max<size_t>(2, size_t(c.param * n));
                if (c.pm == 1.0 && n >= 2)
                {
                    if (which == 1) VH_REQUIRE(changed == 2, "swap2", where());
                    if (which == 2) VH_REQUIRE(changed == (n >= 3 ? 3 : 0), "swap3", where());
                    if (which == 0 || which == 4) VH_REQUIRE(changed > 0, "no-mutation-at-rate-1", where());
                }
                if (changed)
                {
                    const size_t len = last - first;
                    if (which == 1) VH_REQUIRE(changed == 2, "swap2", where());
                    if (which == 2) VH_REQUIRE(changed == 3, "swap3", where());
                    if (which == 0) { auto r = a; std::reverse(r.begin() + first, r.begin() + last); VH_REQUIRE(r == x && len <= mx, "inversion", where(), " longest ", mx); }
                    if (which == 3) VH_REQUIRE(len <= mx, "shuffle-length", where(), " longest ", mx);
                    if (which == 4)
                    {
                        size_t k2 = size_t(std::find(a.begin() + first, a.begin() + last, x[first]) - (a.begin() + first));
                        auto r = a; std::rotate(r.begin() + first, r.begin() + first + k2, r.begin() + last);
                        VH_REQUIRE(r == x && std::min(k2, len - k2) <= mx, "shift", where(), " longest ", mx);
                    }
                }
            }
            cs.sig(chromHash(x)); cs.sample_lazy("", where);
        }
    });
}

template<class En> void mutStat(Rng& rg, Case& cs)
{
    using T = typename En::Gene;
    math::ScopedTolerances tol(0.0, 0.0);
    Cfg c = randomCfg<En>(rg); c.dynamic = false; c.gens = 1; c.len = size_t(rg.pick({1, 2, 4, 5, 6, 10, 30, 60, 200})); c.pm = rg.chance(0.4) ? rg.pick({0.0, 1.0, 0.5, 0.02, 0.1}) : rg.unit();
    const int which = int(cs.h % uint64_t(numMut<En>() - 2));
    if constexpr (std::is_same_v<En, PermE>) c.len = size_t(rg.pick({5, 8, 12}));
    c.param = rg.pick({0.0, 0.5, 0.9, 1.0}); c.boundk = 0;
    const size_t N = std::max<size_t>(3000, (vh::thorough() ? 400000 : 80000) / c.len);
    BoundsVector<T> b = makeBounds<En>(c);
    // every gene has bounds of its own (the same shape, shifted and scaled by a power of two)
    std::vector<double> off(c.len, 0.0), scl(c.len, 1.0); const bool own = rg.chance(0.6);
    if (own) for (size_t i = 0; i < c.len; i++) { off[i] = double(rg.range(-3, 3)) * (std::is_same_v<En, IntE> ? 100 : 16); scl[i] = rg.pick({0.25, 1.0, 8.0}); }
    if constexpr (std::is_same_v<En, IntE>) { b.clear(); for (size_t i = 0; i < c.len; i++) b.push_back(Bounds<T>(T(-2 + off[i]), T(4 + off[i]))); }
    if constexpr (std::is_same_v<En, RealE>) { b.clear(); for (size_t i = 0; i < c.len; i++) b.push_back(Bounds<T>(-2.0 * scl[i] + off[i], 6.0 * scl[i] + off[i])); }
    if (own && c.len > 1) vh::stat("distribution_tests_with_different_bounds");
    rng::prng.seed(c.seed);
    if (std::is_same_v<En, RealE> && which == 1) c.gens = 8;
    withGA<En>(c, b, [&](const auto& ga)
    {
        auto op = makeMutation<En>(c, which, b);
        auto what = [&]{ return vh::str(En::name, " mutation ", which, " len=", c.len, " pm=", c.pm, " param=", c.param, "/", c.param2, " generation ", ga.generation_cntr(), "/", ga.max_gen(), " n=", N); };
        Chromosome<T> base(c.len);
        for (size_t i = 0; i < c.len; i++) { if constexpr (std::is_same_v<En, PermE>) base[i] = i; else if constexpr (std::is_same_v<En, BinE>) base[i] = T(i % 2); else if constexpr (std::is_same_v<En, IntE>) base[i] = T(1 + off[i]); else base[i] = scl[i] + off[i]; }
        std::vector<double> pos(c.len, 0), lens(c.len + 1, 0), counts; double changed = 0, any = 0; std::vector<double> vals; std::vector<double> iv(7, 0);
        for (size_t k = 0; k < N; k++)
        {
            Candidate<T> cand(base); (*op)(ga, cand);
            size_t ch = 0, first = c.len, last = 0;
            for (size_t i = 0; i < c.len; i++) if (cand.chromosome[i] != base[i])
            {
                ch++; pos[i]++; first = std::min(first, i); last = i + 1;
                if constexpr (std::is_same_v<En, RealE>) { if (vals.size() < 40000) vals.push_back((cand.chromosome[i] - off[i]) / scl[i]); }
                if constexpr (std::is_same_v<En, IntE>) iv[size_t(cand.chromosome[i] - T(off[i]) + 2)]++;
            }
            changed += double(ch); any += ch > 0; if (last > first) lens[last - first]++;
            counts.push_back(double(ch));
        }
        if constexpr (std::is_same_v<En, PermE>)
        {
            if (which != 3) VH_REQUIRE(vh::binomialOk(any, double(N), c.pm), "mutation-rate", what(), ": mutated ", any / N);
            else VH_REQUIRE(any / N <= c.pm + 0.03 && any / N >= 0.5 * c.pm - 0.03, "mutation-rate", what(), ": mutated ", any / N);
            if (any > 2000)
            {
                if (which == 1 || which == 2) { double z = vh::chi2Uniform(pos); VH_REQUIRE(z < vh::ZLIM, "swap-positions", what(), ": ", vh::vec(pos), " z=", z); }
                if (which == 1) for (size_t l = 2; l <= c.len; l++) VH_REQUIRE(lens[l] > 0, "swap-distance-missing", what(), ": distance ", l - 1);
                const size_t mx = std::max<size_t>(2, size_t(c.param * c.len));
                if (which == 0 || which == 3) for (size_t l = 2; l <= mx; l++) VH_REQUIRE(lens[l] > 0, "range-length-missing", what(), ": length ", l, " of ", mx, ": ", vh::vec(lens));
                if (which == 0) { std::vector<double> le(lens.begin() + 2, lens.begin() + mx + 1); double z = vh::chi2Uniform(le); VH_REQUIRE(le.size() < 2 || z < vh::ZLIM, "inversion-lengths", what(), ": ", vh::vec(lens), " z=", z); }
                for (size_t i = 0; i < c.len; i++) VH_REQUIRE(pos[i] > 0, "position-never-mutated", what(), ": position ", i);
            }
        }
        else
        {
            const double f = changed / (double(N) * c.len);
            // the number of mutated genes is an approximated binomial for longer chromosomes
            const double slack = vh::binomialApproxBias(c.len, c.pm) / double(c.len), sd = std::sqrt(c.pm * (1 - c.pm) / (double(N) * c.len));
            VH_REQUIRE(std::abs(f - c.pm) <= 1.1 * slack + 8 * 1.3 * sd, "mutation-rate", what(), ": mutated ", f, " of the genes, allowed bias ", slack);
            vh::maximum("mutation_rate_deviation", std::abs(f - c.pm));
            if (f > 0 && f < 0.9 && c.len > 1) { double z = vh::chi2Uniform(pos); VH_REQUIRE(z < vh::ZLIM, "mutated-positions", what(), ": ", vh::vec(pos), " z=", z); }
            double var = 0; for (double s : counts) var += (s - f * c.len) * (s - f * c.len); var /= double(N);
            const double ev = c.len * c.pm * (1 - c.pm);
            if (ev > 1) VH_REQUIRE(var > 0.6 * ev && var < 1.6 * ev, "mutation-count-variance", what(), ": variance ", var, " expected about ", ev);
            if constexpr (std::is_same_v<En, IntE>) { std::vector<double> pr(7, 1.0); pr[3] = 0; if (changed > 500) { double z = vh::chi2Score(iv, pr); VH_REQUIRE(z < vh::ZLIM, "integer-values", what(), ": ", vh::vec(iv), " z=", z); } }
            if constexpr (std::is_same_v<En, RealE>)
            {
                if (vals.size() > 1000)
                {
                    double ks = 0; const double lo = -2, hi = 6, x0 = 1;
                    if (which == 0) ks = vh::ksScore(vals, [&](double v) { return std::clamp((v - lo) / (hi - lo), 0.0, 1.0); });
                    if (which == 1)
                    {
                        const double e = std::pow(1.0 - double(ga.generation_cntr()) / double(ga.max_gen()), c.param * 4);
                        ks = vh::ksScore(vals, [&](double v) { double m = v < x0 ? (x0 - v) / (x0 - lo) : (v - x0) / (hi - x0); m = std::min(m, 1.0); double F = 1 - std::pow(1 - m, 1 / e); return v < x0 ? 0.5 * (1 - F) : 0.5 + 0.5 * F; });
                    }
                    if (which == 2)
                    {
                        const double sd2 = (hi - lo) / (0.5 + c.param * 10);
                        ks = vh::ksScore(vals, [&](double v) { return v < lo ? 0.0 : v >= hi ? 1.0 : vh::normalCdf((v - x0) / sd2); });
                    }
                    if (which == 3)
                    {
                        const double q = 1 + c.param2 * 50;
                        ks = vh::ksScore(vals, [&](double v) { return v < lo ? 0.0 : v < x0 ? 0.5 * std::pow((v - lo) / (x0 - lo), q) : v >= hi ? 1.0 : 1 - 0.5 * std::pow((hi - v) / (hi - x0), q); });
                    }
                    if (which == 4) { double l = 0; for (double v : vals) l += v == lo; ks = std::abs(vh::zBinomial(l, double(vals.size()), 0.5)) / 2.2; }
                    vh::maximum("ks_real_mutation", ks);
                    VH_REQUIRE(ks < vh::KSLIM, "real-mutation-distribution", what(), ": KS=", ks);
                }
            }
        }
    });
    cs.nontrivial = true; cs.sig(uint64_t(which)); cs.sig(c.pm); cs.sig(c.seed);
    vh::stat("distribution_tests");
}

template<class En> void opsArea(const std::string& prop, double scale)
{
    const std::string e = En::name; const uint64_t s = uint64_t(scale);
    if (prop == "P09")
    {
        vh::cases(e + "-form", 1200 * s, 60000 * s, [](Rng& r, Case& c) { crossCase<En>(r, c); });
        vh::cases(e + "-distribution", 24 * s, 300 * s, [](Rng& r, Case& c) { c.h = r.next(); crossStat<En>(r, c); });
        if constexpr (std::is_same_v<En, RealE>) vh::cases("sbx-distribution", 40, 400, [](Rng& r, Case& c) { c.h = r.next(); sbxStat<En>(r, c); });
        vh::cases(e + "-rate", 8 * s, 100 * s, [](Rng& r, Case& c) { crossRate<En>(r, c); });
        if constexpr (std::is_same_v<En, PermE>) vh::cases("perm-generic", 3000 * s, 200000 * s, [](Rng& r, Case& c) { genericPerm(r, c); });
    }
    if (prop == "P10")
    {
        vh::cases(e + "-form", 1200 * s, 60000 * s, [](Rng& r, Case& c) { mutCase<En>(r, c); });
        vh::cases(e + "-distribution", 40 * s, 600 * s, [](Rng& r, Case& c) { c.h = r.next(); mutStat<En>(r, c); });
    }
}
