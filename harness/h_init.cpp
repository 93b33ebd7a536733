/* The random choices of a run (P37): the generated part of the initial population samples the allowed chromosomes uniformly and independently, and
   the parents of the crossovers are independent selections, on every number of threads. */
#include "ga_common.hpp"
#include "stats.hpp"

template<class En> struct Flat final : FitnessFunctionBase<typename En::Gene>
{
    using T = typename En::Gene;
    explicit Flat(size_t len) : FitnessFunctionBase<T>(len) {}
    FitnessVector invoke(const Chromosome<T>&) const override { return { 0.0 }; }
};
/* sum of the squared deviations of the per-population sums: duplicated or complementary candidates change it. The sums of independent uniform values have
   lighter tails than the normal distribution, so the chi-squared distribution (Wilson-Hilferty) is a conservative reference. */
struct Dispersion
{
    double s = 0; size_t n = 0;
    void add(double z2) { s += z2; n++; }
    double score(double expect, double dof) const { const double k = double(n) * dof; return n < 30 ? 0 : std::abs(std::cbrt(s / double(n) / expect) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k)); }
};

template<class En> static void initCase(Rng& r, Case& cs)
{
    using T = typename En::Gene; using Ch = Chromosome<T>;
    size_t len = size_t(r.pick({1, 2, 3, 4, 5, 8, 12, 40, 100, 300}));
    if constexpr (std::is_same_v<En, PermE>) len = size_t(r.pick({2, 3, 4, 5, 8, 12, 40}));
    const size_t pop = len > 60 ? size_t(r.pick({1, 2, 5, 10, 16})) : size_t(r.pick({1, 2, 3, 4, 7, 10, 16, 40, 100})), npre = pop > 2 && r.chance(0.4) ? 1 + r.below(pop - 1) : 0;
    const size_t total = (vh::thorough() ? 40000 : 8000) / (len > 60 ? 4 : 1), runs = std::max<size_t>(total / (pop - npre), 300);
    const int threads = r.pick({1, 1, 2, 8}); execution_threads(threads);
    BoundsVector<T> b; std::vector<double> width(len, 2);
    for (size_t i = 0; i < len; i++)
    {
        if constexpr (std::is_same_v<En, IntE>)
        {
            const int64_t lo = r.pick<int64_t>({ 0, -3, 100, -1000000, int64_t(std::numeric_limits<T>::min()) }), w = r.pick<int64_t>({ 0, 1, 2, 4, 9, 99, 1000003, int64_t(1) << 40, int64_t(1) << 62 }); const bool top = r.chance(0.1);
            b.emplace_back(top ? T(std::numeric_limits<T>::max() - w) : T(lo), top ? std::numeric_limits<T>::max() : T(lo + w)); width[i] = double(w + 1);
        }
        if constexpr (std::is_same_v<En, RealE>) { const double s = std::pow(10.0, r.real(-6, 6)), o = r.pick({ 0.0, 1.0, -0.5, -3.0 }) * s, w = r.chance(0.1) ? 0.0 : s; b.emplace_back(o, o + w); width[i] = w; }
    }
    const auto what = vh::str(En::name, " len=", len, " pop=", pop, " presets=", npre, " runs=", runs, " threads=", threads);
    // a gene as a number in [0, 1)
    auto norm = [&](const Ch& c, size_t i) { double x = 0; if constexpr (std::is_same_v<En, BinE>) x = c[i] ? 0.75 : 0.25; else if constexpr (std::is_same_v<En, PermE>) x = (double(c[i]) + 0.5) / double(len); else if constexpr (std::is_same_v<En, IntE>) x = (double(int64_t(c[i]) - int64_t(b[i].lower())) + 0.5) / width[i]; else x = width[i] ? (c[i] - b[i].lower()) / width[i] : 0.5; return x; };
    auto var1 = [&](size_t i) { if constexpr (std::is_same_v<En, RealE>) return width[i] ? 1.0 / 12 : 0.0; else { const double w = std::is_same_v<En, BinE> ? 2.0 : std::is_same_v<En, PermE> ? double(len) : width[i]; return (1 - 1 / (w * w)) / 12; } };
    auto mean1 = [&](size_t) { return 0.5; };
    std::vector<std::vector<double>> vals(len); std::vector<Dispersion> within(len); std::map<std::vector<size_t>, double> perms; std::vector<double> cross(len, 0); std::vector<double> lagsum(len, 0);
    size_t n = 0;
    typename En::GAT ga(pop); if (r.chance(0.5)) ga.algorithm(std::make_unique<UserAlgorithm>());
    std::vector<Ch> seen;
    ga.on_generation_end([&](const GaInfo& g) { if (seen.empty()) for (const auto& cand : static_cast<const typename En::GAT&>(g).population()) seen.push_back(cand.chromosome); });
    rng::prng.seed(r.next());
    for (size_t k = 0; k < runs; k++)
    {
        seen.clear(); Population<T> init; Ch fixed(len);
        for (size_t i = 0; i < len; i++) { if constexpr (std::is_same_v<En, BinE>) fixed[i] = T(i % 2); else if constexpr (std::is_same_v<En, PermE>) fixed[i] = T(i); else fixed[i] = b[i].lower(); }
        for (size_t p = 0; p < npre; p++) init.push_back(Candidate<T>(fixed));
        if constexpr (En::bounded) ga.solve(Flat<En>(len), b, 1, init); else ga.solve(Flat<En>(len), 1, init);
        VH_REQUIRE(seen.size() == pop, "population-size", what, ": ", seen.size());
        for (size_t p = 0; p < npre; p++) { auto it = std::find(seen.begin(), seen.end(), fixed); VH_REQUIRE(it != seen.end(), "preset-missing", what); seen.erase(it); }
        for (size_t i = 0; i < len; i++)
        {
            double sum = 0; for (auto& c : seen) { const double x = norm(c, i); sum += x - mean1(i); if (vals[i].size() < 20000) vals[i].push_back(x); }
            within[i].add(sum * sum);
            if (i + 1 < len) for (auto& c : seen) { const double x = norm(c, i) - mean1(i), y = norm(c, i + 1) - mean1(i + 1); cross[i] += x * y; }
            if (i && len - 1 - i != i) for (auto& c : seen) { const double x = norm(c, i) - mean1(i), y = norm(c, len - 1 - i) - mean1(len - 1 - i); lagsum[i] += x * y; }
        }
        if constexpr (std::is_same_v<En, PermE>) if (len <= 5) for (auto& c : seen) perms[std::vector<size_t>(c.begin(), c.end())]++;
        n += seen.size();
    }
    const double m = double(seen.size());
    for (size_t i = 0; i < len; i++)
    {
        if (var1(i) == 0) { for (double x : vals[i]) VH_REQUIRE(x == 0.5, "single-value", what, ": gene ", i); continue; }
        if constexpr (std::is_same_v<En, RealE>)
        {
            const double ks = vh::ksScore(vals[i], [](double x) { return std::clamp(x, 0.0, 1.0); }); vh::maximum("ks_initial", ks);
            VH_REQUIRE(ks < vh::KSLIM, "gene-not-uniform", what, ": gene ", i, " in [", b[i].lower(), ", ", b[i].upper(), "]: KS=", ks);
        }
        else
        {
            const double w = std::is_same_v<En, BinE> ? 2.0 : std::is_same_v<En, PermE> ? double(len) : width[i]; const size_t bins = size_t(w <= 128 ? w : 12.0);
            std::vector<double> obs(bins, 0), pr(bins, 0); for (double x : vals[i]) obs[std::min(bins - 1, size_t(x * double(bins)))]++;
            if (w <= 2000) for (size_t v = 0; v < size_t(w); v++) pr[std::min(bins - 1, size_t((double(v) + 0.5) / w * double(bins)))]++; else std::fill(pr.begin(), pr.end(), 1.0);
            const double z = vh::chi2Score(obs, pr); vh::maximum("chi2_initial", z);
            VH_REQUIRE(z < vh::ZLIM, "gene-not-uniform", what, ": gene ", i, ": ", vh::vec(obs), " z=", z);
            for (double end : { 0.5 / w, (w - 0.5) / w }) { const double c = double(std::count_if(vals[i].begin(), vals[i].end(), [&](double x) { return std::abs(x - end) < 0.25 / w; })); VH_REQUIRE(vh::binomialOk(c, double(vals[i].size()), 1 / w), "gene-not-uniform", what, ": gene ", i, ": the ", end < 0.5 ? "lowest" : "highest", " of ", w, " values ", c, " times in ", vals[i].size()); }
        }
        const double d = within[i].score(m * var1(i), 1); vh::maximum("dispersion_initial", d);
        VH_REQUIRE(d < vh::ZLIM, "candidates-depend-on-each-other", what, ": gene ", i, ": the sums of the populations vary by ", within[i].s / double(within[i].n), " instead of ", m * var1(i), ", score ", d);
        auto corr = [&](double s, size_t j) { const double v2 = var1(j), rho = std::is_same_v<En, PermE> ? -1.0 / double(len - 1) : 0.0; return v2 == 0 ? 0.0 : std::abs(s / double(n) / std::sqrt(var1(i) * v2) - rho) * std::sqrt(double(n)) / 1.5; };   // 1.5: the product of two genes varies by at most that much for few values
        if (i + 1 < len) VH_REQUIRE(corr(cross[i], i + 1) < 7.5, "genes-depend-on-each-other", what, ": genes ", i, " and ", i + 1, ", score ", corr(cross[i], i + 1));
        if (i && len - 1 - i != i) VH_REQUIRE(corr(lagsum[i], len - 1 - i) < 7.5, "genes-depend-on-each-other", what, ": genes ", i, " and ", len - 1 - i, ", score ", corr(lagsum[i], len - 1 - i));
        vh::stat("genes_tested");
    }
    if (!perms.empty())
    {
        size_t f = 1; for (size_t i = 2; i <= len; i++) f *= i; std::vector<double> obs; for (auto& [p, c] : perms) obs.push_back(c); VH_REQUIRE(obs.size() <= f, "self-test", "permutations"); obs.resize(f, 0.0);
        const double z = vh::chi2Uniform(obs); VH_REQUIRE(z < vh::ZLIM, "permutations-not-uniform", what, ": ", vh::vec(obs), " z=", z); vh::stat("permutation_tests");
    }
    vh::stat("generated_candidates", n); cs.nontrivial = n > 1000; cs.sig(uint64_t(n * 1000 + len)); cs.sig(norm(seen[0], 0)); cs.sample(what);
}

/* mating: an algorithm that selects at random and keeps the parents, a crossover that records the pairs */
struct Log { std::mutex m; std::vector<std::pair<size_t, size_t>> pairs; std::vector<size_t> selected; };
struct Mating final : algorithm::Algorithm
{
    Log* log_;
    explicit Mating(Log* l) : log_(l) {}
    void initializeImpl(const GaInfo&) override {}
    size_t selectImpl(const GaInfo&, const FitnessMatrix& f) const override { const size_t i = rng::randomIndex(f); std::lock_guard l(log_->m); log_->selected.push_back(i); return i; }
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix&) override { small_vector<size_t> v(ga.population_size()); std::iota(v.begin(), v.end(), size_t(0)); return v; }
};
struct Recording final : crossover::Crossover<IntegerGene>
{
    Log* log_; size_t spin_;
    Recording(Log* p, size_t spin) : Crossover(1.0), log_(p), spin_(spin) {}
    CandidatePair<IntegerGene> crossover(const GA<IntegerGene>&, const Candidate<IntegerGene>& a, const Candidate<IntegerGene>& b) const override
    {
        volatile size_t x = 0; for (size_t i = 0; i < spin_; i++) x = x + 1;
        { std::lock_guard l(log_->m); log_->pairs.emplace_back(size_t(a.chromosome[0]), size_t(b.chromosome[0])); }
        return { a, b };
    }
};
static void matingCase(Rng& r, Case& cs)
{
    const int threads = r.pick({1, 2, 4, 8, 8}); const size_t pop = size_t(r.pick({2, 3, 4, 5, 8, 13, 16, 24})); execution_threads(threads);
    const size_t per = pop / 2 + pop % 2, gens = std::max<size_t>(200, (vh::thorough() ? 60 : 12) * pop * pop / per);
    Log log; IntegerGA ga(pop); ga.algorithm(std::make_unique<Mating>(&log)); ga.crossover_method(std::make_unique<Recording>(&log, r.pick<size_t>({ 0, 300, 3000 }))); ga.mutation_method(mutation::integer::Uniform{ 0.0 });
    Population<IntegerGene> init; for (size_t i = 0; i < pop; i++) init.push_back(Candidate<IntegerGene>(Chromosome<IntegerGene>{ IntegerGene(i), 0 }));
    std::vector<double> cells(pop * pop, 0), one(pop, 0), two(pop, 0), off(pop * pop, 1); for (size_t i = 0; i < pop; i++) off[i * pop + i] = 0;   // two equal parents aren't crossed over
    Dispersion disp; size_t judged = 0, mated = 0, selections = 0; bool bad = false;
    ga.on_generation_end([&](const GaInfo& g)
    {
        if (g.generation_cntr() == 0) { log.pairs.clear(); log.selected.clear(); return; }
        std::vector<double> k(pop, 0), used(pop, 0); bad = bad || log.selected.size() != 2 * per;
        for (size_t i : log.selected) k[i]++;
        for (auto [a, b] : log.pairs) { cells[a * pop + b]++; one[a]++; two[b]++; used[a]++; used[b]++; judged++; }
        if (!bad) for (size_t i = 0; i < pop; i++) VH_CHECK(used[i] <= k[i] && std::fmod(k[i] - used[i], 2) == 0, "parents-not-the-selected", "generation ", g.generation_cntr(), ": candidate ", i, " was selected ", k[i], " times, and is a parent ", used[i], " times");
        double s = 0; const double mean = double(log.selected.size()) / double(pop); for (double x : k) s += (x - mean) * (x - mean); disp.add(s);
        mated += per; selections += log.selected.size(); log.pairs.clear(); log.selected.clear();
    });
    rng::prng.seed(r.next());
    BoundsVector<IntegerGene> b{ Bounds<IntegerGene>(0, IntegerGene(pop)), Bounds<IntegerGene>(0, 1) };
    ga.solve(Flat<IntE>(2), b, gens, init);
    const auto what = vh::str("population of ", pop, ", ", threads, " threads, ", gens, " generations");
    double z = vh::chi2Score(cells, off); vh::maximum("chi2_pairs", z); VH_REQUIRE(z < vh::ZLIM, "parents-not-independent", what, ": the pairs of different parents, z=", z, ": ", vh::vec(cells));
    for (auto* c : { &one, &two }) { z = vh::chi2Uniform(*c); VH_REQUIRE(z < vh::ZLIM, "parents-not-independent", what, ": ", c == &one ? "first parents" : "second parents", " z=", z, ": ", vh::vec(*c)); }
    VH_REQUIRE(vh::binomialOk(double(judged), double(mated), 1 - 1 / double(pop)), "parents-not-independent", what, ": ", judged, " of ", mated, " matings had two different parents");
    if (!bad)
    {
        const double want = 2.0 * double(per) * (1 - 1 / double(pop)), d = disp.score(want, double(pop - 1)); vh::maximum("dispersion_pairs", d);
        VH_REQUIRE(d < vh::ZLIM, "selections-not-independent", what, ": the selections of a generation vary by ", disp.s / double(disp.n), " instead of ", want, ", score ", d); vh::stat("dispersions_judged");
    }
    vh::stat("matings_judged", judged); if (threads > 1) vh::stat("runs_on_many_threads"); cs.nontrivial = true; cs.sig(cells[1] * 1000 + cells[pop]); cs.sig(uint64_t(pop)); cs.sample(what);
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](const std::string&)
    {
        vh::cases("initial-binary", 120, 2000, initCase<BinE>); vh::cases("initial-integer", 200, 3000, initCase<IntE>); vh::cases("initial-real", 160, 2500, initCase<RealE>); vh::cases("initial-permutation", 140, 2500, initCase<PermE>);
        vh::cases("mating", 160, 3000, matingCase);
    });
}
