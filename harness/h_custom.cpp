#include "h_custom.inc"
template<class C> uint64_t vhash(const C& c) { uint64_t h = c.size(); for (auto x : c) h = vh::mix(h ^ uint64_t(x)); return h; }
/* chromosomes of different lengths in the built-in encodings: a crossover that changes the lengths with every built-in mutation that says it allows it */
template<class T> class VarX final : public crossover::Crossover<T>
{
public: using crossover::Crossover<T>::Crossover; constexpr bool allow_variable_chrom_length() const noexcept override { return true; }
private: CandidatePair<T> crossover(const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) const override
    {
        Candidate<T> x(a), y(b);
        for (auto* c : { &x, &y })
        {
            auto& g = c->chromosome;
            if (g.size() > 1 && rng::randomBool()) { if constexpr (std::is_same_v<T, PermutationGene>) g.erase(std::find(g.begin(), g.end(), T(g.size() - 1))); else g.pop_back(); }
            else if (g.size() < 20) { if constexpr (std::is_same_v<T, PermutationGene>) g.push_back(T(g.size())); else g.push_back(T(rng::randomInt(0, 1))); }
        }
        return { std::move(x), std::move(y) };
    }
};
template<class T> class LenF final : public FitnessFunctionBase<T>
{
public: LenF(size_t len, std::atomic<size_t>& n) : FitnessFunctionBase<T>(len), n_(n) {}
private: std::atomic<size_t>& n_; FitnessVector invoke(const Chromosome<T>& c) const override { n_++; return { double(c.size()) + double(vhash(c) % 1000) / 1000.0 }; }
};
template<class T> void variableCase(Rng& r, Case& cs)
{
    constexpr bool perm = std::is_same_v<T, PermutationGene>;
    const size_t len = size_t(r.range(2, 8)), pop = size_t(r.range(2, 12)), gens = size_t(r.range(1, 12)); const double pm = r.pick({ 0.0, 0.5, 1.0 }); const int which = perm ? int(r.below(5)) : 0;
    rng::prng.seed(r.next()); execution_threads(r.chance(.5) ? 1 : 3);
    std::conditional_t<perm, PermutationGA, BinaryGA> ga(pop); ga.crossover_method(VarX<T>(r.pick({ 0.3, 1.0 }))); ga.cache_size(r.below(3));
    std::string name = "flip";
    auto use = [&](auto m, const char* n) { name = n; VH_REQUIRE(m.allow_variable_chrom_length(), "variable-length-mutation", n, " mutation doesn't support chromosomes of different lengths"); ga.mutation_method(std::move(m)); };
    if constexpr (perm) switch (which)
    {
        case 0: use(mutation::perm::Inversion(pm), "inversion"); break; case 1: use(mutation::perm::Swap2(pm), "swap2"); break; case 2: use(mutation::perm::Swap3(pm), "swap3"); break;
        case 3: use(mutation::perm::Shuffle(pm), "shuffle"); break; default: use(mutation::perm::Shift(pm), "shift"); break;
    }
    else use(mutation::binary::Flip(pm), "flip");
    std::set<size_t> lens; std::set<Chromosome<T>> before; std::atomic<size_t> calls = 0;
    ga.on_generation_end([&](const GaInfo& gi)
    {
        const auto& g = dynamic_cast<const GA<T>&>(gi);
        for (const auto& c : g.population())
        {
            lens.insert(c.chromosome.size());
            VH_REQUIRE(!c.chromosome.empty() && c.chromosome.size() <= 20, "variable-length-size", name, ": ", c.chromosome.size());
            if (perm) { std::vector<bool> seen(c.chromosome.size()); for (auto x : c.chromosome) { VH_REQUIRE(size_t(x) < seen.size() && !seen[size_t(x)], "variable-length-permutation", name, ": ", vh::vec(c.chromosome)); seen[size_t(x)] = true; } }
            else for (auto x : c.chromosome) VH_REQUIRE(x == T(0) || x == T(1), "variable-length-gene", name, ": ", vh::vec(c.chromosome));
            VH_REQUIRE(c.is_evaluated && c.fitness.size() == 1 && c.fitness[0] == double(c.chromosome.size()) + double(vhash(c.chromosome) % 1000) / 1000.0, "variable-length-fitness", name, ": ", vh::vec(c.chromosome), " ", c.fitness[0]);
        }
    });
    auto sols = ga.solve(std::make_unique<LenF<T>>(len, calls), gens);
    VH_REQUIRE(!sols.empty() && ga.num_fitness_evals() + 1 == calls, "variable-length-run", name, ": ", sols.size(), " solutions, evaluations ", ga.num_fitness_evals(), " of ", calls.load());
    if (lens.size() > 1) { cs.nontrivial = true; vh::stat("builtin_runs_with_several_lengths"); }
    for (size_t l : lens) cs.sig(l); cs.sig(sols[0].fitness[0]); cs.sample(vh::str(name, " mutation, ", lens.size(), " chromosome lengths"));
}
int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](const std::string& p)
    {
        if (p == "P32")
        {
            vh::cases("mixed", 1200, 15000, [](Rng& r, Case& c) { customCase<Mixed>(r, c, false); });
            vh::cases("struct", 1200, 15000, [](Rng& r, Case& c) { customCase<Slot>(r, c, false); });
            vh::cases("string", 1200, 15000, [](Rng& r, Case& c) { customCase<Word>(r, c, false); });
            vh::cases("variable-real", 800, 10000, [](Rng& r, Case& c) { customCase<Real2>(r, c, false); });
            vh::cases("bounded", 1200, 15000, [](Rng& r, Case& c) { customCase<float>(r, c, false); });
        }
        if (p == "P32")
        {
            vh::cases("variable-binary", 300, 5000, [](Rng& r, Case& c) { variableCase<BinaryGene>(r, c); });
            vh::cases("variable-permutation", 600, 8000, [](Rng& r, Case& c) { variableCase<PermutationGene>(r, c); });
        }
        if (p == "P34")
        {
            vh::cases("binary", 1200, 15000, [](Rng& r, Case& c) { customCase<BinaryGene>(r, c, true); });
            vh::cases("integer", 1200, 15000, [](Rng& r, Case& c) { customCase<IntegerGene>(r, c, true); });
            vh::cases("mixed", 1200, 15000, [](Rng& r, Case& c) { customCase<Mixed>(r, c, true); });
            vh::cases("string", 1200, 15000, [](Rng& r, Case& c) { customCase<Word>(r, c, true); });
        }
    });
}
