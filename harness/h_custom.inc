/* Runs made of user-defined parts only, under a protocol monitor (P34), also for user-defined encodings (P32). */
#include "ga_common.hpp"
#include <variant>
#include <compare>

/* ---- user-defined gene types ---- */
using Mixed = std::variant<double, int>;
struct Slot { int16_t room = 0; int16_t hour = 0; friend auto operator<=>(const Slot&, const Slot&) = default; };
template<> struct std::hash<Slot> { size_t operator()(const Slot& s) const noexcept { return size_t(s.room) * 31 + size_t(s.hour); } };
using Word = std::string;      // chromosomes of variable length

template<class T> struct Mon;
template<class T> struct Log   // what the monitor sees; one per run
{
    struct Ev { char k; size_t gen; size_t a, b; };
    std::mutex m;
    std::vector<Ev> ev;
    std::vector<Chromosome<T>> ch;                       // payload of S (selected), X (parents, children), M (in, out), R (in, out), F
    std::vector<FitnessVector> fv;
    std::vector<std::vector<FitnessVector>> mats;        // payload of P, N, A, O
    std::vector<std::vector<size_t>> idx;
    std::vector<Population<T>> pops;                     // payload of C
    std::vector<Candidates<T>> sols;
    long throw_at = -1, cnt = 0; std::string bad;
    void fault() { if (throw_at >= 0 && cnt++ == throw_at) throw std::domain_error("injected"); }
};
template<class T> inline Log<T>* cur = nullptr;          // set by the harness around solve(); read by the components

inline std::vector<FitnessVector> rows(const FitnessMatrix& f) { std::vector<FitnessVector> r; for (const auto& x : f) r.emplace_back(x.begin(), x.end()); return r; }
template<class T> void put(char k, const GaInfo& ga, std::initializer_list<const Chromosome<T>*> cs = {}, const std::vector<FitnessVector>* mat = nullptr, const std::vector<size_t>* ix = nullptr)
{
    auto* l = cur<T>; if (!l) return;
    std::lock_guard g(l->m);
    typename Log<T>::Ev e{ k, ga.generation_cntr(), l->ch.size(), 0 };
    for (auto* c : cs) l->ch.push_back(*c);
    if (mat) { e.a = l->mats.size(); l->mats.push_back(*mat); }
    if (ix) { e.b = l->idx.size(); l->idx.push_back(*ix); }
    l->ev.push_back(e);
    l->fault();
}

/* ---- encodings of this harness ---- */
template<class T> struct Enc;
template<> struct Enc<Mixed> { static constexpr const char* name = "mixed"; static constexpr bool var = false;
    static Mixed gene(size_t i) { return i % 2 ? Mixed(rng::randomInt(-9, 9)) : Mixed(rng::randomReal(-1.0, 1.0)); }
    static bool ok(const Mixed& g, size_t i, const BoundsVector<Mixed>&) { return g.index() == i % 2 && (i % 2 ? std::abs(std::get<1>(g)) <= 9 : std::abs(std::get<0>(g)) <= 1.0); } };
template<> struct Enc<Slot> { static constexpr const char* name = "struct"; static constexpr bool var = false;
    static Slot gene(size_t) { return { rng::randomInt<int16_t>(1, 3), rng::randomInt<int16_t>(8, 12) }; }
    static bool ok(const Slot& g, size_t, const BoundsVector<Slot>&) { return 1 <= g.room && g.room <= 3 && 8 <= g.hour && g.hour <= 12; } };
template<> struct Enc<Word> { static constexpr const char* name = "string"; static constexpr bool var = true;
    static Word gene(size_t) { return Word(rng::randomInt<size_t>(1, 40), char('a' + rng::randomInt(0, 3))); }
    static bool ok(const Word& g, size_t, const BoundsVector<Word>&) { return !g.empty() && g.size() <= 40 && std::count(g.begin(), g.end(), g[0]) == long(g.size()); } };
template<> struct Enc<float> { static constexpr const char* name = "bounded"; static constexpr bool var = false;
    static bool ok(float g, size_t i, const BoundsVector<float>& b) { return b[i].lower() <= g && g <= b[i].upper(); } };
using Real2 = long double;     // real chromosomes of variable length
template<> struct Enc<Real2> { static constexpr const char* name = "variable-real"; static constexpr bool var = true;
    static Real2 gene(size_t) { return Real2(rng::randomInt(0, 3)) / 2; }
    static bool ok(Real2 g, size_t, const BoundsVector<Real2>&) { return g >= 0 && g <= 1.5L && 2 * g == std::floor(2 * g); } };
template<> struct Enc<BinaryGene> { static constexpr const char* name = "binary"; static constexpr bool var = false;
    static BinaryGene gene(size_t) { return BinaryGene(rng::randomInt(0, 1)); }
    static bool ok(BinaryGene g, size_t, const BoundsVector<BinaryGene>&) { return g <= 1; } };
template<> struct Enc<IntegerGene> { static constexpr const char* name = "integer"; static constexpr bool var = false;
    static bool ok(IntegerGene g, size_t i, const BoundsVector<IntegerGene>& b) { return b[i].lower() <= g && g <= b[i].upper(); } };

template<class T> T randomGene(size_t i, const BoundsVector<T>& b)
{
    if constexpr (std::is_same_v<T, float>) return std::clamp(float(rng::randomReal<double>(b[i].lower(), b[i].upper())), b[i].lower(), b[i].upper());
    else if constexpr (std::is_same_v<T, IntegerGene>) return rng::randomInt(b[i].lower(), b[i].upper());
    else return Enc<T>::gene(i);
}
template<class T> size_t randomLen(size_t len) { return Enc<T>::var ? rng::randomInt<size_t>(1, 2 * len) : len; }
template<class T> Chromosome<T> freshChrom(size_t len, const BoundsVector<T>& b) { Chromosome<T> c; const size_t n = randomLen<T>(len); for (size_t i = 0; i < n; i++) c.push_back(randomGene<T>(i, b)); return c; }
template<class T> bool validChrom(const Chromosome<T>& c, size_t len, const BoundsVector<T>& b)
{
    if (Enc<T>::var ? c.empty() || c.size() > 2 * len : c.size() != len) return false;
    for (size_t i = 0; i < c.size(); i++) if (!Enc<T>::ok(c[i], i, b)) return false;
    return true;
}
inline uint64_t gh(double d) { if (d == 0) d = 0; uint64_t u; std::memcpy(&u, &d, 8); return vh::mix(u); }
inline uint64_t gh(const Mixed& m) { return std::visit([](auto v) { return gh(double(v)); }, m) + m.index(); }
inline uint64_t gh(const Slot& s) { return vh::mix(uint64_t(s.room) << 20 ^ uint64_t(s.hour)); }
inline uint64_t gh(const Word& s) { return vh::hash_str(s); }
inline uint64_t gh(long double f) { return gh(double(f)); }
inline uint64_t gh(float f) { return gh(double(f)); }
inline uint64_t gh(BinaryGene b) { return vh::mix(b); }
inline uint64_t gh(IntegerGene b) { return vh::mix(uint64_t(b)); }
template<class T> uint64_t chash(const Chromosome<T>& c) { uint64_t h = c.size(); for (const auto& g : c) h = vh::mix(h ^ gh(g)); return h; }
template<class T> std::string chtext(const Chromosome<T>& c)
{
    std::ostringstream o; o << "["; for (const auto& g : c) { if constexpr (std::is_same_v<T, Mixed>) std::visit([&](auto v) { o << v << " "; }, g); else if constexpr (std::is_same_v<T, Slot>) o << g.room << "/" << g.hour << " "; else if constexpr (std::is_same_v<T, Word>) o << g.substr(0, 2) << g.size() << " "; else o << +g << " "; } o << "]"; return o.str();
}
template<class T> FitnessVector fitnessOf(const Chromosome<T>& c, size_t nobj, uint64_t range) { FitnessVector f(nobj); const uint64_t h = chash(c); for (size_t j = 0; j < nobj; j++) f[j] = double(int64_t(vh::mix(h + j) % range)) - double(range / 3); return f; }

/* ---- user-defined operators, monitored ---- */
template<class T> const BoundsVector<T>& boundsOf(const GA<T>& ga) { if constexpr (is_bounded<T>) return ga.gene_bounds(); else { static const BoundsVector<T> none; return none; } }
template<class T> CandidatePair<T> userX(const GA<T>& ga, const Candidate<T>& a, const Candidate<T>& b)
{
    CandidatePair<T> r{ a, b };
    auto& x = r.first.chromosome; auto& y = r.second.chromosome;
    switch (rng::randomInt(0, 4))
    {
        case 0: break;
        case 1: std::swap(x, y); break;
        case 2: y = x; break;
        default:
        {
            const size_t n = std::min(x.size(), y.size()), k = rng::randomInt<size_t>(0, n);
            for (size_t i = k; i < n; i++) std::swap(x[i], y[i]);
            if (Enc<T>::var && rng::randomBool()) { std::swap(x, y); }
        }
    }
    put<T>('X', ga, { &a.chromosome, &b.chromosome, &x, &y });
    return r;
}
template<class T> void userM(const GA<T>& ga, const Candidate<T>& cand, Chromosome<T>& c, double pm)
{
    const Chromosome<T> in = c;
    const bool seen = cand.chromosome == in;
    for (size_t i = 0; i < c.size(); i++) if (rng::randomReal() < pm) c[i] = randomGene<T>(i, boundsOf<T>(ga));
    if (Enc<T>::var && rng::randomReal() < pm)
    {
        if (c.size() > 1 && rng::randomBool()) c.pop_back();
        else if (c.size() < 2 * ga.chrom_len()) c.push_back(randomGene<T>(c.size(), boundsOf<T>(ga)));
    }
    put<T>(seen ? 'M' : 'm', ga, { &in, &c });
}
template<class T> class UX : public crossover::Crossover<T> { public: using crossover::Crossover<T>::Crossover; constexpr bool allow_variable_chrom_length() const noexcept override { return Enc<T>::var; }
    CandidatePair<T> crossover(const GA<T>& ga, const Candidate<T>& a, const Candidate<T>& b) const override { return userX<T>(ga, a, b); } };
template<class T> class UM : public mutation::Mutation<T> { public: using mutation::Mutation<T>::Mutation; constexpr bool allow_variable_chrom_length() const noexcept override { return Enc<T>::var; }
    void mutate(const GA<T>& ga, const Candidate<T>& cand, Chromosome<T>& c) const override { userM<T>(ga, cand, c, double(this->mutation_rate())); } };

namespace gapp
{
    template<> inline constexpr bool is_bounded<float> = true;
    template<class T> struct UserTraits { using DefaultCrossover = UX<T>; using DefaultMutation = UM<T>; static Probability defaultMutationRate(size_t n) { return std::min(1.0, 2.0 / double(n)); } };
    template<> struct GaTraits<Mixed> : UserTraits<Mixed> {};
    template<> struct GaTraits<Slot> : UserTraits<Slot> {};
    template<> struct GaTraits<Word> : UserTraits<Word> {};
    template<> struct GaTraits<Real2> : UserTraits<Real2> {};
    template<> struct GaTraits<float> : UserTraits<float> {};
}
template<class T> class UserGA final : public GA<T>
{
public:
    using GA<T>::GA;
    size_t ready = 0;
private:
    void initialize() override { ready = this->chrom_len(); put<T>('G', *this); }
    Candidate<T> generateCandidate() const override
    {
        Candidate<T> x(freshChrom<T>(this->chrom_len(), boundsOf<T>(*this)));
        put<T>('g', *this, { &x.chromosome });
        if (ready != this->chrom_len()) if (auto* l = cur<T>) { std::lock_guard g(l->m); l->bad = "generateCandidate called before initialize"; }
        return x;
    }
};
template<class T> struct GaOf { using type = UserGA<T>; static constexpr bool custom = true; };
template<> struct GaOf<BinaryGene> { using type = BinaryGA; static constexpr bool custom = false; };
template<> struct GaOf<IntegerGene> { using type = IntegerGA; static constexpr bool custom = false; };

/* ---- user-defined algorithm parts, monitored ---- */
template<class T> void mPrepare(const GaInfo& ga, const FitnessMatrix& f) { const auto r = rows(f); put<T>('P', ga, {}, &r); }
template<class T> size_t mSelect(const GaInfo& ga, const FitnessMatrix& f)
{
    const size_t a = rng::randomIndex(f), b = rng::randomIndex(f), s = f[a][0] >= f[b][0] ? a : b;
    const auto& pop = dynamic_cast<const GA<T>&>(ga).population();
    const bool sync = f.size() == pop.size() && pop[s].is_evaluated && pop[s].fitness == FitnessVector(f[s].begin(), f[s].end()) && ga.fitness_matrix() == f;
    put<T>(sync ? 'S' : 's', ga, { &pop[s].chromosome });
    return s;
}
template<class T> small_vector<size_t> mNext(const GaInfo& ga, const FitnessMatrix& f)
{
    auto v = rng::sampleUnique<size_t>(0, f.size(), ga.population_size());
    const auto r = rows(f); const std::vector<size_t> ix(v.begin(), v.end());
    put<T>('N', ga, {}, &r, &ix);
    return v;
}
template<class T> void mInit(const GaInfo& ga) { const auto r = rows(ga.fitness_matrix()); put<T>('A', ga, {}, &r); }
template<class T> class MAlgo final : public algorithm::Algorithm
{
    void initializeImpl(const GaInfo& ga) override { mInit<T>(ga); }
    void prepareSelectionsImpl(const GaInfo& ga, const FitnessMatrix& f) override { mPrepare<T>(ga, f); }
    size_t selectImpl(const GaInfo& ga, const FitnessMatrix& f) const override { return mSelect<T>(ga, f); }
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& f) override { return mNext<T>(ga, f); }
    small_vector<size_t> optimalSolutionsImpl(const GaInfo& ga) const override { const auto r = rows(ga.fitness_matrix()); put<T>('O', ga, {}, &r); return {}; }
};
template<class T> class MSel final : public selection::Selection { public:
    void initializeImpl(const GaInfo& ga) override { mInit<T>(ga); }
    void prepareSelectionsImpl(const GaInfo& ga, const FitnessMatrix& f) override { mPrepare<T>(ga, f); }
    size_t selectImpl(const GaInfo& ga, const FitnessMatrix& f) const override { return mSelect<T>(ga, f); } };
template<class T> class MRepl final : public replacement::Replacement { public: small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& f) override { return mNext<T>(ga, f); } };
template<class T> class MStop final : public stopping::StopCondition
{
public: explicit MStop(size_t n = 1000000) : n_(n) {}
    void initialize(const GaInfo& ga) override { put<T>('T', ga); }
private: size_t n_;
    bool stop_condition(const GaInfo& ga) override { put<T>('t', ga); return ga.generation_cntr() >= n_; }
};
template<class T> class MMetric final : public metrics::Monitor<MMetric<T>, std::vector<size_t>>
{
    void initialize(const GaInfo& ga) override { this->data_.clear(); put<T>('I', ga); }
    void update(const GaInfo& ga) override { this->data_.push_back(ga.generation_cntr()); const auto r = rows(ga.fitness_matrix()); put<T>('U', ga, {}, &r); }
};
template<class T> class MFit final : public FitnessFunctionBase<T>
{
public: MFit(size_t len, size_t nobj, uint64_t range, bool dyn, const GaInfo* ga) : FitnessFunctionBase<T>(len, dyn ? FitnessFunctionInfo::Type::Dynamic : FitnessFunctionInfo::Type::Static), nobj_(nobj), range_(range), ga_(ga) {}
private: size_t nobj_; uint64_t range_; const GaInfo* ga_;
    FitnessVector invoke(const Chromosome<T>& c) const override { put<T>('F', *ga_, { &c }); return fitnessOf<T>(c, nobj_, range_); }
};

struct UCfg { size_t pop, len, nobj, gens, threads, cache, preset; int algo; bool keep_all, repair, dyn, lambdas, stop, defops; double pc, pm; uint64_t range, seed; size_t stop_n;
    std::string text(const char* n) const { return vh::str(n, " pop=", pop, " len=", len, " nobj=", nobj, " gens=", gens, " threads=", threads, " cache=", cache, " preset=", preset, " algo=", algo, " keep_all=", keep_all, " repair=", repair, " dyn=", dyn, " lambdas=", lambdas, " stop=", stop ? long(stop_n) : -1, " default_operators=", defops, " pc=", pc, " pm=", pm, " range=", range, " seed=", seed); } };

template<class T> BoundsVector<T> userBounds(Rng& r, size_t len)
{
    BoundsVector<T> b;
    if constexpr (is_bounded<T>) for (size_t i = 0; i < len; i++) { const T lo = T(r.range(-20, 20)); b.emplace_back(lo, lo + T(r.below(6))); }
    return b;
}
/* algo: 0 user algorithm, 1 user selection + replacement, 2 the same as callables, 3 default, 4 NSGA2 (several objectives) */
template<class T> void setup(typename GaOf<T>::type& ga, const UCfg& c)
{
    ga.population_size(c.pop);
    if (!c.defops)
    {
        if (c.lambdas && !Enc<T>::var)
        {
            ga.crossover_method([](const GA<T>& g, const Candidate<T>& a, const Candidate<T>& b) { return userX<T>(g, a, b); });
            ga.mutation_method([](const GA<T>& g, const Candidate<T>& a, Chromosome<T>& ch) { userM<T>(g, a, ch, double(g.mutation_rate())); });
        }
        else { ga.crossover_method(UX<T>{}); ga.mutation_method(UM<T>(0.5)); }
        ga.crossover_rate(c.pc); ga.mutation_rate(c.pm);
    }
    switch (c.algo)
    {
        case 0: ga.algorithm(MAlgo<T>{}); break;
        case 1: ga.algorithm(algorithm::SingleObjective(MSel<T>{}, MRepl<T>{})); break;
        case 2: ga.algorithm(algorithm::SingleObjective([](const GaInfo& g, const FitnessMatrix& f) { return mSelect<T>(g, f); }, [](const GaInfo& g, const FitnessMatrix& f) { return mNext<T>(g, f); })); break;
        case 3: ga.algorithm(nullptr); break;
        default: ga.algorithm(algorithm::NSGA2{});
    }
    ga.cache_size(c.cache); ga.keep_all_optimal_solutions(c.keep_all);
    if (c.stop) ga.stop_condition(MStop<T>(c.stop_n)); else ga.stop_condition(MStop<T>());
    ga.track(MMetric<T>{}, metrics::FitnessMax{});
    if (c.repair) ga.repair_function([](const GA<T>& g, const Chromosome<T>& ch)
    {
        auto out = ch; if (chash(ch) % 3 == 0) out = Chromosome<T>(out.size(), out[0]);
        const auto& b = boundsOf<T>(g); for (size_t i = 0; i < out.size(); i++) if (!Enc<T>::ok(out[i], i, b)) out[i] = ch[i];
        put<T>('R', g, { &ch, &out }); return out;
    });
    else ga.repair_function(nullptr);
    ga.on_generation_end([](const GaInfo& g)
    {
        const auto& x = dynamic_cast<const GA<T>&>(g);
        if (auto* l = cur<T>)
        {
            { std::lock_guard k(l->m); l->pops.push_back(x.population()); l->sols.push_back(x.solutions());
              if (g.get_metric<MMetric<T>>().size() != l->pops.size() || g.get_metric<metrics::FitnessMax>().size() != l->pops.size()) l->bad = "the metrics of the generation are not available in the callback"; }
            const auto r = rows(g.fitness_matrix()); put<T>('C', g, {}, &r);
        }
    });
}
template<class T> Candidates<T> go(typename GaOf<T>::type& ga, const UCfg& c, const BoundsVector<T>& b, Population<T> init, Log<T>& log)
{
    execution_threads(c.threads); rng::prng.seed(c.seed);
    cur<T> = &log;
    struct Off { ~Off() { cur<T> = nullptr; } } off;
    auto f = std::make_unique<MFit<T>>(c.len, c.nobj, c.range, c.dyn, &ga);
    if constexpr (is_bounded<T>) return ga.solve(std::move(f), b, c.gens, std::move(init)); else return ga.solve(std::move(f), c.gens, std::move(init));
}
template<class T> std::map<Chromosome<T>, long> bag(const std::vector<Chromosome<T>>& v) { std::map<Chromosome<T>, long> m; for (const auto& x : v) m[x]++; return m; }
template<class T> bool subset(const std::map<Chromosome<T>, long>& a, const std::map<Chromosome<T>, long>& b) { for (auto& [k, n] : a) { auto it = b.find(k); if (it == b.end() || it->second < n) return false; } return true; }
using Fits = std::vector<FitnessVector>;
inline std::multiset<std::vector<double>> fbag(const Fits& v, size_t from = 0) { std::multiset<std::vector<double>> s; for (size_t i = from; i < v.size(); i++) s.emplace(v[i].begin(), v[i].end()); return s; }

template<class T> Fits fitsOf(const Population<T>& p) { Fits f; for (auto& c : p) f.push_back(c.fitness); return f; }

/* ---- the protocol ---- */
template<class T> void checkProtocol(const UCfg& c, const Log<T>& l, const BoundsVector<T>& b, const Population<T>& init, bool complete)
{
    const std::string tx = c.text(Enc<T>::name);
    VH_REQUIRE(l.bad.empty(), "protocol", tx, ": ", l.bad);
    const size_t even = c.pop + c.pop % 2, preset = std::min(init.size(), c.pop); size_t unevaluated = 0; for (size_t i = 0; i < preset; i++) unevaluated += !init[i].is_evaluated || c.dyn;
    const bool monitored_algo = c.algo <= 2, monitored_ops = true, prepares = c.algo <= 1;
    std::map<char, size_t> n;                            // counts within the current generation step
    std::vector<Chromosome<T>> selected, parents, kids, min, mout, rin, rout, fin;
    size_t done = 0;                                     // completed generations (callbacks)
    bool next_seen = false; Fits expect_rows;
    size_t callbacks = 0;
    auto at = [&](size_t i) { return vh::str(tx, ": event ", i, " '", std::string(1, l.ev[i].k), "' in generation step ", done, ": "); };
    for (size_t i = 0; i < l.ev.size(); i++)
    {
        const auto& e = l.ev[i];
        const bool initial = done == 0;
        switch (e.k)
        {
            case 'G': VH_REQUIRE(initial && n['G'] == 0 && n['g'] == 0 && n['A'] == 0, "derived-initialize", at(i), "the derived GA was initialized late or twice"); break;
            case 'g': VH_REQUIRE(initial && n['A'] == 0, "generate-candidate", at(i), "candidate generated outside the initialization"); break;
            case 'A': VH_REQUIRE(initial && n['A'] == 0, "algorithm-initialize", at(i), "not exactly once at the start");
                VH_REQUIRE(l.mats[e.a].size() == c.pop, "algorithm-initialize", at(i), "initialized before the population exists: ", l.mats[e.a].size()); expect_rows = l.mats[e.a]; break;
            case 'T': VH_REQUIRE(initial && n['T'] == 0 && n['t'] == 0, "stop-initialize", at(i), "not exactly once at the start"); break;
            case 'I': VH_REQUIRE(initial && n['I'] == 0 && n['U'] == 0, "metric-initialize", at(i), "not exactly once at the start"); break;
            case 'U':
                VH_REQUIRE(n['U'] == 0 && e.gen == done, "metric-update", at(i), "generation counter ", e.gen);
                if (monitored_algo && !initial) VH_REQUIRE(next_seen, "metric-update", at(i), "before the generation ended");
                if (monitored_algo && !(initial && c.algo == 2)) VH_REQUIRE(fbag(l.mats[e.a]) == fbag(expect_rows), "metric-update", at(i), "does not see the generation's population");
                break;
            case 'C':
            {
                VH_REQUIRE(n['U'] == 1 && e.gen == done, "callback", at(i), "metrics updated ", n['U'], " times, generation counter ", e.gen);
                const auto& pop = l.pops[callbacks++];
                VH_REQUIRE(fbag(l.mats[e.a]) == fbag(fitsOf(pop)) && pop.size() == c.pop, "callback", at(i), "fitness matrix and population differ");
                if (initial)
                {
                    VH_REQUIRE(n['I'] == 1 && n['T'] == 1, "initialization-incomplete", at(i), "metric ", n['I'], " stop ", n['T']);
                    if (monitored_algo && c.algo != 2) VH_REQUIRE(n['A'] == 1, "initialization-incomplete", at(i), "algorithm ", n['A']);
                    if (GaOf<T>::custom)
                    {
                        VH_REQUIRE(n['G'] == 1, "initialization-incomplete", at(i), "derived GA ", n['G']);
                        VH_REQUIRE(n['g'] >= c.pop - preset && n['g'] <= c.pop - preset + 1, "generated-candidates", at(i), n['g'], " candidates generated for ", c.pop - preset, " missing ones");
                    }
                    VH_REQUIRE(n['F'] <= c.pop - preset + unevaluated + 1, "initial-evaluations", at(i), n['F']);
                }
                else
                {
                    if (monitored_algo) { VH_REQUIRE(n['S'] == even, "number-of-selections", at(i), n['S'], " selections for a population of ", c.pop); if (prepares) VH_REQUIRE(n['P'] == 1, "prepare-selections", at(i), n['P'], " times"); VH_REQUIRE(n['N'] == 1, "next-population", at(i), n['N'], " times"); }
                    if (monitored_ops)
                    {
                        VH_REQUIRE(n['X'] <= even / 2, "number-of-crossovers", at(i), n['X']);
                        VH_REQUIRE(n['M'] == c.pop, "number-of-mutations", at(i), n['M'], " mutations for ", c.pop, " children");
                        VH_REQUIRE(n['R'] == (c.repair ? c.pop : 0), "number-of-repairs", at(i), n['R']);
                        VH_REQUIRE(n['F'] <= c.pop, "number-of-evaluations", at(i), n['F']);
                        if (c.dyn) VH_REQUIRE(n['F'] == c.pop, "number-of-evaluations", at(i), n['F'], " evaluations of a dynamic function");
                        if (c.pc == 0.0 && !c.defops) VH_REQUIRE(n['X'] == 0, "crossover-at-rate-0", at(i));
                        const auto bk = bag<T>(kids), bs = bag<T>(selected), bp = bag<T>(parents), bi = bag<T>(min), bo = bag<T>(mout);
                        if (monitored_algo)
                        {
                            VH_REQUIRE(subset<T>(bp, bs), "parents-not-selected", at(i), "a crossover got a parent that was not selected");
                            auto rest = bs; for (auto& [k, m] : bp) rest[k] -= m;
                            for (auto& [k, m] : bk) rest[k] += m;
                            VH_REQUIRE(subset<T>(bi, rest), "child-of-nobody", at(i), "a mutated candidate is neither a child of a crossover nor a selected candidate");
                        }
                        if (c.repair) VH_REQUIRE(bag<T>(rin) == bo, "repair-input", at(i), "repaired candidates are not the mutated ones");
                        VH_REQUIRE(subset<T>(bag<T>(fin), c.repair ? bag<T>(rout) : bo), "evaluated-candidate", at(i), "an evaluated candidate is not one of the new children");
                    }
                }
                for (size_t k = 0; k < pop.size(); k++) VH_REQUIRE(validChrom<T>(pop[k].chromosome, c.len, b), "invalid-chromosome", at(i), chtext<T>(pop[k].chromosome));
                if (monitored_algo && !initial) VH_REQUIRE(fbag(fitsOf(pop)) == fbag(expect_rows), "survivors", at(i), "the population is not the selected one");
                expect_rows = fitsOf(pop);
                done++; n.clear(); selected.clear(); parents.clear(); kids.clear(); min.clear(); mout.clear(); rin.clear(); rout.clear(); fin.clear(); next_seen = false;
                continue;
            }
            case 't': VH_REQUIRE(done > 0 && e.gen == done - 1 && n['t'] == 0 && n['S'] == 0 && n['P'] == 0 && n['M'] == 0, "stop-condition", at(i), "generation counter ", e.gen); break;
            case 'P': VH_REQUIRE(!initial && n['P'] == 0 && n['S'] == 0 && n['X'] == 0, "prepare-selections", at(i), "not once before the selections");
                VH_REQUIRE(l.mats[e.a] == expect_rows && e.gen == done - 1, "prepare-selections", at(i), "wrong fitness matrix or generation ", e.gen); break;
            case 's': case 'S': VH_REQUIRE(e.k == 'S', "selection-state", at(i), "population and fitness matrix differ during the selections");
                VH_REQUIRE(!initial && (!prepares || n['P'] == 1) && !next_seen && e.gen == done - 1, "selection", at(i)); selected.push_back(l.ch[e.a]); break;
            case 'X': VH_REQUIRE(!initial && !next_seen, "crossover", at(i)); parents.push_back(l.ch[e.a]); parents.push_back(l.ch[e.a + 1]); kids.push_back(l.ch[e.a + 2]); kids.push_back(l.ch[e.a + 3]); break;
            case 'm': VH_REQUIRE(false, "mutation-input", at(i), "the candidate and the chromosome to mutate differ"); break;
            case 'M': VH_REQUIRE(!initial && !next_seen, "mutation", at(i)); min.push_back(l.ch[e.a]); mout.push_back(l.ch[e.a + 1]); break;
            case 'R': VH_REQUIRE(!initial && !next_seen, "repair", at(i)); rin.push_back(l.ch[e.a]); rout.push_back(l.ch[e.a + 1]); break;
            case 'F': VH_REQUIRE(!next_seen && (initial ? n['A'] == 0 : true), "evaluation", at(i)); VH_REQUIRE(validChrom<T>(l.ch[e.a], c.len, b), "invalid-chromosome", at(i), chtext<T>(l.ch[e.a])); fin.push_back(l.ch[e.a]); break;
            case 'N':
            {
                const auto& f = l.mats[e.a]; const auto& ix = l.idx[e.b];
                VH_REQUIRE(!initial && n['N'] == 0 && e.gen == done - 1, "next-population", at(i));
                VH_REQUIRE(f.size() == 2 * c.pop, "next-population", at(i), f.size(), " rows for a population of ", c.pop);
                VH_REQUIRE(Fits(f.begin(), f.begin() + c.pop) == expect_rows, "next-population", at(i), "the first half of the fitness matrix is not that of the parents");
                if (!c.dyn || true) { Fits kidsf; for (const auto& ch : c.repair ? rout : mout) kidsf.push_back(fitnessOf<T>(ch, c.nobj, c.range)); VH_REQUIRE(fbag(f, c.pop) == fbag(kidsf), "next-population", at(i), "the second half of the fitness matrix is not that of the children"); }
                Fits nx; for (size_t k : ix) nx.push_back(f[k]); expect_rows = nx; next_seen = true; break;
            }
            case 'O': if (done > 0 || !initial || true) VH_REQUIRE(fbag(l.mats[e.a]) == fbag(expect_rows), "optimal-solutions", at(i), "does not see the current population"); break;
        }
        n[e.k]++;
        if (e.k == 't') n['t'] = 1;
    }
    if (complete)
    {
        VH_REQUIRE(done >= 1 && done <= c.gens, "number-of-generations", tx, ": ", done);
        const size_t stop_at = c.stop ? c.stop_n : 1000000;
        VH_REQUIRE(done == std::min(c.gens, stop_at + 1), "number-of-generations", tx, ": ", done);
        size_t evals = 0; for (auto& e : l.ev) evals += e.k == 't';
        VH_REQUIRE(evals == done || evals + 1 == done, "stop-condition-evaluations", tx, ": ", evals, " in ", done, " generations");
    }
}
/* ---- what the run's results must satisfy, whatever the encoding ---- */
template<class T> void checkResults(const UCfg& c, const Log<T>& l, const BoundsVector<T>& b, const Population<T>& init, const Candidates<T>& sols, const typename GaOf<T>::type& ga)
{
    const std::string tx = c.text(Enc<T>::name);
    auto cand = [&](const Candidate<T>& x, const char* where)
    {
        VH_REQUIRE(validChrom<T>(x.chromosome, c.len, b), "invalid-chromosome", tx, ": ", where, ": ", chtext<T>(x.chromosome));
        VH_REQUIRE(x.is_evaluated && x.fitness == fitnessOf<T>(x.chromosome, c.nobj, c.range), "wrong-fitness", tx, ": ", where, ": ", chtext<T>(x.chromosome), " has ", vh::vec(x.fitness), " instead of ", vh::vec(fitnessOf<T>(x.chromosome, c.nobj, c.range)));
    };
    for (auto& p : l.pops) { VH_REQUIRE(p.size() == c.pop, "population-size", tx); for (auto& x : p) cand(x, "population"); }
    for (auto& s : l.sols) for (auto& x : s) cand(x, "solutions");
    for (auto& x : sols) cand(x, "returned");
    std::map<Chromosome<T>, long> first; for (auto& x : l.pops[0]) first[x.chromosome]++;
    for (size_t i = 0; i < std::min(init.size(), c.pop); i++) VH_REQUIRE(first[init[i].chromosome]-- > 0, "initial-candidate-missing", tx, ": ", i);
    if (GaOf<T>::custom)
    {   // the others are what generateCandidate() returned, each used at most once
        std::map<Chromosome<T>, long> made; for (auto& e : l.ev) if (e.k == 'g') made[l.ch[e.a]]++;
        for (auto& [ch, n] : first) if (n > 0) VH_REQUIRE(made[ch] >= n, "not-a-generated-candidate", tx, ": ", chtext<T>(ch), " ", n, " times in the initial population, generated ", made[ch], " times");
        vh::stat("generated_candidates_matched", c.pop - std::min(c.pop, init.size()));
    }
    size_t calls = 0; for (auto& e : l.ev) calls += e.k == 'F';
    VH_REQUIRE(ga.num_fitness_evals() + 1 == calls, "evaluation-count", tx, ": reported ", ga.num_fitness_evals(), ", made ", calls);
    VH_REQUIRE(ga.generation_cntr() + 1 == l.pops.size(), "generation-counter", tx);
    std::vector<Chromosome<T>> exp, got;
    std::vector<const Candidate<T>*> all;
    if (c.keep_all) for (auto& p : l.pops) for (auto& x : p) all.push_back(&x); else for (auto& x : l.pops.back()) all.push_back(&x);
    for (auto* x : all) { bool dom = false; for (auto* y : all) if (dominates(y->fitness, x->fitness)) { dom = true; break; } if (!dom) exp.push_back(x->chromosome); }
    std::sort(exp.begin(), exp.end()); exp.erase(std::unique(exp.begin(), exp.end()), exp.end());
    for (auto& x : sols) got.push_back(x.chromosome); std::sort(got.begin(), got.end());
    for (size_t i = 1; i < got.size(); i++) VH_REQUIRE(got[i - 1] != got[i], "duplicate-solution", tx, ": ", chtext<T>(got[i]));
    VH_REQUIRE(exp == got, "solutions", tx, ": ", got.size(), " solutions instead of ", exp.size());
    if (c.cache && !c.dyn)
    {
        // a candidate of the last cached generations is not evaluated again
        std::map<Chromosome<T>, size_t> entered; size_t gen = 0;
        for (size_t i = 0; i < l.ev.size(); i++)
        {
            if (l.ev[i].k == 'C') { for (auto& x : l.pops[gen]) entered.emplace(x.chromosome, gen); gen++; }
            else if (l.ev[i].k == 'F' && gen > 0)
            {
                auto it = entered.find(l.ch[l.ev[i].a]);
                if (it != entered.end()) VH_REQUIRE(!(gen >= it->second + 2 && gen <= it->second + 1 + c.cache), "cached-candidate-recomputed", tx, ": ", chtext<T>(it->first), " of generation ", it->second, " evaluated in ", gen);
            }
        }
        vh::stat("cached_runs");
    }
}
template<class T> void customCase(Rng& r, Case& cs, bool protocol)
{
    math::ScopedTolerances tol(0.0, 0.0);
    UCfg c{};
    c.pop = r.pick({1, 2, 3, 4, 5, 7, 8, 12, 21}); c.len = r.pick({1, 2, 3, 5, 9}); c.nobj = r.pick({1, 1, 2, 3}); c.gens = 1 + r.below(9); c.threads = r.pick({1, 1, 2, 4}); c.cache = r.pick({0, 0, 1, 2});
    c.algo = protocol ? (c.nobj == 1 ? int(r.below(3)) : 0) : (c.nobj == 1 ? r.pick({0, 1, 3, 3}) : r.pick({0, 3, 4})); c.keep_all = r.chance(0.4); c.repair = r.chance(0.4); c.dyn = r.chance(0.2); c.lambdas = r.chance(0.4); c.stop = r.chance(0.5); c.stop_n = r.below(8);
    c.defops = GaOf<T>::custom && r.chance(0.3); c.pc = r.pick({0.0, 0.5, 0.8, 1.0}); c.pm = r.pick({0.0, 0.1, 0.5, 1.0}); c.range = r.pick({uint64_t(3), uint64_t(1000), uint64_t(1) << 40}); c.seed = r.next();
    auto b = userBounds<T>(r, c.len);
    Population<T> init;
    if (r.chance(0.5))
    {
        rng::prng.seed(r.next());
        for (size_t i = 0, n = r.below(c.pop + 4); i < n; i++) { Candidate<T> x(freshChrom<T>(c.len, b)); if (r.chance(0.3)) { x.fitness = fitnessOf<T>(x.chromosome, c.nobj, c.range); x.is_evaluated = true; } init.push_back(std::move(x)); }
    }
    c.preset = init.size();
    typename GaOf<T>::type ga(1 + r.below(9));
    setup<T>(ga, c);
    if (r.chance(0.3))
    {   // the object was used before, possibly ended by an exception
        UCfg o = c; o.seed = r.next(); o.gens = 1 + r.below(5); Log<T> ol; if (r.chance(0.5)) ol.throw_at = long(r.below(60));
        bool threw = false; try { go<T>(ga, o, b, init, ol); } catch (const std::domain_error&) { threw = true; vh::stat("failed_runs"); }
        if (!threw) VH_REQUIRE(ol.throw_at < 0 || ol.cnt <= ol.throw_at, "exception-lost", c.text(Enc<T>::name));
        else if (protocol && c.threads == 1) checkProtocol<T>(o, ol, b, init, false);
    }
    Log<T> l; const auto init0 = init;
    auto sols = go<T>(ga, c, b, std::move(init), l);
    if (protocol) checkProtocol<T>(c, l, b, init0, true); else checkResults<T>(c, l, b, init0, sols, ga);
    if (!c.defops) VH_REQUIRE(double(ga.crossover_rate()) == c.pc && double(ga.mutation_rate()) == c.pm, "rates", c.text(Enc<T>::name), ": ", double(ga.crossover_rate()), " ", double(ga.mutation_rate()));
    else VH_REQUIRE(double(ga.mutation_rate()) == std::min(1.0, 2.0 / double(c.len)), "default-rate", c.text(Enc<T>::name), ": ", double(ga.mutation_rate()));
    uint64_t h = 1; for (auto& p : l.pops) for (auto& x : p) h = vh::mix(h ^ chash<T>(x.chromosome));
    cs.nontrivial = l.pops.size() > 1; cs.sig(h); cs.sample(c.text(Enc<T>::name) + vh::str(" -> events=", l.ev.size(), " generations=", l.pops.size(), " solutions=", sols.size()));
    vh::stat("runs"); vh::stat("events", l.ev.size()); vh::stat(vh::str("runs_", Enc<T>::name)); for (auto& e : l.ev) if (e.k == 'S') { vh::stat("runs_with_monitored_selections"); break; }
    if (Enc<T>::var) { std::set<size_t> ls; for (auto& p : l.pops) for (auto& x : p) ls.insert(x.chromosome.size()); if (ls.size() > 1) vh::stat("runs_with_several_lengths"); }
}
