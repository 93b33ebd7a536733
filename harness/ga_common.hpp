/* Shared workload generator and run recorder for complete GA runs. */
#ifndef VH_GA_COMMON_HPP
#define VH_GA_COMMON_HPP
#include "vh.hpp"
#include <gapp.hpp>
#include <set>
#include <map>
using namespace gapp;
using vh::Rng; using vh::Case;
using std::size_t;

/* ---- encodings ---- */
struct BinE  { using GAT = BinaryGA;      using Gene = BinaryGene;      static constexpr const char* name = "binary"; static constexpr bool bounded = false; };
struct IntE  { using GAT = IntegerGA;     using Gene = IntegerGene;     static constexpr const char* name = "integer"; static constexpr bool bounded = true; };
struct RealE { using GAT = RCGA;          using Gene = RealGene;        static constexpr const char* name = "real"; static constexpr bool bounded = true; };
struct PermE { using GAT = PermutationGA; using Gene = PermutationGene; static constexpr const char* name = "perm"; static constexpr bool bounded = false; };

/* ---- pure fitness functions; integer valued so that domination is exact under any tolerance in use ---- */
template<class T> double geneNum(T g, size_t i)
{
    if constexpr (std::is_floating_point_v<T>) { double v = std::floor(std::clamp<double>(g, -1e4, 1e4) * 16.0); return v; }
    else if constexpr (std::is_signed_v<T>) return double(g % 100003);
    else if constexpr (sizeof(T) == 1) return double(g);
    else return double((uint64_t(g) + 1) * (i + 1) % 1009);
}
template<class T> uint64_t chromHash(const Chromosome<T>& c)
{
    uint64_t h = vh::mix(c.size());
    for (T g : c)
    {
        uint64_t u;
        if constexpr (std::is_floating_point_v<T>) { double d = g == 0.0 ? 0.0 : double(g); std::memcpy(&u, &d, 8); }
        else u = uint64_t(g);
        h = vh::mix(h ^ u) + 0x9E3779B97F4A7C15ull;
    }
    return h;
}
enum FKind { F_SMOOTH, F_LEVELS, F_CONST, F_WIDE, F_NEG, F_FRAC, F_NKINDS, F_NEAR = F_NKINDS };   // F_NEAR: levels with noise far below the tolerance of the run
template<class T> FitnessVector pureFitness(const Chromosome<T>& c, size_t nobj, int kind)
{
    FitnessVector f(nobj);
    const uint64_t h = chromHash(c);
    for (size_t j = 0; j < nobj; j++)
    {
        const uint64_t hj = vh::mix(h + j * 7919);
        double v = 0;
        switch (kind)
        {
            case F_SMOOTH: for (size_t i = 0; i < c.size(); i++) v += geneNum(c[i], i) * double(int((i * 7 + j * 13 + j * j) % 5) - 2 + (j == 0)); break;
            case F_LEVELS: v = double(hj % 4); break;
            case F_CONST:  v = 5.0; break;
            case F_WIDE:   v = double(hj % 1000000); break;
            case F_NEG:    v = -double(hj % 50) - 1; break;
            case F_NEAR:   v = double(hj % 4) + 1e-5 * double((hj >> 32) % 1000) / 1000.0; break;
            case F_FRAC:   v = double(hj % 1000003) / 1024.0 - 300; break;
        }
        f[j] = v;
    }
    return f;
}

/* ---- configuration ---- */
struct Cfg
{
    size_t pop = 10, len = 5, nobj = 1, gens = 5, cache = 0, threads = 1;
    int fkind = 0, algo = 0, sel = 0, repl = 0, reflines = 0, cross = 0, mut = 0, stop = 0, repair = 0, boundk = 0, initk = 0, metrics = 0;
    bool dynamic = false, keep_all = false, default_pm = false;
    double pc = 0.8, pm = 0.1, param = 0.5, param2 = 0.5;
    uint64_t seed = 1, bseed = 1, iseed = 1;
    size_t stop_n = 20;
    std::string text(const char* enc) const
    {
        return vh::str(enc, " pop=", pop, " len=", len, " nobj=", nobj, " gens=", gens, " cache=", cache, " threads=", threads, " fkind=", fkind, " algo=", algo, " sel=", sel, " repl=", repl, " reflines=", reflines,
            " cross=", cross, " mut=", mut, " stop=", stop, "/", stop_n, " repair=", repair, " bounds=", boundk, " init=", initk, " metrics=", metrics, " dynamic=", dynamic, " keep_all=", keep_all, " default_pm=", default_pm,
            " pc=", pc, " pm=", pm, " param=", param, ",", param2, " seed=", seed);
    }
};

template<class En> BoundsVector<typename En::Gene> makeBounds(const Cfg& c)
{
    using T = typename En::Gene;
    BoundsVector<T> b;
    if constexpr (En::bounded)
    {
        Rng r(c.bseed);
        for (size_t i = 0; i < c.len; i++)
        {
            if constexpr (std::is_floating_point_v<T>)
            {
                double lo = 0, hi = 1;
                switch (c.boundk)
                {
                    case 0: lo = -5.12; hi = 5.12; break;
                    case 1: { double a = r.real(-100, 100), w = r.real(0, 10); lo = a; hi = a + w; break; }
                    case 2: lo = hi = r.real(-3, 3); break;                                  // degenerate
                    case 3: if (r.chance(0.4)) { lo = hi = double(r.range(-3, 3)); } else { lo = -1; hi = double(r.range(0, 4)); } break;
                    case 4: lo = -1e100; hi = 1e100 * r.unit(); break;
                    case 5: lo = 1.0; hi = 1.0 + 1e-15 * double(r.below(20)); break;          // very narrow
                    case 6: lo = 1e9; hi = 1e9 + r.unit(); break;
                    case 7: lo = -r.unit() * 1e-300; hi = r.unit() * 1e-300; break;
                }
                if (hi < lo) std::swap(lo, hi);
                b.emplace_back(lo, hi);
            }
            else
            {
                int64_t lo = 0, hi = 1;
                switch (c.boundk)
                {
                    case 0: lo = 0; hi = 3; break;
                    case 1: lo = r.range(-50, 50); hi = lo + r.range(0, 20); break;
                    case 2: lo = hi = r.range(-5, 5); break;
                    case 3: if (r.chance(0.4)) lo = hi = r.range(-3, 3); else { lo = -1; hi = r.range(0, 4); } break;
                    case 4: lo = std::numeric_limits<int64_t>::min(); hi = std::numeric_limits<int64_t>::max(); break;
                    case 5: lo = 7; hi = 8; break;
                    case 6: lo = int64_t(1) << 52; hi = lo + r.range(1, 100); break;
                    case 7: lo = std::numeric_limits<int64_t>::max() - 2; hi = std::numeric_limits<int64_t>::max(); break;
                }
                b.emplace_back(lo, hi);
            }
        }
    }
    return b;
}

template<class En> Chromosome<typename En::Gene> randomChrom(Rng& r, const Cfg& c, const BoundsVector<typename En::Gene>& b)
{
    using T = typename En::Gene;
    Chromosome<T> ch(c.len);
    if constexpr (std::is_same_v<En, PermE>) { for (size_t i = 0; i < c.len; i++) ch[i] = i; r.shuffle(ch); }
    else for (size_t i = 0; i < c.len; i++)
    {
        if constexpr (std::is_same_v<En, BinE>) ch[i] = T(r.below(2));
        else if constexpr (std::is_same_v<En, RealE>)
        {
            int k = int(r.below(6));
            ch[i] = k == 0 ? b[i].lower() : k == 1 ? b[i].upper() : std::clamp(b[i].lower() + (b[i].upper() - b[i].lower()) * r.unit(), b[i].lower(), b[i].upper());
        }
        else
        {
            uint64_t w = uint64_t(b[i].upper()) - uint64_t(b[i].lower());
            ch[i] = int64_t(uint64_t(b[i].lower()) + (w == UINT64_MAX ? r.next() : r.below(w + 1)));
        }
    }
    return ch;
}

/* Is this a valid chromosome of the encoding? Returns an explanation or "". */
template<class En> std::string invalidChrom(const Chromosome<typename En::Gene>& ch, const Cfg& c, const BoundsVector<typename En::Gene>& b)
{
    if (ch.size() != c.len) return vh::str("length ", ch.size(), " instead of ", c.len);
    if constexpr (std::is_same_v<En, PermE>)
    {
        std::vector<char> seen(c.len, 0);
        for (auto g : ch) { if (g >= c.len) return vh::str("gene ", g, " out of range"); if (seen[g]) return vh::str("gene ", g, " occurs twice"); seen[g] = 1; }
    }
    else for (size_t i = 0; i < c.len; i++)
    {
        if constexpr (std::is_same_v<En, BinE>) { if (ch[i] > 1) return vh::str("gene ", i, " = ", int(ch[i])); }
        else { if (!(b[i].lower() <= ch[i] && ch[i] <= b[i].upper())) return vh::str("gene ", i, " = ", ch[i], " not in [", b[i].lower(), ",", b[i].upper(), "]"); }
    }
    return "";
}

/* ---- log of what the user-defined operators did ---- */
template<class T> struct OpLog
{
    struct Mut { size_t gen; bool eval_in; Chromosome<T> in, out; };
    struct Cross { size_t gen; bool known; Chromosome<T> child; };   // known: equal to an evaluated parent, or no crossover done
    std::mutex m; std::vector<Mut> muts; std::vector<Cross> crosses; const std::atomic<size_t>* gen = nullptr;
};

/* ---- user defined operators (also monitors) ---- */
template<class En> void userMutate(Chromosome<typename En::Gene>& ch, const BoundsVector<typename En::Gene>& b, double pm)
{
    using T = typename En::Gene;
    if (ch.empty() || rng::randomReal() >= pm) return;
    const size_t i = rng::randomInt<size_t>(0, ch.size() - 1), j = rng::randomInt<size_t>(0, ch.size() - 1);
    if constexpr (std::is_same_v<En, PermE>) std::swap(ch[i], ch[j]);
    else if constexpr (std::is_same_v<En, BinE>) ch[i] = T(!ch[i]);
    else if constexpr (std::is_same_v<En, RealE>) ch[i] = rng::randomBool() ? b[i].lower() : b[i].upper();
    else ch[i] = rng::randomInt<int64_t>(b[i].lower(), b[i].upper());
    (void)j;
}
template<class En> class UserMutation final : public mutation::Mutation<typename En::Gene>
{
public:
    using T = typename En::Gene;
    UserMutation(Probability pm, BoundsVector<T> b, OpLog<T>* log = nullptr) : mutation::Mutation<T>(pm), b_(std::move(b)), log_(log) {}
private:
    BoundsVector<T> b_; OpLog<T>* log_;
    void mutate(const GA<T>&, const Candidate<T>& cand, Chromosome<T>& ch) const override
    {
        const bool ev = cand.is_evaluated; Chromosome<T> in = ch;
        userMutate<En>(ch, b_, double(this->mutation_rate()));
        if (log_) { std::lock_guard l(log_->m); log_->muts.push_back({ log_->gen->load(), ev, std::move(in), ch }); }
    }
};
template<class En> CandidatePair<typename En::Gene> userCross(const Candidate<typename En::Gene>& a, const Candidate<typename En::Gene>& b)
{
    CandidatePair<typename En::Gene> r{ a, b };
    switch (rng::randomInt(0, 3))
    {
        case 0: break;                                        // children equal the parents
        case 1: std::swap(r.first, r.second); break;
        case 2: r.second = r.first; break;
        default:
            if constexpr (std::is_same_v<En, PermE>) { if (a.chromosome.size() > 1) std::swap(r.first.chromosome[0], r.first.chromosome.back()); }
            else if (!a.chromosome.empty()) { size_t i = rng::randomInt<size_t>(0, a.chromosome.size() - 1); std::swap(r.first.chromosome[i], r.second.chromosome[i]); }
    }
    return r;
}
template<class En> class UserCrossover final : public crossover::Crossover<typename En::Gene>
{
public:
    using T = typename En::Gene;
    UserCrossover(Probability pc = 0.8, OpLog<T>* log = nullptr) : crossover::Crossover<T>(pc), log_(log) {}
private:
    OpLog<T>* log_;
    CandidatePair<T> crossover(const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) const override
    {
        auto r = userCross<En>(a, b);
        if (log_)
        {
            std::lock_guard l(log_->m);
            for (const auto* c : { &r.first, &r.second }) log_->crosses.push_back({ log_->gen->load(), c->chromosome == a.chromosome || c->chromosome == b.chromosome, c->chromosome });
        }
        return r;
    }
};

/* A user algorithm: binary tournament on a random objective, keeps a random mix. */
class UserAlgorithm final : public algorithm::Algorithm
{
    void initializeImpl(const GaInfo&) override {}
    size_t selectImpl(const GaInfo&, const FitnessMatrix& f) const override { return rng::randomIndex(f); }
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& f) override
    {
        auto v = rng::sampleUnique<size_t>(0, f.size(), ga.population_size());
        return v;
    }
};

template<class En> constexpr int numCross() { return std::is_same_v<En, PermE> ? 8 : std::is_same_v<En, RealE> ? 6 : 6; }
template<class En> constexpr int numMut()   { return std::is_same_v<En, PermE> ? 7 : std::is_same_v<En, RealE> ? 7 : 3; }

template<class En> std::unique_ptr<crossover::Crossover<typename En::Gene>> makeCrossover(const Cfg& c, int which, OpLog<typename En::Gene>* log = nullptr)
{
    using T = typename En::Gene; using Base = crossover::Crossover<T>;
    std::unique_ptr<Base> p;
    auto np = [&]{ return size_t(1 + size_t(c.param * 6)); };
    if constexpr (std::is_same_v<En, BinE>)
        switch (which) { case 0: p = std::make_unique<crossover::binary::SinglePoint>(); break; case 1: p = std::make_unique<crossover::binary::TwoPoint>(); break;
            case 2: p = std::make_unique<crossover::binary::NPoint>(np()); break; case 3: p = std::make_unique<crossover::binary::Uniform>(c.pc, c.param2); break; }
    else if constexpr (std::is_same_v<En, IntE>)
        switch (which) { case 0: p = std::make_unique<crossover::integer::SinglePoint>(); break; case 1: p = std::make_unique<crossover::integer::TwoPoint>(); break;
            case 2: p = std::make_unique<crossover::integer::NPoint>(np()); break; case 3: p = std::make_unique<crossover::integer::Uniform>(c.pc, c.param2); break; }
    else if constexpr (std::is_same_v<En, RealE>)
        switch (which) { case 0: p = std::make_unique<crossover::real::Arithmetic>(); break; case 1: p = std::make_unique<crossover::real::BLXa>(c.pc, c.param * 2); break;
            case 2: p = std::make_unique<crossover::real::SimulatedBinary>(c.pc, c.param * 8); break; case 3: p = std::make_unique<crossover::real::Wright>(); break; }
    else
        switch (which) { case 0: p = std::make_unique<crossover::perm::Order1>(); break; case 1: p = std::make_unique<crossover::perm::Order2>(); break;
            case 2: p = std::make_unique<crossover::perm::Position>(); break; case 3: p = std::make_unique<crossover::perm::Cycle>(); break;
            case 4: p = std::make_unique<crossover::perm::Edge>(); break; case 5: p = std::make_unique<crossover::perm::PMX>(); break; }
    if (!p && which == numCross<En>() - 2) p = std::make_unique<UserCrossover<En>>(c.pc, log);
    if (!p) p = std::make_unique<crossover::Lambda<T>>([](const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) { return userCross<En>(a, b); });
    p->crossover_rate(c.pc);
    return p;
}
/* A memetic user mutation: looks at evaluated neighbours made by another mutation operator, or by a small GA of its own, and takes one of them. */
enum { MUT_MEMETIC = 100, MUT_NESTED_GA = 101 };
template<class En> std::unique_ptr<mutation::Mutation<typename En::Gene>> makeMutation(const Cfg& c, int which, const BoundsVector<typename En::Gene>& b, OpLog<typename En::Gene>* log = nullptr);
template<class En> class MemeticMutation final : public mutation::Mutation<typename En::Gene>
{
public:
    using T = typename En::Gene;
    MemeticMutation(const Cfg& c, BoundsVector<T> b, bool ga) : mutation::Mutation<T>(c.pm), c_(c), b_(std::move(b)), ga_(ga), inner_(makeMutation<En>(c, int(c.iseed % uint64_t(std::is_same_v<En, PermE> ? 5 : std::is_same_v<En, RealE> ? 5 : 1)), b_)) {}
private:
    Cfg c_; BoundsVector<T> b_; bool ga_; std::shared_ptr<mutation::Mutation<T>> inner_;
    void mutate(const GA<T>& ga, const Candidate<T>&, Chromosome<T>& ch) const override
    {
        if (rng::randomReal() >= double(this->mutation_rate())) return;
        if (ga_)
        {
            typename En::GAT small(4); auto f = [c = c_](const Chromosome<T>& x) { return pureFitness(x, 1, F_LEVELS); }; Candidates<T> s; small.mutation_method(makeMutation<En>(c_, 0, b_));
            const auto fit = std::function<FitnessVector(const Chromosome<T>&)>(f);
            if constexpr (En::bounded) s = small.solve(std::make_unique<detail::FitnessLambda<T>>(c_.len, fit), b_, 3); else s = small.solve(std::make_unique<detail::FitnessLambda<T>>(c_.len, fit), 3);
            ch = s[0].chromosome; vh::stat("nested_runs"); return;
        }
        for (int i = 0; i < 4; i++)
        {
            Candidate<T> n(ch); userMutate<En>(n.chromosome, b_, 0.7); n.fitness = pureFitness(n.chromosome, c_.nobj, c_.fkind); n.is_evaluated = true;
            (*inner_)(ga, n);
            if (n.is_evaluated) { const auto again = pureFitness(n.chromosome, c_.nobj, c_.fkind); if (again != n.fitness && !std::is_floating_point_v<T>) throw std::logic_error("a mutation kept the fitness of a changed candidate"); }
            if (rng::randomBool()) ch = n.chromosome;
        }
        vh::stat("memetic_mutations");
    }
};
template<class En> std::unique_ptr<mutation::Mutation<typename En::Gene>> makeMutation(const Cfg& c, int which, const BoundsVector<typename En::Gene>& b, OpLog<typename En::Gene>* log)
{
    using T = typename En::Gene; using Base = mutation::Mutation<T>;
    if (which >= MUT_MEMETIC) return std::make_unique<MemeticMutation<En>>(c, b, which == MUT_NESTED_GA);
    std::unique_ptr<Base> p;
    if constexpr (std::is_same_v<En, BinE>) { if (which == 0) p = std::make_unique<mutation::binary::Flip>(c.pm); }
    else if constexpr (std::is_same_v<En, IntE>) { if (which == 0) p = std::make_unique<mutation::integer::Uniform>(c.pm); }
    else if constexpr (std::is_same_v<En, RealE>)
        switch (which) { case 0: p = std::make_unique<mutation::real::Uniform>(c.pm); break; case 1: p = std::make_unique<mutation::real::NonUniform>(c.pm, c.param * 4); break;
            case 2: p = std::make_unique<mutation::real::Gauss>(c.pm, 0.5 + c.param * 10); break; case 3: p = std::make_unique<mutation::real::Polynomial>(c.pm, c.param2 * 50); break;
            case 4: p = std::make_unique<mutation::real::Boundary>(c.pm); break; }
    else
        switch (which) { case 0: p = std::make_unique<mutation::perm::Inversion>(c.pm, c.param); break; case 1: p = std::make_unique<mutation::perm::Swap2>(c.pm); break;
            case 2: p = std::make_unique<mutation::perm::Swap3>(c.pm); break; case 3: p = std::make_unique<mutation::perm::Shuffle>(c.pm, c.param); break; case 4: p = std::make_unique<mutation::perm::Shift>(c.pm, c.param); break; }
    if (!p && which == numMut<En>() - 2) p = std::make_unique<UserMutation<En>>(c.pm, b, log);
    if (!p)
    {
        p = std::make_unique<mutation::Lambda<T>>([b, pm = c.pm](const GA<T>&, const Candidate<T>&, Chromosome<T>& ch) { userMutate<En>(ch, b, pm); });
        p->mutation_rate(c.pm);
    }
    return p;
}

inline std::unique_ptr<selection::Selection> makeSelection(const Cfg& c)
{
    switch (c.sel)
    {
        case 0: return std::make_unique<selection::Roulette>();
        case 1: return std::make_unique<selection::Tournament>(2 + size_t(c.param * 4));
        case 2: return std::make_unique<selection::Rank>(0.1, 0.1 + c.param2);
        case 3: return std::make_unique<selection::Sigma>(1.0 + c.param);
        case 4: return std::make_unique<selection::Boltzmann>();
        default: return std::make_unique<selection::Lambda>([](const GaInfo&, const FitnessMatrix& f) { return size_t(rng::randomIndex(f)); });
    }
}
inline std::unique_ptr<replacement::Replacement> makeReplacement(const Cfg& c)
{
    switch (c.repl)
    {
        case 0: return std::make_unique<replacement::KeepBest>();
        case 1: return std::make_unique<replacement::KeepChildren>();
        case 2: return std::make_unique<replacement::Elitism>(1 + size_t(c.param * 5));
        default: return std::make_unique<replacement::Lambda>([](const GaInfo& ga, const FitnessMatrix& f) { return rng::sampleUnique<size_t>(0, f.size(), ga.population_size()); });
    }
}
/* algo: 0 default, 1 SOGA, 2 NSGA2, 3 NSGA3, 4 user */
inline std::unique_ptr<algorithm::Algorithm> makeAlgorithm(const Cfg& c)
{
    switch (c.algo)
    {
        case 1: return std::make_unique<algorithm::SingleObjective>(makeSelection(c), makeReplacement(c));
        case 2: return std::make_unique<algorithm::NSGA2>();
        case 3:
            switch (c.reflines)
            {
                case 1: return std::make_unique<algorithm::NSGA3>(algorithm::reflines::quasirandomSimplexPointsSort);
                case 2: return std::make_unique<algorithm::NSGA3>(algorithm::reflines::quasirandomSimplexPointsRoot);
                case 3: return std::make_unique<algorithm::NSGA3>(algorithm::reflines::quasirandomSimplexPointsLog);
                default: return std::make_unique<algorithm::NSGA3>();
            }
        case 4: return std::make_unique<UserAlgorithm>();
        default: return nullptr;
    }
}

template<class En> Cfg randomCfg(Rng& r)
{
    Cfg c;
    c.pop = r.pick({1, 2, 3, 4, 5, 6, 7, 10, 11, 16, 23});
    c.len = r.pick({1, 2, 3, 4, 5, 8, 12, 17, 33, 64});
    c.nobj = r.pick({1, 1, 1, 2, 2, 3, 4, 6});
    c.gens = r.pick({1, 2, 3, 4, 6, 9, 14});
    c.cache = r.pick({0, 0, 1, 2, 3, 5});
    c.threads = r.pick({1, 1, 2, 3, 4, 8});
    c.fkind = int(r.below(F_NKINDS));
    c.algo = c.nobj == 1 ? r.pick({0, 1, 1, 1, 4}) : r.pick({0, 2, 2, 3, 3, 4});
    c.sel = int(r.below(6)); c.repl = int(r.below(4)); c.reflines = int(r.below(4));
    c.cross = int(r.below(numCross<En>())); c.mut = int(r.below(numMut<En>()));
    c.boundk = int(r.below(8)); c.initk = int(r.below(6)); c.repair = int(r.below(5));
    c.dynamic = r.chance(0.25); c.keep_all = r.chance(0.4); c.default_pm = r.chance(0.15);
    c.pc = r.pick({0.0, 0.3, 0.8, 1.0}); c.pm = r.pick({0.0, 0.05, 0.2, 0.6, 1.0});
    c.param = r.pick({0.0, 0.25, 0.5, 0.75, 1.0}) ; if (r.chance(0.4)) c.param = r.unit();
    c.param2 = r.chance(0.3) ? r.pick({0.0, 1.0}) : r.unit();
    c.stop = int(r.below(8)); c.stop_n = 1 + r.below(80);
    c.seed = r.next(); c.bseed = r.next(); c.iseed = r.next();
    c.metrics = int(r.below(3));
    // sizes beyond every buffer, word or block size
    if (r.chance(0.03)) { c.pop = r.pick({40, 65, 100, 130, 201, 270}); c.gens = std::min<size_t>(c.gens, r.pick({1, 2, 3, 4})); c.len = std::min<size_t>(c.len, 12); if (r.chance(0.3)) c.cache = 1; }
    else if (r.chance(0.03)) { c.len = r.pick({65, 100, 129, 260, 400}); c.gens = std::min<size_t>(c.gens, 4); c.pop = std::min<size_t>(c.pop, 7); }
    return c;
}

/* ---- run recorder ---- */
template<class T> struct Call { Chromosome<T> chrom; FitnessVector fit; size_t gen; };
template<class T> struct Gen
{
    size_t cntr, evals, calls, popsize, chrom_len, nobj, max_gen;
    Population<T> pop; std::vector<FitnessVector> fmat; Candidates<T> sols;
};
template<class En> struct Recorder
{
    using T = typename En::Gene;
    std::mutex m;
    std::vector<Call<T>> calls;
    std::vector<Gen<T>> gens;
    std::atomic<size_t> ngens{0}, ncalls{0};
    Recorder() { ops.gen = &ngens; }
    OpLog<T> ops;
    long throw_at = -1; std::atomic<long> throw_cnt{0};  // fault injection: throw at the n-th user call
    void fault() { if (throw_at >= 0 && throw_cnt.fetch_add(1) == throw_at) throw std::domain_error("injected by user function"); }
};

template<class En> class MonFitness final : public FitnessFunctionBase<typename En::Gene>
{
public:
    using T = typename En::Gene;
    MonFitness(const Cfg& c, Recorder<En>& rec) :
        FitnessFunctionBase<T>(c.len, c.dynamic ? FitnessFunctionInfo::Type::Dynamic : FitnessFunctionInfo::Type::Static), c_(c), r_(&rec) {}
private:
    Cfg c_; Recorder<En>* r_;
    FitnessVector invoke(const Chromosome<T>& ch) const override
    {
        r_->fault();
        FitnessVector f = pureFitness(ch, c_.nobj, c_.fkind);
        std::lock_guard l(r_->m);
        // a dynamic function returns a unique value for every call, so that a value identifies its call
        if (c_.dynamic) f[0] = f[0] * 1048576.0 + double(r_->calls.size());
        r_->calls.push_back({ ch, f, r_->ngens.load() });
        r_->ncalls++;
        return f;
    }
};

template<class En> Gen<typename En::Gene> snapshot(const typename En::GAT& ga, Recorder<En>& rec)
{
    Gen<typename En::Gene> g;
    g.cntr = ga.generation_cntr(); g.evals = ga.num_fitness_evals(); g.calls = rec.ncalls.load();
    g.popsize = ga.population_size(); g.chrom_len = ga.chrom_len(); g.nobj = ga.num_objectives(); g.max_gen = ga.max_gen();
    g.pop = ga.population();
    for (const auto& row : ga.fitness_matrix()) g.fmat.emplace_back(row.begin(), row.end());
    g.sols = ga.solutions();
    return g;
}

template<class En> Population<typename En::Gene> makeInitial(const Cfg& c, const BoundsVector<typename En::Gene>& b)
{
    using T = typename En::Gene;
    Population<T> p;
    if (c.initk < 3) return p;
    Rng r(c.iseed);
    const size_t n = c.initk == 3 ? c.pop : c.initk == 4 ? r.below(c.pop + 1) : c.pop + 1 + r.below(5);
    for (size_t i = 0; i < n; i++)
    {
        Candidate<T> cand(randomChrom<En>(r, c, b));
        if (i && r.chance(0.2)) cand = p[r.below(i)];
        if (r.chance(0.3)) { cand.fitness = pureFitness(cand.chromosome, c.nobj, c.fkind); cand.is_evaluated = true; }
        p.push_back(std::move(cand));
    }
    return p;
}

/* The repair functions: pure. */
template<class En> Chromosome<typename En::Gene> repaired(const Cfg& c, const BoundsVector<typename En::Gene>& b, const Chromosome<typename En::Gene>& ch)
{
    auto out = ch;
    if (out.empty()) return out;
    if (c.repair == 2)
    {
        if constexpr (std::is_same_v<En, PermE>) { auto it = std::find(out.begin(), out.end(), 0u); std::iter_swap(it, out.begin()); }
        else if constexpr (En::bounded) out[0] = b[0].lower();
        else out[0] = 1;
    }
    else if (c.repair == 3 && chromHash(ch) % 3 == 0) { if constexpr (!En::bounded) std::sort(out.begin(), out.end()); }
    else if (c.repair == 4 && chromHash(ch) % 2) { Rng r(chromHash(ch)); out = randomChrom<En>(r, c, b); }
    return out;
}

template<class En> void configure(typename En::GAT& ga, const Cfg& c, const BoundsVector<typename En::Gene>& b, Recorder<En>* rec)
{
    using T = typename En::Gene;
    ga.population_size(c.pop);
    ga.crossover_method(makeCrossover<En>(c, c.cross, rec ? &rec->ops : nullptr));
    if (c.default_pm && c.mut == numMut<En>() - 1)
        ga.mutation_method([b, pm = c.pm, rec](const GA<T>&, const Candidate<T>&, Chromosome<T>& ch) { if (rec) rec->fault(); userMutate<En>(ch, b, pm); });
    else ga.mutation_method(makeMutation<En>(c, c.mut, b, rec ? &rec->ops : nullptr));
    ga.algorithm(makeAlgorithm(c));
    ga.cache_size(c.cache);
    ga.keep_all_optimal_solutions(c.keep_all);
    switch (c.stop)
    {
        case 0: ga.stop_condition(stopping::FitnessEvals(c.stop_n)); break;
        case 1: ga.stop_condition(stopping::FitnessBestStall(c.stop_n % 5)); break;
        case 2: ga.stop_condition([rec, n = c.stop_n % 9](const GaInfo& g) { if (rec) rec->fault(); return g.generation_cntr() >= n; }); break;
        default: ga.stop_condition(nullptr);
    }
    switch (c.metrics)
    {
        case 0: ga.track(); break;
        case 1: ga.track(metrics::FitnessMax{}, metrics::FitnessMean{}, metrics::FitnessEvaluations{}); break;
        case 2: ga.track(metrics::NadirPoint{}, metrics::FitnessStdDev{}, metrics::FitnessMin{}); break;
    }
    if (c.repair == 0) ga.repair_function(nullptr);
    else ga.repair_function([c, b, rec](const GA<T>&, const Chromosome<T>& ch) { if (rec) rec->fault(); return repaired<En>(c, b, ch); });
}

/* Runs solve() on ga with everything recorded. */
template<class En> Candidates<typename En::Gene> solveRecorded(typename En::GAT& ga, const Cfg& c, const BoundsVector<typename En::Gene>& b, Recorder<En>& rec, bool explicit_gens = true)
{
    using T = typename En::Gene;
    ga.on_generation_end([&rec](const GaInfo& info)
    {
        rec.fault();
        rec.gens.push_back(snapshot<En>(static_cast<const typename En::GAT&>(info), rec));
        rec.ngens++;
    });
    auto init = makeInitial<En>(c, b);
    if constexpr (En::bounded)
        return explicit_gens ? ga.solve(std::make_unique<MonFitness<En>>(c, rec), b, c.gens, std::move(init)) : ga.solve(std::make_unique<MonFitness<En>>(c, rec), b, std::move(init));
    else
        return explicit_gens ? ga.solve(std::make_unique<MonFitness<En>>(c, rec), c.gens, std::move(init)) : ga.solve(std::make_unique<MonFitness<En>>(c, rec), std::move(init));
}

inline bool dominates(const FitnessVector& a, const FitnessVector& b)   // a dominates b, maximisation, exact
{
    bool better = false;
    for (size_t i = 0; i < a.size(); i++) { if (a[i] < b[i]) return false; if (a[i] > b[i]) better = true; }
    return better;
}
template<class T> std::string candText(const Candidate<T>& c) { return vh::str(vh::vec(c.chromosome), " fitness ", vh::vec(c.fitness), c.is_evaluated ? "" : " (not evaluated)"); }

template<class F> void forEncoding(Rng& r, F&& f) { switch (r.below(4)) { case 0: f(BinE{}); break; case 1: f(IntE{}); break; case 2: f(RealE{}); break; default: f(PermE{}); } }
#endif
