/* Built-in benchmark problems against independent (extended precision) definitions (P30). */
#include "vh.hpp"
#include <gapp.hpp>
#include <thread>
#include <numbers>
using namespace gapp; using namespace gapp::problems;
using vh::Case; using vh::Rng;
using L = long double; using Vec = std::vector<double>; using LVec = std::vector<L>;
static constexpr L PI = std::numbers::pi_v<L>;

// ---- independent definitions, in the minimised form of the literature; m: magnitude of the terms (rounding allowance)
static L sq(L x) { return x * x; }
static LVec refSphere(const LVec& x, L& m) { L s = 0; for (L v : x) s += v * v; m = s; return { s }; }
static LVec refRastrigin(const LVec& x, L& m) { L s = 10 * L(x.size()); for (L v : x) s += v * v - 10 * cosl(2 * PI * v); m = 20 * x.size() + 30 * x.size(); return { s }; }
static LVec refRosenbrock(const LVec& x, L& m) { L s = 0; for (size_t i = 0; i + 1 < x.size(); i++) s += 100 * sq(x[i + 1] - x[i] * x[i]) + sq(x[i] - 1); m = s + 100 * L(x.size()); return { s }; }
static LVec refSchwefel(const LVec& x, L& m) { L s = 418.98288727215591L * x.size(); for (L v : x) s -= v * sinl(sqrtl(fabsl(v))); m = 1000 * L(x.size()); return { s }; }
static LVec refGriewank(const LVec& x, L& m) { L s = 0, p = 1; for (size_t i = 0; i < x.size(); i++) { s += x[i] * x[i] / 4000; p *= cosl(x[i] / sqrtl(L(i + 1))); } m = 2 + s + x.size() * 1e-1L; return { 1 + s - p }; }
static LVec refAckley(const LVec& x, L& m) { L a = 0, b = 0; for (L v : x) { a += v * v; b += cosl(2 * PI * v); } a /= x.size(); b /= x.size(); m = 50; return { -20 * expl(-0.2L * sqrtl(a)) - expl(b) + 20 + expl(1) }; }
static LVec refLevy(const LVec& x, L& m)
{
    auto w = [&](size_t i) { return 1 + (x[i] - 1) / 4; }; const size_t d = x.size(); L s = sq(sinl(PI * w(0)));
    for (size_t i = 0; i + 1 < d; i++) s += sq(w(i) - 1) * (1 + 10 * sq(sinl(PI * w(i) + 1)));
    s += sq(w(d - 1) - 1) * (1 + sq(sinl(2 * PI * w(d - 1)))); m = 1 + s + d; return { s };
}
static LVec refKursawe(const LVec& x, L& m)
{
    L a = 0, b = 0; for (size_t i = 0; i + 1 < x.size(); i++) a -= 10 * expl(-0.2L * sqrtl(x[i] * x[i] + x[i + 1] * x[i + 1]));
    for (L v : x) b += powl(fabsl(v), 0.8L) + 5 * sinl(v * v * v); m = 200 * L(x.size()); return { a, b };
}
static L tailSum(const LVec& x) { L s = 0; for (size_t i = 1; i < x.size(); i++) s += x[i]; return s; }
static LVec refZdt1(const LVec& x, L& m) { L g = 1 + 9 * tailSum(x) / (x.size() - 1); m = g + 1; return { x[0], g * (1 - sqrtl(x[0] / g)) }; }
static LVec refZdt2(const LVec& x, L& m) { L g = 1 + 9 * tailSum(x) / (x.size() - 1); m = g + 1; return { x[0], g * (1 - sq(x[0] / g)) }; }
static LVec refZdt3(const LVec& x, L& m) { L g = 1 + 9 * tailSum(x) / (x.size() - 1), h = 1 - sqrtl(x[0] / g) - x[0] / g * sinl(10 * PI * x[0]); m = 10 * g + 1; return { x[0], g * h }; }
static LVec refZdt4(const LVec& x, L& m) { L g = 1 + 10 * L(x.size() - 1); for (size_t i = 1; i < x.size(); i++) g += x[i] * x[i] - 10 * cosl(4 * PI * x[i]); m = 200 * L(x.size()); return { x[0], g * (1 - sqrtl(x[0] / g)) }; }
static LVec refZdt6(const LVec& x, L& m) { L f = 1 - expl(-4 * x[0]) * powl(sinl(6 * PI * x[0]), 6), g = 1 + 9 * powl(tailSum(x) / (x.size() - 1), 0.25L); m = 100; return { f, g * (1 - sq(f / g)) }; }
static L gSum(const LVec& x, size_t M, int kind)
{
    L g = 0; const size_t k = x.size() - (M - 1);
    for (size_t i = M - 1; i < x.size(); i++) switch (kind) { case 1: g += sq(x[i] - 0.5L) - cosl(20 * PI * (x[i] - 0.5L)); break; case 2: g += sq(x[i] - 0.5L); break; case 6: g += powl(x[i], 0.1L); break; case 7: g += x[i]; break; }
    if (kind == 1) g = 100 * (k + g); if (kind == 7) g = 1 + 9 * g / k; return g;
}
/* Spherical and linear fronts in the closed form: f_m = (1+g) * prod_{i<M-m} first(i) * second(M-m) */
static LVec sphere(const LVec& a, size_t M, L g)
{
    LVec f(M); for (size_t m = 1; m <= M; m++) { L v = 1 + g; for (size_t i = 0; i < M - m; i++) v *= cosl(a[i] * PI / 2); if (m > 1) v *= sinl(a[M - m] * PI / 2); f[m - 1] = v; } return f;
}
static LVec refDtlz(int n, const LVec& x, size_t M, L& mag)
{
    const int gk = n == 1 || n == 3 ? 1 : n == 6 ? 6 : n == 7 ? 7 : 2; const L g = gSum(x, M, gk); mag = (gk == 1 ? 200 * L(x.size()) : 1 + g) + 5 * M;
    LVec a(x.begin(), x.begin() + long(M - 1));
    switch (n)
    {
        case 1: { LVec f(M); for (size_t m = 1; m <= M; m++) { L v = (1 + g) / 2; for (size_t i = 0; i < M - m; i++) v *= x[i]; if (m > 1) v *= 1 - x[M - m]; f[m - 1] = v; } return f; }
        case 2: case 3: return sphere(a, M, g);
        case 4: for (L& v : a) v = powl(v, 100); return sphere(a, M, g);
        case 5: case 6: for (size_t i = 1; i < a.size(); i++) a[i] = (1 + 2 * g * a[i]) / (2 * (1 + g)); return sphere(a, M, g);
        default: { LVec f(M); L h = L(M); for (size_t i = 0; i + 1 < M; i++) { f[i] = x[i]; h -= f[i] / (1 + g) * (1 + sinl(3 * PI * f[i])); } f[M - 1] = (1 + g) * h; return f; }
    }
}

// ---- the problems usable with real and binary encodings
using RP = BenchmarkFunction<RealGene>;
struct Desc
{
    std::string name; size_t min_size; double lo, hi; bool exact_ideal; bool by_objectives;
    std::unique_ptr<RP> (*make)(size_t n, size_t bits); std::function<LVec(const LVec&, size_t nobj, L& mag)> ref; size_t k = 0; std::optional<Bounds<RealGene>> first = {};
};
template<class P> std::unique_ptr<RP> mk(size_t n, size_t bits) { return bits ? std::make_unique<P>(n, bits) : std::make_unique<P>(n); }
template<LVec (*F)(const LVec&, L&)> LVec wrap(const LVec& x, size_t, L& m) { return F(x, m); }
template<int N> LVec dt(const LVec& x, size_t M, L& m) { return refDtlz(N, x, M, m); }
static const std::vector<Desc>& descs()
{
    static const std::vector<Desc> d = {
        { "Sphere", 1, -5.12, 5.12, true, false, mk<Sphere>, wrap<refSphere> }, { "Rastrigin", 1, -5.12, 5.12, true, false, mk<Rastrigin>, wrap<refRastrigin> }, { "Rosenbrock", 1, -2.048, 2.048, true, false, mk<Rosenbrock>, wrap<refRosenbrock> },
        { "Schwefel", 1, -500, 500, true, false, mk<Schwefel>, wrap<refSchwefel> }, { "Griewank", 1, -600, 600, true, false, mk<Griewank>, wrap<refGriewank> }, { "Ackley", 1, -32.768, 32.768, true, false, mk<Ackley>, wrap<refAckley> },
        { "Levy", 1, -10, 10, true, false, mk<Levy>, wrap<refLevy> }, { "Kursawe", 2, -5, 5, false, false, mk<Kursawe>, wrap<refKursawe> },
        { "ZDT1", 2, 0, 1, true, false, mk<ZDT1>, wrap<refZdt1> }, { "ZDT2", 2, 0, 1, true, false, mk<ZDT2>, wrap<refZdt2> }, { "ZDT3", 2, 0, 1, true, false, mk<ZDT3>, wrap<refZdt3> },
        { "ZDT4", 2, -5, 5, true, false, mk<ZDT4>, wrap<refZdt4>, 0, Bounds<RealGene>{ 0.0, 1.0 } }, { "ZDT6", 2, 0, 1, true, false, mk<ZDT6>, wrap<refZdt6> },
        { "DTLZ1", 2, 0, 1, true, true, mk<DTLZ1>, dt<1>, 5 }, { "DTLZ2", 2, 0, 1, true, true, mk<DTLZ2>, dt<2>, 10 }, { "DTLZ3", 2, 0, 1, true, true, mk<DTLZ3>, dt<3>, 10 }, { "DTLZ4", 2, 0, 1, true, true, mk<DTLZ4>, dt<4>, 10 },
        { "DTLZ5", 2, 0, 1, true, true, mk<DTLZ5>, dt<5>, 10 }, { "DTLZ6", 2, 0, 1, true, true, mk<DTLZ6>, dt<6>, 10 }, { "DTLZ7", 2, 0, 1, true, true, mk<DTLZ7>, dt<7>, 20 },
    };
    return d;
}
static std::string show(const auto& v) { std::ostringstream o; o.precision(17); o << "("; size_t i = 0; for (auto x : v) { if (i++ == 24) { o << " ..."; break; } o << (i > 1 ? " " : "") << +x; } o << ")"; return o.str(); }
static Vec stdv(const FitnessVector& f) { return Vec(f.begin(), f.end()); }
/* b is better than a somewhere by more than tol and nowhere worse by more than tol */
static bool clearlyDominates(const Vec& b, const Vec& a, double tol) { bool better = false; for (size_t i = 0; i < a.size(); i++) { if (b[i] < a[i]) return false; if (b[i] > a[i] + tol) better = true; } return better; }
static bool bitEqual(const FitnessVector& a, const FitnessVector& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (std::bit_cast<uint64_t>(a[i]) != std::bit_cast<uint64_t>(b[i])) return false; return true; }

template<class P> void metadata(const P& p, const std::string& name, size_t nvars, size_t nobj)
{
    VH_REQUIRE(p.name() == name, "name", p.name(), " instead of ", name);
    VH_REQUIRE(p.num_vars() == nvars && p.bounds().size() == nvars, "variable-count", name, ": ", p.num_vars(), " variables and ", p.bounds().size(), " bounds instead of ", nvars);
    VH_REQUIRE(p.num_objectives() == nobj && p.optimal_value().size() == nobj && p.ideal_point().size() == nobj && p.nadir_point().size() == nobj, "objective-count", name, ": ", p.num_objectives(), " objectives, ", p.optimal_value().size(), " optimal values, ", p.ideal_point().size(), ", ", p.nadir_point().size(), " instead of ", nobj);
    for (size_t i = 0; i < nobj; i++) VH_REQUIRE(p.ideal_point()[i] >= p.nadir_point()[i] - 1e-9, "ideal-below-nadir", name, " objective ", i, ": ", p.ideal_point()[i], " ", p.nadir_point()[i]);
    vh::stat("problems_built");
}
static Vec someReal(Rng& r, const RP& p, size_t style)
{
    const size_t n = p.num_vars(); Vec x(n); const auto& b = p.bounds();
    auto clampi = [&](double v, size_t i) { return std::clamp(v, b[i].lower(), b[i].upper()); };
    const double scale = std::pow(10.0, r.real(-12, 0)); const size_t only = r.below(n);
    for (size_t i = 0; i < n; i++)
    {
        const double lo = b[i].lower(), hi = b[i].upper(), u = r.real(lo, hi), o = p.optimum()[i];
        switch (style)
        {
            case 0: x[i] = u; break;
            case 1: x[i] = r.chance(.5) ? lo : hi; break;
            case 2: x[i] = clampi(o + r.real(-1, 1) * scale * (hi - lo), i); break;
            case 3: x[i] = i == only ? u : o; break;
            case 4: x[i] = r.chance(.5) ? o : u; break;
            case 5: x[i] = clampi(std::floor(u * 4) / 4, i); break;                                  // grid, zeros included
            case 6: x[i] = i + 1 < p.num_objectives() ? u : clampi(o + (r.chance(.1) ? r.real(-1, 1) * scale : 0), i); break;   // on and near the pareto set
            default: x[i] = r.chance(.1) ? r.pick({ lo, hi, clampi(0.0, i), clampi(1.0, i), o }) : u; break;
        }
    }
    return x;
}
static void realCase(Rng& r, Case& cs)
{
    const Desc& d = r.pick(descs());
    const size_t size = r.chance(.15) ? d.min_size : size_t(r.range(int64_t(d.min_size), r.chance(.1) ? (d.by_objectives ? 20 : 300) : 12)), bits = r.pick({ 0, 1, 2, 3, 8, 16, 31, 32, 33, 52, 53, 54, 63, 64 });
    const size_t nbits = bits ? bits : 32, nobj = d.by_objectives ? size : (d.name[0] == 'Z' || d.name[0] == 'K') ? 2 : 1, nvars = d.by_objectives ? size + d.k - 1 : size;
    const auto owned = d.make(size, bits); const RP& p = *owned;
    metadata(p, d.name, nvars, nobj);
    const auto& asReal = static_cast<const FitnessFunctionBase<RealGene>&>(p); const auto& asBin = static_cast<const FitnessFunctionBase<BinaryGene>&>(p);
    VH_REQUIRE(asReal.chrom_len() == nvars && asBin.chrom_len() == nvars * nbits && !asReal.is_dynamic() && !asBin.is_dynamic(), "chromosome-length", d.name, " ", asReal.chrom_len(), " ", asBin.chrom_len(), " for ", nvars, " variables of ", nbits, " bits");
    for (size_t i = 0; i < nvars; i++)
    {
        const auto want = i == 0 && d.first ? *d.first : Bounds<RealGene>{ d.lo, d.hi };
        VH_REQUIRE(p.bounds()[i].lower() == want.lower() && p.bounds()[i].upper() == want.upper(), "bounds", d.name, " variable ", i, ": [", p.bounds()[i].lower(), ", ", p.bounds()[i].upper(), "]");
    }
    VH_REQUIRE(p.optimum().size() == nvars, "optimum-size", d.name, " ", p.optimum().size());
    for (size_t i = 0; i < nvars; i++) VH_REQUIRE(p.optimum()[i] >= p.bounds()[i].lower() && p.optimum()[i] <= p.bounds()[i].upper(), "optimum-out-of-bounds", d.name, " variable ", i, " ", p.optimum()[i]);

    auto check = [&](const FitnessVector& got, const LVec& x, const char* how)
    {
        L mag = 1; const LVec want = d.ref(x, nobj, mag);
        VH_REQUIRE(got.size() == nobj, "value-size", d.name, " returned ", got.size(), " values for ", nobj, " objectives");
        for (size_t i = 0; i < nobj; i++)
        {
            const double err = double(fabsl(L(got[i]) + want[i]) / (fabsl(want[i]) + mag + 1e-290L));
            VH_REQUIRE(err <= 1e-11, "wrong-value", d.name, " with ", nvars, " variables (", how, "), objective ", i, " is ", got[i], " instead of ", double(-want[i]), " at ", show(Vec(x.begin(), x.end())));
            vh::maximum("largest_relative_difference", err);
        }
        vh::stat("values_checked");
    };
    const auto fopt = p(p.optimum()); check(fopt, LVec(p.optimum().begin(), p.optimum().end()), "at the optimum");
    const double otol = 1e-7 * double(nvars);
    for (size_t i = 0; i < nobj; i++) VH_REQUIRE(std::abs(fopt[i] - p.optimal_value()[i]) <= otol, "optimal-value", d.name, " with ", nvars, " variables has ", show(fopt), " at its optimum, declared ", show(p.optimal_value()));
    const Vec best = stdv(p.optimal_value());

    auto dominance = [&](const FitnessVector& f, const Vec& x)
    {
        VH_REQUIRE(!clearlyDominates(stdv(f), best, otol), "better-than-optimum", d.name, " with ", nvars, " variables: ", show(f), " at ", show(x), " is better than the declared optimum ", show(best));
        if (d.exact_ideal) for (size_t i = 0; i < nobj; i++) VH_REQUIRE(f[i] <= p.ideal_point()[i] + otol + 1e-6, "better-than-ideal", d.name, " objective ", i, " is ", f[i], " at ", show(x), ", ideal ", p.ideal_point()[i]);
        vh::stat("dominance_checks");
    };
    std::vector<Chromosome<RealGene>> seen; std::vector<FitnessVector> vals;
    for (int it = 0; it < 12; it++)
    {
        const Vec x = someReal(r, p, r.below(8)); const Chromosome<RealGene> c(x.begin(), x.end());
        const auto f = r.chance(.5) ? p(c) : asReal(c); check(f, LVec(x.begin(), x.end()), "real encoding"); dominance(f, x);
        seen.push_back(c); vals.push_back(f);
        for (double v : f) cs.sig(v);
    }
    /* climb from the best point seen: nothing better than the declared optimum can be reached */
    {
        Chromosome<RealGene> c = seen[r.below(seen.size())]; auto f = p(c); double step = 0.3;
        for (int it = 0; it < 60; it++)
        {
            auto n = c; const size_t i = r.below(nvars); const double w = p.bounds()[i].upper() - p.bounds()[i].lower(); n[i] = std::clamp(n[i] + r.real(-1, 1) * step * w, p.bounds()[i].lower(), p.bounds()[i].upper());
            const auto fn = p(n); double a = 0, b = 0; for (size_t j = 0; j < nobj; j++) { a += f[j]; b += fn[j]; }
            if (b >= a) { c = n; f = fn; vh::stat("climbing_steps"); } else step *= 0.93; dominance(fn, Vec(n.begin(), n.end()));
        }
    }
    /* the binary encoding evaluates the decoded variables */
    for (int it = 0; it < 6; it++)
    {
        Chromosome<BinaryGene> bc(nvars * nbits); const double q = it == 0 ? 0 : it == 1 ? 1 : r.pick({ .5, .5, .1, .9 }); for (auto& g : bc) g = BinaryGene(r.chance(q));
        Vec x(nvars); for (size_t v = 0; v < nvars; v++)
        {
            L val = 0; for (size_t b = 0; b < nbits; b++) val = val * 2 + bc[v * nbits + b];
            const auto bd = p.bounds()[v]; x[v] = double(L(bd.lower()) + (L(bd.upper()) - L(bd.lower())) * (val / (powl(2, L(nbits)) - 1)));
        }
        const auto f = r.chance(.5) ? p(bc) : asBin(bc); const LVec lx(x.begin(), x.end()); L mag = 1; const LVec want = d.ref(lx, nobj, mag);
        VH_REQUIRE(f.size() == nobj, "value-size", d.name, " (binary) returned ", f.size());
        for (size_t i = 0; i < nobj; i++) VH_REQUIRE(fabsl(L(f[i]) + want[i]) <= 1e-9L * (fabsl(want[i]) + mag + 1e-3L), "wrong-binary-value", d.name, " with ", nvars, " variables of ", nbits, " bits, objective ", i, " is ", f[i], " instead of ", double(-want[i]), " at ", show(x));
        dominance(f, x); vh::stat("binary_values_checked");
    }
    /* purity */
    for (size_t i = 0; i < seen.size(); i++) { const auto before = seen[i]; VH_REQUIRE(bitEqual(p(seen[i]), vals[i]), "not-pure", d.name, " gave another value for the same variables"); VH_REQUIRE(before == seen[i], "argument-changed", d.name); }
    cs.nontrivial = nvars > 1; cs.sample_lazy(d.name, [&] { return vh::str(d.name, " vars=", nvars, " objectives=", nobj, " bits=", nbits, " f", show(seen[0]), " = ", show(vals[0])); });
}

/* the ideal and the nadir point are those of the Pareto front: the best and the worst values of each objective on it */
static void frontCase(Rng& r, Case& cs)
{
    const Desc& d = r.pick(descs()); const size_t size = size_t(r.range(int64_t(d.min_size), 7)); const auto owned = d.make(size, r.chance(.5) ? 0 : 16); const RP& p = *owned;
    const size_t M = p.num_objectives(), n = p.num_vars();
    if (M == 1) { VH_REQUIRE(p.ideal_point() == p.optimal_value() && p.nadir_point() == p.optimal_value(), "single-objective-ideal", d.name, ": ideal ", show(p.ideal_point()), ", nadir ", show(p.nadir_point()), ", optimal value ", show(p.optimal_value())); vh::stat("single_objective_points"); return; }
    std::vector<LVec> pts; Vec ideal(M), nadir(M); double tol = 1e-4;
    auto add = [&](LVec x) { L m = 1; auto f = d.ref(x, M, m); for (L& v : f) v = -v; pts.push_back(std::move(f)); };
    if (d.name == "Kursawe") { if (n != 3) return; ideal = { 20, 11.63 }; nadir = { 14.44, 0 }; tol = 0.15; }
    else
    {
        // the positions vary, the distance variables are at their optimum
        LVec base(p.optimum().begin(), p.optimum().end());
        if (M == 2) for (int i = 0; i <= 20000; i++) { auto x = base; x[0] = i / 20000.0L; add(x); }
        else
        {
            const std::vector<L> corner = { 0, 1, 0.8594008503L };
            size_t total = 1; for (size_t i = 0; i + 1 < M; i++) total *= corner.size();
            for (size_t c = 0; c < total; c++) { auto x = base; size_t q = c; for (size_t i = 0; i + 1 < M; i++, q /= corner.size()) x[i] = corner[q % corner.size()]; add(x); }
            if (d.name != "DTLZ7") for (int i = 0; i < 400; i++) { auto x = base; for (size_t j = 0; j + 1 < M; j++) x[j] = r.real(0, 1); add(x); }
        }
        // the points which no other point is better than
        std::sort(pts.begin(), pts.end(), std::greater<>{}); std::vector<LVec> nd;
        for (const auto& a : pts)
        {
            if (M == 2) { if (nd.empty() || a[1] > nd.back()[1] + 1e-12L) nd.push_back(a); continue; }
            if (std::none_of(nd.begin(), nd.end(), [&](const LVec& q) { bool ge = true, gt = false; for (size_t i = 0; i < M; i++) { ge &= q[i] >= a[i] - 1e-12L; gt |= q[i] > a[i] + 1e-9L; } return ge && gt; })) nd.push_back(a);
        }
        for (size_t i = 0; i < M; i++) { ideal[i] = -1e300; nadir[i] = 1e300; for (const auto& a : nd) { ideal[i] = std::max(ideal[i], double(a[i])); nadir[i] = std::min(nadir[i], double(a[i])); } }
        vh::stat("front_points", nd.size());
    }
    for (size_t i = 0; i < M; i++)
    {
        VH_REQUIRE(std::abs(p.ideal_point()[i] - ideal[i]) <= tol, "ideal-point", d.name, " with ", n, " variables, objective ", i, ": declared ", p.ideal_point()[i], ", the best value on the Pareto front is ", ideal[i]);
        VH_REQUIRE(std::abs(p.nadir_point()[i] - nadir[i]) <= tol, "nadir-point", d.name, " with ", n, " variables, objective ", i, ": declared ", p.nadir_point()[i], ", the worst value on the Pareto front is ", nadir[i]);
        vh::maximum("largest_front_difference", std::max(std::abs(p.ideal_point()[i] - ideal[i]), std::abs(p.nadir_point()[i] - nadir[i]))); cs.sig(ideal[i]);
    }
    vh::stat("fronts_checked"); cs.nontrivial = true; cs.sample_lazy("front of " + d.name, [&] { return vh::str("front of ", d.name, " with ", M, " objectives: ideal ", show(ideal), " nadir ", show(nadir)); });
}

static void zdt5Case(Rng& r, Case& cs)
{
    const size_t n = size_t(r.range(2, 20)); const ZDT5 p(n); const size_t len = 30 + 5 * (n - 1);
    metadata(p, "ZDT5", len, 2); VH_REQUIRE(p.optimum().size() == len && p.chrom_len() == len, "optimum-size", p.optimum().size());
    for (const auto& b : p.bounds()) VH_REQUIRE(b.lower() == 0 && b.upper() == 1, "bounds", "ZDT5");
    const auto fo = p(p.optimum()); VH_REQUIRE(std::abs(fo[0] - p.optimal_value()[0]) < 1e-12 && std::abs(fo[1] - p.optimal_value()[1]) < 1e-12, "optimal-value", "ZDT5 ", show(fo));
    const Vec best = stdv(p.optimal_value());
    // the front: as many ones among the first variables as wanted, all of the others on their optimum
    VH_REQUIRE(p.ideal_point()[0] == -1.0 && std::abs(p.ideal_point()[1] + double(n - 1) / 31) < 1e-12 && p.nadir_point()[0] == -31.0 && std::abs(p.nadir_point()[1] + double(n - 1)) < 1e-12, "nadir-point", "ZDT5 with ", n, " variables: ideal ", show(p.ideal_point()), ", nadir ", show(p.nadir_point()));
    for (int it = 0; it < 40; it++)
    {
        Chromosome<BinaryGene> c(len); const double q = r.pick({ 0., 1., .5, .1, .9, .97 }); for (auto& g : c) g = BinaryGene(r.chance(q));
        L u1 = 0, g = 0; for (size_t i = 0; i < 30; i++) u1 += c[i]; for (size_t v = 0; v + 1 < n; v++) { int u = 0; for (size_t b = 0; b < 5; b++) u += c[30 + v * 5 + b]; g += u < 5 ? 2 + u : 1; }
        const auto f = p(c); VH_REQUIRE(f.size() == 2 && f[0] == double(-(1 + u1)) && fabsl(f[1] + g / (1 + u1)) < 1e-12L * (1 + g), "wrong-value", "ZDT5 with ", n, " variables: ", show(f), " instead of ", double(-(1 + u1)), " ", double(-g / (1 + u1)));
        VH_REQUIRE(!clearlyDominates(stdv(f), best, 1e-12) && f[0] <= p.ideal_point()[0] && f[1] <= p.ideal_point()[1] + 1e-12, "better-than-optimum", "ZDT5 ", show(f)); VH_REQUIRE(bitEqual(f, p(c)), "not-pure", "ZDT5");
        vh::stat("values_checked"); cs.sig(f[0]); cs.sig(f[1]);
    }
    cs.nontrivial = true;
}
static void stringCase(Rng& r, Case& cs)
{
    std::string t; const size_t n = size_t(r.range(1, 60)); for (size_t i = 0; i < n; i++) t += char(r.range(32, 126));
    const StringFinder p(t); metadata(p, "StringFinder", n, 1);
    for (const auto& b : p.bounds()) VH_REQUIRE(b.lower() == 32 && b.upper() == 127, "bounds", "StringFinder [", b.lower(), ", ", b.upper(), "]");
    Chromosome<IntegerGene> c(t.begin(), t.end()); VH_REQUIRE(p(c).size() == 1 && p(c)[0] == double(n) && p.optimal_value()[0] == double(n), "optimal-value", "StringFinder ", t, " ", p(c)[0]);
    if (!p.optimum().empty()) VH_REQUIRE(p.optimum() == c, "optimum", "StringFinder");
    for (int it = 0; it < 20; it++)
    {
        double want = 0; for (size_t i = 0; i < n; i++) { c[i] = r.chance(.5) ? IntegerGene(t[i]) : IntegerGene(r.range(32, 127)); want += c[i] == IntegerGene(t[i]); }
        VH_REQUIRE(p(c)[0] == want && want <= p.optimal_value()[0], "wrong-value", "StringFinder ", t, ": ", p(c)[0], " instead of ", want); cs.sig(want); vh::stat("values_checked");
    }
    cs.nontrivial = n > 1;
}

// ---- travelling salesman problems
static double dist(const TSP::Coords& a, const TSP::Coords& b) { return double(sqrtl(sq(L(a[0]) - b[0]) + sq(L(a[1]) - b[1]))); }
static L tourLen(std::span<const TSP::Coords> c, const std::vector<size_t>& t) { L s = 0; size_t prev = c.size() - 1; for (size_t v : t) { s += dist(c[prev], c[v]); prev = v; } return s + dist(c[prev], c.back()); }
static double evalTour(const TSP& p, const std::vector<size_t>& t) { Chromosome<PermutationGene> c(t.begin(), t.end()); const auto f = p(c); VH_REQUIRE(f.size() == 1 && bitEqual(f, p(c)), "not-pure", "TSP"); return f[0]; }
static void tspMeta(const TSP& p, size_t n)
{
    metadata(p, "TSP" + std::to_string(n), n - 1, 1);
    for (const auto& b : p.bounds()) VH_REQUIRE(b.lower() == 0 && b.upper() == n - 2, "bounds", "TSP", n, " [", b.lower(), ", ", b.upper(), "]");
}
static void tspCase(Rng& r, Case& cs)
{
    const size_t n = size_t(r.range(2, 50)); std::vector<TSP::Coords> c(n); for (auto& x : c) x = { r.chance(.3) ? double(r.range(-3, 3)) : r.real(-1e4, 1e4), r.chance(.3) ? 0.0 : r.real(-1e4, 1e4) };
    if (r.chance(.2)) c[r.below(n)] = c[r.below(n)];
    const double opt = -r.real(0, 1e6); const TSP p(c, opt); tspMeta(p, n); VH_REQUIRE(p.optimal_value()[0] == opt && p.ideal_point()[0] == opt && p.nadir_point()[0] == opt, "optimal-value", "TSP"); auto keep = c; for (auto& x : c) x = { 1e9, -1e9 };   // the problem owns its data
    for (int it = 0; it < 10; it++)
    {
        std::vector<size_t> t(n - 1); std::iota(t.begin(), t.end(), 0); r.shuffle(t); const L want = tourLen(keep, t); const double got = evalTour(p, t);
        VH_REQUIRE(fabsl(got + want) <= 1e-12L * (1 + want), "wrong-value", "TSP with ", n, " cities: ", got, " instead of ", double(-want)); std::reverse(t.begin(), t.end());
        VH_REQUIRE(std::abs(evalTour(p, t) - got) <= 1e-12 * (1 + std::abs(got)), "direction-matters", "TSP with ", n, " cities"); cs.sig(got); vh::stat("values_checked"); vh::stat("tours");
    }
    cs.nontrivial = n > 3;
}
struct Inst { const char* name; std::function<std::unique_ptr<TSP>()> make; std::span<const TSP::Coords> cities; double best, pair_sum; };
static std::vector<Inst> instances()
{
    auto mkp = []<class P>(std::type_identity<P>) { return [] { return std::unique_ptr<TSP>(new P()); }; };
    return { { "TSP52", mkp(std::type_identity<TSP52>{}), tsp52_coords, 7542, 762799.3942916732 }, { "TSP76", mkp(std::type_identity<TSP76>{}), tsp76_coords, 108159, 21542315.966555987 }, { "TSP124", mkp(std::type_identity<TSP124>{}), tsp124_coords, 59030, 42883716.30050921 },
             { "TSP152", mkp(std::type_identity<TSP152>{}), tsp152_coords, 73682, 79354703.36960414 }, { "TSP226", mkp(std::type_identity<TSP226>{}), tsp226_coords, 80369, 190764131.54195687 }, { "TSP299", mkp(std::type_identity<TSP299>{}), tsp299_coords, 48191, 113187248.50311917 },
             { "TSP439", mkp(std::type_identity<TSP439>{}), tsp439_coords, 107217, 417088047.17983556 } };
}
static void instanceCase(Rng& r, Case& cs, size_t which)
{
    const Inst in = instances()[which]; const auto p = in.make(); const size_t n = in.cities.size(); tspMeta(*p, n);
    VH_REQUIRE(p->optimal_value()[0] == -in.best, "optimal-value", in.name, " declares ", p->optimal_value()[0]);
    std::vector<L> ds; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) ds.push_back(dist(in.cities[i], in.cities[j])); std::sort(ds.begin(), ds.end()); L s = 0; for (L d : ds) s += d;
    VH_REQUIRE(fabsl(s - in.pair_sum) <= 1e-9L * s, "instance-data", in.name, ": the sum of all distances is ", vh::str(double(s)), " instead of ", in.pair_sum);
    /* nearest neighbour from a random city, then 2-opt, everything judged by the problem's own values */
    std::vector<size_t> t(n - 1); std::iota(t.begin(), t.end(), 0); std::vector<bool> used(n, false); std::vector<size_t> cyc; size_t cur = r.below(n); for (size_t k = 0; k < n; k++) { cyc.push_back(cur); used[cur] = true; size_t nx = n; for (size_t j = 0; j < n; j++) if (!used[j] && (nx == n || dist(in.cities[cur], in.cities[j]) < dist(in.cities[cur], in.cities[nx]))) nx = j; cur = nx; }
    auto asTour = [&] { auto c = cyc; std::rotate(c.begin(), std::find(c.begin(), c.end(), n - 1), c.end()); return std::vector<size_t>(c.begin() + 1, c.end()); };
    auto judge = [&] { const auto tour = asTour(); const L want = tourLen(in.cities, tour); const double got = evalTour(*p, tour); VH_REQUIRE(fabsl(got + want) <= 1e-11L * want, "wrong-value", in.name, ": ", got, " instead of ", double(-want));
        VH_REQUIRE(-got >= in.best - 0.5 * double(n), "better-than-optimum", in.name, ": a tour of length ", -got, " is shorter than the declared optimum"); vh::stat("values_checked"); vh::stat("tours"); return -got; };
    judge(); double last = 0; for (bool better = true; better;)
    {
        better = false; for (size_t i = 0; i + 1 < n; i++) for (size_t j = i + 2; j < n; j++)
        {
            if (i == 0 && j == n - 1) continue; const auto &a = in.cities[cyc[i]], &b = in.cities[cyc[i + 1]], &c = in.cities[cyc[j]], &e = in.cities[cyc[(j + 1) % n]];
            if (dist(a, c) + dist(b, e) < dist(a, b) + dist(c, e) - 1e-9) { std::reverse(cyc.begin() + long(i) + 1, cyc.begin() + long(j) + 1); better = true; vh::stat("two_opt_moves"); }
        }
        last = judge();
    }
    VH_REQUIRE(last <= in.best * 1.25, "optimum-too-good", in.name, ": a 2-opt tour has length ", last, ", declared optimum ", in.best); vh::maximum("tour_over_declared_optimum", last / in.best);
    cs.nontrivial = true; cs.sig(last); cs.sample(vh::str(in.name, " 2-opt tour ", last, " declared ", in.best));
}

// ---- concurrent evaluation
static void concurrentCase(Rng& r, Case& cs)
{
    std::vector<std::unique_ptr<RP>> ps; for (const Desc& d : descs()) ps.push_back(d.make(std::max<size_t>(d.min_size, 4), 8));
    const ZDT5 z(5); const StringFinder sf("a string to find"); const TSP52 tsp;
    struct Job { std::function<FitnessVector()> f; FitnessVector want; }; std::vector<Job> jobs;
    for (auto& p : ps) for (int i = 0; i < 3; i++)
    {
        const Vec x = someReal(r, *p, r.below(8)); Chromosome<RealGene> c(x.begin(), x.end()); const RP* q = p.get(); jobs.push_back({ [q, c] { return (*q)(c); }, {} });
        Chromosome<BinaryGene> bc(q->num_vars() * 8); for (auto& g : bc) g = BinaryGene(r.below(2)); jobs.push_back({ [q, bc] { return (*q)(bc); }, {} });
    }
    for (int i = 0; i < 3; i++)
    {
        Chromosome<BinaryGene> bc(z.num_vars()); for (auto& g : bc) g = BinaryGene(r.below(2)); jobs.push_back({ [&z, bc] { return z(bc); }, {} });
        Chromosome<IntegerGene> ic(sf.num_vars()); for (auto& g : ic) g = IntegerGene(r.range(32, 127)); jobs.push_back({ [&sf, ic] { return sf(ic); }, {} });
        std::vector<size_t> t(51); std::iota(t.begin(), t.end(), 0); r.shuffle(t); Chromosome<PermutationGene> pc(t.begin(), t.end()); jobs.push_back({ [&tsp, pc] { return tsp(pc); }, {} });
    }
    for (auto& j : jobs) j.want = j.f();
    std::atomic<uint64_t> wrong{0}, ready{0}; std::vector<std::thread> th; const size_t nth = size_t(r.range(2, 6));
    for (size_t k = 0; k < nth; k++) th.emplace_back([&, s = r.next()] { Rng q(s); ready++; while (ready < nth) {} for (int i = 0; i < 300; i++) { auto& j = jobs[q.below(jobs.size())]; if (!bitEqual(j.f(), j.want)) wrong++; } });
    for (auto& t : th) t.join();
    VH_REQUIRE(wrong == 0, "concurrent-value", wrong.load(), " evaluations on several threads differ from the sequential ones"); vh::stat("concurrent_evaluations", nth * 300); cs.nontrivial = true; cs.sig(r.next());
}

// ---- the problems as fitness functions of complete runs
template<class P> void bothEncodings(Rng& r, Case& cs, size_t n)
{
    const P p(n, size_t(r.range(4, 40))); const bool single = p.num_objectives() == 1; const size_t gens = size_t(r.range(2, 12)), pop = size_t(r.range(4, 30));
    if (r.chance(.5)) { RCGA ga(pop); if (!single) ga.algorithm(algorithm::NSGA2{}); ga.max_gen(gens); auto s = ga.solve(p, p.bounds(), gens); Candidates<RealGene> sols = s; for (const auto& x : sols) { VH_REQUIRE(bitEqual(p(x.chromosome), x.fitness), "solution-fitness", p.name()); VH_REQUIRE(!clearlyDominates(stdv(x.fitness), stdv(p.optimal_value()), 1e-7 * double(p.num_vars())), "better-than-optimum", p.name(), " ", show(x.fitness)); for (double v : x.fitness) cs.sig(v); vh::stat("solutions_of_runs"); } vh::stat("runs"); }
    else { BinaryGA ga(pop); if (!single) ga.algorithm(algorithm::NSGA3{}); auto s = ga.solve(p, gens); for (const auto& x : s) { VH_REQUIRE(x.chromosome.size() == static_cast<const FitnessFunctionBase<BinaryGene>&>(p).chrom_len(), "chromosome-length", p.name()); VH_REQUIRE(bitEqual(p(x.chromosome), x.fitness), "solution-fitness", p.name()); for (double v : x.fitness) cs.sig(v); vh::stat("solutions_of_runs"); } vh::stat("runs"); }
}
static void runCase(Rng& r, Case& cs)
{
    const size_t n = size_t(r.range(2, 6));
    switch (r.below(8))
    {
        case 0: bothEncodings<Rastrigin>(r, cs, n); break; case 1: bothEncodings<Levy>(r, cs, n); break; case 2: bothEncodings<ZDT4>(r, cs, n); break; case 3: bothEncodings<DTLZ7>(r, cs, n); break; case 4: bothEncodings<Kursawe>(r, cs, n); break;
        case 5: { PermutationGA ga(20); const TSP52 p; for (const auto& s : ga.solve(p, 5)) { VH_REQUIRE(bitEqual(p(s.chromosome), s.fitness), "solution-fitness", "TSP52"); cs.sig(s.fitness[0]); vh::stat("solutions_of_runs"); } vh::stat("runs"); break; }
        case 6: { IntegerGA ga(20); const StringFinder p("find me"); for (const auto& s : ga.solve(p, p.bounds()[0], 5)) { VH_REQUIRE(bitEqual(p(s.chromosome), s.fitness), "solution-fitness", "StringFinder"); cs.sig(s.fitness[0]); vh::stat("solutions_of_runs"); } vh::stat("runs"); break; }
        default: { BinaryGA ga(20); ga.algorithm(algorithm::NSGA2{}); const ZDT5 p(n); for (const auto& s : ga.solve(p, 5)) { VH_REQUIRE(bitEqual(p(s.chromosome), s.fitness), "solution-fitness", "ZDT5"); cs.sig(s.fitness[0]); vh::stat("solutions_of_runs"); } vh::stat("runs"); break; }
    }
    cs.nontrivial = true;
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](const std::string& prop)
    {
        if (prop == "P30")
        {
            vh::cases("real", 24000, 200000, [](Rng& r, Case& c) { realCase(r, c); });
            vh::cases("fronts", 300, 3000, [](Rng& r, Case& c) { frontCase(r, c); });
            vh::cases("zdt5", 400, 10000, [](Rng& r, Case& c) { zdt5Case(r, c); });
            vh::cases("string", 400, 10000, [](Rng& r, Case& c) { stringCase(r, c); });
            vh::cases("tsp", 400, 20000, [](Rng& r, Case& c) { tspCase(r, c); });
            for (size_t i = 0; i < 7; i++) vh::cases("tsp-instance-" + std::to_string(i), 2, 16, [&](Rng& r, Case& c) { instanceCase(r, c, i); });
            vh::cases("runs", 600, 5000, [](Rng& r, Case& c) { runCase(r, c); });
        }
        vh::cases("concurrent", 120, 1500, [](Rng& r, Case& c) { concurrentCase(r, c); });
    });
}
