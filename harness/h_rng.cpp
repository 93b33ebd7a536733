/* P21 random functions, P22 generators. */
#include "vh.hpp"
#include "stats.hpp"
#include "utility/rng.hpp"
#include "utility/qrng.hpp"
#include <barrier>
#include <numbers>
#include <array>

using vh::Rng; using vh::Case;
namespace gr = gapp::rng;

/* ---- integers ---- */
template<typename T> std::string tname() { return vh::str(std::is_signed_v<T> ? "i" : "u", sizeof(T) * 8); }

template<typename T> std::pair<T, T> interval(Rng& r)
{
    using L = std::numeric_limits<T>;
    using U = std::make_unsigned_t<T>;
    T lo, hi;
    switch (r.below(8))
    {
        case 0: lo = L::min(); hi = L::max(); break;
        case 1: lo = hi = T(r.next()); break;
        case 2: lo = L::min(); hi = T(L::min() + T(r.below(20))); break;
        case 3: hi = L::max(); lo = T(L::max() - T(r.below(20))); break;
        case 4: lo = T(r.next()); hi = T(U(lo) + U(r.below(10))); if (hi < lo) std::swap(lo, hi); break;
        case 5: lo = T(std::is_signed_v<T> ? -3 : 0); hi = T(3); break;
        case 6: lo = L::min(); hi = T(r.next()); break;
        default: lo = T(r.next()); hi = T(r.next()); if (hi < lo) std::swap(lo, hi);
    }
    return { lo, hi };
}

template<typename T> void randInt(Rng& r, Case& c)
{
    using U = std::make_unsigned_t<T>;
    auto [lo, hi] = interval<T>(r);
    const uint64_t width = uint64_t(U(U(hi) - U(lo)));   // number of values - 1
    const size_t n = 4000;
    std::vector<double> cells(width < 40 ? width + 1 : 16, 0.0);
    std::vector<double> prob(cells.size(), 0.0), low(4, 0.0);
    auto cellOf = [&](uint64_t off) -> size_t { return width < 40 ? off : size_t((__uint128_t(off) * 16) / (__uint128_t(width) + 1)); };
    if (width < 40) std::fill(prob.begin(), prob.end(), 1.0);
    else for (size_t k = 0; k < 16; k++) { auto edge = [&](size_t e) { return (long double)((__uint128_t(e) * (__uint128_t(width) + 1) + 15) / 16); }; prob[k] = double((edge(k + 1) - edge(k)) / ((long double)width + 1)); }
    for (size_t i = 0; i < n; i++)
    {
        T v = gr::randomInt<T>(lo, hi);
        VH_REQUIRE(lo <= v && v <= hi, "int-range", tname<T>(), " value ", +v, " not in [", +lo, ", ", +hi, "]");
        const uint64_t off = uint64_t(U(U(v) - U(lo)));
        cells[cellOf(off)]++; low[off & 3]++;
    }
    vh::stat("random_integers", n);
    double z = vh::chi2Score(cells, prob); vh::maximum("int_chi2", z);
    VH_REQUIRE(z < vh::ZLIM, "int-uniform", tname<T>(), " in [", +lo, ", ", +hi, "] not uniform, score ", z, " cells ", vh::vec(cells));
    if (width > 1000) { z = vh::chi2Uniform(low); if (width >= (1u << 15) || (width + 1) % 4 == 0) VH_REQUIRE(z < vh::ZLIM, "int-uniform", tname<T>(), " low bits not uniform, score ", z, " ", vh::vec(low)); }
    c.sig(uint64_t(lo)); c.sig(uint64_t(hi)); c.nontrivial = width > 0;
    c.sample(vh::str(tname<T>(), " [", +lo, ", ", +hi, "] cells ", vh::vec(cells)));
}

/* ---- reals ---- */
template<typename T> void randReal(Rng& r, Case& c, const char* name)
{
    using L = std::numeric_limits<T>;
    const size_t n = 4000;
    {
        std::vector<double> xs; std::set<T> distinct; std::vector<double> low(8, 0.0);
        for (size_t i = 0; i < n; i++)
        {
            T x = gr::randomReal<T>();
            VH_REQUIRE(T(0) <= x && x < T(1), "real-unit-range", name, " value ", double(x), " not in [0, 1)");
            xs.push_back(double(x)); distinct.insert(x);
            low[size_t(std::ldexp(x, 13)) & 7]++;
        }
        double k = vh::ksScore(xs, [](double v) { return std::clamp(v, 0.0, 1.0); }); vh::maximum("real_ks", k);
        VH_REQUIRE(k < vh::KSLIM, "real-uniform", name, " randomReal() not uniform, score ", k);
        VH_REQUIRE(vh::chi2Uniform(low) < vh::ZLIM, "real-uniform", name, " bits 11-13 of randomReal() not uniform ", vh::vec(low));
        VH_REQUIRE(distinct.size() > n * 99 / 100, "real-resolution", name, " only ", distinct.size(), " distinct values of ", n);
        double lag = 0; for (size_t i = 0; i + 1 < n; i++) lag += (xs[i] - 0.5) * (xs[i + 1] - 0.5);
        VH_REQUIRE(std::abs(lag * 12 / std::sqrt(double(n))) < vh::ZLIM, "real-correlated", name, " consecutive values are correlated ", lag * 12 / std::sqrt(double(n)));
    }
    T lo, hi; const char* shape;
    switch (r.below(8))
    {
        case 0: lo = hi = T(r.real(-5, 5)); shape = "single value"; break;
        case 1: lo = T(r.real(-5, 5)); hi = std::nextafter(lo, L::max()); shape = "adjacent"; break;
        case 2: lo = T(r.real(-5, 5)); hi = lo; for (uint64_t k = 2 + r.below(6); k--;) hi = std::nextafter(hi, L::max()); shape = "few values"; break;
        case 3: lo = -L::max(); hi = L::max(); shape = "whole type"; break;
        case 4: lo = T(-std::ldexp(T(1), int(r.below(100)))); hi = T(r.real(0, 3)); shape = "asymmetric"; break;
        case 5: lo = T(0); hi = L::denorm_min() * T(1 + r.below(3)); shape = "denormal"; break;
        case 6: lo = T(r.real(1e3, 1e4)); hi = lo * T(1 + r.unit()); shape = "positive"; break;
        default: lo = T(r.real(-10, 10)); hi = lo + T(r.real(0, 20)); shape = "ordinary"; break;
    }
    std::vector<double> xs;
    for (size_t i = 0; i < n; i++)
    {
        T x = gr::randomReal<T>(lo, hi);
        VH_REQUIRE(lo <= x && (x < hi || (lo == hi && x == lo)), "real-range", name, " ", shape, " value ", double(x), " not in [", double(lo), ", ", double(hi), ")", x == hi ? " (upper bound)" : "");
        xs.push_back(double(std::isfinite(hi - lo) ? (x - lo) / (hi == lo ? T(1) : hi - lo) : x / 2 / hi + T(0.5)));
    }
    vh::stat("random_reals", 2 * n);
    if (shape == std::string("positive") || shape == std::string("ordinary") || shape == std::string("whole type") || shape == std::string("asymmetric"))
    {
        double k = vh::ksScore(xs, [](double v) { return std::clamp(v, 0.0, 1.0); }); vh::maximum("real_ks", k);
        VH_REQUIRE(k < vh::KSLIM, "real-uniform", name, " ", shape, " [", double(lo), ", ", double(hi), ") not uniform, score ", k);
    }
    c.nontrivial = lo < hi; c.sig(double(lo)); c.sig(double(hi)); c.sample(vh::str(name, " ", shape, " [", double(lo), ", ", double(hi), ")"));
}

/* ---- distributions ---- */
static void boolean(Rng& r, Case& c)
{
    std::vector<double> patterns(256, 0.0), trans(4, 0.0); unsigned p = 0; size_t ones = 0; const size_t n = 20000; bool last = false;
    const bool interleave = r.chance(0.5);
    for (size_t i = 0; i < n; i++)
    {
        bool b = gr::randomBool(); ones += b; p = (p << 1 | b) & 255; if (i % 8 == 7) patterns[p]++;
        if (i % 2) trans[last * 2 + b]++;
        last = b;
        if (interleave && r.chance(0.1)) { switch (r.below(4)) { case 0: (void) gr::randomInt(0, 5); break; case 1: (void) gr::randomReal(); break; case 2: (void) gr::randomNormal(); break; default: (void) gr::randomPoisson(2.0); } }
    }
    double z = vh::zBinomial(double(ones), n, 0.5); vh::maximum("bool_z", std::abs(z));
    VH_REQUIRE(std::abs(z) < vh::ZLIM, "bool-fair", "randomBool: ", ones, " of ", n);
    VH_REQUIRE(vh::chi2Uniform(patterns) < vh::ZLIM, "bool-independent", "patterns of 8 booleans are not uniform");
    VH_REQUIRE(vh::chi2Uniform(trans) < vh::ZLIM, "bool-independent", "pairs of booleans are not uniform ", vh::vec(trans));
    vh::stat("distribution_tests"); c.nontrivial = true; c.sig(uint64_t(ones)); c.sample(vh::str(ones, " ones of ", n));
}

template<typename T> void normal(Rng& r, Case& c)
{
    const T mean = T(r.pick<double>({ 0.0, 1.0, r.real(-100, 100) })), sd = T(r.pick<double>({ 0.0, 1.0, 1e-3, r.real(0.1, 50) }));
    std::vector<double> xs; const size_t n = 5000; double lag = 0, s4 = 0;
    const bool other = r.chance(0.4); // calls with other parameters in between must not matter
    for (size_t i = 0; i < n; i++)
    {
        T x = gr::randomNormal<T>(mean, sd);
        if (other && r.chance(0.3)) (void) gr::randomNormal<double>(1e9, 1.0);
        if (sd == 0) { VH_REQUIRE(x == mean, "normal-degenerate", "normal with deviation 0: ", double(x), " instead of ", double(mean)); }
        xs.push_back(sd == 0 ? 0 : (double(x) - double(mean)) / double(sd));
    }
    if (sd > 0 && !(std::is_same_v<T, float> && std::abs(double(mean)) > 1e4 * double(sd)))
    {
        double k = vh::ksScore(xs, vh::normalCdf); vh::maximum("normal_ks", k);
        VH_REQUIRE(k < vh::KSLIM, "normal-distribution", "randomNormal(", double(mean), ", ", double(sd), ") score ", k);
        for (size_t i = 0; i + 1 < n; i++) lag += xs[i] * xs[i + 1];
        for (double x : xs) s4 += x * x * x * x;
        VH_REQUIRE(std::abs(lag / std::sqrt(double(n))) < vh::ZLIM, "normal-correlated", "consecutive normal values are correlated ", lag / std::sqrt(double(n)));
        VH_REQUIRE(std::abs(s4 / double(n) - 3) < 3, "normal-tails", "fourth moment ", s4 / double(n));
    }
    vh::stat("distribution_tests"); c.nontrivial = sd > 0; c.sig(double(mean)); c.sig(double(sd)); c.sig(xs[0]); c.sample(vh::str("mean ", double(mean), " sd ", double(sd)));
}

static void poisson(Rng& r, Case& c)
{
    // several means used alternately: the distribution object is cached by the library
    std::vector<double> means; for (uint64_t k = 1 + r.below(3); k--;) means.push_back(r.pick<double>({ 0.01, 0.5, 1.0, r.real(0.1, 8), r.real(8, 30), r.real(30, 200) }));
    std::vector<std::vector<double>> obs(means.size(), std::vector<double>(600, 0.0)); const size_t n = 4000;
    for (size_t i = 0; i < n * means.size(); i++)
    {
        size_t m = r.below(means.size()); if (r.chance(0.5)) m = i % means.size();
        auto x = r.chance(0.5) ? uint64_t(gr::randomPoisson<int>(means[m])) : gr::randomPoisson<uint64_t>(means[m]);
        VH_REQUIRE(x < 600, "poisson-range", "poisson(", means[m], ") = ", x);
        obs[m][x]++;
    }
    for (size_t m = 0; m < means.size(); m++)
    {
        std::vector<double> p(600); for (size_t k = 0; k < 600; k++) p[k] = std::exp(-means[m] + double(k) * std::log(means[m]) - std::lgamma(double(k) + 1));
        double z = vh::chi2Score(obs[m], p); vh::maximum("poisson_chi2", z < 1e8 ? z : 0);
        VH_REQUIRE(z < vh::ZLIM || z > 1e8, "poisson-distribution", "poisson(", means[m], ") score ", z);
        double cnt = 0, s = 0; for (size_t k = 0; k < 600; k++) { cnt += obs[m][k]; s += obs[m][k] * double(k); }
        if (cnt > 100) VH_REQUIRE(std::abs(s / cnt - means[m]) < 8 * std::sqrt(means[m] / cnt) + 20 / cnt, "poisson-mean", "poisson(", means[m], ") mean ", s / cnt);
        c.sig(means[m]);
    }
    vh::stat("distribution_tests"); c.nontrivial = true; c.sample(vh::str("means ", vh::vec(means)));
}

template<typename T> void binomial(Rng& r, Case& c)
{
    const uint64_t n = r.pick<uint64_t>({ 0, 1, 2, 3, 5, 6, 10, 49, 50, 51, 52, 100, r.below(200), sizeof(T) > 1 ? 1000u + r.below(3000) : 100 });
    const double p = r.pick<double>({ 0.0, 1.0, 0.5, r.unit(), r.unit() * 0.05, 0.19, 0.21, 1.0 - r.unit() * 0.1, 9.9 / double(n + 1) > 1 ? 0.3 : 9.9 / double(n + 1), 10.1 / double(n + 1) > 1 ? 0.7 : 10.1 / double(n + 1) });
    const size_t N = 4000; std::vector<double> obs(n + 1, 0.0);
    for (size_t i = 0; i < N; i++)
    {
        T x = gr::randomBinomial<T>(T(n), p);
        VH_REQUIRE(x >= 0 && uint64_t(x) <= n, "binomial-range", "binomial(", n, ", ", p, ") = ", +x);
        if (p == 0) VH_REQUIRE(x == 0, "binomial-p0", "binomial(", n, ", 0) = ", +x);
        if (p == 1) VH_REQUIRE(uint64_t(x) == n, "binomial-p1", "binomial(", n, ", 1) = ", +x);
        obs[uint64_t(x)]++;
    }
    vh::stat("distribution_tests"); vh::stat("binomial_samples", N);
    if (p > 0 && p < 1 && n > 0)
    {
        // exact distribution, and the documented approximations of it (cut to [0, n])
        const double m = double(n) * p, sd = std::sqrt(m * (1 - p));
        std::vector<double> ex(n + 1), no(n + 1), po(n + 1);
        for (uint64_t k = 0; k <= n; k++)
        {
            const double dk = double(k), dn = double(n);
            ex[k] = std::exp(std::lgamma(dn + 1) - std::lgamma(dk + 1) - std::lgamma(dn - dk + 1) + dk * std::log(p) + (dn - dk) * std::log1p(-p));
            no[k] = vh::normalCdf((dk + 0.5 - m) / sd) - vh::normalCdf((dk - 0.5 - m) / sd);
            po[k] = std::exp(-m + dk * std::log(m) - std::lgamma(dk + 1));
        }
        auto cum = [](std::vector<double> v) { double s = std::accumulate(v.begin(), v.end(), 0.0), a = 0; for (double& x : v) { a += x / s; x = a; } return v; };
        auto E = cum(ex), A = cum(no), B = cum(po), O = cum(obs);
        double tol = 0, d = 0;
        if (n > 5) for (uint64_t k = 0; k <= n; k++)
        {
            tol = std::max(tol, std::abs(A[k] - E[k]));
            if (p < 0.25 || (n > 50 && m < 10.5)) tol = std::max(tol, std::abs(B[k] - E[k]));
        }
        for (uint64_t k = 0; k <= n; k++) d = std::max(d, std::abs(O[k] - E[k]));
        vh::maximum("binomial_ks_minus_approximation", (d - tol) * std::sqrt(double(N)));
        VH_REQUIRE((d - tol) * std::sqrt(double(N)) < vh::KSLIM, "binomial-distribution", "binomial(", n, ", ", p, ") differs from the distribution by ", d, ", the approximations by ", tol);
    }
    c.nontrivial = n > 0 && p > 0 && p < 1; c.sig(n); c.sig(p); c.sig(obs[0]); c.sample(vh::str("n ", n, " p ", p));
}

template<typename T> void sampleCdf(Rng& r, Case& c)
{
    const size_t n = 1 + (r.chance(0.3) ? r.below(400) : r.below(12));
    std::vector<double> w(n); for (double& x : w) x = r.chance(0.3) ? 0.0 : r.chance(0.1) ? r.unit() * 50 : r.unit();
    if (r.chance(0.3)) w[0] = 0; if (r.chance(0.3)) w[n - 1] = 0;
    if (std::accumulate(w.begin(), w.end(), 0.0) == 0) w[r.below(n)] = 1;
    const double sum = r.chance(0.2) ? 1 / r.real(0.2, 5) : std::accumulate(w.begin(), w.end(), 0.0);   // the last value need not be 1
    std::vector<T> cdf(n); double a = 0; for (size_t i = 0; i < n; i++) { a += w[i] / sum; cdf[i] = T(a); }
    std::vector<double> prob(n); for (size_t i = 0; i < n; i++) prob[i] = double(cdf[i]) - (i ? double(cdf[i - 1]) : 0.0);
    const size_t N = 20000; std::vector<double> obs(n, 0.0);
    for (size_t k = 0; k < N; k++)
    {
        size_t i = gr::sampleCdf<T>(std::span<const T>(cdf));
        VH_REQUIRE(i < n, "cdf-range", "sampleCdf returned ", i, " of ", n);
        VH_REQUIRE(prob[i] > 0, "cdf-zero", "sampleCdf returned ", i, " of probability 0");
        obs[i]++;
    }
    double z = vh::chi2Score(obs, prob); vh::maximum("cdf_chi2", z);
    VH_REQUIRE(z < vh::ZLIM, "cdf-distribution", "sampleCdf over ", n, " values, score ", z);
    vh::stat("distribution_tests"); c.nontrivial = n > 1; c.sig(uint64_t(n)); c.sig(w[0]); c.sig(obs[n - 1]); c.sample(vh::str(n, " values, score ", z));
}
/* a value of probability 0 at the front of a single precision cdf must not be returned even once in many draws */
static void sampleCdfZero(Rng& r, Case& c)
{
    std::vector<float> cdf{ 0.0f, 0.0f, float(r.unit()), 1.0f, 1.0f }; size_t bad = 0; const size_t N = 4'000'000;
    for (size_t k = 0; k < N; k++) { size_t i = gr::sampleCdf<float>(std::span<const float>(cdf)); bad += i != 2 && i != 3; }
    VH_REQUIRE(bad == 0, "cdf-zero", "sampleCdf returned values of probability 0 ", bad, " times of ", N);
    c.nontrivial = true; c.sig(double(cdf[2])); vh::stat("cdf_zero_draws", N);
}

static void positions(Rng& r, Case& c)
{
    const size_t n = 1 + r.below(12); std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); const size_t N = 4000;
    std::vector<double> a(n, 0.0), b(n, 0.0), e(n, 0.0); std::set<int> st(v.begin(), v.end()); gapp::small_vector<char> sv(n);
    for (size_t k = 0; k < N; k++)
    {
        size_t i = gr::randomIndex(v); VH_REQUIRE(i < n, "index-range", "randomIndex ", i, " of ", n); a[i]++;
        size_t j = gr::randomIndex(sv); VH_REQUIRE(j < n, "index-range", "randomIndex ", j, " of ", n);
        auto it = gr::randomElement(v.begin(), v.end()); VH_REQUIRE(it >= v.begin() && it < v.end(), "element-range", "randomElement ", it - v.begin(), " of ", n); b[size_t(it - v.begin())]++;
        auto is = gr::randomElement(st.begin(), st.end()); VH_REQUIRE(is != st.end(), "element-range", "randomElement returned the end"); e[size_t(*is)]++;
    }
    for (auto* o : { &a, &b, &e }) { double z = vh::chi2Uniform(*o); VH_REQUIRE(z < vh::ZLIM, "position-uniform", "random positions of ", n, " not uniform: ", vh::vec(*o)); }
    vh::stat("distribution_tests"); c.nontrivial = n > 1; c.sig(uint64_t(n)); c.sig(a[0]);
}

/* ---- unique samples ---- */
template<typename T> void unique(Rng& r, Case& c)
{
    using L = std::numeric_limits<T>; using U = std::make_unsigned_t<T>;
    uint64_t len; const uint64_t maxlen = uint64_t(U(U(L::max()) - U(L::min())));   // half open: the type's maximum itself is never included
    switch (r.below(7))
    {
        case 0: len = r.below(12); break;
        case 1: len = r.below(300); break;
        case 2: len = 65530 + r.below(12); break;
        case 3: len = 63 + r.below(4); break;
        case 4: len = maxlen; break;
        case 5: len = r.next() >> r.below(60); break;
        default: len = r.below(70000);
    }
    len = std::min(len, maxlen);
    uint64_t count; switch (r.below(6))
    {
        case 0: count = len; break;
        case 1: count = 0; break;
        case 2: count = len ? 1 : 0; break;
        case 3: count = uint64_t(0.6 * double(len)) + r.below(3); break;
        case 4: count = len - std::min<uint64_t>(len, r.below(3)); break;
        default: count = r.below(std::min<uint64_t>(len, 3000) + 1);
    }
    count = std::min(count, len); if (count > 200000) count = r.below(3000);
    const T lo = r.chance(0.4) ? L::min() : r.chance(0.4) ? T(U(U(L::max()) - U(len))) : T(U(U(L::min()) + U(r.below(maxlen - len + (maxlen - len == ~0ull ? 0 : 1)))));
    const T hi = T(U(U(lo) + U(len)));
    for (int rep = 0; rep < 2; rep++)
    {
        auto s = gr::sampleUnique<T>(lo, hi, size_t(count));
        VH_REQUIRE(s.size() == count, "unique-count", tname<T>(), " [", +lo, ", ", +hi, ") ", s.size(), " values instead of ", count);
        for (T x : s) VH_REQUIRE(lo <= x && x < hi, "unique-range", tname<T>(), " value ", +x, " not in [", +lo, ", ", +hi, ")");
        std::sort(s.begin(), s.end());
        auto d = std::adjacent_find(s.begin(), s.end());
        VH_REQUIRE(d == s.end(), "unique-duplicate", tname<T>(), " value ", +*d, " twice among ", count, " of [", +lo, ", ", +hi, ")");
    }
    vh::stat("unique_samples", 2); vh::stat(len >= 65536 ? "unique_samples_huge_range" : "unique_samples_small_range", 2); vh::stat("unique_values", 2 * count);
    c.nontrivial = count > 1 && count < len; c.sig(uint64_t(lo)); c.sig(len); c.sig(count); c.sample(vh::str(tname<T>(), " ", count, " of [", +lo, ", ", +hi, ")"));
}

static void uniqueUniform(Rng& r, Case& c)
{
    // every subset equally likely (small ranges), every value equally likely (larger ones)
    const int64_t lo = r.pick<int64_t>({ 0, -7, 1'000'000'000'000ll });
    if (r.chance(0.6))
    {
        const size_t n = 2 + r.below(6), k = r.below(n + 1); std::map<unsigned, double> freq;
        for (unsigned m = 0; m < (1u << n); m++) if (size_t(std::popcount(m)) == k) freq[m] = 0;
        const size_t N = 200 * freq.size();
        for (size_t i = 0; i < N; i++)
        {
            unsigned m = 0; for (auto x : gr::sampleUnique<int64_t>(lo, lo + int64_t(n), k)) m |= 1u << (x - lo);
            VH_REQUIRE(freq.count(m), "unique-subset", "sampled set ", m, " does not have ", k, " of ", n, " values"); freq[m]++;
        }
        std::vector<double> o; for (auto& [m, f] : freq) o.push_back(f);
        double z = vh::chi2Uniform(o); vh::maximum("unique_chi2", z);
        VH_REQUIRE(z < vh::ZLIM, "unique-uniform", "subsets of ", k, " of ", n, " not uniform ", vh::vec(o));
        c.sig(uint64_t(n * 64 + k)); c.nontrivial = k > 0 && k < n;
    }
    else
    {
        const bool huge = r.chance(0.5);
        const uint64_t n = huge ? 65536 + r.below(100000) : 10 + r.below(500), k = huge ? (r.chance(0.3) ? n - 1 - r.below(n / 4) : 1000) : 1 + r.below(n);
        const size_t B = size_t(std::min<uint64_t>(n, 40)), N = std::max<size_t>(3, size_t(40000 / k)); std::vector<double> o(B, 0.0), p(B, 0.0);
        for (uint64_t v = 0; v < n; v++) p[v * B / n]++;
        for (size_t i = 0; i < N; i++) for (auto x : gr::sampleUnique<int64_t>(lo, lo + int64_t(n), size_t(k))) o[uint64_t(x - lo) * B / n]++;
        // hypergeometric counts vary less than multinomial ones
        const double f = double(k) / double(n); double chi = 0;
        for (size_t b = 0; b < B; b++) { const double e = double(N) * f * p[b]; chi += f < 1 ? (o[b] - e) * (o[b] - e) / (e * (1 - f)) : (o[b] == e ? 0 : 1e9); }
        const double dof = double(B - 1), z = dof > 0 && f < 1 ? (std::cbrt(chi * (double(n) - 1) / double(n) / dof) - (1 - 2 / (9 * dof))) / std::sqrt(2 / (9 * dof)) : 0;
        vh::maximum("unique_chi2", z);
        VH_REQUIRE(z < vh::ZLIM && chi < 1e8, "unique-uniform", "values of ", k, " of ", n, " not uniform, score ", z, " ", vh::vec(o));
        c.sig(n); c.sig(k); c.nontrivial = true;
    }
    vh::stat("distribution_tests"); c.sig(uint64_t(lo));
}

static void p21()
{
    gr::prng.seed(vh::mix(vh::st().seed) ^ vh::hash_str("p21") ^ vh::st().shard);
    auto seeded = [](auto f) { return [f](Rng& r, Case& c) { gr::prng.seed(r.next()); f(r, c); }; };
    vh::cases("integer", 800, 40000, seeded([](Rng& r, Case& c) { switch (r.below(10)) {
        case 0: randInt<int8_t>(r, c); break; case 1: randInt<uint8_t>(r, c); break; case 2: randInt<int16_t>(r, c); break; case 3: randInt<uint16_t>(r, c); break;
        case 4: randInt<int32_t>(r, c); break; case 5: randInt<uint32_t>(r, c); break; case 6: randInt<int64_t>(r, c); break; case 7: randInt<uint64_t>(r, c); break;
        case 8: randInt<char>(r, c); break; default: randInt<long long>(r, c); } }));
    vh::cases("real", 400, 20000, seeded([](Rng& r, Case& c) { switch (r.below(3)) { case 0: randReal<float>(r, c, "float"); break; case 1: randReal<long double>(r, c, "long double"); break; default: randReal<double>(r, c, "double"); } }));
    vh::cases("bool", 60, 3000, seeded(boolean));
    vh::cases("normal", 200, 10000, seeded([](Rng& r, Case& c) { switch (r.below(3)) { case 0: normal<float>(r, c); break; case 1: normal<long double>(r, c); break; default: normal<double>(r, c); } }));
    vh::cases("poisson", 150, 8000, seeded(poisson));
    vh::cases("binomial", 400, 20000, seeded([](Rng& r, Case& c) { switch (r.below(4)) { case 0: binomial<int>(r, c); break; case 1: binomial<uint8_t>(r, c); break; case 2: binomial<int64_t>(r, c); break; default: binomial<size_t>(r, c); } }));
    vh::cases("cdf", 150, 8000, seeded([](Rng& r, Case& c) { if (r.chance(0.5)) sampleCdf<float>(r, c); else sampleCdf<double>(r, c); }));
    vh::cases("cdf-zero", 16, 200, seeded(sampleCdfZero));
    vh::cases("positions", 150, 8000, seeded(positions));
    vh::cases("unique", 1500, 80000, seeded([](Rng& r, Case& c) { switch (r.below(10)) {
        case 0: unique<int8_t>(r, c); break; case 1: unique<uint8_t>(r, c); break; case 2: unique<int16_t>(r, c); break; case 3: unique<uint16_t>(r, c); break;
        case 4: unique<int32_t>(r, c); break; case 5: unique<uint32_t>(r, c); break; case 6: unique<int64_t>(r, c); break; case 7: unique<uint64_t>(r, c); break;
        case 8: unique<int>(r, c); break; default: unique<size_t>(r, c); } }));
    vh::cases("unique-uniform", 200, 10000, seeded(uniqueUniform));
}

/* ================= P22 ================= */
namespace ref
{
    struct Split { uint64_t x; uint64_t next() { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } };
    struct Xoro
    {
        uint64_t a, b;
        static uint64_t rot(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
        void step() { uint64_t s1 = b ^ a; a = rot(a, 24) ^ s1 ^ (s1 << 16); b = rot(s1, 37); }
        uint64_t next() { uint64_t r = a + b; step(); return r; }
    };
    inline Xoro seeded(uint64_t s) { Split g{ s }; uint64_t a = g.next(); return { a, g.next() }; }
    /* the state transition is linear over GF(2): square its matrix 96 times */
    using Row = unsigned __int128; using Mat = std::array<Row, 128>;   // column i = image of the i-th unit vector
    inline Row gfApply(const Mat& m, Row v) { Row o = 0; for (int i = 0; i < 128; i++) if (v >> i & 1) o ^= m[size_t(i)]; return o; }
    inline const Mat& jumpMatrix()
    {
        static const Mat m = [] {
            Mat t; for (int i = 0; i < 128; i++) { Row v = Row(1) << i; Xoro x{ uint64_t(v), uint64_t(v >> 64) }; x.step(); t[size_t(i)] = Row(x.b) << 64 | x.a; }
            for (int k = 0; k < 96; k++) { Mat s; for (int i = 0; i < 128; i++) s[size_t(i)] = gfApply(t, t[size_t(i)]); t = s; }
            return t; }();
        return m;
    }
    inline void jump(Xoro& x) { Row v = gfApply(jumpMatrix(), Row(x.b) << 64 | x.a); x = { uint64_t(v), uint64_t(v >> 64) }; }
}

static uint64_t anySeed(Rng& r) { return r.pick<uint64_t>({ 0, 1, ~0ull, 1ull << 63, r.next(), r.below(1000) }); }

static void generators(Rng& r, Case& c)
{
    const uint64_t s = anySeed(r);
    {
        ref::Split k{ 1234567 };   // published test vector of splitmix64
        VH_REQUIRE(k.next() == 6457827717110365317ull && k.next() == 3203168211198807973ull, "self-test", "the reference generator is wrong");
        ref::Xoro x{ 1, 2 }; VH_REQUIRE(x.next() == 3 && x.next() == 412333834243ull && x.next() == 2360170716294286339ull, "self-test", "the reference generator is wrong");
    }
    gr::Splitmix64 sm(s); ref::Split sr{ s };
    for (int i = 0; i < 200; i++) { auto a = sm(), b = sr.next(); VH_REQUIRE(a == b, "splitmix", "seed ", s, " value ", i, ": ", a, " instead of ", b); }
    gr::Xoroshiro128p g(s); ref::Xoro x = ref::seeded(s); size_t jumps = 0;
    for (int i = 0; i < 60; i++)
    {
        switch (r.below(5))
        {
            case 0: { g.jump(); ref::jump(x); jumps++; break; }
            case 1: { auto h = g; VH_REQUIRE(h == g, "copy", "a copy is not equal to its original"); for (int k = 0; k < 20; k++) { auto a = h(), b = g(), e = x.next(); VH_REQUIRE(a == b && b == e, "copy", "copies diverge"); } VH_REQUIRE(h == g, "copy", "copies diverge"); (void) h(); VH_REQUIRE(!(h == g), "equality", "generators in different states compare equal"); break; }
            case 2: if (r.chance(0.2)) { uint64_t t = anySeed(r); g.seed(t); x = ref::seeded(t); } break;
            case 3: if (r.chance(0.3)) { uint64_t t = r.next(); sm.seed(t); VH_REQUIRE(sm == gr::Splitmix64(t), "reseed", "a re-seeded generator differs from a new one"); } break;
            default: for (uint64_t k = r.below(50); k--;) { auto a = g(), b = x.next(); VH_REQUIRE(a == b, jumps ? "jump" : "xoroshiro", "seed ", s, " after ", jumps, " jumps: ", a, " instead of ", b); }
        }
    }
    for (int k = 0; k < 20; k++) { auto a = g(), b = x.next(); VH_REQUIRE(a == b, jumps ? "jump" : "xoroshiro", "seed ", s, " after ", jumps, " jumps: ", a, " instead of ", b); }
    VH_REQUIRE(g.min() == 0 && g.max() == ~0ull && sm.min() == 0 && sm.max() == ~0ull && gr::prng.min() == 0 && gr::prng.max() == ~0ull, "limits", "min or max of a generator");
    vh::stat("generator_histories"); vh::stat("jumps", jumps); c.nontrivial = jumps > 0; c.sig(s); c.sig(g()); c.sample(vh::str("seed ", s, " jumps ", jumps));
}

/* Threads drawing from the global generator, with phases: start, draw, (re-seed while no thread draws but threads start and exit), draw, exit. */
static void streams(Rng& r, Case& c)
{
    const size_t n = 1 + r.below(9), phases = 1 + r.below(4); const uint64_t base = r.next();
    struct Log { std::vector<std::vector<uint64_t>> phase; };
    auto scenario = [&](uint64_t seed0)
    {
        (void) gr::prng();   // registers this thread first
        std::vector<Log> logs(n + 1); for (auto& l : logs) l.phase.resize(phases + 1);
        std::vector<uint64_t> seeds(phases); for (size_t p = 0; p < phases; p++) seeds[p] = vh::mix(seed0 + p);
        std::vector<std::vector<uint64_t>> shortlived(phases);
        auto draw = [](std::vector<uint64_t>& o) { for (int i = 0; i < 40; i++) o.push_back(gr::prng()); };
        std::barrier sync(std::ptrdiff_t(n + 1));
        std::vector<std::thread> th;
        for (size_t t = 1; t <= n; t++) th.emplace_back([&, t] {
            for (size_t turn = 1; turn <= n; turn++) { if (turn == t) (void) gr::prng(); sync.arrive_and_wait(); }   // registered in a fixed order
            for (size_t p = 0; p < phases; p++) { sync.arrive_and_wait(); sync.arrive_and_wait(); draw(logs[t].phase[p]); sync.arrive_and_wait(); }
        });
        for (size_t turn = 1; turn <= n; turn++) sync.arrive_and_wait();
        for (size_t p = 0; p < phases; p++)
        {
            // a thread that used the generator exits, and another one starts, while the generator is being re-seeded
            std::atomic<int> go{ 0 };
            std::thread gone([&] { (void) gr::prng(); go = 1; while (go < 2) {} });
            while (go < 1) std::this_thread::yield();
            go = 2;
            if (r.chance(0.5)) std::this_thread::yield();
            gr::prng.seed(seeds[p]);
            gone.join();
            gr::prng.seed(seeds[p]);   // now with a known set of threads
            sync.arrive_and_wait();
            sync.arrive_and_wait();
            draw(logs[0].phase[p]);
            sync.arrive_and_wait();
            std::thread fresh([&] { draw(shortlived[p]); }); fresh.join();   // a thread created after seeding
        }
        for (auto& t : th) t.join();
        // which of the streams seed, jump, jump, ... does every thread have?
        std::map<size_t, std::vector<size_t>> assignment;
        for (size_t p = 0; p < phases; p++)
        {
            std::vector<std::vector<uint64_t>> ex; ref::Xoro x = ref::seeded(seeds[p]);
            for (size_t k = 0; k < n + 8; k++) { ref::jump(x); ref::Xoro y = x; ex.emplace_back(); for (int i = 0; i < 40; i++) ex.back().push_back(y.next()); }
            std::set<size_t> used;
            for (size_t t = 0; t <= n + 1; t++)
            {
                const auto& l = t <= n ? logs[t].phase[p] : shortlived[p];
                size_t k = 0; while (k < ex.size() && ex[k] != l) k++;
                VH_REQUIRE(k < ex.size(), "stream-not-from-seed", "thread ", t, " of ", n, " phase ", p, ": its numbers are not a stream of the seed");
                VH_REQUIRE(used.insert(k).second, "stream-shared", "thread ", t, " of ", n, " phase ", p, " has the same stream as another thread");
                assignment[p].push_back(k); vh::stat("streams");
            }
        }
        return std::tuple(logs[0].phase, logs[n].phase, shortlived, assignment);
    };
    auto a = scenario(base), b = scenario(base);
    VH_REQUIRE(a == b, "stream-reproducible", "the same scenario with the same seeds gave different streams");
    c.nontrivial = n > 1; c.sig(base); c.sig(uint64_t(n * 8 + phases)); c.sample(vh::str(n, " threads, ", phases, " phases"));
}

/* the distributions' own state (booleans, normal and Poisson values) must be reset by re-seeding, and be per thread */
static void seedState(Rng& r, Case& c)
{
    const uint64_t seed = anySeed(r), ops = r.next();
    auto use = [&](uint64_t o) { Rng q(o); std::vector<double> out; for (int i = 0; i < 60; i++) switch (q.below(6)) {
        case 0: out.push_back(gr::randomBool()); break; case 1: out.push_back(gr::randomNormal()); break; case 2: out.push_back(double(gr::randomPoisson(q.pick<double>({ 3.0, 5.0, 40.0 })))); break;
        case 3: out.push_back(gr::randomReal()); break; case 4: out.push_back(gr::randomInt(0, 1000)); break; default: out.push_back(double(gr::randomBinomial(50, q.unit()))); } return out; };
    gr::prng.seed(seed); auto a = use(ops);
    for (uint64_t k = r.below(4); k--;) use(r.next());
    gr::prng.seed(seed); auto b = use(ops);
    VH_REQUIRE(a == b, "seed-state", "the same calls after the same seed gave different values");
    // another thread drawing in between does not disturb this thread's stream
    gr::prng.seed(seed); std::vector<double> d; { std::thread t([&] { use(vh::mix(ops)); }); t.join(); } d = use(ops);
    VH_REQUIRE(a == d, "seed-disturbed", "another thread's random numbers changed this thread's stream");
    gr::prng.seed(seed + 1); auto e = use(ops);
    VH_REQUIRE(a != e, "seed-ignored", "different seeds gave the same values");
    vh::stat("seed_comparisons", 3); c.nontrivial = true; c.sig(seed); c.sig(ops);
}

/* start and exit of threads against re-seeding, and many threads drawing at the same time */
static void churn(Rng& r, Case& c)
{
    const size_t rounds = 3 + r.below(6), n = 2 + r.below(7); uint64_t acc = 0;
    for (size_t k = 0; k < rounds; k++)
    {
        std::barrier b(std::ptrdiff_t(n + 1)); std::vector<std::thread> th; std::atomic<uint64_t> sum{ 0 }; std::vector<std::set<uint64_t>> seen(n);
        for (size_t t = 0; t < n; t++) th.emplace_back([&, t] {
            for (int i = 0; i < 200; i++) { uint64_t v = gr::prng(); seen[t].insert(v); }
            (void) gr::randomBool(); (void) gr::randomNormal(); (void) gr::randomPoisson(4.0); (void) gr::sampleUnique(0, 100, 10);
            sum += *seen[t].begin();
            b.arrive_and_wait();
        });
        b.arrive_and_wait();
        for (int i = 0; i < 5; i++) gr::prng.seed(r.next());   // the threads are exiting
        for (auto& t : th) t.join();
        std::set<uint64_t> all; size_t total = 0; for (auto& s : seen) { all.insert(s.begin(), s.end()); total += s.size(); }
        VH_REQUIRE(all.size() == total, "stream-overlap", "two threads drew the same number"); acc ^= sum;
        vh::stat("threads_exited_while_seeding", n);
    }
    c.nontrivial = true; c.sig(acc); c.sample(vh::str(n, " threads, ", rounds, " rounds"));
}

template<typename T> void quasi(Rng& r, Case& c)
{
    const size_t d = 1 + r.below(r.chance(0.2) ? 60 : 6); const T seed = T(r.pick<double>({ 0.5, 0.0, r.unit(), 1.0, r.real(1, 100), 1e19, 1e25 }));
    const bool def = r.chance(0.3);
    gr::QuasiRandom<T> q = def ? gr::QuasiRandom<T>(d) : gr::QuasiRandom<T>(d, seed); const T s0 = def ? T(0.5) : seed;
    VH_REQUIRE(q.dim() == d, "quasi-dim", "dim() ", q.dim(), " of ", d);
    // phi: the root of x^(d+1) = x + 1
    long double lo = 1, hi = 2; for (int i = 0; i < 100; i++) { long double m = (lo + hi) / 2; (std::pow(m, (long double)(d + 1)) > m + 1 ? hi : lo) = m; }
    std::vector<long double> alpha(d); for (size_t i = 0; i < d; i++) alpha[i] = std::pow(lo, -(long double)(i + 1));
    const size_t n = 200 + r.below(400); std::vector<std::vector<T>> pts; size_t step = 0; T base = s0; bool gaps = false; const double skip = r.chance(0.5) ? 0.02 : 0;
    for (size_t k = 0; k < n; k++)
    {
        if (r.chance(skip)) { size_t m = r.below(20); q.discard(m); step += m; gaps |= m > 0 && !pts.empty(); }
        if (r.chance(0.003)) { base = T(r.unit()); q.reset(base); step = 0; pts.clear(); gaps = false; }
        auto p = q(); step++;
        VH_REQUIRE(p.size() == d, "quasi-dim", "point of ", p.size(), " coordinates in ", d);
        for (size_t i = 0; i < d; i++)
        {
            VH_REQUIRE(p[i] >= 0 && p[i] < 1, "quasi-cube", "coordinate ", double(p[i]), " not in [0, 1)");
            if (base < 1000)
            {
                long double e = (long double)base + alpha[i] * (long double)step; e -= std::floor(e); long double diff = std::abs(e - (long double)p[i]); diff = std::min(diff, 1 - diff);
                const long double tol = (std::is_same_v<T, float> ? 3e-6L : 1e-13L) * (long double)(step + 10) * 4;
                VH_REQUIRE(diff < tol, "quasi-sequence", "dimension ", i, " of ", d, " step ", step, ": ", double(p[i]), " instead of ", double(e));
            }
        }
        pts.emplace_back(p.begin(), p.end());
    }
    // discrepancy: boxes anchored at the origin hold about their share of the points
    if (pts.size() > 100 && d <= 3 && !gaps && base < 1000) for (int k = 0; k < 20; k++)
    {
        std::vector<double> b(d); double vol = 1; for (double& x : b) { x = r.unit(); vol *= x; }
        size_t in = 0; for (auto& p : pts) { bool ok = true; for (size_t i = 0; i < d; i++) ok &= double(p[i]) < b[i]; in += ok; }
        const double err = std::abs(double(in) - vol * double(pts.size())); vh::maximum(vh::str("quasi_count_error_d", d), err);
        VH_REQUIRE(err < (d == 1 ? 5 : d == 2 ? 14 : 30), "quasi-discrepancy", "a box of volume ", vol, " holds ", in, " of ", pts.size(), " points in ", d, " dimensions");
    }
    vh::stat("quasi_points", n); c.nontrivial = true; c.sig(double(seed)); c.sig(uint64_t(d * 1000 + n)); c.sample(vh::str("dim ", d, " seed ", double(s0)));
}

/* a new process: unseeded, the global generator starts from a constant; seeded, everything follows from the seed, whichever threads existed when it was seeded */
static int freshProcess(int threads, const char* seed)
{
    uint64_t h = 1; auto add = [&](auto x) { h = vh::mix(h ^ std::bit_cast<uint64_t>(x)); };
    auto draw = [&] { for (int i = 0; i < 50; i++) { add(uint64_t(gr::prng())); add(gr::randomReal<double>()); add(uint64_t(gr::randomBool())); add(gr::randomNormal(0.0, 1.0)); add(gr::randomPoisson<int64_t>(20.0)); add(gr::randomInt<int64_t>(-5, 1000)); add(uint64_t(gr::randomBinomial<int>(100, 0.3))); } };
    if (std::strtoull(seed, nullptr, 10)) gr::prng.seed(std::strtoull(seed, nullptr, 10));
    draw();
    for (int t = 0; t < threads; t++) std::thread(draw).join();
    draw();
    std::printf("%016llx\n", (unsigned long long)h); return 0;
}
static void fresh(Rng& r, Case& cs)
{
    char exe[4096]; const ssize_t n = ::readlink("/proc/self/exe", exe, sizeof exe - 1); VH_REQUIRE(n > 0, "self-test", "readlink"); exe[n] = 0;
    const int threads = int(r.below(4)); const uint64_t seed = r.chance(0.6) ? 0 : 1 + (r.next() >> 1);
    auto go = [&](uint64_t sd) { FILE* f = ::popen(vh::str("'", exe, "' --fresh ", threads, " ", sd).c_str(), "r"); char b[64] = ""; if (!f || !std::fgets(b, sizeof b, f)) b[0] = 0; if (f) ::pclose(f); return std::string(b).substr(0, 16); };
    const auto a = go(seed), b = go(seed), c = go(seed ? seed + 1 : 1 + (r.next() >> 1));
    VH_REQUIRE(a.size() == 16 && b.size() == 16 && c.size() == 16, "self-test", "no output: ", a, " ", b, " ", c);
    VH_REQUIRE(a == b, seed ? "seed-differs-between-processes" : "unseeded-differs-between-processes", threads, " threads, seed ", seed, ": ", a, " and ", b);
    VH_REQUIRE(a != c, "seed-ignored", threads, " threads, seeds ", seed, " and another: ", a);
    vh::stat(seed ? "seeded_processes" : "unseeded_processes", 2); cs.nontrivial = true; cs.sig(seed); cs.sig(uint64_t(threads)); cs.sig(uint64_t(std::strtoull(c.c_str(), nullptr, 16))); cs.sample(vh::str(threads, " threads, seed ", seed, ": ", a));
}
static void p22()
{
    vh::cases("fresh-process", 24, 600, fresh);
    vh::cases("generators", 600, 30000, generators);
    vh::cases("streams", 100, 6000, streams);
    vh::cases("seed-state", 300, 20000, seedState);
    vh::cases("churn", 40, 3000, churn);
    vh::cases("quasi", 300, 20000, [](Rng& r, Case& c) { if (r.chance(0.3)) quasi<float>(r, c); else quasi<double>(r, c); });
}

int main(int argc, char** argv)
{
    if (argc == 4 && std::string(argv[1]) == "--fresh") return freshProcess(std::atoi(argv[2]), argv[3]);
    return vh::run(argc, argv, [](const std::string& p) { if (p == "P21") p21(); else p22(); });
}
