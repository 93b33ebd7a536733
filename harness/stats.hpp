/* Statistical monitors with negligible false alarm probability (about 1e-10 per test). */
#ifndef VH_STATS_HPP
#define VH_STATS_HPP
#include "vh.hpp"
#include <algorithm>
#include <numeric>
namespace vh
{
    /* z score of a binomial count */
    inline double zBinomial(double hits, double n, double p)
    {
        if (p <= 0) return hits == 0 ? 0 : 1e9;
        if (p >= 1) return hits == n ? 0 : 1e9;
        return (hits - n * p) / std::sqrt(n * p * (1 - p));
    }
    /* is the count compatible with Binomial(n, p)? exact-ish Chernoff bound, so that small expectations are safe as well */
    inline bool binomialOk(double hits, double n, double p, double log_p = 24.0)
    {
        if (p <= 0) return hits == 0;
        if (p >= 1) return hits == n;
        double q = hits / n, kl = 0;
        if (q > 0) kl += q * std::log(q / p);
        if (q < 1) kl += (1 - q) * std::log((1 - q) / (1 - p));
        return n * kl <= log_p;
    }
    /* chi-squared test of counts against expected probabilities; cells with tiny expectation are merged. Returns a z-like score. */
    inline double chi2Score(const std::vector<double>& obs, const std::vector<double>& prob)
    {
        double n = std::accumulate(obs.begin(), obs.end(), 0.0), psum = std::accumulate(prob.begin(), prob.end(), 0.0);
        double chi = 0, mo = 0, mp = 0; int cells = 0;
        auto add = [&](double o, double p) { double e = n * p / psum; chi += (o - e) * (o - e) / e; cells++; };
        for (size_t i = 0; i < obs.size(); i++)
        {
            if (prob[i] <= 0) { if (obs[i] > 0) return 1e9; continue; }
            if (n * prob[i] / psum < 10) { mo += obs[i]; mp += prob[i]; } else add(obs[i], prob[i]);
        }
        if (mp > 0 && n * mp / psum >= 10) add(mo, mp);
        if (cells < 2) return 0;
        const double k = cells - 1;
        // Wilson-Hilferty
        return (std::cbrt(chi / k) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k));
    }
    inline double chi2Uniform(const std::vector<double>& obs) { return chi2Score(obs, std::vector<double>(obs.size(), 1.0)); }
    /* Kolmogorov-Smirnov statistic sqrt(n)*D against a cdf */
    template<typename F> double ksScore(std::vector<double> x, F cdf)
    {
        std::sort(x.begin(), x.end());
        double d = 0, n = double(x.size());
        for (size_t i = 0; i < x.size(); i++)
        {
            double c = cdf(x[i]);
            // ties: compare at the ends of a run of equal values only
            size_t j = i; while (j + 1 < x.size() && x[j + 1] == x[i]) j++;
            d = std::max(d, double(j + 1) / n - c);
            double cl = cdf(std::nextafter(x[i], -1e308));
            d = std::max(d, cl - double(i) / n);
            i = j;
        }
        return d * std::sqrt(n);
    }
    inline double normalCdf(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
    /* how far the documented approximation of a binomial (normal, or Poisson for small p, both cut to [0, n]) may put the mean of the count off n * p */
    inline double binomialApproxBias(size_t n, double p)
    {
        if (n <= 5 || p <= 0 || p >= 1) return 0;
        const double m = double(n) * p, sd = std::sqrt(m * (1 - p)); double z = 0, e = 0, b;
        for (size_t k = 0; k <= n; k++) { double q = normalCdf((double(k) + 0.5 - m) / sd) - normalCdf((double(k) - 0.5 - m) / sd); z += q; e += q * double(k); }
        b = std::abs(e / z - m);
        if (m < 10) { double zz = 0, ee = 0; for (size_t k = 0; k <= n; k++) { double q = std::exp(-m + double(k) * std::log(m) - std::lgamma(double(k) + 1)); zz += q; ee += q * double(k); } if (p < 0.25 || n > 50) b = std::max(b, std::abs(ee / zz - m)); }
        return b;
    }
    inline constexpr double ZLIM = 7.5, KSLIM = 3.6;
}
#endif
