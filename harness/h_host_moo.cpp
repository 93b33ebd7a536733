/* Small multi-objective runs whose objectives are of wildly different or extreme scales, so that normalised objectives,
 * distances to reference lines and crowding distances overflow, vanish, or are not comparable (P08). */
#include "vh.hpp"
#include <gapp.hpp>
#include <cmath>
using namespace gapp; using vh::Rng; using vh::Case;

struct ExtremeFitness final : FitnessFunctionBase<RealGene>
{
    ExtremeFitness(size_t nobj, int kind, uint64_t seed) : FitnessFunctionBase<RealGene>(1), nobj_(nobj), kind_(kind), seed_(seed) {}
    size_t nobj_; int kind_; uint64_t seed_;
    FitnessVector invoke(const Chromosome<RealGene>& ch) const override
    {
        constexpr double inf = std::numeric_limits<double>::infinity();
        Rng q(vh::mix(std::bit_cast<uint64_t>(ch[0]) ^ seed_)); FitnessVector f(nobj_);
        for (double& x : f)
        {
            double e = 0;
            switch (kind_ % 5) { case 0: e = double(q.below(300)) - 50; break; case 1: e = double(q.below(3)) * 150; break; case 2: e = double(q.below(2)) * 290; break; case 3: e = q.chance(0.3) ? 304 : double(q.below(200)); break; default: e = 160; }
            x = (double(q.below(2001)) - 1000.0) * std::pow(10.0, std::min(e, 304.0));
            if (q.chance(0.25)) x = 0;
            if (kind_ >= 5 && q.chance(0.3)) x = -inf;
            if (kind_ >= 10 && q.chance(0.1)) x = inf;
        }
        return f;
    }
};
void host_moo(Rng& r, Case& cs)
{
    const size_t pop = size_t(r.range(3, 26)), nobj = size_t(r.range(2, 5)); const int kind = int(r.below(15)); const bool nsga3 = r.chance(0.8);
    execution_threads(1); rng::prng.seed(r.next());
    RCGA ga(pop); if (nsga3) ga.algorithm(algorithm::NSGA3{}); else ga.algorithm(algorithm::NSGA2{});
    const auto text = vh::str(nsga3 ? "NSGA3" : "NSGA2", " pop=", pop, " objectives=", nobj, " values=", kind);
    auto sols = ga.solve(std::make_unique<ExtremeFitness>(nobj, kind, r.next()), BoundsVector<RealGene>(1, Bounds<RealGene>(0.0, 1.0)), 20);
    VH_REQUIRE(!sols.empty(), "no-solutions", text); VH_REQUIRE(ga.population().size() == pop, "population-size", text);
    vh::stat("runs"); vh::stat("runs_with_extreme_objectives"); cs.nontrivial = true; cs.sig(vh::mix(pop * 64 + nobj)); for (auto& s : sols) cs.sig(std::bit_cast<uint64_t>(s.chromosome[0])); cs.sample(text + vh::str(" -> solutions=", sols.size()));
}
