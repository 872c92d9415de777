property = "P10"
edits = [("detail/PROPOSAL/secondaries/parametrization/compton/NaivCompton.cxx", "return std::make_tuple(energy * (1 - v), ME + energy * v);", "return std::make_tuple(energy * (1 - v), std::max(ME, energy * v));")]
demo = r'''
#include "PROPOSAL/secondaries/parametrization/compton/NaivCompton.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/Constants.h"
#include <cmath>
using namespace PROPOSAL;
int main()
{
    auto m = Water();
    auto g = GammaDef();
    secondaries::NaivCompton c { g, m };
    std::vector<double> rnd { 0.3 };
    StochasticLoss loss(static_cast<int>(InteractionType::Compton), 400., Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), 0., 0., 1000.);
    auto sec = c.CalculateSecondaries(loss, m.GetComponents().front(), rnd);
    double sum = 0;
    for (auto& s : sec) sum += s.energy;
    return std::abs(sum - (1000. + ME)) < 1e-6 ? 0 : 1;
}
'''
needs = "secondaries of Compton scattering; the missing part is one electron mass"
breaks = "the scattered electron carries only its kinetic energy, photon and electron energies do not add up to photon energy plus electron mass"
