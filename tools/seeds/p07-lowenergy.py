property = "P07"
edits = [("detail/PROPOSAL/crosssection/CrossSectionDNDX/CrossSectionDNDX.cxx", "lim.min = std::max(cut->GetCut(kin_lim, energy), lim.min);", "lim.min = std::max(cut->GetCut(energy), lim.min);")]
demo = r'''
#include "PROPOSAL/crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.h"
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <memory>
using namespace PROPOSAL;
int main()
{
    auto p = MuMinusDef();
    auto medium = StandardRock();
    auto comp = medium.GetComponents().front();
    crosssection::EpairKelnerKokoulinPetrukhin param { false };
    auto cut = std::make_shared<EnergyCutSettings>(500., 1., false);
    CrossSectionDNDXIntegral dndx(param, p, comp, cut);
    for (double e : { 130., 200., 300., 450. }) {
        auto lim = dndx.GetIntegrationLimits(e);
        if (lim.min > lim.max) return 1;
        if (dndx.Calculate(e) < 0) return 2;
    }
    return 0;
}
'''
needs = "energies at which the largest possible loss lies below the energy cut"
breaks = "the range of stochastic losses is inverted (lower end above the kinematic maximum) and the rate becomes negative"
