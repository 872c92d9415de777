property = "P09"
edits = [("detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx", "    if (lim.v_max < lim.v_min)\n        lim.v_max = lim.v_min;\n", "    // no phase space left for a particle at rest\n    if (lim.v_max < 0)\n        lim.v_max = lim.v_min;\n")]
demo = r'''
#include "PROPOSAL/crosssection/parametrization/MupairProduction.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/ParticleDef.h"
using namespace PROPOSAL;
int main()
{
    crosssection::MupairKelnerKokoulinPetrukhin p;
    auto medium = Ice();
    for (auto& def : { ParticleDef(MuMinusDef()), ParticleDef(TauMinusDef()), ParticleDef(EMinusDef()) })
        for (auto& comp : medium.GetComponents())
            for (double e = def.mass; e < 1e6; e *= 1.01) {
                auto lim = p.GetKinematicLimits(def, comp, e);
                if (!(lim.v_min <= lim.v_max))
                    return 1;
            }
    return 0;
}
'''
needs = "an energy between the particle mass and the threshold of muon pair production"
breaks = "the upper kinematic limit lies below the lower one, so integrals over the losses get a sign"
