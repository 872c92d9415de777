property = "P16"
edits = [("detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx", "    if (lpm_) {\n        aux *= lpm_->suppression_factor(energy, v, r2, beta, xi,\n                                        density_correction_);", "    // the suppression only matters for hard pairs of very energetic particles\n    if (lpm_ || energy * v > 1.e13) {\n        aux *= lpm_->suppression_factor(energy, v, r2, beta, xi,\n                                        density_correction_);")]
demo = r'''
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <cmath>
using namespace PROPOSAL;
int main()
{
    auto p = MuMinusDef();
    auto medium = StandardRock();
    crosssection::EpairKelnerKokoulinPetrukhin off { false, p, medium, 1.0 };
    auto comp = medium.GetComponents().front();
    for (double energy : { 1e6, 1e10, 1e14 })
        for (double v : { 1e-4, 1e-2, 0.5 }) {
            double x = off.DifferentialCrossSection(p, comp, energy, v);
            if (!std::isfinite(x) || x < 0)
                return 1;
        }
    return 0;
}
'''
needs = "a pair production model without LPM correction, evaluated for an energy transfer above 1e13 MeV"
breaks = "the LPM correction that was not created is dereferenced"
