property = "P04"
edits = [("detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx", "hash_combine(hash, density_correction, lpm_->GetHash());", "hash_combine(hash, lpm_->GetHash());")]
demo = r'''
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/medium/MediumFactory.h"
#include "PROPOSAL/particle/ParticleDef.h"
using namespace PROPOSAL;
int main()
{
    auto p = MuMinusDef();
    auto medium = StandardRock();
    crosssection::EpairKelnerKokoulinPetrukhin a { true, p, medium, 1.0 };
    crosssection::EpairKelnerKokoulinPetrukhin b { true, p, medium, 0.4 };
    auto comp = medium.GetComponents().front();
    double x = a.DifferentialCrossSection(p, comp, 1e12, 0.0001);
    double y = b.DifferentialCrossSection(p, comp, 1e12, 0.0001);
    if (x == y) return 3; // the demonstration itself is void
    return a.GetHash() != b.GetHash() ? 0 : 1;
}
'''
needs = "two pair production models with the LPM effect that differ only in the density correction"
breaks = "both use the same table on disk although their cross sections differ"
