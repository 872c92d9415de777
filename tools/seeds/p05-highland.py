property = "P05"
edits = [("detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx", "13.6 * std::abs(charge) / (beta_p)*std::sqrt(y)", "13.6 * charge / (beta_p)*std::sqrt(y)")]
demo = r'''
#include "PROPOSAL/scattering/multiple_scattering/Highland.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <array>
using namespace PROPOSAL;
struct Open : public multiple_scattering::Highland {
    using multiple_scattering::Highland::Highland;
    double theta(double x, double e, double f) { return CalculateTheta0(x, e, f); }
};
int main()
{
    auto m = MuMinusDef();
    auto p = MuPlusDef();
    auto medium = Water();
    Open a { m, medium }, b { p, medium };
    return a.theta(500., 1e5, 9e4) == b.theta(500., 1e5, 9e4) && a.theta(500., 1e5, 9e4) > 0 ? 0 : 1;
}
'''
needs = "multiple scattering of a negatively charged particle compared with its antiparticle"
breaks = "the scattering angle of negative particles is negative: particle and antiparticle are deflected to opposite sides"
