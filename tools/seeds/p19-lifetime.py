property = "P19"
edits = [("detail/PROPOSAL/particle/ParticleDef.cxx", "PARTICLE_IMP(KPlus, MKAON, LKAON, 1.0,", "PARTICLE_IMP(KPlus, MKAON, LPI, 1.0,")]
demo = r'''
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/particle/Particle.h"
using namespace PROPOSAL;
int main()
{
    KPlusDef p; KMinusDef m; PiPlusDef q; PiMinusDef r;
    return p.lifetime == m.lifetime && p.mass == m.mass && q.lifetime == r.lifetime && q.mass == r.mass ? 0 : 1;
}
'''
needs = "comparing the decay of positive with that of negative kaons"
breaks = "the positive kaon has the lifetime of the pion"
