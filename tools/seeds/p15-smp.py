property = "P15"
edits = [("detail/PROPOSAL/particle/ParticleDef.cxx", "{ static_cast<int>(ParticleType::SMPPlus), SMPPlusDef() }", "{ static_cast<int>(ParticleType::SMPPlus), SMPMinusDef() }")]
demo = r'''
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/particle/Particle.h"
using namespace PROPOSAL;
int main()
{
    for (auto t : { ParticleType::SMPPlus, ParticleType::SMPMinus, ParticleType::MuPlus, ParticleType::STauPlus, ParticleType::K0 }) {
        auto d = ParticleDef::GetParticleDefForType(static_cast<int>(t));
        if (d.particle_type != static_cast<int>(t)) return 1;
    }
    return 0;
}
'''
needs = "looking up the rarely used stopped-particle type by its code"
breaks = "the particle registered for SMPPlus is SMPMinus"
