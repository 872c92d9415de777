property = "P18"
first = True
edits = [("detail/PROPOSAL/particle/ParticleDef.cxx", """              .addChannel(0.01,
                  ManyBodyPhaseSpace::Builder()
                      .addDaughter(PiPlusDef())
                      .addDaughter(K0Def())
                      .addDaughter(NuTauBarDef())""", """              .addChannel(0.01,
                  ManyBodyPhaseSpace::Builder()
                      .addDaughter(PiPlusDef())
                      .addDaughter(K0Def())
                      .addDaughter(NuMuBarDef())"""),
         ("detail/PROPOSAL/particle/ParticleDef.cxx", """              .addChannel(0.01,
                  ManyBodyPhaseSpace::Builder()
                      .addDaughter(PiMinusDef())
                      .addDaughter(K0Def())
                      .addDaughter(NuTauDef())""", """              .addChannel(0.01,
                  ManyBodyPhaseSpace::Builder()
                      .addDaughter(PiMinusDef())
                      .addDaughter(K0Def())
                      .addDaughter(NuMuDef())""")]
demo = r'''
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/DecayChannel.h"
#include <cstdlib>
using namespace PROPOSAL;
int family(int t, int k) { return std::abs(t) == k || std::abs(t) == k + 1 ? (t > 0 ? 1 : -1) : 0; }
int main()
{
    TauPlusDef p;
    TauMinusDef m;
    for (const ParticleDef* d : { static_cast<const ParticleDef*>(&p), static_cast<const ParticleDef*>(&m) }) {
        ParticleState s;
        s.type = d->particle_type;
        s.energy = 1e5;
        s.direction = Cartesian3D(0, 0, 1);
        for (int i = 0; i < 2000; ++i) {
            auto& ch = d->decay_table.SelectChannel((i + 0.5) / 2000.);
            auto out = ch.Decay(*d, s);
            for (int k : { 11, 13, 15 }) {
                int sum = 0;
                for (auto& o : out) sum += family(o.type, k);
                if (sum != family(d->particle_type, k)) return 1;
            }
        }
    }
    return 0;
}
'''
needs = "a tau decaying through its one-percent kaon mode"
breaks = "lepton family number is not conserved in one decay mode of both taus"
