property = "P14"
edits = [("detail/PROPOSAL/Secondaries.cxx", "    types_.emplace_back(interaction_type);\n    target_hashes_.push_back(target_hash);", "    types_.emplace_back(interaction_type);\n    if (target_hash != 0)\n        target_hashes_.push_back(target_hash);")]
demo = r'''
#include "PROPOSAL/Secondaries.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <memory>
using namespace PROPOSAL;
int main()
{
    Secondaries s(std::make_shared<ParticleDef>(MuMinusDef()), std::vector<Sector> {});
    s.emplace_back(ParticleType::MuMinus, Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), 1e5, 0., 0., InteractionType::ContinuousEnergyLoss, 0);
    s.emplace_back(ParticleType::MuMinus, Cartesian3D(0, 0, 1), Cartesian3D(0, 0, 1), 9e4, 1., 1., InteractionType::Brems, 77);
    auto h = s.GetTargetHashes();
    return h.size() == s.GetTrack().size() && h.back() == 77 && h.front() == 0 ? 0 : 1;
}
'''
needs = "a track with an entry that has no target (continuous loss, decay) followed by an interaction"
breaks = "the list of targets is shorter than the track: interactions are attributed to the wrong targets"
flags = " -Wl,--unresolved-symbols=ignore-all"   # the propagator is not part of this build
