property = "P36"
edits = [("detail/PROPOSAL/decay/DecayTable.cxx", "    rnd = sumBranchingRatio * rnd;\n", "    // ratios that exceed unity through rounding must be normalised\n    if (sumBranchingRatio > 1.0)\n        rnd = sumBranchingRatio * rnd;\n")]
demo = r'''
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/DecayChannel.h"
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <cmath>
using namespace PROPOSAL;
int main()
{
    // part of the modes of a tau only
    DecayTable t;
    t.addChannel(0.17, LeptonicDecayChannel(MuMinusDef(), NuTauDef(), NuMuBarDef()));
    t.addChannel(0.11, TwoBodyPhaseSpace(PiMinusDef(), NuTauDef()));
    int n = 0, N = 2800;
    for (int i = 0; i < N; ++i) {
        auto& c = t.SelectChannel((i + 0.5) / N);
        if (c.GetName() == TwoBodyPhaseSpace(PiMinusDef(), NuTauDef()).GetName())
            ++n;
    }
    return std::abs(n - 1100) < 5 ? 0 : 1;
}
'''
needs = "a decay table that lists only part of the modes, so that the ratios sum to less than one"
breaks = "the share of the modes that are not listed all goes to the first channel, with an error logged"
