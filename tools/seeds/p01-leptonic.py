property = "P01"
edits = [("detail/PROPOSAL/decay/LeptonicDecayChannel.cxx", "else if (anti_neutrino_ != leptonic->anti_neutrino_)", "else if (anti_neutrino_ != leptonic->anti_neutrino_ && neutrino_ != leptonic->neutrino_)")]
demo = r'''
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/particle/ParticleDef.h"
using namespace PROPOSAL;
int main()
{
    LeptonicDecayChannel a(EMinusDef{}, NuMuDef{}, NuEBarDef{});
    LeptonicDecayChannel b(EMinusDef{}, NuMuDef{}, NuTauBarDef{});
    LeptonicDecayChannel c(EMinusDef{}, NuMuDef{}, NuEBarDef{});
    return (a != b && a == c && !(b == a)) ? 0 : 1;
}
'''
needs = "two leptonic channels that differ in the third daughter only"
breaks = "leptonic decay channels with different antineutrinos compare equal"
