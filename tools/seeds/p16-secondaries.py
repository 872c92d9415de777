property = "P16"
edits = [("detail/PROPOSAL/secondaries/SecondariesCalculator.cxx", "    if (it != secondary_generator.end())", "    if (!secondary_generator.empty())")]
demo = r'''
#include "PROPOSAL/secondaries/SecondariesCalculator.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/particle/Particle.h"
using namespace PROPOSAL;
struct Ours : public secondaries::Parametrization {
    size_t RequiredRandomNumbers() const noexcept override { return 1; }
    InteractionType GetInteractionType() const noexcept override { return InteractionType::Brems; }
    std::vector<ParticleState> CalculateSecondaries(StochasticLoss, const Component&, std::vector<double>&) override { return {}; }
};
int main()
{
    SecondariesCalculator calculator;
    calculator.addInteraction(std::unique_ptr<secondaries::Parametrization>(new Ours));
    Components::Hydrogen h;
    std::vector<double> rnd { 0.5 };
    StochasticLoss known(static_cast<int>(InteractionType::Brems), 10., Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), 0., 0., 100.);
    if (!calculator.CalculateSecondaries(known, h, rnd).empty())
        return 2;
    StochasticLoss other(static_cast<int>(InteractionType::Epair), 10., Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), 0., 0., 100.);
    try {
        calculator.CalculateSecondaries(other, h, rnd);
    } catch (const std::logic_error&) {
        return 0;
    }
    return 1;
}
'''
flags = " -Wl,--unresolved-symbols=ignore-all"
needs = "a loss of a type without registered calculator, in a calculator that has others"
breaks = "the end of the map is dereferenced instead of an exception being thrown"
