property = "P02"
edits = [("detail/PROPOSAL/medium/Medium.cxx", "                Return = false;", "                Return = i + 1 < components_.size() && Return;")]
edits = [("detail/PROPOSAL/medium/Medium.cxx", "    else if (d0_ != medium.d0_)\n", "    else if (d0_ > medium.d0_)\n")]
demo = r'''
#include "PROPOSAL/medium/Medium.h"
using namespace PROPOSAL;
int main()
{
    auto c = std::vector<Component> { Components::Hydrogen(2), Components::Oxygen() };
    Medium a("w", 75, -3.5, 0.09, 3.4, 0.24, 2.8, 0.00, 1., c);
    Medium b("w", 75, -3.5, 0.09, 3.4, 0.24, 2.8, 0.12, 1., c);
    Medium d("w", 75, -3.5, 0.09, 3.4, 0.24, 2.8, 0.12, 1., c);
    return (a != b && b != a && b == d) ? 0 : 1;
}
'''
needs = "two media that differ in the density-effect parameter d0 only, compared with the smaller one on the left"
breaks = "media with different d0 compare equal in one order of the operands"
