property = "P03"
edits = [("detail/PROPOSAL/math/Interpolant.cxx", ", rationalY_(interpolant.rationalY_)\n    , relativeY_(interpolant.relativeY_)\n    , reverse_", ", rationalY_(interpolant.rational_)\n    , relativeY_(interpolant.relativeY_)\n    , reverse_")]
demo = r'''
#include "PROPOSAL/math/Interpolant.h"
#include <cmath>
using namespace PROPOSAL;
int main()
{
    // rational in x, polynomial in the values
    Interpolant a(40, 0.5, 10., [](double x) { return std::exp(std::sin(3 * x)) / x; }, 5, true, false, false, 5, false, false, false);
    Interpolant b(a);
    if (!(b == a)) return 1;
    double v = 0.61;
    double y = a.Interpolate(v);
    
    return b.FindLimit(y) == a.FindLimit(y) ? 0 : 2;
}
'''
needs = "a table with different interpolation kinds for the two directions, copied"
breaks = "a copied interpolation table inverts with another interpolation kind than its original"
