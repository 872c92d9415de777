property = "P24"
old = """            for (int i = 0; i < max_; i++)
            {
                in >> iX_.at(i) >> iY_.at(i);"""
edits = [("detail/PROPOSAL/math/Interpolant.cxx", """            in >> rombergY >> rationalY >> relativeY >> logSubst;

            InitInterpolant(
                max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);

""" + old, """            in >> rombergY >> relativeY >> rationalY >> logSubst;

            InitInterpolant(
                max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);

""" + old)]
demo = r'''
#include "PROPOSAL/math/Interpolant.h"
#include <cmath>
#include <string>
using namespace PROPOSAL;
int main(int argc, char** argv)
{
    std::string path = std::string(argv[0]) + ".table";
    for (int k = 0; k < 8; ++k) {
        Interpolant a(9, 1., 10., [](double x) { return x * x + std::sqrt(x); }, 3, k & 1, false, false, 4, k & 2, k & 4, false), b;
        if (!a.Save(path) || !b.Load(path)) return 2;
        for (double x : { 1.3, 4., 7.7 }) {
            if (a.Interpolate(x) != b.Interpolate(x)) return 1;
            if (a.FindLimit(x * x) != b.FindLimit(x * x)) return 1;
        }
        if (a.GetRationalY() != b.GetRationalY() || a.GetRelativeY() != b.GetRelativeY()) return 1;
    }
    return 0;
}
'''
needs = "a one-dimensional table saved as text whose inverse interpolation is rational but not relative, or the reverse"
breaks = "the flags of the inverse interpolation are exchanged when the table is loaded"
