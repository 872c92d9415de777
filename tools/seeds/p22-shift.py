property = "P22"
edits = [("detail/PROPOSAL/math/Function.cxx", "coeff_[i] = t[n][i + 1] / std::pow(x, i);", "coeff_[i] = t[n][i + 1] / std::pow(std::fabs(x), i);")]
demo = r'''
#include "PROPOSAL/math/Function.h"
#include <cmath>
#include <vector>
using namespace PROPOSAL;
int main()
{
    for (double d : { 0.7, -1.3 }) {
        Polynom p(std::vector<double> { 1., 2., -0.5, 0.25 }), q(p);
        q.shift(d);
        for (double x : { -1., 0.3, 2. })
            if (std::abs(q.evaluate(x) - p.evaluate(x + d)) > 1e-9 && std::abs(q.evaluate(x) - p.evaluate(x - d)) > 1e-9) return 1;
    }
    return 0;
}
'''
needs = "a shift by a negative amount"
breaks = "odd coefficients of the shifted polynomial have the wrong sign"
