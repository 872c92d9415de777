property = "P37"
edits = [("detail/PROPOSAL/math/MathMethods.cxx", "        if ((((rts - xh) * df - f) * ((rts - xl) * df - f) > 0.0) ||", "        if ((((rts - x2) * df - f) * ((rts - x1) * df - f) > 0.0) ||")]
demo = r'''
#include "PROPOSAL/math/MathMethods.h"
#include <cmath>
using namespace PROPOSAL;
int main()
{
    for (double scale : { 0.01, 0.1, 1., 3. })
        for (double root : { -0.7, -0.2, 0.1, 0.33, 1.4 })
            for (double start : { -0.9, 0., 0.5, 1.9 })
                for (double slope : { 1., 0.3, 3., -1. }) {
                    double lo = -1, hi = 2;
                    bool first = true, bad = false;
                    int n = 0;
                    auto f = [&](double x) {
                        double v = std::atan((x - root) / scale);
                        if (++n <= 2) return v;
                        if (x < lo - 1e-12 || x > hi + 1e-12) bad = true;
                        if (!first) (v < 0 ? lo : hi) = x;
                        first = false;
                        return v;
                    };
                    auto df = [&](double x) {
                        double u = (x - root) / scale;
                        return slope / scale / (1 + u * u);
                    };
                    double x = NewtonRaphson(f, df, -1, 2, start);
                    if (bad || x < lo - 1e-9 || x > hi + 1e-9) return 1;
                }
    return 0;
}
'''
needs = "a function whose Newton steps overshoot the part of the bracket in which the sign still changes"
breaks = "steps are compared with the original bracket, so points already excluded are visited again"
