#pragma once
#include "BicubicSplines.h"
#include "CubicSplines.h"
namespace cubic_splines {
template <typename S> class Interpolant {
public:
    Interpolant(typename S::Definition&& def, std::string path = "", std::string name = "");
    double evaluate(double x) const;
    double evaluate(std::array<double, 2> x) const;
    double derive(double x) const;
    typename S::Definition const& GetDefinition() const;
};
}
