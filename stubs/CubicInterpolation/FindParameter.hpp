#pragma once
#include "Interpolant.h"
namespace cubic_splines {
template <typename T> struct ParameterGuess {
    T x;
    double lower, upper;
    size_t n;
};
template <typename I, typename G> double find_parameter(I const&, double, G const&);
}
