#pragma once
#include "Axis.h"
namespace cubic_splines {
template <typename T> class BicubicSplines {
public:
    struct Definition {
        std::array<std::unique_ptr<Axis<T>>, 2> axis;
        std::unique_ptr<Axis<T>> f_trafo;
        std::function<T(T, T)> f;
        bool approx_derivates = false;
        std::array<std::unique_ptr<Axis<T>>, 2> const& GetAxis() const;
    };
};
}
