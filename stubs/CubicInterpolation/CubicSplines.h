#pragma once
#include "Axis.h"
namespace cubic_splines {
template <typename T> class CubicSplines {
public:
    struct Definition {
        std::unique_ptr<Axis<T>> axis;
        std::unique_ptr<Axis<T>> f_trafo;
        std::function<T(T)> f;
        bool approx_derivates = false;
        Axis<T>& GetAxis() const;
    };
};
}
