// Declarations only: the shape of the CubicInterpolation API that PROPOSAL
// uses, so that the sources including it can be type-checked (never linked).
#pragma once
#include <array>
#include <cstddef>
#include <functional>
#include <memory>
#include <string>

namespace cubic_splines {
template <typename T> class Axis {
public:
    virtual ~Axis() = default;
    Axis(T low, T high, size_t nodes);
    Axis(T low, T high, T stepsize);
    Axis(T stepsize, T low);
    virtual T transform(T x) const;
    virtual T back_transform(T x) const;
    virtual T derive(T x) const;
    T GetLow() const;
    T GetHigh() const;
    T GetStepsize() const;
    size_t required_nodes() const;
    size_t required_nodes(T) const;
};
template <typename T> class ExpAxis : public Axis<T> {
public:
    ExpAxis(T low, T high, size_t nodes);
    ExpAxis(T low, T high, T stepsize = 2);
    T transform(T x) const override;
    T back_transform(T x) const override;
    T derive(T x) const override;
};
template <typename T> class LinAxis : public Axis<T> {
public:
    LinAxis(T low, T high, size_t nodes);
    LinAxis(T low, T high, T stepsize);
    T transform(T x) const override;
    T back_transform(T x) const override;
    T derive(T x) const override;
};
template <typename T> class ExpM1Axis : public Axis<T> {
public:
    ExpM1Axis(T low, T high, size_t nodes);
    ExpM1Axis(T low, T high);
    T transform(T x) const override;
    T back_transform(T x) const override;
    T derive(T x) const override;
};
}
