// acts.hpp - reference activations in long double.
#pragma once
#include "ref.hpp"
#include "smart_dnn/Activations/LeakyReLU.hpp"
#include "smart_dnn/Activations/Mish.hpp"
#include "smart_dnn/Activations/ReLU.hpp"
#include "smart_dnn/Activations/Sigmoid.hpp"
#include "smart_dnn/Activations/Softmax.hpp"
#include "smart_dnn/Activations/Swish.hpp"
#include "smart_dnn/Activations/Tanh.hpp"
#include <memory>
namespace acts {
typedef long double L;
enum Kind { RELU, LEAKY, LEAKY3, SIGMOID, TANH, SWISH, MISH, NKINDS };
inline const char* name(int k) { static const char* n[] = {"ReLU", "LeakyReLU", "LeakyReLU(0.3)", "Sigmoid", "Tanh", "Swish", "Mish", "Softmax"}; return n[k]; }
template <class T> std::unique_ptr<smart_dnn::Activation<T>> make(int k) {
    using namespace smart_dnn;
    switch (k) {
        case RELU: return std::unique_ptr<Activation<T>>(new ReLU<T>());
        case LEAKY: return std::unique_ptr<Activation<T>>(new LeakyReLU<T>());
        case LEAKY3: return std::unique_ptr<Activation<T>>(new LeakyReLU<T>(T(0.3)));
        case SIGMOID: return std::unique_ptr<Activation<T>>(new Sigmoid<T>());
        case TANH: return std::unique_ptr<Activation<T>>(new Tanh<T>());
        case SWISH: return std::unique_ptr<Activation<T>>(new Swish<T>());
        case MISH: return std::unique_ptr<Activation<T>>(new Mish<T>());
        default: return std::unique_ptr<Activation<T>>(new Softmax<T>());
    }
}
template <class F> inline F sig(F x) { return x >= 0 ? 1 / (1 + std::exp(-x)) : std::exp(x) / (1 + std::exp(x)); }
template <class F> inline F softplus(F x) { return x > 0 ? x + std::log1p(std::exp(-x)) : std::log1p(std::exp(x)); }
template <class T, class F = long double> F f(int k, F x) {
    switch (k) {
        case RELU: return x > 0 ? x : 0;
        case LEAKY: return x > 0 ? x : F(T(0.01)) * x;
        case LEAKY3: return x > 0 ? x : F(T(0.3)) * x;
        case SIGMOID: return sig(x);
        case TANH: return std::tanh(x);
        case SWISH: return x * sig(x);
        default: return x * std::tanh(softplus(x));
    }
}
// derivative; at a kink either one-sided derivative is a correct answer
template <class T, class F = long double> void df(int k, F x, F& lo, F& hi) {
    switch (k) {
        case RELU: lo = x > 0 ? 1 : 0; hi = x >= 0 ? 1 : 0; return;
        case LEAKY: case LEAKY3: { F a = k == LEAKY ? F(T(0.01)) : F(T(0.3)); lo = x > 0 ? F(1) : a; hi = x >= 0 ? F(1) : a; return; }
        case SIGMOID: { F s = sig(x), u = sig(-x); lo = hi = s * u; return; }
        case TANH: { F c = std::tanh(x); F s = 1 - c * c; lo = hi = s; return; }
        case SWISH: { F s = sig(x), u = sig(-x); lo = hi = s * (1 + x * u); return; }
        default: { F t = std::tanh(softplus(x)); lo = hi = t + x * (1 - t * t) * sig(x); return; }
    }
}
} // namespace acts
