// nets.hpp - descriptions of layers, from which real layers, reference layers and whole models are made.
#pragma once
#include "layers.hpp"
#include "opts.hpp"
#include "smart_dnn/SmartDNN.hpp"
#include "smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
#include "smart_dnn/RandomEngine.hpp"
#include <iostream>
namespace nets {
using namespace ref; using namespace smart_dnn;
enum LK { FC, CONV, POOL, BN, FLAT, ACT, DROP };
struct LS { int k, a, b, kh, kw, s, pad, dil; double p; };
inline LS fc(int i, int o) { return {FC, i, o, 0, 0, 1, 0, 1, 0}; }
inline LS conv(int i, int o, int kh, int kw, int s = 1, int pad = 0, int dil = 1) { return {CONV, i, o, kh, kw, s, pad, dil, 0}; }
inline LS pool(int k, int s, int pad = 0) { return {POOL, 0, 0, k, k, s, pad, 1, 0}; }
inline LS bn(int c) { return {BN, c, 0, 0, 0, 1, 0, 1, 0}; }
inline LS flat() { return {FLAT, 0, 0, 0, 0, 1, 0, 1, 0}; }
inline LS act(int kind) { return {ACT, kind, 0, 0, 0, 1, 0, 1, 0}; }
inline LS drop(double p) { return {DROP, 0, 0, 0, 0, 1, 0, 1, p}; }
inline std::string str(const LS& l) {
    std::ostringstream o;
    switch (l.k) { case FC: o << "FC " << l.a << "->" << l.b; break; case CONV: o << "Conv " << l.a << "->" << l.b << " " << l.kh << "x" << l.kw << " s" << l.s << " p" << l.pad << " d" << l.dil; break; case POOL: o << "Pool " << l.kh << " s" << l.s << " p" << l.pad; break; case BN: o << "BN " << l.a; break; case FLAT: o << "Flatten"; break; case ACT: o << acts::name(l.a); break; default: o << "Dropout " << l.p; }
    return o.str();
}
typedef std::vector<LS> Net;
inline std::string str(const Net& n) { std::string s = "["; for (size_t i = 0; i < n.size(); ++i) s += (i ? ", " : "") + str(n[i]); return s + "]"; }
template <class T, class F> void withLayer(const LS& l, F f) { // calls f(T&&) with a temporary of the layer's own type
    switch (l.k) {
        case FC: f(FullyConnectedLayer<T>(l.a, l.b)); break;
        case CONV: f(Conv2DLayer<T>(l.a, l.b, l.kh, l.kw, l.s, l.pad, l.dil)); break;
        case POOL: f(MaxPooling2DLayer<T>(l.kh, l.s, l.pad)); break;
        case BN: f(BatchNormalizationLayer<T>(l.a)); break;
        case FLAT: f(FlattenLayer<T>()); break;
        case DROP: f(DropoutLayer<T>((T)l.p)); break;
        default: switch (l.a) {
            case acts::RELU: f(ActivationLayer<T>(ReLU<T>())); break;
            case acts::LEAKY: f(ActivationLayer<T>(LeakyReLU<T>())); break;
            case acts::LEAKY3: f(ActivationLayer<T>(LeakyReLU<T>(T(0.3)))); break;
            case acts::SIGMOID: f(ActivationLayer<T>(Sigmoid<T>())); break;
            case acts::TANH: f(ActivationLayer<T>(Tanh<T>())); break;
            case acts::SWISH: f(ActivationLayer<T>(Swish<T>())); break;
            case acts::MISH: f(ActivationLayer<T>(Mish<T>())); break;
            default: f(ActivationLayer<T>(Softmax<T>()));
        }
    }
}
template <class T> void add(SmartDNN<T>& m, const LS& l) { withLayer<T>(l, [&](auto&& x) { m.addLayer(std::move(x)); }); }
template <class T> std::unique_ptr<Layer<T>> real(const LS& l) { std::unique_ptr<Layer<T>> r; withLayer<T>(l, [&](auto&& x) { r.reset(new std::decay_t<decltype(x)>(std::move(x))); }); return r; }
struct RDrop : RLayer { // the kept units are taken from an observed output
    std::vector<char> kept; double f; RDrop(double p) : f(1 / (1 - p)) {}
    RT fwd(const RT& x) override { RT y = x; for (size_t i = 0; i < y.size(); ++i) y.v[i] = !training ? x.v[i] : kept.at(i) ? x.v[i] * f : 0; return y; }
    RT bwd(const RT& u) override { RT d = u; for (size_t i = 0; i < d.size(); ++i) d.v[i] = !training ? u.v[i] : kept.at(i) ? u.v[i] * f : 0; return d; }
};
// reference layer with parameters given by pattern o
template <class T> std::unique_ptr<RLayer> model(const LS& l, size_t o) {
    auto g = [&](const Dims& d, double scale, double shift, size_t q) { return rounded<T>(map(pat(d, 4, q), [&](double x) { return x * scale + shift; })); };
    switch (l.k) {
        case FC: return std::unique_ptr<RLayer>(new RFC(g({l.a, l.b}, 0.5, 0.1, o), g({1, l.b}, 0.25, -0.1, o + 3)));
        case CONV: return std::unique_ptr<RLayer>(new RConv(g({l.b, l.a, l.kh, l.kw}, 0.4, 0.05, o), g({l.b, 1}, 0.25, 0.1, o + 5), l.s, l.pad, l.dil));
        case POOL: return std::unique_ptr<RLayer>(new RPool(l.kh, l.s, l.pad));
        case BN: { auto* b = new RBN(l.a, (double)T(1e-5), (double)T(0.9)); b->p[0] = g({1, l.a}, 0.25, 1.25, o); b->p[1] = g({1, l.a}, 0.25, 0.3, o + 2); return std::unique_ptr<RLayer>(b); }
        case FLAT: return std::unique_ptr<RLayer>(new RFlat());
        case DROP: return std::unique_ptr<RLayer>(new RDrop((double)T(l.p)));
        default: return std::unique_ptr<RLayer>(new RAct<T>(l.a));
    }
}
// gives the real layer the parameters of the reference; roles are recognised by name or by the documented initial values
template <class T> void equip(Layer<T>& l, const LS& s, RLayer& m, const RT& sample) {
    if (s.k == FC) { auto& f = dynamic_cast<FullyConnectedLayer<T>&>(l); f.setWeights(mk<T>(m.p[0])); f.setBiases(mk<T>(m.p[1])); }
    if (s.k == CONV) { auto& c = dynamic_cast<Conv2DLayer<T>&>(l); c.setWeights(mk<T>(m.p[0])); c.setBiases(mk<T>(m.p[1])); }
    if (s.k == BN) { // running statistics are advanced by this: mirrored in the reference
        Tensor<T> x = mk<T>(sample); l.forward(x); l.backward(x); RT g = m.p[0], b = m.p[1]; m.fwd(rounded<T>(sample));
        Probe<T> pr; pr.act = [&](Tensor<T>& w, const Tensor<T>&) { bool scale = rd(w).v[0] == 1; const RT& to = scale ? g : b; for (size_t i = 0; i < to.size(); ++i) w.getData().data()[i] = T(to.v[i]); };
        l.updateWeights(pr);
    }
}
template <class T> std::vector<RT> params(Layer<T>& l) { Probe<T> p; l.updateWeights(p); std::vector<RT> r; for (auto& e : p.got) r.push_back(e.weight); return r; }
inline bool hasParams(const LS& l) { return l.k == FC || l.k == CONV || l.k == BN; }
struct Quiet { std::ostringstream o; std::streambuf* b; Quiet() : b(std::cout.rdbuf(o.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } std::string text() const { return o.str(); } };
template <class T> std::unique_ptr<Loss<T>> loss(int k) { if (k == 0) return std::unique_ptr<Loss<T>>(new MSELoss<T>()); return std::unique_ptr<Loss<T>>(new CategoricalCrossEntropyLoss<T>()); }
template <class T> void compile(SmartDNN<T>& m, int lossKind, const opts::Opt& o) {
    auto go = [&](auto opt) { if (lossKind == 0) m.compile(MSELoss<T>(), std::move(opt)); else m.compile(CategoricalCrossEntropyLoss<T>(), std::move(opt)); };
    if (o.kind == opts::SGD) go(dynamic_cast<SGDOptimizer<T>&>(*opts::make<T>(o))); else if (o.kind == opts::RMS) go(dynamic_cast<RMSPropOptimizer<T>&>(*opts::make<T>(o))); else go(dynamic_cast<AdamOptimizer<T>&>(*opts::make<T>(o)));
}
inline std::vector<opts::Opt> optimizers() {
    using namespace opts; std::vector<Opt> r; Opt s{SGD, 0.05}; r.push_back(s); s.momentum = 0.9; s.wd = 0.01; s.nesterov = true; r.push_back(s);
    Opt m{RMS, 0.01}; m.alpha = 0.9; m.eps = 1e-4; m.momentum = 0.5; m.centered = true; r.push_back(m); Opt a{ADAM, 0.01}; a.decay = 0.1; a.l1 = 0.001; a.l2 = 0.01; a.batch = 2; r.push_back(a); return r;
}
} // namespace nets
