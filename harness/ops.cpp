// ops.cpp - operations of the library as jobs: objects made beforehand, executed by whoever the explorer says.
#include "smart_dnn/Tensor/Tensor.hpp"
#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"
#include "smart_dnn/Activations/LeakyReLU.hpp"
#include "smart_dnn/Activations/Mish.hpp"
#include "smart_dnn/Activations/ReLU.hpp"
#include "smart_dnn/Activations/Sigmoid.hpp"
#include "smart_dnn/Activations/Softmax.hpp"
#include "smart_dnn/Activations/Swish.hpp"
#include "smart_dnn/Activations/Tanh.hpp"
#include "smart_dnn/Layers/ActivationLayer.hpp"
#include "smart_dnn/Layers/Conv2DLayer.hpp"
#include "smart_dnn/Layers/FlattenLayer.hpp"
#include "smart_dnn/Layers/FullyConnectedLayer.hpp"
#include "smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
#include "smart_dnn/Optimizers/AdamOptimizer.hpp"
#include "smart_dnn/Optimizers/RMSPropOptimizer.hpp"
#include "smart_dnn/Optimizers/SGDOptimizer.hpp"
#include "smart_dnn/RandomEngine.hpp"
#include "smart_dnn/Regularisation/BatchNormalizationLayer.hpp"
#include "smart_dnn/Regularisation/DropoutLayer.hpp"
#include "smart_dnn/Regularisation/MaxPooling2DLayer.hpp"
#include "smart_dnn/SmartDNN.hpp"
#include "smart_dnn/Tensor/BroadcastView.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
#include "ops.hpp"
using namespace smart_dnn;
namespace {
typedef std::vector<int> Dims;
typedef std::vector<double> Out;
std::string str(const Dims& d) { std::string s; for (int x : d) s += (s.empty() ? "" : "x") + std::to_string(x); return s; }
size_t prod(const Dims& d) { size_t p = 1; for (int x : d) p *= (size_t)x; return p; }
struct Env { std::vector<std::shared_ptr<void>> in; size_t next = 0; };
template <class T> Tensor<T> pat(const Dims& d, size_t o, double lo = -2, double hi = 2) { Tensor<T> t{Shape(d)}; T* p = t.getData().data(); size_t n = prod(d); for (size_t i = 0; i < n; ++i) { double u = (double)(((i + 1) * 7919 + o * 104729 + (i * i) % 31 * 37) % 1009) / 1008; p[i] = T(lo + (hi - lo) * u); } return t; }
template <class T> std::shared_ptr<Tensor<T>> input(Env& e, const Dims& d, size_t o, double lo = -2, double hi = 2) {
    if (e.next < e.in.size()) return std::static_pointer_cast<Tensor<T>>(e.in[e.next++]);
    auto p = std::make_shared<Tensor<T>>(pat<T>(d, o, lo, hi)); e.in.push_back(p); e.next = e.in.size(); return p;
}
typedef std::function<void(Out&)> Go;
struct Op { std::string name; int flags; std::function<Go(Env&)> make; };
std::vector<Op> ops;
struct Job { Env env; Go go; Out out; int rejected = 0; };
template <class T> void put(Out& o, const Tensor<T>& t) { for (int d : t.getShape().getDimensions()) o.push_back(d); const T* p = t.getData().data(); size_t n = t.getShape().size(); for (size_t i = 0; i < n; ++i) o.push_back((double)p[i]); }
void add(const std::string& n, int flags, std::function<Go(Env&)> f) { ops.push_back(Op{n, flags, std::move(f)}); }
template <class T> const char* tn() { return std::is_same<T, float>::value ? "float " : "double "; }
// a pure function of one or two tensors
template <class T, class F> void un(const std::string& n, const Dims& d, F f, double lo = -2, double hi = 2) { add(std::string(tn<T>()) + n + " " + str(d), 1, [=](Env& e) -> Go { auto a = input<T>(e, d, 1, lo, hi); return [=](Out& o) { f(*a, o); }; }); }
template <class T, class F> void bi(const std::string& n, const Dims& d, const Dims& d2, F f, double lo = -2, double hi = 2) { add(std::string(tn<T>()) + n + " " + str(d) + " " + str(d2), 1, [=](Env& e) -> Go { auto a = input<T>(e, d, 1, lo, hi); auto b = input<T>(e, d2, 2, lo, hi); return [=](Out& o) { f(*a, *b, o); }; }); }
template <class T> void matmul(const Dims& a, const Dims& b) { bi<T>("matmul", a, b, [](const Tensor<T>& x, const Tensor<T>& y, Out& o) { put(o, AdvancedTensorOperations<T>::matmul(x, y)); }); }
template <class T> void transpose(const Dims& a, int i, int j) { un<T>("transpose " + std::to_string(i) + "," + std::to_string(j), a, [=](const Tensor<T>& x, Out& o) { put(o, AdvancedTensorOperations<T>::transpose(x, i, j)); }); }
// a layer driven through forward, backward (twice) and update
template <class T> struct Collect : Optimizer<T> { Out* o; void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& w, const std::vector<std::reference_wrapper<Tensor<T>>>& g, T) override { for (auto& x : g) put(*o, x.get()); for (auto& x : w) put(*o, x.get()); } };
template <class T> void layer(const std::string& n, int flags, std::function<std::shared_ptr<Layer<T>>()> mk, const Dims& d, const Dims& u, bool train = true) {
    add(std::string(tn<T>()) + n + " on " + str(d) + (train ? "" : " (evaluation)"), flags, [=](Env& e) -> Go {
        auto x = input<T>(e, d, 3); auto y = input<T>(e, u, 4); std::shared_ptr<Layer<T>> l = mk(); auto c = std::make_shared<Collect<T>>(); l->setTrainingMode(train);
        return [=](Out& o) { c->o = &o; for (int k = 0; k < 2; ++k) { put(o, l->forward(*x)); put(o, l->backward(*y)); l->updateWeights(*c); } };
    });
}
template <class T> void opt(const std::string& n, std::function<std::shared_ptr<Optimizer<T>>()> mk, const std::vector<Dims>& ds, int steps) {
    std::string s; for (auto& d : ds) s += " " + str(d);
    add(std::string(tn<T>()) + n + s, 0, [=](Env&) -> Go {
        auto p = mk(); auto w = std::make_shared<std::vector<Tensor<T>>>(), g = std::make_shared<std::vector<Tensor<T>>>(); for (size_t i = 0; i < ds.size(); ++i) { w->push_back(pat<T>(ds[i], i)); g->push_back(pat<T>(ds[i], i + 9)); }
        return [=](Out& o) { std::vector<std::reference_wrapper<Tensor<T>>> a, b; for (auto& x : *w) a.push_back(x); for (auto& x : *g) b.push_back(x); for (int k = 0; k < steps; ++k) p->optimize(a, b); for (auto& x : *w) put(o, x); };
    });
}
template <class T> AdamOptions<T> adamOptions() { AdamOptions<T> a; a.learningRate = T(0.01); a.beta1 = T(0.8); a.beta2 = T(0.95); a.epsilon = T(1e-6); a.l1Strength = T(0.001); a.l2Strength = T(0.01); a.decay = T(0.1); a.batchSize = 2; return a; }
template <class T> void activations(const Dims& d) {
    auto one = [&](const std::string& n, auto a) { auto act = std::make_shared<decltype(a)>(a); bi<T>(n, d, d, [=](const Tensor<T>& x, const Tensor<T>& u, Out& o) { put(o, act->forward(x)); put(o, act->backward(x, u)); }); };
    one("ReLU", ReLU<T>()); one("LeakyReLU", LeakyReLU<T>()); one("Sigmoid", Sigmoid<T>()); one("Tanh", Tanh<T>()); one("Swish", Swish<T>()); one("Mish", Mish<T>()); if (d.size() > 1) one("Softmax", Softmax<T>());
}
template <class T> void losses(const Dims& d) {
    bi<T>("MSE", d, d, [](const Tensor<T>& x, const Tensor<T>& y, Out& o) { MSELoss<T> l; put(o, l.compute(x, y)); put(o, l.gradient(x, y)); });
    if (d.size() == 2) bi<T>("cross-entropy", d, d, [](const Tensor<T>& x, const Tensor<T>& y, Out& o) { CategoricalCrossEntropyLoss<T> l; put(o, l.compute(x, y)); put(o, l.gradient(x, y)); }, 0.05, 0.95);
}
template <class T> void layers(const std::string& n, int flags, std::function<std::shared_ptr<Layer<T>>()> mk, const Dims& d, const Dims& u) { layer<T>(n, flags, mk, d, u, true); layer<T>(n, flags, mk, d, u, false); }
template <class T> void fcLayer(int b, int i, int o) { layer<T>("FC " + std::to_string(i) + "->" + std::to_string(o), 0, [=] { auto l = std::make_shared<FullyConnectedLayer<T>>(i, o); l->setWeights(pat<T>({i, o}, 5)); l->setBiases(pat<T>({1, o}, 6)); return l; }, {b, i}, {b, o}); }
template <class T> void convLayer(int b, int ci, int co, int h, int w, int k, int s, int p, int dl) {
    int oh = (h + 2 * p - dl * (k - 1) - 1) / s + 1, ow = (w + 2 * p - dl * (k - 1) - 1) / s + 1; if (h + 2 * p < dl * (k - 1) + 1 || w + 2 * p < dl * (k - 1) + 1) return;
    layer<T>("Conv " + std::to_string(ci) + "->" + std::to_string(co) + " k" + std::to_string(k) + " s" + std::to_string(s) + " p" + std::to_string(p) + " d" + std::to_string(dl), 0, [=] { auto l = std::make_shared<Conv2DLayer<T>>(ci, co, k, k, s, p, dl); l->setWeights(pat<T>({co, ci, k, k}, 5)); l->setBiases(pat<T>({co, 1}, 6)); return l; }, {b, ci, h, w}, {b, co, oh, ow});
}
template <class T> void poolLayer(int b, int c, int h, int w, int k, int s, int p) { int oh = (h + 2 * p - k) / s + 1, ow = (w + 2 * p - k) / s + 1; if (h + 2 * p < k || w + 2 * p < k) return; layer<T>("Pool k" + std::to_string(k) + " s" + std::to_string(s) + " p" + std::to_string(p), 0, [=] { return std::make_shared<MaxPooling2DLayer<T>>(k, s, p); }, {b, c, h, w}, {b, c, oh, ow}); }
template <class T> void model(const std::string& n, int flags, std::function<void(SmartDNN<T>&)> build, const Dims& x, const Dims& y, bool train) {
    add(std::string(tn<T>()) + n + (train ? " trained" : " predicting") + " on " + str(x), 2, [=](Env& e) -> Go {
        (void)flags; auto m = std::make_shared<SmartDNN<T>>(); build(*m); auto a = input<T>(e, x, 7), b = input<T>(e, x, 8), t = input<T>(e, y, 9, 0, 1), u = input<T>(e, y, 10, 0, 1); m->trainingMode();
        return [=](Out& o) { if (train) m->train({*a, *b}, {*t, *u}, 2); m->evalMode(); put(o, m->predict(*a)); for (auto& r : m->predict(std::vector<Tensor<T>>{*b, *a})) put(o, r); };
    });
}
template <class T> void models(bool train) {
    model<T>("FC-ReLU-FC net", 2, [](SmartDNN<T>& m) { m.addLayer(FullyConnectedLayer<T>(3, 5)); m.addLayer(ActivationLayer<T>(ReLU<T>())); m.addLayer(FullyConnectedLayer<T>(5, 2)); m.compile(MSELoss<T>(), SGDOptimizer<T>()); }, {4, 3}, {4, 2}, train);
    model<T>("Conv-BN-Pool-FC net", 2, [](SmartDNN<T>& m) { m.addLayer(Conv2DLayer<T>(2, 3, 3)); m.addLayer(BatchNormalizationLayer<T>(3)); m.addLayer(ActivationLayer<T>(LeakyReLU<T>())); m.addLayer(MaxPooling2DLayer<T>(2, 2, 0)); m.addLayer(FlattenLayer<T>()); m.addLayer(FullyConnectedLayer<T>(12, 3)); m.addLayer(ActivationLayer<T>(Softmax<T>())); m.compile(CategoricalCrossEntropyLoss<T>(), AdamOptimizer<T>()); }, {2, 2, 6, 6}, {2, 3}, train);
    model<T>("FC-Dropout-BN net", 2, [](SmartDNN<T>& m) { m.addLayer(FullyConnectedLayer<T>(3, 4)); m.addLayer(DropoutLayer<T>(T(0.5))); m.addLayer(BatchNormalizationLayer<T>(4)); m.addLayer(ActivationLayer<T>(Tanh<T>())); m.compile(MSELoss<T>(), RMSPropOptimizer<T>()); }, {3, 3}, {3, 4}, train);
}
template <class T> void sweep(bool full) {
    int M = full ? 5 : 4;
    for (int m = 1; m <= M; ++m) for (int k = 1; k <= M; ++k) { matmul<T>({m, k}, {k}); matmul<T>({k}, {k, m}); for (int n = 1; n <= M; ++n) matmul<T>({m, k}, {k, n}); transpose<T>({m, k}, 0, 1); }
    for (int k = 1; k <= 9; ++k) matmul<T>({k}, {k});
    for (int n = 5; n <= (full ? 40 : 20); ++n) { transpose<T>({n, 3}, 0, 1); matmul<T>({n, 2}, {2, 3}); matmul<T>({2, 3}, {3, n}); matmul<T>({n, 3}, {3}); }
    int B = full ? 4 : 3; for (int b = 1; b <= B; ++b) for (int m = 1; m <= 3; ++m) for (int k = 1; k <= 3; ++k) for (int n = 1; n <= 3; n += (full ? 1 : 2)) { matmul<T>({b, m, k}, {k, n}); matmul<T>({m, k}, {b, k, n}); matmul<T>({b, m, k}, {b, k, n}); if (m != 2) matmul<T>({b, 2, m, k}, {b, 2, k, n}); }
    for (int a = 1; a <= 3; ++a) for (int b = 1; b <= 3; ++b) for (int c = 1; c <= 3; ++c) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) transpose<T>({a, b, c}, i, j);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { transpose<T>({2, 3, 1, 4}, i, j); transpose<T>({2, 2, 3, 2}, i, j); }
    for (int b : {1, 2, 3}) for (int ci : {1, 2, 3}) for (int co : {1, 2}) for (int k : {1, 2, 3}) for (int s : {1, 2}) for (int p : {0, 1}) for (int dl : {1, 2}) if (full || (b + ci + co + k + s + p + dl) % 2) convLayer<T>(b, ci, co, 4, 3, k, s, p, dl);
    for (int b : {1, 2, 5}) for (int i : {1, 2, 5}) for (int o : {1, 3}) fcLayer<T>(b, i, o);
    for (int b : {1, 2, 3}) for (int c : {1, 3}) for (int k : {1, 2, 3}) for (int s : {1, 2, 3}) for (int p : {0, 1}) if (p < k) poolLayer<T>(b, c, 4, 5, k, s, p);
    for (int b : {1, 2, 5}) for (int f : {1, 2, 7}) { layers<T>("BN " + std::to_string(f), 0, [=] { return std::make_shared<BatchNormalizationLayer<T>>(f); }, {b, f}, {b, f}); layers<T>("BN " + std::to_string(f), 0, [=] { return std::make_shared<BatchNormalizationLayer<T>>(f); }, {b, f, 2, 3}, {b, f, 2, 3}); layers<T>("Dropout", 2, [=] { return std::make_shared<DropoutLayer<T>>(T(0.4)); }, {b, f, 2}, {b, f, 2}); }
    for (const Dims& d : std::vector<Dims>{{1}, {7}, {3, 4}, {2, 3, 2}, {2, 2, 3, 2}, {1, 9}, {6, 1}}) { activations<T>(d); losses<T>(d); layers<T>("Flatten", 0, [=] { return std::make_shared<FlattenLayer<T>>(); }, d.size() < 2 ? Dims{2, 3} : d, d.size() < 2 ? Dims{2, 3} : Dims{d[0], (int)(prod(d) / (size_t)d[0])}); }
    for (size_t n : {1, 2, 3, 999, 1000, 1001, 1002, 1500, 2048}) for (int s : {1, 3}) {
        opt<T>("Adam", [] { return std::make_shared<AdamOptimizer<T>>(); }, {{(int)n}}, s); opt<T>("Adam with options", [] { return std::make_shared<AdamOptimizer<T>>(adamOptions<T>()); }, {{(int)n}, {2, 3}, {1, (int)n}}, s);
        opt<T>("SGD", [] { return std::make_shared<SGDOptimizer<T>>(); }, {{(int)n}}, s); opt<T>("RMSProp", [] { return std::make_shared<RMSPropOptimizer<T>>(); }, {{(int)n}}, s);
    }
}
template <class T> void alphabet(bool full) { // one of each; also the tail of the sweep
    typedef Tensor<T> X; typedef AdvancedTensorOperations<T> A;
    std::vector<std::pair<Dims, Dims>> pairs = {{{2, 3}, {2, 3}}, {{2, 3}, {1, 3}}, {{3}, {2, 3}}, {{2, 1, 3}, {4, 1}}, {{1, 1}, {5}}};
    for (auto& p : pairs) bi<T>("arithmetic", p.first, p.second, [](const X& a, const X& b, Out& o) { put(o, a + b); put(o, a - b); put(o, a * b); put(o, a / b); put(o, a + T(2)); put(o, T(3) - a); put(o, a * T(2)); put(o, T(1) / b); put(o, -a); }, 0.5, 2);
    bi<T>("in-place arithmetic", {3, 4}, {1, 4}, [](const X& a, const X& b, Out& o) { X c = a; c += b; c -= b; c *= b; c /= b; c += T(1); c -= T(2); c *= T(3); c /= T(2); put(o, c); }, 0.5, 2);
    un<T>("functions", {2, 3, 2}, [](const X& a, Out& o) { put(o, a.sqrt()); X c = a; c.apply([](T x) { return x * x; }); put(o, c); put(o, A::reciprocal(a)); put(o, A::applyPair(a, a, [](T x, T y) { return x * 2 + y; })); }, 0.5, 2);
    for (const Dims& d : std::vector<Dims>{{4}, {2, 3}, {2, 3, 2}}) un<T>("reductions", d, [d](const X& a, Out& o) { put(o, A::sum(a)); for (size_t k = 0; k < d.size(); ++k) { put(o, A::sum(a, k)); X m = A::mean(a, {k}); put(o, m); put(o, A::variance(a, m, {k})); } if (d.size() > 1) put(o, A::sum(a, std::vector<size_t>{0, 1})); });
    un<T>("reading", {2, 3, 2}, [](const X& a, Out& o) { for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 2; ++k) o.push_back((double)a.at({i, j, k})); X b = a; o.push_back(a == b); o.push_back((double)a.toDetailedString().size()); o.push_back((double)a.getShape().toString().size()); o.push_back(a.getShape()[1]); for (T x : a.getData()) o.push_back((double)x); put(o, a.slice(1, 2)); });
    un<T>("reshaping", {2, 3, 2}, [](const X& a, Out& o) { X b = a; b.reshape(Shape{3, 4}); put(o, b); put(o, A::reshape(a, {6, 2})); X c = std::move(b); b = c; c = X(Shape{2}); put(o, b); });
    un<T>("broadcast view", {2, 1, 2}, [](const X& a, Out& o) { BroadcastView<T, CPUDevice> v(a.getData(), Shape{3, 2, 4, 2}); for (auto it = v.begin(); it != v.end(); ++it) o.push_back((double)*it); });
    bi<T>("shapes", {2, 3}, {1, 3}, [](const X& a, const X& b, Out& o) { Shape s = ShapeOperations::broadcastShapes(a.getShape(), b.getShape()); o.push_back(s.size()); o.push_back(ShapeOperations::areBroadcastable(a.getShape(), b.getShape())); o.push_back((double)ShapeOperations::concat(a.getShape(), b.getShape()).rank()); o.push_back(a.getShape() == b.getShape()); });
    add(std::string(tn<T>()) + "factories", 2, [](Env&) -> Go { return [](Out& o) { put(o, X::ones(Shape{2, 3})); put(o, X::zeros({3})); put(o, X::identity(3)); put(o, X::rand({2, 2})); put(o, X::randn({2, 2}, T(0), T(1))); }; });
    add(std::string(tn<T>()) + "slice view", 0, [](Env&) -> Go { auto a = std::make_shared<X>(pat<T>({4, 5}, 1)); return [=](Out& o) { SliceView<T> v(a->getData(), {{1, 3}, {0, 4}}, {1, 2}); for (auto it = v.begin(); it != v.end(); ++it) o.push_back((double)*it); v.set({0, 1}, T(9)); put(o, *a); }; });
    matmul<T>({3}, {3}); matmul<T>({2, 3}, {3}); matmul<T>({3}, {3, 2}); matmul<T>({2, 3}, {3, 2}); matmul<T>({2, 2, 3}, {3, 2}); matmul<T>({2, 3}, {2, 3, 2}); matmul<T>({2, 2, 3}, {2, 3, 2}); matmul<T>({2, 2, 2, 3}, {2, 2, 3, 2}); transpose<T>({2, 3}, 0, 1); transpose<T>({2, 3, 2}, 0, 2);
    activations<T>({2, 3}); losses<T>({2, 3});
    add(std::string(tn<T>()) + "shared activation objects", 0, [](Env& e) -> Go { auto x = input<T>(e, {2, 3}, 1); static ReLU<T> r; static LeakyReLU<T> l; static Sigmoid<T> s; static Tanh<T> t; static Swish<T> w; static Mish<T> m; static Softmax<T> q; return [=](Out& o) { for (const Activation<T>* a : std::vector<const Activation<T>*>{&r, &l, &s, &t, &w, &m, &q}) { put(o, a->forward(*x)); put(o, a->backward(*x, *x)); } }; });
    fcLayer<T>(2, 3, 2); convLayer<T>(2, 2, 2, 4, 4, 2, 1, 1, 1); poolLayer<T>(2, 2, 4, 4, 2, 2, 0);
    layers<T>("BN 3", 0, [] { return std::make_shared<BatchNormalizationLayer<T>>(3); }, {4, 3}, {4, 3}); layers<T>("BN 2", 0, [] { return std::make_shared<BatchNormalizationLayer<T>>(2); }, {2, 2, 2, 2}, {2, 2, 2, 2}); layers<T>("Dropout", 2, [] { return std::make_shared<DropoutLayer<T>>(T(0.4)); }, {2, 3}, {2, 3}); layers<T>("Flatten", 0, [] { return std::make_shared<FlattenLayer<T>>(); }, {2, 3, 2}, {2, 6}); layers<T>("activation layer", 0, [] { return std::make_shared<ActivationLayer<T>>(Tanh<T>()); }, {2, 3}, {2, 3});
    opt<T>("Adam", [] { return std::make_shared<AdamOptimizer<T>>(adamOptions<T>()); }, {{3}, {2, 2}}, 2); opt<T>("SGD", [] { SGDOptions<T> s; s.momentum = T(0.9); s.nesterov = true; return std::make_shared<SGDOptimizer<T>>(s); }, {{3}, {2, 2}}, 2); opt<T>("RMSProp", [] { RMSPropOptions<T> s; s.momentum = T(0.9); s.centered = true; return std::make_shared<RMSPropOptimizer<T>>(s); }, {{3}, {2, 2}}, 2);
    models<T>(true); models<T>(false); (void)full;
}
int count(int list, int full) { ops.clear(); if (list == 0) { sweep<float>(full); if (full) sweep<double>(true); } alphabet<float>(full); if (list == 0 || full) alphabet<double>(full); else { bi<double>("arithmetic", {2, 3}, {1, 3}, [](const Tensor<double>& a, const Tensor<double>& b, Out& o) { put(o, a * b); }); } return (int)ops.size(); }
const char* name(int i) { return ops[(size_t)i].name.c_str(); }
int flags(int i) { return ops[(size_t)i].flags; }
void* make(int i, void* with) { Job* j = new Job; if (with) { j->env.in = ((Job*)with)->env.in; } j->go = ops[(size_t)i].make(j->env); j->out.reserve(64); return j; }
void go(void* p) { Job* j = (Job*)p; try { j->go(j->out); } catch (const std::exception&) { j->rejected = 1; } }
const double* out(void* p, int* n) { Job* j = (Job*)p; *n = j->rejected ? -1 : (int)j->out.size(); return j->out.data(); }
void drop(void* p) { delete (Job*)p; }
void seed(unsigned s) { RandomEngine::setSeed(s); }
void engine(uintptr_t* at, size_t* bytes) { auto& e = RandomEngine::getInstance(); *at = (uintptr_t)&e; *bytes = sizeof e; }
const OpsApi api = {count, name, flags, make, go, out, drop, seed, engine};
} // namespace
extern "C" __attribute__((visibility("default"))) const OpsApi* ops_api() { return &api; }
