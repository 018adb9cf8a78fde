// C34: every operation gives back the memory it takes, also when memory runs out at any point inside it.
#include "nets.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include "smart_dnn/Tensor/BroadcastView.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
#include <new>
#include <malloc.h>
#include <climits>
// ---- the allocator of this program: counts live blocks, and fails where it is told to ----
static long live_ = 0, bytes_ = 0, seen_ = 0, failAt_ = -1; static bool armed_ = false, fired_ = false;
static void* take(size_t n) {
    if (armed_) { if (seen_++ == failAt_) { fired_ = true; throw std::bad_alloc(); } }
    void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live_; bytes_ += (long)malloc_usable_size(p); return p;
}
static void* takeQuiet(size_t n) noexcept { try { return take(n); } catch (...) { return nullptr; } }
static void give(void* p) noexcept { if (p) { --live_; bytes_ -= (long)malloc_usable_size(p); free(p); } }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return takeQuiet(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return takeQuiet(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

using namespace ref; using namespace smart_dnn; using namespace nets;
// A scene: objects, one operation on them, and what must be true of the objects when the operation has failed.
struct Scene {
    virtual ~Scene() {}
    virtual void op() = 0;                      // the operation, its result kept in the scene
    virtual void intact(std::ostream&) {}       // prints what must not have changed, and reads everything else
    virtual void result(std::ostream&) = 0;     // prints the result
    bool again = true;                          // can the operation be repeated after a failure, with the same result?
};
typedef std::function<std::unique_ptr<Scene>()> Make;
template <class T> void put(std::ostream& o, const Tensor<T>& t) { RT r = rd(t); o << str(r.d) << "["; for (double v : r.v) { uint64_t b; memcpy(&b, &v, 8); o << b << ","; } o << "]"; MC_CHECK(t.getShape().getStride().size() == r.d.size() && t.getShape().rank() == r.d.size(), "inconsistent shape"); size_t s = 1; for (size_t i = r.d.size(); i-- > 0; s *= (size_t)r.d[i]) MC_CHECK(t.getShape().getStride()[i] == s, "strides " << vstr(t.getShape().getStride()) << " for shape " << str(r.d)); T sum = 0; for (size_t i = 0; i < r.size(); ++i) sum += t.getData().data()[i]; (void)sum; }
template <class F> std::string text(F f) { std::ostringstream o; f(o); return o.str(); }
static const long CAP = 4000; static bool leaksOnly_ = false; static uint64_t points_ = 0; // (text streams swallow allocation failures, by their specification)
static void enumerate(const std::string& name, const Make& make) {
    mc::run([&] { return name; }, [&] {
        std::string want, keep; long base = 0, n = 0;
        for (int k = 0; k < 3; ++k) { // no failures: every repetition gives back what it takes
            long before = live_; std::string w;
            { auto s = make(); std::string k0 = text([&](std::ostream& o) { s->intact(o); }); seen_ = 0; failAt_ = -1; armed_ = true; try { s->op(); } catch (...) { armed_ = false; throw; } armed_ = false; n = seen_; w = text([&](std::ostream& o) { s->result(o); }); if (k == 0) { want = w; keep = k0; } MC_CHECK(w == want, "the operation gives another result the second time"); }
            { std::string().swap(w); }
            if (k == 0) continue; // caches may be set up once
            base = live_ - before; MC_CHECK(base == 0, name << " leaves " << base << " blocks of memory behind each time");
        }
        mc::state(mc::mix(std::hash<std::string>()(want), (uint64_t)n)); mc::step();
        for (long f = 0; f < n && f < CAP && !leaksOnly_; ++f) {
            MC_TRAIL("allocation " << f << " of " << n << " fails"); long before = live_; std::string why;
            {
                auto s = make(); bool threw = false; std::string what; seen_ = 0; failAt_ = f; fired_ = false; armed_ = true;
                try { s->op(); } catch (const std::exception& e) { armed_ = false; threw = true; } catch (...) { armed_ = false; threw = true; why = "an exception of unknown type"; }
                armed_ = false; MC_CHECK(why.empty(), "allocation " << f << " of " << n << " fails: " << why); if (!fired_) { MC_CHECK(!threw, "rejected without reason"); std::string w = text([&](std::ostream& o) { s->result(o); }); MC_CHECK(w == want, "another result"); }
                else if (threw) {
                    mc::rejectedOp(); std::string k = text([&](std::ostream& o) { s->intact(o); }); MC_CHECK(k == keep, "allocation " << f << " of " << n << " fails: the operands have changed from " << keep << " to " << k);
                    if (s->again) { s->op(); std::string w = text([&](std::ostream& o) { s->result(o); }); MC_CHECK(w == want, "allocation " << f << " of " << n << " fails: when repeated, the operation gives " << w << ", expected " << want); }
                } else { std::string w = text([&](std::ostream& o) { s->result(o); }); MC_CHECK(w == want, "allocation " << f << " of " << n << " fails unreported, and the result is " << w << ", expected " << want); }
            }
            { std::string().swap(why); }
            MC_CHECK(live_ == before, "allocation " << f << " of " << n << " fails: " << live_ - before << " blocks of memory are never given back"); mc::step(); mc::trace(); ++points_;
        }
    });
}
// ---- scenes ----
template <class T> struct Pure : Scene { // result of type R from constant tensors
    std::vector<Tensor<T>> in; std::function<Tensor<T>(std::vector<Tensor<T>>&)> f; std::optional<Tensor<T>> r;
    void op() override { r.emplace(f(in)); }
    void intact(std::ostream& o) override { for (auto& t : in) put(o, t); }
    void result(std::ostream& o) override { put(o, *r); for (auto& t : in) put(o, t); }
};
template <class T> void pure(const std::string& n, const std::vector<Dims>& d, std::function<Tensor<T>(std::vector<Tensor<T>>&)> f, int kind = 1) {
    std::string s = n; for (auto& x : d) s += " " + str(x);
    enumerate(s, [=] { auto p = std::make_unique<Pure<T>>(); p->f = f; size_t o = 0; for (auto& x : d) p->in.push_back(mk<T>(pat(x, kind, o += 3))); return p; });
}
template <class T> struct InPlace : Scene { // the target must stay a valid tensor; a rejected attempt must not have changed the others
    std::vector<Tensor<T>> t; std::function<void(std::vector<Tensor<T>>&)> f; bool strong;
    void op() override { f(t); }
    void intact(std::ostream& o) override { for (size_t i = strong ? 0 : 1; i < t.size(); ++i) put(o, t[i]); std::ostringstream q; if (!strong) put(q, t[0]); }
    void result(std::ostream& o) override { for (auto& x : t) put(o, x); }
};
template <class T> void inPlace(const std::string& n, const std::vector<Dims>& d, bool strong, std::function<void(std::vector<Tensor<T>>&)> f) {
    std::string s = n; for (auto& x : d) s += " " + str(x);
    enumerate(s, [=] { auto p = std::make_unique<InPlace<T>>(); p->f = f; p->strong = strong; p->again = strong; size_t o = 0; p->t.reserve(d.size()); for (auto& x : d) p->t.push_back(mk<T>(pat(x, 1, o += 3))); return p; });
}
static void shapesAndTensors() {
    typedef Tensor<float> X; typedef std::vector<X> V; typedef AdvancedTensorOperations<float> A;
    for (Dims d : std::vector<Dims>{{3}, {2, 3}, {2, 1, 2}}) {
        pure<float>("copy", {d}, [](V& v) { return X(v[0]); });
        pure<float>("construct", {d}, [](V& v) { return X(v[0].getShape(), 2.f); });
        pure<float>("construct from pointer", {d}, [](V& v) { const X& c = v[0]; return X(c.getShape(), c.getData().data()); });
        pure<float>("construct from vector", {d}, [](V& v) { std::vector<float> q(v[0].getShape().size(), 3.f); return X(v[0].getShape(), q); });
        pure<float>("construct from data", {d}, [](V& v) { const X& c = v[0]; return X(c.getData()); });
        pure<float>("factories", {d}, [](V& v) { RandomEngine::setSeed(3); X a = X::ones(v[0].getShape()), b = X::zeros(v[0].getShape()), c = X::rand(v[0].getShape()); return a + b + c + X::identity(1); });
        pure<float>("arithmetic", {d, d}, [](V& v) { return v[0] + v[1] * v[0] - v[1] / v[0]; });
        pure<float>("broadcast arithmetic", {d, {1}}, [](V& v) { return (v[0] + v[1]) * (v[1] - v[0]); });
        pure<float>("scalar arithmetic", {d}, [](V& v) { return (2.f + v[0] * 3.f - 1.f) / 4.f - 5.f / v[0]; });
        pure<float>("functions", {d}, [](V& v) { return A::apply(v[0], [](float x) { return x * 2; }) + A::reciprocal(v[0]) - (-v[0]) + (v[0] * v[0]).sqrt(); });
        pure<float>("reductions", {d}, [](V& v) { X m = A::mean(v[0]); return A::sum(v[0]) + m + A::variance(v[0], m) + A::sum(A::sum(v[0], 0)); });
        pure<float>("transpose", {d}, [](V& v) { return A::transpose(v[0], 0, v[0].getShape().rank() - 1); });
        pure<float>("slice", {d}, [](V& v) { return v[0].getShape().rank() > 1 ? v[0].slice(1, 0) : X(v[0]); });
        pure<float>("reshape", {d}, [](V& v) { return A::reshape(v[0], {1, (int)v[0].getShape().size()}); });
        leaksOnly_ = true;
        pure<float>("texts", {d}, [](V& v) { return X(Shape({1}), float(v[0].toDetailedString().size() + v[0].toDataString().size() + v[0].getShape().toString().size())); });
        leaksOnly_ = false;
        pure<float>("views", {d}, [](V& v) { float s = 0; Dims t = v[0].getShape().getDimensions(); t.insert(t.begin(), 2); BroadcastView<float, CPUDevice> b(v[0].getData(), Shape(t)); for (float x : b) s += x; std::vector<std::pair<int, int>> r(t.size() - 1, {0, 2}); std::vector<int> st(t.size() - 1, 1); SliceView<float> sl(v[0].getData(), r, st); for (auto it = sl.begin(); it != sl.end(); ++it) s += *it; return X(Shape({1}), s); });
        pure<float>("rejected operations", {d, {7, 5}}, [](V& v) { int n = 0; for (int k = 0; k < 6; ++k) try { switch (k) { case 0: v[0] + v[1]; break; case 1: v[0] += v[1]; break; case 2: v[0].reshape(Shape({17})); break; case 3: v[0].at({9, 9, 9, 9}); break; case 4: A::sum(v[0], 9); break; default: v[0] / 0.f; } } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { ++n; } return X(Shape({1}), (float)n); });
        inPlace<float>("copy assignment", {d, {4, 2}}, true, [](V& v) { v[0] = v[1]; });
        inPlace<float>("copy assignment, same rank", {d, Dims(d.size(), 3)}, true, [](V& v) { v[0] = v[1]; });
        inPlace<float>("assignment of data", {d, {4, 2}}, true, [](V& v) { v[0].getData() = v[1].getData(); });
        inPlace<float>("reshape in place", {d}, true, [](V& v) { Dims n = v[0].getShape().getDimensions(); n.insert(n.begin(), 1); v[0].reshape(Shape(n)); });
        inPlace<float>("move assignment", {d, {4, 2}}, false, [](V& v) { X t(v[1]); v[0] = std::move(t); });
        inPlace<float>("in-place arithmetic", {d, d}, false, [](V& v) { v[0] += v[1]; v[0] *= v[1]; v[0] -= 2.f; v[0] /= 3.f; });
        inPlace<float>("in-place broadcast arithmetic", {d, {1}}, false, [](V& v) { v[0] += v[1]; v[0] *= v[1]; v[0] -= v[1]; v[0] /= v[1]; });
    }
    for (auto& p : std::vector<std::pair<Dims, Dims>>{{{3}, {3}}, {{2, 3}, {3}}, {{3}, {3, 2}}, {{2, 3}, {3, 2}}, {{2, 2, 3}, {3, 2}}, {{2, 3}, {2, 3, 2}}, {{2, 2, 3}, {2, 3, 2}}}) pure<float>("matmul", {p.first, p.second}, [](V& v) { return A::matmul(v[0], v[1]); });
    pure<float>("axes", {{2, 3, 2}}, [](V& v) { X m = A::mean(v[0], {0, 2}); return A::sum(v[0], std::vector<size_t>{0, 2}) + A::sum(A::variance(v[0], m, {0, 2}), std::vector<size_t>{0, 2}); });
    // shapes alone
    struct Sh : Scene { Shape a{2, 3}, b{3, 1}, r{1}; int k = 0; void op() override { switch (k) { case 0: r = a; break; case 1: r = ShapeOperations::broadcastShapes(a, b); break; case 2: r = ShapeOperations::concat(a, b); break; case 3: { Shape c(a); c.reshape(Shape{3, 2}); r = c; break; } default: a.reshape(Shape{1, 6}); } }
        void show(std::ostream& o, const Shape& s) { o << s; for (size_t x : s.getStride()) o << ":" << x; o << " " << s.size(); size_t n = 1; for (int x : s.getDimensions()) n *= (size_t)x; MC_CHECK(n == s.size(), "size " << s.size() << " of shape " << s.toString()); MC_CHECK(s.getStride().size() == s.rank(), "rank"); }
        void intact(std::ostream& o) override { show(o, a); show(o, b); show(o, r); } void result(std::ostream& o) override { show(o, a); show(o, b); show(o, r); } };
    for (int k = 0; k < 5; ++k) { Dims order[] = {}; (void)order; enumerate("shape operation " + std::to_string(k), [=] { auto s = std::make_unique<Sh>(); s->k = k; if (k == 1) s->b = Shape{2, 1}; return s; }); }
}
// a layer: whatever fails, a later forward and backward are right again, and the input is untouched
struct LayerScene : Scene {
    std::unique_ptr<Layer<float>> l; Tensor<float> x, u, y{Shape({1})}, d{Shape({1})}; Probe<float> p; bool both, done = false;
    LayerScene(const LS& s, const Dims& xd, bool train, bool bothPasses) : x(mk<float>(pat(xd, 4, 2))), u(Shape({1})), both(bothPasses) { l = real<float>(s); auto m = model<float>(s, 3); l->setTrainingMode(train); if (s.k != BN) equip<float>(*l, s, *m, RT()); RandomEngine::setSeed(4); y = l->forward(x); u = mk<float>(pat(rd(y).d, 4, 5)); if (!both) RandomEngine::setSeed(4); else { d = l->backward(u); RandomEngine::setSeed(4); } }
    void op() override { if (both) { RandomEngine::setSeed(4); Tensor<float> a = l->forward(x); RandomEngine::setSeed(4); y = a; } else { Tensor<float> a = l->backward(u); d = a; } }
    void intact(std::ostream& o) override { put(o, x); put(o, u); std::ostringstream q; put(q, y); put(q, d); }
    void result(std::ostream& o) override { if (both) { put(o, y); put(o, l->backward(u)); } else put(o, d); put(o, x); put(o, u); Probe<float> pr; if (!both || true) l->updateWeights(pr); for (auto& e : pr.got) { o << str(e.grad.d); for (double v : e.grad.v) o << v << ","; } }
};
static void layers() {
    std::vector<std::pair<LS, Dims>> all = {{fc(3, 2), {2, 3}}, {fc(3, 2), {3}}, {conv(2, 2, 2, 2), {1, 2, 3, 3}}, {conv(1, 1, 2, 2, 1, 1), {1, 1, 2, 2}}, {pool(2, 2), {1, 2, 2, 2}}, {pool(2, 1, 1), {1, 1, 2, 2}}, {flat(), {2, 2, 1, 2}}, {bn(2), {3, 2}}, {bn(2), {2, 2, 1, 2}}, {drop(0.5), {2, 3}}};
    for (int k = 0; k <= acts::NKINDS; ++k) all.push_back({act(k), {2, 3}});
    for (auto& a : all) for (int train = 1; train >= 0; --train) for (int both = 1; both >= 0; --both) { if (!train && a.first.k != BN && a.first.k != DROP) continue; enumerate(str(a.first) + (both ? " forward " : " backward ") + ref::str(a.second) + (train ? "" : " in evaluation"), [=] { return std::make_unique<LayerScene>(a.first, a.second, train, both); }); }
}
struct LossScene : Scene { std::unique_ptr<Loss<float>> l; Tensor<float> a, b, r{Shape({1})}; bool g; LossScene(int k, const Dims& d, bool grad) : l(loss<float>(k)), a(mk<float>(map(pat(d, 4), [](double x) { return std::fabs(x) / 8 + 0.1; }))), b(mk<float>(map(pat(d, 4, 3), [](double x) { return std::fabs(x) / 8; }))), g(grad) {} void op() override { Tensor<float> q = g ? l->gradient(a, b) : l->compute(a, b); r = q; } void intact(std::ostream& o) override { put(o, a); put(o, b); } void result(std::ostream& o) override { put(o, r); } };
struct OptScene : Scene { // after a failure: gradients untouched, weights valid, and the optimizer still serves other tensors
    std::unique_ptr<Optimizer<float>> p; std::vector<Tensor<float>> w, g; std::vector<std::reference_wrapper<Tensor<float>>> a, b;
    OptScene(const opts::Opt& o) { p = opts::make<float>(o); w.reserve(2); g.reserve(2); for (int i = 0; i < 2; ++i) { w.push_back(mk<float>(pat({2, i + 1}, 4, i))); g.push_back(mk<float>(pat({2, i + 1}, 4, i + 4))); } for (auto& x : w) a.push_back(x); for (auto& x : g) b.push_back(x); again = false; }
    void op() override { p->optimize(a, b); p->optimize(a, b); }
    void intact(std::ostream& o) override { for (auto& x : g) put(o, x); std::ostringstream q; for (auto& x : w) put(q, x); Tensor<float> z(Shape({3}), 1.f), zg(Shape({3}), 0.5f); std::ostringstream s; }
    void result(std::ostream& o) override { for (auto& x : w) put(o, x); for (auto& x : g) put(o, x); }
};
struct ModelScene : Scene { // predictions: unchanged afterwards; training: the model can still be used
    std::unique_ptr<SmartDNN<float>> m; std::vector<Tensor<float>> x, t; std::optional<Tensor<float>> y; int kind; Net n;
    ModelScene(const Net& net, const Dims& d, int k) : kind(k), n(net) { if (k == 2) { x.push_back(mk<float>(pat(d, 4))); again = false; return; } RandomEngine::setSeed(5); m = std::make_unique<SmartDNN<float>>(); for (auto& l : net) add(*m, l); compile(*m, 0, optimizers()[3]); m->evalMode(); for (int i = 0; i < 2; ++i) { x.push_back(mk<float>(pat(d, 4, i * 3))); t.push_back(m->predict(x.back()) * 0.5f); } again = k == 0; if (k) m->trainingMode(); }
    void op() override {
        Quiet q; if (kind == 0) { Tensor<float> a = m->predict(x[0]); y.emplace(a); } else if (kind == 1) { RandomEngine::setSeed(2); m->train(x, t, 2); m->evalMode(); y.emplace(m->predict(x[0])); }
        else { RandomEngine::setSeed(5); m = std::make_unique<SmartDNN<float>>(); for (auto& l : n) add(*m, l); compile(*m, 0, optimizers()[3]); m->evalMode(); y.emplace(m->predict(x[0])); }
    }
    void intact(std::ostream& o) override { for (auto& a : x) put(o, a); for (auto& a : t) put(o, a); if (kind == 0) put(o, m->predict(x[1])); else if (m && kind == 1) { std::ostringstream q; put(q, m->predict(x[1])); } }
    void result(std::ostream& o) override { put(o, *y); }
};
// objects that live long: an operation on them, repeated, does not take more and more memory
static const int LONG = 96;
static void steady(const std::string& name, const std::function<std::function<void(int)>()>& make) {
    mc::run([&] { return "repeated: " + name; }, [&] {
        std::vector<std::pair<long, long>> seen(LONG); auto f = make();
        for (int k = 0; k < LONG; ++k) { f(k); seen[k] = {live_, bytes_}; mc::step(); }
        long b0 = 0, b1 = LONG_MAX, l0 = 0, l1 = LONG_MAX; // the least of the last third against the most of the first
        for (int k = 0; k < LONG / 3; ++k) b0 = std::max(b0, seen[k].second), l0 = std::max(l0, seen[k].first);
        for (int k = 2 * LONG / 3; k < LONG; ++k) b1 = std::min(b1, seen[k].second), l1 = std::min(l1, seen[k].first);
        MC_CHECK(b1 <= b0 && l1 <= l0, name << ": memory grows from " << b0 << " bytes in " << l0 << " blocks (the most of the first " << LONG / 3 << " repetitions) to " << b1 << " bytes in " << l1 << " blocks (the least of the last " << LONG / 3 << " of " << LONG << ")");
        mc::state(mc::mix(std::hash<std::string>()(name), (uint64_t)b1)); mc::trace();
    });
}
static void longLives() {
    typedef Tensor<float> X; typedef AdvancedTensorOperations<float> A;
    { struct Q { X a, b, c; Q() : a(mk<float>(pat({2, 3}, 4))), b(mk<float>(pat({2, 3}, 4, 3))), c(mk<float>(pat({3, 2}, 4, 5))) {} };
      std::vector<std::pair<std::string, std::function<void(Q&, int)>>> all = {
        {"tensor assignment", [](Q& q, int) { q.a = q.b; }}, {"tensor assignment of alternating shapes", [](Q& q, int k) { q.a = k % 2 ? q.b : q.c; }}, {"tensor move assignment", [](Q& q, int k) { q.a = X(k % 2 ? q.b : q.c); }},
        {"tensor arithmetic in place", [](Q& q, int k) { if (k % 2) q.a += q.b; else q.a -= q.b; q.a *= 1.f; q.a /= 1.f; }}, {"tensor arithmetic", [](Q& q, int) { X r = q.a + q.b * q.a - 2.f / (q.b * q.b + 1.f); q.a = r; }},
        {"element access", [](Q& q, int k) { q.a.at({1, k % 3}) = 1.f; q.a.getData()[k % 6] = 2.f; }}, {"reshaping", [](Q& q, int k) { q.a.reshape(k % 2 ? Shape{3, 2} : Shape{1, 6}); }}, {"text", [](Q& q, int) { (void)q.a.toDetailedString(); (void)q.a.toDataString(); (void)q.a.getShape().toString(); }},
        {"products", [](Q& q, int) { X r = A::matmul(q.b, q.c); r += 1.f; }}, {"reductions", [](Q& q, int k) { X m = A::mean(q.b); X r = A::sum(q.b, k % 2) + A::sum(A::sum(q.b)); X v = A::variance(q.b, m); }}, {"transposition and slices", [](Q& q, int k) { X r = A::transpose(q.b, 0, 1); X s = q.b.slice(k % 2, 1); }},
        {"random tensors", [](Q& q, int k) { if (k % 7 == 0) RandomEngine::setSeed(k); q.a = X::rand(Shape{2, 3}); q.b = X::randn(Shape{2, 3}, 0.f, 1.f); }}, {"rejected operations", [](Q& q, int) { try { q.a + X(Shape{7}, 1.f); } catch (const std::exception&) {} try { q.a.reshape(Shape{7}); } catch (const std::exception&) {} try { q.a.at({9, 9}); } catch (const std::exception&) {} }}};
      for (auto& e : all) steady(e.first, [&]() -> std::function<void(int)> { auto q = std::make_shared<Q>(); auto f = e.second; return [q, f](int k) { f(*q, k); }; }); }
    std::vector<std::pair<LS, std::vector<Dims>>> ls = {{fc(3, 2), {{2, 3}, {4, 3}, {3}}}, {conv(2, 2, 2, 2), {{1, 2, 3, 3}, {2, 2, 4, 3}}}, {conv(1, 1, 2, 2, 1, 1), {{1, 1, 2, 2}}}, {pool(2, 2), {{1, 2, 2, 2}, {3, 1, 4, 4}}}, {flat(), {{2, 2, 1, 2}, {1, 2, 3}}}, {bn(2), {{3, 2}, {5, 2}}}, {bn(2), {{2, 2, 1, 2}, {3, 2, 2, 2}}}, {drop(0.5), {{2, 3}, {1, 2, 2, 2}}}};
    for (int k = 0; k <= acts::NKINDS; ++k) ls.push_back({act(k), {{2, 3}, {4, 3}}});
    for (auto& l : ls) for (int train = 0; train < 2; ++train) for (int mode = 0; mode < 4; ++mode) { static const char* nm[] = {"forward", "forward and backward", "forward, backward and update", "forward, in turns in training and evaluation"};
        if (mode == 2 && !train) continue;
        if (mode == 3 && train) continue;
        steady(str(l.first) + " " + nm[mode] + (train ? ", in training" : ""), [&]() -> std::function<void(int)> {
            struct Q { std::unique_ptr<Layer<float>> l; std::vector<X> x, u; std::unique_ptr<Optimizer<float>> o; }; auto q = std::make_shared<Q>(); q->l = real<float>(l.first); q->l->setTrainingMode(train != 0); q->o = opts::make<float>(optimizers()[3]);
            for (auto& d : l.second) { q->x.push_back(mk<float>(pat(d, 4, 2))); q->u.push_back(mk<float>(pat(rd(q->l->forward(q->x.back())).d, 4, 5))); }
            return [q, mode](int k) { size_t i = (size_t)k % q->x.size(); if (mode == 3) q->l->setTrainingMode(k % 2); { X y = q->l->forward(q->x[i]); if (mode == 1 || mode == 2) X d = q->l->backward(q->u[i]); } if (mode == 2) q->l->updateWeights(*q->o); }; }); }
    for (int k = 0; k < 2; ++k) steady(k ? "cross-entropy" : "MSE", [&]() -> std::function<void(int)> { struct Q { std::unique_ptr<Loss<float>> l; std::vector<X> a, b; }; auto q = std::make_shared<Q>(); q->l = loss<float>(k); for (Dims d : std::vector<Dims>{{2, 2}, {3, 4}}) q->a.push_back(X(Shape(d), 0.4f)), q->b.push_back(X(Shape(d), 0.6f)); return [q](int n) { q->l->compute(q->a[n % 2], q->b[n % 2]); X g = q->l->gradient(q->a[n % 2], q->b[n % 2]); }; });
    for (auto& o : optimizers()) steady("updates by " + opts::str(o), [&]() -> std::function<void(int)> { struct Q { std::unique_ptr<Optimizer<float>> p; std::vector<X> w, g; }; auto q = std::make_shared<Q>(); q->p = opts::make<float>(o); for (int i = 0; i < 2; ++i) q->w.push_back(mk<float>(pat({2, i + 1}, 4, i))), q->g.push_back(mk<float>(pat({2, i + 1}, 4, i + 4))); return [q](int) { std::vector<std::reference_wrapper<X>> a(q->w.begin(), q->w.end()), b(q->g.begin(), q->g.end()); q->p->optimize(a, b); }; });
    Net small = {fc(2, 2), act(acts::RELU), fc(2, 1)}, big = {conv(1, 1, 2, 2), bn(1), act(acts::TANH), pool(2, 1), flat(), drop(0.5), fc(1, 2), act(acts::NKINDS)};
    for (int w = 0; w < 2; ++w) for (int mode = 0; mode < 5; ++mode) for (size_t oi = 0; oi < (mode == 1 || mode == 4 ? optimizers().size() : 1); ++oi) { static const char* nm[] = {"predictions of ", "training of ", "switching modes of ", "predictions for lists by ", "training and prediction in turns of "}; Net n = w ? big : small; Dims d = w ? Dims{2, 1, 3, 3} : Dims{2, 2};
        steady(nm[mode] + str(n) + (mode == 1 || mode == 4 ? " by " + opts::str(optimizers()[oi]) : ""), [&]() -> std::function<void(int)> { struct Q { SmartDNN<float> m; std::vector<X> x, t; }; auto q = std::make_shared<Q>(); for (auto& l : n) add(q->m, l); compile(q->m, 0, optimizers()[oi]); q->m.evalMode(); for (int i = 0; i < 2; ++i) { q->x.push_back(mk<float>(pat(d, 4, i * 3))); q->t.push_back(q->m.predict(q->x.back()) * 0.5f); }
            return [q, mode](int k) { Quiet s; switch (mode) { case 0: { q->m.evalMode(); X y = q->m.predict(q->x[k % 2]); break; } case 1: q->m.trainingMode(); q->m.train(q->x, q->t, 1); break; case 2: q->m.trainingMode(); q->m.evalMode(); break; case 3: { auto y = q->m.predict(q->x); break; } default: q->m.trainingMode(); q->m.train(q->x, q->t, 1); q->m.evalMode(); X y = q->m.predict(q->x[k % 2]); } }; }); }
}
void explore() {
    mc::bound("failures", "every operation repeated without failures, and with each of its allocations failing in turn (at most " + std::to_string(CAP) + " per operation)");
    mc::bound("long lives", "every operation repeated " + std::to_string(LONG) + " times on the same objects");
    longLives(); shapesAndTensors(); layers();
    for (int k = 0; k < 2; ++k) for (int g = 0; g < 2; ++g) enumerate(std::string(k ? "cross-entropy " : "MSE ") + (g ? "gradient" : "value"), [=] { return std::make_unique<LossScene>(k, Dims{2, 2}, g); });
    for (auto& o : optimizers()) enumerate("updates by " + opts::str(o), [=] { return std::make_unique<OptScene>(o); });
    Net small = {fc(2, 2), act(acts::RELU), fc(2, 1)}, big = {conv(1, 1, 2, 2), bn(1), act(acts::TANH), pool(2, 1), flat(), drop(0.5), fc(1, 2), act(acts::NKINDS)};
    for (int k = 0; k < 3; ++k) { static const char* nm[] = {"predictions of ", "training of ", "construction of "}; enumerate(nm[k] + str(small), [=] { return std::make_unique<ModelScene>(small, Dims{2, 2}, k); }); enumerate(nm[k] + str(big), [=] { return std::make_unique<ModelScene>(big, Dims{1, 1, 3, 3}, k); }); }
    mc::bound("failure points (one shard)", points_);
}
