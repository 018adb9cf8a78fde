// C05: tensors are values. Histories over a pool of tensors, against a pool of plain vectors.
#include "ref.hpp"
#include <memory>
using namespace ref;
typedef float T;
typedef Tensor<T> TT;

struct Pool { std::vector<std::unique_ptr<TT>> t; std::vector<RT> m; };
struct Op { std::string name; std::function<void(Pool&)> f; };

static void invariant(Pool& p) {
    for (size_t i = 0; i < p.t.size(); ++i) {
        expectExact(*p.t[i], p.m[i], "tensor t" + std::to_string(i));
        const TT& c = *p.t[i];
        for (size_t k = 0; k < p.m[i].size(); ++k) MC_CHECK(std::signbit(c[k]) == std::signbit(p.m[i].v[k]), "t" << i << "[" << k << "] is a zero of the wrong sign");
        for (size_t j = 0; j < i; ++j) {
            MC_CHECK(p.t[i]->getData().data() != p.t[j]->getData().data(), "t" << i << " and t" << j << " share storage");
            bool same = p.m[i] == p.m[j];
            MC_CHECK((c == *p.t[j]) == same && (*p.t[j] == c) == same && (c != *p.t[j]) == !same, "equality of t" << i << " and t" << j << " is wrong: " << str(p.m[i]) << " " << str(p.m[j]));
        }
    }
}
static void histories() {
    std::vector<Op> ops; const int N = 3;
    std::vector<Dims> start = {{2, 2}, {3}, {2, 2}};
    auto add = [&](const std::string& n, std::function<void(Pool&)> f) { ops.push_back({n, f}); };
    for (int i = 0; i < N; ++i) {
        std::string ti = "t" + std::to_string(i);
        for (int j = 0; j < N; ++j) {
            std::string tj = "t" + std::to_string(j);
            add(ti + "=" + tj, [=](Pool& p) { *p.t[i] = *p.t[j]; p.m[i] = p.m[j]; });
            add(ti + "=move(" + tj + ")", [=](Pool& p) {
                RT old = p.m[j]; *p.t[i] = std::move(*p.t[j]);
                if (i != j) { p.m[i] = old; }
                p.m[j] = i == j ? p.m[j] : rd(*p.t[j]); // a moved-from tensor is some valid tensor
                if (i == j) p.m[i] = rd(*p.t[i]); });
            if (i < j) add("swap(" + ti + "," + tj + ")", [=](Pool& p) { std::swap(*p.t[i], *p.t[j]); std::swap(p.m[i], p.m[j]); });
            if (i != j) add("new " + ti + "(move(" + tj + "))", [=](Pool& p) { std::unique_ptr<TT> n(new TT(std::move(*p.t[j]))); p.t[i] = std::move(n); p.m[i] = p.m[j]; p.m[j] = rd(*p.t[j]); });
            add("new " + ti + "(" + tj + ")", [=](Pool& p) { std::unique_ptr<TT> n(new TT(*p.t[j])); p.t[i] = std::move(n); p.m[i] = p.m[j]; });
            if (j == (i + 1) % N) {
                add(ti + ".getData()=" + tj + ".getData()", [=](Pool& p) { p.t[i]->getData() = p.t[j]->getData(); p.m[i] = p.m[j]; });
                add("new " + ti + "(" + tj + ".getData())", [=](Pool& p) { const TT& s = *p.t[j]; std::unique_ptr<TT> n(new TT(s.getData())); p.t[i] = std::move(n); p.m[i] = p.m[j]; });
                add(ti + "+=" + tj, [=](Pool& p) { Dims o; if (!compatible(p.m[i].d, p.m[j].d, &o) || prod(o) != prod(p.m[i].d)) { MC_CHECK(mc::throws([&] { *p.t[i] += *p.t[j]; }), "accepted"); return; } RT r = zip(p.m[i], p.m[j], [](double a, double b) { return (double)(float)(a + b); }); *p.t[i] += *p.t[j]; p.m[i].v = r.v; });
            }
        }
        add(ti + "[last]=9", [=](Pool& p) { size_t n = p.m[i].size(); (*p.t[i])[n - 1] = 9; p.m[i].v[n - 1] = 9; });
        add(ti + ".at(0..)=-1", [=](Pool& p) { Dims z(p.m[i].d.size(), 0); p.t[i]->at(z) = -1; p.m[i].v[0] = -1; });
        add(ti + "*=2", [=](Pool& p) { *p.t[i] *= 2; for (auto& x : p.m[i].v) x = (double)(float)(x * 2); });
        add(ti + ".reshape(n)", [=](Pool& p) { Dims d = {(int)p.m[i].size()}; p.t[i]->reshape(d); p.m[i].d = d; });
        add(ti + ".apply(x+1)", [=](Pool& p) { p.t[i]->apply([](T x) { return x + 1; }); for (auto& x : p.m[i].v) x = (double)(float)(x + 1); });
        add(ti + "=" + ti + ".slice(0,0)", [=](Pool& p) { RT& m = p.m[i]; Dims d(m.d.begin() + 1, m.d.end()); if (d.empty()) d = {1}; RT r(d); for (size_t k = 0; k < r.size(); ++k) r.v[k] = m.v[k]; *p.t[i] = p.t[i]->slice(0, 0); m = r; });
        add(ti + "=Tensor(2,1)", [=](Pool& p) { *p.t[i] = TT(Shape({2, 1}), T(4)); p.m[i] = RT({2, 1}, 4); });
        add(ti + ".getData().fill(5)", [=](Pool& p) { p.t[i]->getData().fill(5); for (auto& x : p.m[i].v) x = 5; });
        // 0 and -0 compare equal, but are different values: a copy has to carry them over
        add(ti + ".getData().fill(-0)", [=](Pool& p) { p.t[i]->getData().fill(T(-0.0f)); for (auto& x : p.m[i].v) x = -0.0; });
        if (i == 0) add(ti + ".getData().fill(0)", [=](Pool& p) { p.t[i]->getData().fill(T(0)); for (auto& x : p.m[i].v) x = 0; });
    }
    int depth = mc::thorough() ? 4 : 3;
    mc::bound("histories", "all sequences of up to " + std::to_string(depth) + " operations out of " + std::to_string(ops.size()) + " over three tensors");
    auto runWord = [&](const std::vector<int>& w) {
        Pool p; for (int i = 0; i < N; ++i) { p.m.push_back(rounded<T>(pat(start[i], i == 2 ? 0 : i))); p.t.emplace_back(new TT(mk<T>(p.m[i]))); }
        for (size_t k = 0; k < w.size(); ++k) { MC_TRAIL(ops[w[k]].name); ops[w[k]].f(p); invariant(p); }
        for (auto& m : p.m) mc::state(hash(m));
        mc::trace();
    };
    auto nameOf = [&](const std::vector<int>& w) { std::string s; for (int x : w) s += ops[x].name + "; "; return s; };
    words(1, (int)ops.size(), [&](const std::vector<int>& w) { mc::run([&] { return nameOf(w); }, [&] { runWord(w); }); });
    for (int L = 2; L <= depth; ++L) words(L - 1, (int)ops.size(), [&](const std::vector<int>& w) {
        mc::run([&] { return nameOf(w) + "then each operation"; }, [&] {
            for (size_t x = 0; x < ops.size(); ++x) {
                std::vector<int> v = w; v.push_back((int)x);
                try { runWord(v); } catch (mc::Failure& f) { throw mc::Failure{f.text + " [sequence: " + nameOf(v) + "]"}; }
            }
        });
    });
}
template <class U> static void constructions(const Dims& d) {
    size_t n = prod(d); RT p0 = rounded<U>(pat(d, 0)); std::vector<U> vals; for (double x : p0.v) vals.push_back((U)x);
    expectExact(Tensor<U>(Shape(d)), RT(d, 0), "Tensor(shape)");
    expectExact(Tensor<U>(Shape(d), U(3)), RT(d, 3), "Tensor(shape, value)");
    { std::vector<U> src = vals; Tensor<U> t(Shape(d), (const U*)src.data()); expectExact(t, p0, "Tensor(shape, pointer)"); src[0] = U(-9); expectExact(t, p0, "tensor built from a pointer, after the source changed"); t[0] = U(-5); MC_CHECK(src[0] == U(-9), "writing the tensor changed the source array"); }
    for (size_t k : {size_t(0), size_t(1), n - 1, n, n + 1, n + 2, 2 * n, n + 100}) {
        std::vector<U> v; for (size_t i = 0; i < k; ++i) v.push_back(U(i + 1));
        RT want(d, 0); for (size_t i = 0; i < std::min(k, n); ++i) want.v[i] = (double)(i + 1);
        const std::vector<U> cv = v;
        if (k > n) {
            MC_CHECK(mc::throws([&] { Tensor<U> t(Shape(d), cv); }), "too many values (" << k << " for " << str(d) << ") accepted from a vector");
            MC_CHECK(mc::throws([&] { std::vector<U> x = v; Tensor<U> t(Shape(d), std::move(x)); }), "too many values accepted from a moved vector");
        } else if (k == n) {
            expectExact(Tensor<U>(Shape(d), cv), want, "Tensor(shape, vector)");
            std::vector<U> x = v; Tensor<U> t(Shape(d), std::move(x)); expectExact(t, want, "Tensor(shape, moved vector)");
            std::vector<U> y = v; Tensor<U> t2(Shape(d), (const std::vector<U>&)y); y[0] = U(77); expectExact(t2, want, "tensor built from a vector, after the vector changed");
        }
    }
    // initializer lists of 1..6 values
    auto il = [&](std::initializer_list<U> l) {
        RT want(d, 0); size_t i = 0; for (U x : l) { if (i < n) want.v[i] = (double)x; ++i; }
        if (l.size() > n) MC_CHECK(mc::throws([&] { Tensor<U> t(Shape(d), l); }), "too many values (" << l.size() << " for " << str(d) << ") accepted from a list");
        else if (l.size() == n) expectExact(Tensor<U>(Shape(d), l), want, "Tensor(shape, list)");
    };
    il({U(1)}); il({U(1), U(2)}); il({U(1), U(2), U(3)}); il({U(1), U(2), U(3), U(4)}); il({U(1), U(2), U(3), U(4), U(5), U(6)}); il({U(1), U(2), U(3), U(4), U(5), U(6), U(7), U(8)});
    // copies
    Tensor<U> t = mk<U>(p0), c(t); c[n - 1] = U(-3); expectExact(t, p0, "source of a copy after writing the copy");
    MC_CHECK(!(t == c) && t != c, "tensors differing in the last element are equal");
    Tensor<U> e(t); MC_CHECK(t == e && !(t != e), "a copy differs"); e.reshape(Dims{1, (int)n}); MC_CHECK(d == Dims({1, (int)n}) || t != e, "tensors of different shape are equal");
    t = *&t; expectExact(t, p0, "self-assignment");
    TensorData<U, CPUDevice> dd(t.getData()); dd[0] = U(-8); expectExact(t, p0, "source of copied data");
    TensorData<U, CPUDevice> de(Shape({3})); de = t.getData(); de = *&de; Tensor<U> f(de); expectExact(f, p0, "assigned data"); de.fill(U(1)); expectExact(f, p0, "tensor built from data, after the data changed"); expectExact(t, p0, "source");
    Tensor<U> g(std::move(de)); expectExact(g, RT(d, 1), "tensor built from moved data");
    for (size_t k = 0; k < std::min(n, (size_t)40); ++k) { Tensor<U> x(t); x[k] = U(-1); MC_CHECK(x != t && !(x == t), "tensors differing in element " << k << " are equal"); }
    Tensor<U> mv(std::move(g)); expectExact(mv, RT(d, 1), "moved tensor"); rd(g); g = t; expectExact(g, p0, "moved-from tensor after assignment");
    Tensor<U> m2 = mk<U>(p0), m3(Shape({1})); m3 = std::move(m2); expectExact(m3, p0, "move-assigned"); rd(m2); Tensor<U> m4(m2); rd(m4); m2 = m3; expectExact(m2, p0, "moved-from tensor after assignment");
    mc::state(hash(p0));
}
void explore() {
    std::vector<Dims> all; shapes(4, 3, 81, [&](const Dims& d) { all.push_back(d); });
    for (Dims d : std::vector<Dims>{{4}, {5}, {17}, {64}, {65}, {257}, {5, 13}, {33, 33}, {1025}, {4097}, {70001}, {257, 256}, {262147}, {3, 100003}, {1000, 1001}, {2, 2, 2, 2, 2}}) all.push_back(d);
    mc::bound("constructions", "every constructor and copy/move form for all shapes of rank 1..4 with extents 1..3 and 16 larger ones (up to 1001000 elements)");
    for (auto& d : all) { mc::run([&] { return "constructions float " + str(d); }, [&] { constructions<float>(d); }); mc::run([&] { return "constructions double " + str(d); }, [&] { constructions<double>(d); }); }
    histories();
}
