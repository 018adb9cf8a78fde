// C04: elementwise arithmetic equals the pointwise definition.
#include "ref.hpp"
using namespace ref;
using smart_dnn::AdvancedTensorOperations;
using smart_dnn::TensorOperations;

template <class T> static double ap(int op, double a, double b) {
    T x = (T)a, y = (T)b;
    switch (op) { case 0: return (double)T(x + y); case 1: return (double)T(x - y); case 2: return (double)T(x * y); default: return (double)T(x / y); }
}
static const char* OPN[] = {"+", "-", "*", "/"};
template <class T> static Tensor<T> out(int op, const Tensor<T>& a, const Tensor<T>& b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
template <class T> static Tensor<T>& in(int op, Tensor<T>& a, const Tensor<T>& b) { switch (op) { case 0: return a += b; case 1: return a -= b; case 2: return a *= b; default: return a /= b; } }
template <class T> static Tensor<T> outS(int op, const Tensor<T>& a, T b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
template <class T> static Tensor<T> outSL(int op, T b, const Tensor<T>& a) { switch (op) { case 0: return b + a; case 1: return b - a; case 2: return b * a; default: return b / a; } }
template <class T> static Tensor<T>& inS(int op, Tensor<T>& a, T b) { switch (op) { case 0: return a += b; case 1: return a -= b; case 2: return a *= b; default: return a /= b; } }

// every result to within a few units in its last place, however small it is
template <class T> constexpr Tol relative() { return std::is_same<T, float>::value ? Tol{2e-45, 2e-6} : Tol{1e-323, 4e-15}; }
template <class T> static void pairOps(const RT& ra, const RT& rb) {
    Tol tol = relative<T>();
    Tensor<T> a = mk<T>(ra), b = mk<T>(rb); RT xa = rounded<T>(ra), xb = rounded<T>(rb);
    Dims o; bool comp = compatible(ra.d, rb.d, &o);
    for (int op = 0; op < 4; ++op) {
        std::string what = str(ra.d) + OPN[op] + str(rb.d);
        if (!comp) {
            MC_CHECK(mc::throws([&] { out(op, a, b); }), what << " accepted");
            MC_CHECK(mc::throws([&] { in(op, a, b); }), "in-place " << what << " accepted");
        } else {
            RT want = zip(xa, xb, [&](double x, double y) { return ap<T>(op, x, y); });
            Tensor<T> r = out(op, a, b); expect(r, want, what, tol); seen(r);
            if (prod(o) == prod(ra.d)) {
                Tensor<T> c = mk<T>(ra); Tensor<T>& ret = in(op, c, b);
                MC_CHECK(&ret == &c, "in-place " << what << " does not return its target");
                expect(c, RT(ra.d, want.v), "in-place " + what, tol);
            } else {
                Tensor<T> c = mk<T>(ra); MC_CHECK(mc::throws([&] { in(op, c, b); }), "in-place " << what << " accepted although it enlarges the target"); expectExact(c, xa, "target of a rejected in-place " + what);
            }
        }
        expectExact(a, xa, "left operand of " + what); expectExact(b, xb, "right operand of " + what);
    }
}
template <class T> static void unary(const RT& ra) {
    Tol tol = relative<T>(); typedef TensorOperations<T, CPUDevice> TO;
    RT xa = rounded<T>(ra); Tensor<T> a = mk<T>(ra);
    for (double sd : {0.0, 1.0, -1.0, 2.0, -2.5, 0.125, 1e-6, 12345.0, 1e10}) {
        T s = (T)sd;
        for (int op = 0; op < 4; ++op) {
            std::string what = str(ra.d) + OPN[op] + "scalar " + std::to_string(sd);
            if (op == 3 && sd == 0) {
                MC_CHECK(mc::throws([&] { outS(op, a, s); }), what << " accepted");
                Tensor<T> c = mk<T>(ra); MC_CHECK(mc::throws([&] { inS(op, c, s); }), "in-place " << what << " accepted"); expectExact(c, xa, "target of a rejected division");
            } else {
                RT want = map(xa, [&](double x) { return ap<T>(op, x, (double)s); });
                expect(outS(op, a, s), want, what, tol);
                Tensor<T> c = mk<T>(ra); Tensor<T>& ret = inS(op, c, s); MC_CHECK(&ret == &c, "in-place result"); expect(c, want, "in-place " + what, tol);
                Tensor<T> dd = mk<T>(ra);
                switch (op) { case 0: TO::addScalarInPlace(dd.getData(), s); break; case 1: TO::subtractScalarInPlace(dd.getData(), s); break; case 2: TO::multiplyScalarInPlace(dd.getData(), s); break; default: TO::divideScalarInPlace(dd.getData(), s); }
                expect(dd, want, "in-place function " + what, tol); seen(c);
            }
            RT wl = map(xa, [&](double x) { return op == 1 ? (double)T(s - (T)x) : ap<T>(op, (double)s, x); });
            expect(outSL(op, s, a), wl, "scalar" + std::string(OPN[op]) + str(ra.d), op == 1 ? Tol{tol.a + std::fabs(sd) * tol.r, tol.r * 4} : tol);
        }
    }
    expect(-a, map(xa, [](double x) { return -x; }), "negation", tol);
    RT sq = map(xa, [](double x) { return (double)std::sqrt((T)x); });
    expect(a.sqrt(), sq, "square root", tol);
    { Tensor<T> c = mk<T>(ra); TO::sqrtInPlace(c.getData()); expect(c, sq, "in-place square root", tol); }
    for (double e : {1e-12, 0.5, 2.0}) {
        auto rec = [&](double x) { return std::fabs(x) > (double)(T)e ? (double)T(T(1) / (T)x) : (double)T(T(1) / (T)e); };
        expect(AdvancedTensorOperations<T>::reciprocal(a, (T)e), map(xa, rec), "reciprocal", tol);
        if (e == 1e-12) expect(AdvancedTensorOperations<T>::reciprocal(a), map(xa, rec), "reciprocal with the default epsilon", tol);
    }
    size_t calls = 0;
    auto f = [&](T x) { ++calls; return T(x * T(2) + T(1)); };
    RT fw = map(xa, [](double x) { return (double)T((T)x * T(2) + T(1)); });
    expect(AdvancedTensorOperations<T>::apply(a, f), fw, "apply", tol);
    { Tensor<T> c = mk<T>(ra); Tensor<T>& ret = c.apply(f); MC_CHECK(&ret == &c, "apply result"); expect(c, fw, "in-place apply", tol); }
    MC_CHECK(calls == 2 * ra.size(), "a mapped function was called " << calls << " times for two passes over " << ra.size() << " elements");
    RT rb = pat(ra.d, 4, 3), xb = rounded<T>(rb); Tensor<T> b = mk<T>(rb);
    expect(AdvancedTensorOperations<T>::applyPair(a, b, [](T x, T y) { return T(x * T(3) - y); }), zip(xa, xb, [](double x, double y) { return (double)T((T)x * T(3) - (T)y); }), "applyPair", Tol{tol.a * 10, tol.r * 10});
    // a tensor combined with itself
    for (int op = 0; op < 4; ++op) {
        RT want = map(xa, [&](double x) { return ap<T>(op, x, x); });
        expect(out(op, a, a), want, "a op a", tol);
        Tensor<T> c = mk<T>(ra); in(op, c, c); expect(c, want, "a op= a", tol);
    }
    expectExact(a, xa, "operand of unary operations"); expectExact(b, xb, "second operand");
}
// ---- sequences of in-place operations over a pool with every aliasing ----
static void sequences() {
    typedef float T;
    std::vector<Dims> sh = {{2, 3}, {1, 3}, {3}}; struct Op { int kind, op, i, j; };
    std::vector<Op> ops;
    for (int op = 0; op < 4; ++op) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ops.push_back({0, op, i, j});
    for (int op = 0; op < 4; ++op) for (int i = 0; i < 3; ++i) ops.push_back({1, op, i, 0});
    for (int i = 0; i < 3; ++i) ops.push_back({2, 0, i, 0});
    int depth = 3; if (mc::thorough()) depth = 4;
    mc::bound("in-place histories", "all sequences of " + std::to_string(depth) + " out of " + std::to_string(ops.size()) + " in-place operations over tensors (2,3),(1,3),(3)");
    words(depth - 1, (int)ops.size(), [&](const std::vector<int>& w) {
        mc::run([&] { std::string s = "in-place sequence"; for (int x : w) s += " t" + std::to_string(ops[x].i) + OPN[ops[x].op] + "=" + (ops[x].kind == 0 ? "t" + std::to_string(ops[x].j) : ops[x].kind == 1 ? "2" : "0"); return s + " then each operation"; }, [&] {
            for (size_t last = 0; last < ops.size(); ++last) {
                std::vector<Tensor<T>> t; std::vector<RT> m;
                for (int k = 0; k < 3; ++k) { m.push_back(rounded<T>(pat(sh[k], 4, k * 5 + 1))); t.push_back(mk<T>(m[k])); }
                auto doOp = [&](const Op& o) {
                    if (o.kind == 1) { inS<T>(o.op, t[o.i], T(2)); m[o.i] = map(m[o.i], [&](double x) { return ap<T>(o.op, x, 2); }); }
                    else if (o.kind == 2) MC_CHECK(mc::throws([&] { inS<T>(3, t[o.i], T(0)); }), "division by zero accepted");
                    else if (prod(sh[o.j]) > prod(sh[o.i])) MC_CHECK(mc::throws([&] { in(o.op, t[o.i], t[o.j]); }), "enlarging in-place operation accepted");
                    else { RT r = zip(m[o.i], m[o.j], [&](double x, double y) { return ap<T>(o.op, x, y); }); in(o.op, t[o.i], t[o.j]); m[o.i].v = r.v; }
                };
                for (int x : w) { doOp(ops[x]); }
                doOp(ops[last]);
                for (int k = 0; k < 3; ++k) expect(t[k], m[k], "tensor " + std::to_string(k) + " after the sequence ending in operation " + std::to_string(last), Tol{1e-5, 1e-4});
                mc::trace();
            }
        });
    });
}
void explore() {
    std::vector<Dims> all; shapes(4, 3, 36, [&](const Dims& d) { all.push_back(d); });
    if (mc::thorough()) shapesOfRank(5, 2, 32, [&](const Dims& d) { all.push_back(d); });
    mc::bound("pairs", "all ordered pairs of " + std::to_string(all.size()) + " shapes of rank 1..4, extents 1..3, four value patterns, float and double");
    for (auto& a : all) mc::run([&] { return "operators on " + str(a) + " and every shape"; }, [&] {
        size_t k = prod(a);
        for (auto& b : all) {
            MC_TRAIL(str(b)); ++k;
            Dims o; bool c = compatible(a, b, &o);
            bool small = c && prod(o) <= 12;
            pairOps<float>(pat(a, 1), pat(b, 3, 2));
            if (small) { pairOps<float>(pat(a, 0), pat(b, 2)); pairOps<double>(pat(a, 3), pat(b, 1, 5)); pairOps<double>(pat(a, 2), pat(b, 2, 1)); }
            else if (c) pairOps<double>(pat(a, 4), pat(b, 1));
        }
        for (int p = 0; p < 5; ++p) { unary<float>(pat(a, p)); unary<double>(pat(a, p, 3)); }
    });
    // applyPair rejects different shapes
    for (auto& a : all) if (prod(a) <= 6) mc::run([&] { return "applyPair mismatches " + str(a); }, [&] {
        for (auto& b : all) if (a != b) { Tensor<float> x = mk<float>(pat(a, 0)), y = mk<float>(pat(b, 0)); MC_CHECK(mc::throws([&] { AdvancedTensorOperations<float>::applyPair(x, y, [](float p, float q) { return p + q; }); }), "applyPair of " << str(a) << " and " << str(b) << " accepted"); mc::step(); }
    });
    // size sweeps past any block or threshold size
    std::vector<int> ns; for (int n = 1; n <= 70; ++n) ns.push_back(n);
    for (int n : {127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2049, 4096, 4097, 10001}) ns.push_back(n);
    if (mc::thorough()) for (int n : {16385, 65535, 65536, 65537, 100003}) ns.push_back(n);
    mc::bound("size sweep", "vector lengths 1..70 and selected lengths up to " + std::to_string(ns.back()));
    for (int n : ns) mc::run([&] { return "size sweep " + std::to_string(n); }, [&] {
        pairOps<float>(pat({n}, 1), pat({n}, 3)); pairOps<double>(pat({n}, 1), pat({n}, 4)); unary<float>(pat({n}, 3)); unary<double>(pat({n}, 1));
        pairOps<float>(pat({n}, 1), pat({1}, 3)); pairOps<float>(pat({1}, 1), pat({n}, 3)); pairOps<float>(pat({2, n}, 1), pat({n}, 3)); pairOps<float>(pat({n, 2}, 1), pat({2}, 3)); pairOps<float>(pat({n, 2}, 1), pat({n, 1}, 3));
        if (n <= 130) pairOps<float>(pat({n, 1}, 1), pat({1, 3}, 3)), pairOps<float>(pat({3, 1}, 1), pat({1, n}, 3)), pairOps<float>(pat({3, 1, n}, 1), pat({2, 1}, 2));
    });
    mc::bound("large vectors", "32767 to 1000003 elements");
    for (int n : {32767, 32768, 65535, 65536, 65537, 70001, 131072, 131101, 262147, 1000003}) mc::run([&] { return "large vectors " + std::to_string(n); }, [&] { if (n > 100000) { pairOps<double>(pat({n}, 1), pat({n}, 4)); pairOps<double>(pat({2, n}, 1), pat({2, 1}, 3)); unary<double>(pat({n, 2}, 1)); } pairOps<float>(pat({n}, 1), pat({n}, 3)); pairOps<float>(pat({n}, 1), pat({1}, 3)); unary<float>(pat({n}, 3)); });
    // extreme values
    mc::run([] { return std::string("extreme values"); }, [] {
        std::vector<double> ex = {0.0, -0.0, 1.0, -1.0, 1e-38, -1e-38, 1e-45, 3e38, -3e38, 1e20, 1e-20, 0.1, 1.0 / 3, 16777216.0, 16777217.0, -0.5};
        std::vector<double> x, y; for (double a : ex) for (double b : ex) { x.push_back(a); y.push_back(b); }
        Dims d = {(int)x.size()}; pairOps<float>(RT(d, x), RT(d, y)); pairOps<double>(RT(d, x), RT(d, y)); unary<double>(RT(d, x));
        for (double a : ex) for (double b : ex) pairOps<float>(RT({1}, {a}), RT({1}, {b}));
    });
    sequences();
}
