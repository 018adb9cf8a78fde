// C08: matrix products and transpose equal their definitions.
#include "ref.hpp"
using namespace ref;

// the defined product, or false if the operands are not admissible
static bool product(const RT& a, const RT& b, RT& r) {
    size_t p = a.d.size(), q = b.d.size();
    auto mm = [](const RT& x, size_t xo, const RT& y, size_t yo, int m, int k, int n, RT& z, size_t zo) { for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int t = 0; t < k; ++t) s += x.v[xo + i * k + t] * y.v[yo + t * n + j]; z.v[zo + i * n + j] = s; } };
    if (p == 1 && q == 1) { if (a.d[0] != b.d[0]) return false; r = RT({1}); mm(a, 0, b, 0, 1, a.d[0], 1, r, 0); return true; }
    if (p == 1 && q == 2) { if (a.d[0] != b.d[0]) return false; r = RT({b.d[1]}); mm(a, 0, b, 0, 1, a.d[0], b.d[1], r, 0); return true; }
    if (p == 2 && q == 1) { if (a.d[1] != b.d[0]) return false; r = RT({a.d[0]}); mm(a, 0, b, 0, a.d[0], a.d[1], 1, r, 0); return true; }
    if (p == 2 && q == 2) { if (a.d[1] != b.d[0]) return false; r = RT({a.d[0], b.d[1]}); mm(a, 0, b, 0, a.d[0], a.d[1], b.d[1], r, 0); return true; }
    if (p == 3 && q == 2) { if (a.d[2] != b.d[0]) return false; r = RT({a.d[0], a.d[1], b.d[1]}); for (int n = 0; n < a.d[0]; ++n) mm(a, (size_t)n * a.d[1] * a.d[2], b, 0, a.d[1], a.d[2], b.d[1], r, (size_t)n * a.d[1] * b.d[1]); return true; }
    if (p == 2 && q == 3) { if (a.d[1] != b.d[1]) return false; r = RT({b.d[0], a.d[0], b.d[2]}); for (int n = 0; n < b.d[0]; ++n) mm(a, 0, b, (size_t)n * b.d[1] * b.d[2], a.d[0], a.d[1], b.d[2], r, (size_t)n * a.d[0] * b.d[2]); return true; }
    if (p == q && p >= 3) {
        for (size_t k = 0; k + 2 < p; ++k) if (a.d[k] != b.d[k]) return false;
        int m = a.d[p - 2], k = a.d[p - 1], n = b.d[p - 1]; if (k != b.d[p - 2]) return false;
        Dims o = a.d; o[p - 1] = n; r = RT(o); size_t bt = prod(a.d) / (m * k);
        for (size_t x = 0; x < bt; ++x) mm(a, x * m * k, b, x * k * n, m, k, n, r, x * m * n);
        return true;
    }
    return false;
}
static bool batchBroadcastable(const Dims& a, const Dims& b) { // equal rank, only batch extents of 1 differ
    if (a.size() != b.size() || a.size() < 3) return false;
    for (size_t k = 0; k + 2 < a.size(); ++k) if (a[k] != b[k] && a[k] != 1 && b[k] != 1) return false;
    return a[a.size() - 1] == b[b.size() - 2];
}
template <class T> static void mul(const RT& ma0, const RT& mb0, double unit = 1) {
    RT ma = rounded<T>(ma0), mb = rounded<T>(mb0);
    typedef smart_dnn::AdvancedTensorOperations<T> A;
    Tensor<T> a = mk<T>(ma), b = mk<T>(mb); RT want; std::string w = str(ma.d) + " x " + str(mb.d);
    if (product(ma, mb, want)) { Tensor<T> r = A::matmul(a, b); expect(r, want, w, Tol{1e-9 * unit, std::is_same<T, float>::value ? 1e-5 : 1e-12}); seen(r); }
    else if (batchBroadcastable(ma.d, mb.d)) { // rejecting, and broadcasting the batch, are both sound
        Tensor<T> r(Shape({1})); bool rej = mc::throws([&] { r = A::matmul(a, b); });
        if (!rej) {
            Dims oa = ma.d, ob = mb.d; for (size_t k = 0; k + 2 < oa.size(); ++k) oa[k] = ob[k] = std::max(oa[k], ob[k]);
            RT ea(oa), eb(ob); for (size_t k = 0; k < ea.size(); ++k) ea.v[k] = bat(ma, unflat(k, oa)); for (size_t k = 0; k < eb.size(); ++k) eb.v[k] = bat(mb, unflat(k, ob));
            product(ea, eb, want); expect(r, want, w + " (batch broadcast)", Tol{1e-9, 1e-5});
        }
    } else MC_CHECK(mc::throws([&] { A::matmul(a, b); }), "product " << w << " accepted");
    expectExact(a, rounded<T>(ma), "left operand of " + w); expectExact(b, rounded<T>(mb), "right operand of " + w); mc::step();
}
template <class T> static void trans(const Dims& d) {
    typedef smart_dnn::AdvancedTensorOperations<T> A;
    RT m = pat(d, 0); Tensor<T> t = mk<T>(m); size_t r = d.size();
    for (size_t x = 0; x < r; ++x) for (size_t y = 0; y < r; ++y) {
        std::string w = "transpose(" + std::to_string(x) + "," + std::to_string(y) + ") of " + str(d);
        Tensor<T> u = A::transpose(t, x, y); expectExact(u, transpose(m, x, y), w); seen(u);
        expectExact(A::transpose(u, x, y), m, w + " twice"); expectExact(A::transpose(u, y, x), m, w + " and back");
    }
    for (size_t bad : {r, r + 1, (size_t)SIZE_MAX}) { MC_CHECK(mc::throws([&] { A::transpose(t, 0, bad); }), "dimension " << bad << " accepted"); MC_CHECK(mc::throws([&] { A::transpose(t, bad, 0); }), "dimension " << bad << " accepted"); MC_CHECK(mc::throws([&] { A::transpose(t, bad, bad); }), "dimension " << bad << " accepted"); }
    expectExact(t, m, "operand of transpose");
}
void explore() {
    std::vector<Dims> lo; shapes(2, 5, 25, [&](const Dims& d) { lo.push_back(d); });
    std::vector<Dims> hi; shapesOfRank(3, 3, 27, [&](const Dims& d) { hi.push_back(d); });
    int m4 = mc::thorough() ? 3 : 2; shapesOfRank(4, m4, 81, [&](const Dims& d) { hi.push_back(d); });
    for (Dims d : std::vector<Dims>{{3, 1, 2, 3}, {1, 3, 3, 2}, {2, 3, 2, 2}, {3, 2, 2, 1}, {2, 2, 2, 2, 2}, {2, 1, 2, 3, 2}, {2, 1, 2, 2, 3}}) hi.push_back(d);
    std::vector<Dims> all = lo; all.insert(all.end(), hi.begin(), hi.end());
    mc::bound("products", "all ordered pairs of " + std::to_string(all.size()) + " shapes (rank 1-2 extents 1..5, rank 3 extents 1..3, rank 4-5 small), three value patterns");
    for (auto& a : all) mc::run([&] { return "products " + str(a) + " x every shape"; }, [&] {
        for (auto& b : all) { MC_TRAIL(str(b)); mul<float>(pat(a, 2), pat(b, 4, 1)); mul<double>(pat(a, 1), pat(b, 2, 3)); mul<float>(pat(a, 0), pat(b, 0, 7)); }
    });
    std::vector<int> s = {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 33}; if (mc::thorough()) s.insert(s.end(), {5, 6, 31, 32, 63, 64, 65});
    mc::bound("size sweep", "all (m,k,n) over {1,2,3,4,7,8,9,15,16,17,33} and lines through larger sizes");
    for (int m : s) for (int k : s) mc::run([&] { return "sweep (" + std::to_string(m) + "," + std::to_string(k) + ") x n"; }, [&] {
        for (int n : s) { mul<float>(pat({m, k}, 2), pat({k, n}, 2, 3)); if (m < 9) mul<float>(pat({2, m, k}, 2), pat({k, n}, 2, 3)); if (k < 9 && n < 9) { mul<double>(pat({m, k}, 2), pat({2, k, n}, 2, 3)); mul<double>(pat({2, m, k}, 2), pat({2, k, n}, 2, 3)); } }
        mul<float>(pat({m, k}, 2), pat({k}, 2, 3)); mul<float>(pat({k}, 2), pat({k, m}, 2, 3));
    });
    for (int n : {31, 32, 63, 64, 65, 100, 127, 128, 129, 256, 257, 300, 1000, 1025, 4097, 32769, 65537, 70001}) mc::run([&] { return "sweep through " + std::to_string(n); }, [&] {
        mul<float>(pat({n}, 2), pat({n}, 2, 3)); mul<float>(pat({n, 3}, 2), pat({3, 2}, 2)); mul<float>(pat({3, n}, 2), pat({n, 2}, 2, 1)); mul<float>(pat({3, 2}, 2), pat({2, n}, 2, 1)); mul<double>(pat({n, 3}, 2), pat({3}, 2)); mul<double>(pat({3, n}, 2), pat({n}, 2)); mul<float>(pat({n}, 2), pat({n, 3}, 2, 5));
        if (n <= 129) { mul<float>(pat({n, 33}, 2), pat({33, 17}, 2)); mul<float>(pat({n, n}, 2), pat({n, 3}, 2)); mul<float>(pat({65, n}, 2), pat({n, 66}, 2)); mul<float>(pat({n, 2, 3}, 2), pat({3, 2}, 2)); mul<float>(pat({2, 3}, 2), pat({n, 3, 2}, 2)); mul<float>(pat({n, 2, 3}, 2), pat({n, 3, 2}, 2)); }
    });
    mc::bound("large products", "one extent of 131101 or 262147 in each place; transposes of 160000 to 180000 elements");
    for (int n : {131101, 262147}) for (int k = 0; k < 6; ++k) mc::run([&] { return "large products " + std::to_string(n) + " kind " + std::to_string(k); }, [&] { switch (k) { case 0: mul<double>(pat({n, 3}, 2), pat({3, 2}, 2)); break; case 1: mul<double>(pat({3, n}, 2), pat({n, 2}, 2, 1)); break; case 2: mul<double>(pat({3, 2}, 2), pat({2, n}, 2, 1)); break; case 3: mul<double>(pat({n}, 2), pat({n}, 2, 3)); break; case 4: mul<float>(pat({n, 2}, 2), pat({2}, 2)); break; default: mul<double>(pat({2, 3, n / 4}, 2), pat({2, n / 4, 2}, 2, 3)); } });
    mc::run([&] { return std::string("large transpose of a matrix"); }, [&] { trans<float>({400, 401}); }); mc::run([&] { return std::string("large transpose of rank 3"); }, [&] { trans<double>({2, 30011, 3}); });
    std::vector<Dims> ts; shapes(4, 4, 100, [&](const Dims& d) { ts.push_back(d); }); shapesOfRank(5, mc::thorough() ? 3 : 2, 243, [&](const Dims& d) { ts.push_back(d); });
    for (Dims d : std::vector<Dims>{{70}, {3, 70}, {70, 3}, {33, 65}, {130, 2}, {17, 2, 19}, {2, 3, 4, 5, 3}, {2, 3, 2, 3, 2, 2}, {64, 64}, {65, 31}, {40, 41}, {100, 11}}) ts.push_back(d);
    mc::bound("transpose", "all dimension pairs for " + std::to_string(ts.size()) + " shapes up to rank 6");
    for (auto& d : ts) { mc::run([&] { return "transpose float " + str(d); }, [&] { trans<float>(d); }); mc::run([&] { return "transpose double " + str(d); }, [&] { trans<double>(d); }); }
    mc::bound("magnitudes", "products of all admissible pairs among 40 shapes with the operands scaled by powers of two (2^-45 to 2^40 each; double 2^-400 to 2^400)");
    std::vector<Dims> ms; shapes(2, 3, 9, [&](const Dims& d) { ms.push_back(d); }); shapesOfRank(3, 2, 8, [&](const Dims& d) { ms.push_back(d); }); for (Dims d : std::vector<Dims>{{4}, {5}, {4, 5}, {5, 4}, {16, 3}, {3, 16}, {16}, {2, 3, 4}, {4, 2, 3}, {33}, {2, 33}, {2, 2, 2, 2}}) ms.push_back(d);
    for (auto& a : ms) mc::run([&] { return "magnitudes " + str(a) + " x every shape"; }, [&] { for (auto& b : ms) { RT w; if (!product(pat(a, 2), pat(b, 2), w)) continue; auto sc = [](const RT& r, int k) { return map(r, [&](double x) { return std::ldexp(x, k); }); };
        for (auto s : std::vector<std::pair<int, int>>{{-45, -45}, {-45, 0}, {0, -45}, {40, 40}, {-45, 40}}) { mul<float>(sc(pat(a, 2), s.first), sc(pat(b, 4, 1), s.second), std::ldexp(1, s.first + s.second)); int p = s.first * 9, q = s.second * 9; mul<double>(sc(pat(a, 1), p), sc(pat(b, 2, 3), q), std::ldexp(1e-5, p + q)); } } });
}
