// C07: reductions equal their definitions.
#include "ref.hpp"
#include <climits>
using namespace ref;
typedef std::vector<size_t> Axes;
static std::string axstr(const Axes& a) { std::string s = "{"; for (size_t x : a) s += std::to_string(x) + ","; return s + "}"; }

static std::vector<Axes> axisLists(size_t rank) { // every non-empty set of axes in every order
    std::vector<Axes> r;
    for (unsigned m = 1; m < (1u << rank); ++m) { Axes a; for (size_t k = 0; k < rank; ++k) if (m >> k & 1) a.push_back(k); do r.push_back(a); while (std::next_permutation(a.begin(), a.end())); }
    return r;
}
// value patterns for reductions: small integers (exact sums), a large common offset, fractions
static RT vals(const Dims& d, int kind) { RT r = pat(d, 2); if (kind == 1) for (auto& x : r.v) x = 4096 + x; if (kind == 2) r = pat(d, 1); return r; }

template <class T> static void reduce(const Dims& d, int kind, int scale = 0) { // all values times 2^scale
    typedef smart_dnn::AdvancedTensorOperations<T> A; typedef smart_dnn::TensorOperations<T, CPUDevice> O;
    RT m = map(vals(d, kind), [&](double x) { return std::ldexp(x, scale); }); Tensor<T> t = mk<T>(m); size_t rank = d.size(); double n = (double)m.size();
    bool f = std::is_same<T, float>::value;
    Tol sumTol = f ? Tol{1e-4, 1e-6 * (kind == 1 ? 4 : 1)} : Tol{1e-11, 1e-12}, meanTol = f ? Tol{2e-5, 2e-6} : Tol{1e-13, 1e-13};
    Tol varTol = f ? (kind == 1 ? Tol{2e-2, 2e-2} : Tol{1e-4, 1e-4}) : (kind == 1 ? Tol{1e-7, 1e-8} : Tol{1e-11, 1e-11});
    sumTol.a = std::ldexp(sumTol.a, scale); meanTol.a = std::ldexp(meanTol.a, scale); varTol.a = std::ldexp(varTol.a, 2 * scale);
    double tot = 0; for (double x : m.v) tot += x;
    double mu = tot / n, ss = 0; for (double x : m.v) ss += (x - mu) * (x - mu);
    expect(A::sum(t), RT({1}, tot), "sum of all of " + str(d), sumTol);
    expect(Tensor<T>(O::sum(t.getData())), RT({1}, tot), "sum of all of " + str(d), sumTol);
    Tensor<T> mt = A::mean(t); expect(mt, RT({1}, mu), "mean of all of " + str(d), meanTol);
    expect(A::variance(t, mt), RT({1}, ss / n), "variance of all of " + str(d), varTol);
    for (size_t ax = 0; ax < rank; ++ax) {
        RT k = sumKeep(m, {ax}); Dims o = dropAxes(d, {ax});
        Tensor<T> s = A::sum(t, ax); expect(s, RT(o, k.v), "sum of " + str(d) + " over axis " + std::to_string(ax), sumTol); seen(s);
        expect(Tensor<T>(O::sum(t.getData(), ax)), RT(o, k.v), "sum of " + str(d) + " over axis " + std::to_string(ax), sumTol);
    }
    for (auto& ax : axisLists(rank)) {
        RT k = sumKeep(m, ax); double cnt = n / (double)k.size(); bool all = ax.size() == rank;
        std::string w = str(d) + " over " + axstr(ax);
        Tensor<T> s = A::sum(t, ax); expect(s, RT(dropAxes(d, ax), k.v), "sum of " + w, sumTol); seen(s);
        RT mean = map(k, [&](double x) { return x / cnt; }); if (all) mean.d = {1};
        Tensor<T> me = A::mean(t, ax); expect(me, mean, "mean of " + w, meanTol); seen(me);
        RT mk2 = mean; mk2.d = k.d; RT diff = zip(m, mk2, [](double a, double b) { return (a - b) * (a - b); });
        RT var = map(sumKeep(diff, ax), [&](double x) { return x / cnt; }); var.d = mean.d;
        Tensor<T> va = A::variance(t, me, ax); expect(va, var, "variance of " + w, varTol); seen(va);
        // a mean tensor of the keep-extent shape gives the same variance in that shape
        if (all) { Tensor<T> me2 = mk<T>(mk2); RT v2 = var; v2.d = k.d; expect(A::variance(t, me2, ax), v2, "variance of " + w + " with a keep-extent mean", varTol); }
        expect(me, mean, "mean tensor after variance", meanTol);
    }
    // out of range axes
    for (size_t bad : {rank, rank + 1, rank + 7, (size_t)SIZE_MAX, (size_t)INT_MAX}) {
        MC_CHECK(mc::throws([&] { A::sum(t, bad); }), "sum over axis " << bad << " of " << str(d) << " accepted");
        for (Axes ax : std::vector<Axes>{{bad}, {0, bad}, {bad, 0}, {rank - 1, bad}}) {
            MC_CHECK(mc::throws([&] { A::sum(t, ax); }), "sum over " << axstr(ax) << " of " << str(d) << " accepted");
            MC_CHECK(mc::throws([&] { A::mean(t, ax); }), "mean over " << axstr(ax) << " of " << str(d) << " accepted");
            MC_CHECK(mc::throws([&] { A::variance(t, mt, ax); }), "variance over " << axstr(ax) << " of " << str(d) << " accepted");
        }
        Axes full; for (size_t k = 0; k + 1 < rank; ++k) full.push_back(k); full.push_back(bad);
        MC_CHECK(mc::throws([&] { A::mean(t, full); }), "mean over " << axstr(full) << " of " << str(d) << " accepted");
    }
    expectExact(t, rounded<T>(m), "input of reductions");
}
void explore() {
    std::vector<Dims> all; shapes(4, 3, 81, [&](const Dims& d) { all.push_back(d); });
    shapesOfRank(5, 2, 32, [&](const Dims& d) { all.push_back(d); });
    for (Dims d : std::vector<Dims>{{4}, {5, 4}, {4, 5}, {7, 2, 5}, {2, 7, 5}, {2, 3, 2, 3, 2}, {3, 2, 1, 2, 3}, {70, 3}, {3, 70}, {2, 70, 2}, {130, 2}, {2, 130}, {33, 35}, {1, 129, 1}, {2, 2, 2, 2, 2, 2}, {8, 8, 8}, {4, 3, 9, 9}, {2, 16, 5, 5}, {1000, 2}, {2, 1000}, {64, 65}}) all.push_back(d);
    if (mc::thorough()) { shapesOfRank(5, 3, 243, [&](const Dims& d) { all.push_back(d); }); shapesOfRank(4, 4, 256, [&](const Dims& d) { all.push_back(d); }); }
    mc::bound("reductions", std::to_string(all.size()) + " shapes up to rank 6, every non-empty set of axes in every order, three value patterns, float and double");
    for (auto& d : all) for (int k = 0; k < 3; ++k) {
        if (d.size() >= 6 && k) continue;
        mc::run([&] { return "float " + str(d) + " pattern " + std::to_string(k); }, [&] { reduce<float>(d, k); });
        mc::run([&] { return "double " + str(d) + " pattern " + std::to_string(k); }, [&] { reduce<double>(d, k); });
    }
    for (int n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1001, 1023, 1024, 1025, 4096, 4097, 70001})
        mc::run([&] { return "size sweep " + std::to_string(n); }, [&] { reduce<float>({n}, 0); reduce<double>({n}, 2); if (n < 5000) { reduce<float>({n, 2}, 0); reduce<float>({2, n}, 0); reduce<double>({n, 1}, 0); } });
    for (int n : {131101, 262147}) for (int k = 0; k < 5; ++k) mc::run([&] { return "large " + std::to_string(n) + " pattern " + std::to_string(k); }, [&] { if (k == 0) reduce<double>({n}, 2); if (k == 1) reduce<double>({n, 2}, 0); if (k == 2) reduce<double>({2, n}, 1); if (k == 3) reduce<double>({3, n / 6, 2}, 2); if (k == 4) reduce<float>({n}, 0); });
    mc::bound("large tensors", "131101 and 262147 elements, mostly along one axis");
    mc::bound("magnitudes", "21 shapes with all values scaled by 2^-50, 2^-20, 2^40 (double: 2^-400, 2^400)");
    for (Dims d : std::vector<Dims>{{1}, {2}, {5}, {16}, {33}, {1, 1}, {2, 3}, {3, 2}, {1, 4}, {4, 1}, {2, 2, 2}, {1, 3, 2}, {3, 1, 2}, {2, 3, 1}, {2, 1, 2, 2}, {2, 2, 1, 3}, {1, 2, 3, 2}, {2, 2, 2, 2}, {2, 2, 2, 2, 2}, {8, 9}, {130}}) mc::run([&] { return "magnitudes " + str(d); }, [&] { for (int k : {0, 2}) { for (int s : {-50, -20, 40}) reduce<float>(d, k, s); for (int s : {-400, -50, 400}) reduce<double>(d, k, s); } });
}
