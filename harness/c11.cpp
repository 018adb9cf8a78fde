// C11: activation gradients equal the derivative of the activation.
#include "acts.hpp"
using namespace ref;
typedef long double L;

template <class T> T fromBits(uint64_t u) { T x; if (sizeof(T) == 4) { uint32_t w = (uint32_t)u; memcpy(&x, &w, sizeof x); } else memcpy(&x, &u, sizeof x); return x; }

template <class T, class F> void block(int k, const std::vector<T>& xs, const std::vector<T>& gs, const Dims& shape) {
    auto act = acts::make<T>(k);
    Tensor<T> in{Shape(shape)}, up{Shape(shape)};
    for (size_t i = 0; i < xs.size(); ++i) { in.getData().data()[i] = xs[i]; up.getData().data()[i] = gs[i]; }
    Tensor<T> out = act->backward(in, up);
    MC_CHECK(out.getShape().getDimensions() == shape, acts::name(k) << " gradient of " << str(shape) << " has shape " << str(out.getShape().getDimensions()));
    const T* o = out.getData().data();
    double tol = std::is_same<T, float>::value ? 5e-6 : 5e-14;
    for (size_t i = 0; i < xs.size(); ++i) {
        F lo, hi; acts::df<T, F>(k, (F)xs[i], lo, hi); F g = (F)gs[i];
        double got = (double)o[i], a = (double)(g * lo), b = (double)(g * hi), t = tol * std::fabs((double)g);
        bool ok = std::isfinite(got) && (std::fabs(got - a) <= t + 1e-30 || std::fabs(got - b) <= t + 1e-30);
        if (!ok) { std::ostringstream s; s.precision(17); s << acts::name(k) << " gradient at x=" << (double)xs[i] << " with upstream " << (double)gs[i] << " (position " << i << ") is " << got << ", expected " << a; MC_FAIL(s.str()); }
        MC_CHECK(memcmp(&in.getData().data()[i], &xs[i], sizeof(T)) == 0 && memcmp(&up.getData().data()[i], &gs[i], sizeof(T)) == 0, acts::name(k) << " backward changed an operand at " << i);
    }
    mc::step(xs.size());
}
static double gradAt(size_t i) { static const double g[] = {1, -2.5, 0.125, 0, 1e-6, -7e8, 1, 0.5, -1, 3e20, -1e-20}; return g[i % 11]; }

template <class T> void softmaxCase(const Dims& d, const std::vector<double>& xs, const std::vector<double>& gs) {
    RT x(d, xs), g(d, gs); Tensor<T> in = mk<T>(x), up = mk<T>(g); RT rx = rounded<T>(x), rg = rounded<T>(g);
    auto act = acts::make<T>(acts::NKINDS); Tensor<T> out = act->backward(in, up);
    RT want(d), got = rd(out); size_t n = d[0], k = prod(d) / n;
    MC_CHECK(got.d == d, "softmax gradient of " << str(d) << " has shape " << str(got.d));
    for (size_t b = 0; b < n; ++b) {
        std::vector<L> p(k); L mx = rx.v[b * k], s = 0, dot = 0, big = 0; for (size_t i = 0; i < k; ++i) mx = std::max(mx, (L)rx.v[b * k + i]);
        for (size_t i = 0; i < k; ++i) s += p[i] = std::exp((L)rx.v[b * k + i] - mx);
        for (size_t i = 0; i < k; ++i) { p[i] /= s; dot += p[i] * rg.v[b * k + i]; big = std::max(big, (L)std::fabs(rg.v[b * k + i])); }
        double tol = (std::is_same<T, float>::value ? 4e-6 : 4e-14) * (double)big * (double)std::max<size_t>(1, k / 8) + 1e-44;
        for (size_t i = 0; i < k; ++i) {
            double w = (double)(p[i] * (rg.v[b * k + i] - dot)), q = got.v[b * k + i];
            MC_CHECK(std::isfinite(q) && std::fabs(q - w) <= tol, "softmax gradient of " << str(rx) << " with upstream " << str(rg) << ": element " << i << " of sample " << b << " is " << q << ", expected " << w);
        }
    }
    expectExact(in, rx, "input of softmax backward"); expectExact(up, rg, "upstream of softmax backward"); mc::step(); mc::state(hash(got));
}
template <class T> void rejections(int k) {
    std::vector<Dims> all; shapes(4, 2, 16, [&](const Dims& d) { all.push_back(d); });
    for (Dims d : std::vector<Dims>{{3}, {2, 3}, {3, 2}, {1, 3}, {6}, {1, 6}, {6, 1}, {3, 3}, {4, 3}}) all.push_back(d);
    auto act = acts::make<T>(k);
    for (auto& a : all) for (auto& b : all) if (a != b) {
        RT ma = pat(a, 4), mb = pat(b, 1); Tensor<T> x = mk<T>(ma), g = mk<T>(mb);
        MC_CHECK(mc::throws([&] { act->backward(x, g); }), acts::name(k) << " backward for input " << str(a) << " accepts an upstream gradient of shape " << str(b));
        expectExact(x, rounded<T>(ma), "input after rejection"); expectExact(g, rounded<T>(mb), "upstream after rejection"); mc::step();
    }
}
void explore() {
    bool full = mc::thorough(); const int B = 256;
    mc::bound("scalar gradients", full ? "all 2^32 float inputs and 2^20 double inputs, upstream gradients cycling over 11 values" : "all finite float inputs with 16 low bits 0 or 0x5a5a, all finite double inputs with any sign, exponent and 4 leading mantissa bits; upstream gradients cycling over 11 values");
    std::vector<Dims> sh = {{B}, {1, B}, {B / 4, 4}, {2, 4, B / 8}, {2, 2, 4, B / 16}};
    for (int k = 0; k < acts::NKINDS; ++k) {
        if (!full) for (uint32_t hi = 0; hi < 65536; hi += 4096) mc::run([&] { return std::string(acts::name(k)) + " gradient, float patterns from " + std::to_string(hi); }, [&] {
            for (uint32_t h = hi; h < hi + 4096; h += B) for (uint32_t low : {0u, 0x5a5au}) {
                std::vector<float> xs, gs; for (uint32_t j = 0; j < (uint32_t)B; ++j) { float x = fromBits<float>((uint64_t)(h + j) << 16 | low); xs.push_back(std::isfinite(x) ? x : 0.25f); gs.push_back((float)gradAt(h / B + j)); }
                block<float, L>(k, xs, gs, sh[(h / B) % sh.size()]);
            }
        });
        else for (uint64_t hi = 0; hi < (1ull << 32); hi += (1u << 22)) mc::run([&] { return std::string(acts::name(k)) + " gradient, float patterns from " + std::to_string(hi); }, [&] {
            for (uint64_t h = hi; h < hi + (1u << 22); h += 8192) {
                std::vector<float> xs, gs; for (uint32_t j = 0; j < 8192; ++j) { float x = fromBits<float>(h + j); xs.push_back(std::isfinite(x) ? x : 0.25f); gs.push_back((float)gradAt(h / 8192 + j)); }
                block<float, double>(k, xs, gs, {8192});
            }
        });
        uint64_t dn = full ? (1u << 20) : 65536;
        for (uint64_t hi = 0; hi < dn; hi += 4096) mc::run([&] { return std::string(acts::name(k)) + " gradient, double patterns from " + std::to_string(hi); }, [&] {
            for (uint64_t h = hi; h < hi + 4096; h += B) { int s = full ? 44 : 48; std::vector<double> xs, gs; for (uint32_t j = 0; j < (uint32_t)B; ++j) { double x = fromBits<double>((h + j) << s); xs.push_back(std::isfinite(x) ? x : 0.25); gs.push_back(gradAt(h / B + j)); } block<double, L>(k, xs, gs, sh[(h / B + 1) % sh.size()]); }
        });
        mc::run([&] { return std::string(acts::name(k)) + " gradient over shapes"; }, [&] {
            auto one = [&](const Dims& d) { std::vector<float> xs, gs; std::vector<double> ys, hs; for (size_t i = 0; i < prod(d); ++i) { double v = 0.37 * (double)((i * 29) % 61) - 11, u = 0.5 * (double)((i * 13) % 17) - 3.25; xs.push_back((float)v); ys.push_back(v); gs.push_back((float)u); hs.push_back(u); } block<float, L>(k, xs, gs, d); block<double, L>(k, ys, hs, d); };
            shapes(4, 3, 81, one); for (int n : {31, 32, 33, 64, 65, 127, 128, 129, 257, 1000, 1024, 1025, 4097, 65537, 70001}) { one({n}); one({n, 2}); one({3, n}); } for (int n : {131101, 262147, 1000003}) { one({n}); one({n / 100, 100}); }
        });
    }
    for (int k = 0; k <= acts::NKINDS; ++k) { mc::run([&] { return std::string(acts::name(k)) + ": mismatched upstream shapes (float)"; }, [&] { rejections<float>(k); }); mc::run([&] { return std::string(acts::name(k)) + ": mismatched upstream shapes (double)"; }, [&] { rejections<double>(k); }); }
    std::vector<double> al = {0, 1, -1, 5, -103, 1000, -1000, 3e38, -3e38}, gl = {1, 0, -2.5, 1e6}; int maxLen = full ? 4 : 3;
    mc::bound("softmax gradients", "all words of length 1.." + std::to_string(maxLen) + " over 9 magnitudes, upstream: all words over {1,0,-2.5,1e6}; batches of 1..3, rank 2..4");
    for (int n = 1; n <= maxLen; ++n) for (size_t first = 0; first < al.size(); ++first) mc::run([&] { return "softmax gradient, words of length " + std::to_string(n) + " starting with " + std::to_string(al[first]); }, [&] {
        words(n - 1, (int)al.size(), [&](const std::vector<int>& w) { words(n, (int)gl.size(), [&](const std::vector<int>& gw) {
            std::vector<double> v = {al[first]}, g; for (int i : w) v.push_back(al[i]); for (int i : gw) g.push_back(gl[i]);
            softmaxCase<float>({1, n}, v, g); softmaxCase<double>({1, n}, v, g);
            std::vector<double> v2 = v, g2 = g; for (int i = n - 1; i >= 0; --i) { v2.push_back(al[(first + 2 * i) % al.size()]); g2.push_back(gl[(gw[0] + i) % gl.size()]); }
            softmaxCase<float>({2, n}, v2, g2); softmaxCase<double>({n, 2}, v2, g2); if (gw[0] < 2) { softmaxCase<float>({1, n, 2}, v2, g2); softmaxCase<float>({2, 1, n, 1}, v2, g2); }
        }); });
        if (n == 1) shapes(4, 3, 81, [&](const Dims& d) { if (d.size() >= 2) for (int p = 1; p < 5; ++p) { softmaxCase<float>(d, pat(d, p, first).v, pat(d, 4, first + 3).v); softmaxCase<double>(d, pat(d, p, first).v, pat(d, 1, first + 3).v); } });
    });
    mc::bound("upstream magnitudes", "softmax gradients with upstream gradients scaled by 2^-100 to 2^80 (double: 2^-900 to 2^900)");
    for (int n = 1; n <= 4; ++n) for (int b = 1; b <= 3; ++b) mc::run([&] { return "softmax gradient of (" + std::to_string(b) + "," + std::to_string(n) + "), upstream magnitudes"; }, [&] { for (int k : {-100, -60, -30, -20, 20, 60, 80}) for (int o = 0; o < 3; ++o) { softmaxCase<float>({b, n}, pat({b, n}, 4, o).v, map(pat({b, n}, 1, o), [&](double x) { return std::ldexp(x, k); }).v); softmaxCase<double>({b, n}, pat({b, n}, 4, o).v, map(pat({b, n}, 1, o), [&](double x) { return std::ldexp(x, k * 9); }).v); } });
    for (Dims d : std::vector<Dims>{{200003, 3}, {1, 8009}, {20011, 11}}) mc::run([&] { return "softmax gradient of " + str(d); }, [&] { softmaxCase<double>(d, pat(d, 4).v, pat(d, 1).v); });
    for (int n : {10, 33, 100, 257, 1000}) mc::run([&] { return "softmax gradient of " + std::to_string(n) + " features"; }, [&] { for (int b : {1, 2, 5}) { softmaxCase<float>({b, n}, pat({b, n}, 4).v, pat({b, n}, 1).v); softmaxCase<double>({b, n}, pat({b, n}, 2).v, pat({b, n}, 4).v); } if (n <= 100) softmaxCase<float>({n, 7}, pat({n, 7}, 4).v, pat({n, 7}, 1).v); });
}
