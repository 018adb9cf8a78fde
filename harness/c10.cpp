// C10: activations compute their function over the whole range of finite inputs.
#include "acts.hpp"
using namespace ref;

template <class T> struct Bits;
template <> struct Bits<float> { typedef uint32_t U; static constexpr int n = 32; };
template <> struct Bits<double> { typedef uint64_t U; static constexpr int n = 64; };
template <class T> T fromBits(typename Bits<T>::U u) { T x; memcpy(&x, &u, sizeof x); return x; }

template <class T> bool okValue(double got, double want) {
    double a = std::is_same<T, float>::value ? 4e-6 : 4e-14, r = std::is_same<T, float>::value ? 4e-6 : 4e-14;
    return std::isfinite(got) && std::fabs(got - want) <= a + r * std::fabs(want);
}
// forward over one vector of values, in a tensor of the given shape
template <class T, class F> void block(int k, const std::vector<T>& xs, const Dims& shape) {
    auto act = acts::make<T>(k);
    Tensor<T> in{Shape(shape)}; for (size_t i = 0; i < xs.size(); ++i) in.getData().data()[i] = xs[i];
    Tensor<T> out = act->forward(in);
    MC_CHECK(out.getShape().getDimensions() == shape, acts::name(k) << " of " << str(shape) << " has shape " << str(out.getShape().getDimensions()));
    const T* o = out.getData().data(); const T* q = in.getData().data();
    MC_CHECK(o != q, "the result shares the input's storage");
    for (size_t i = 0; i < xs.size(); ++i) {
        double want = (double)acts::f<T, F>(k, (F)xs[i]);
        if (!okValue<T>((double)o[i], want)) { std::ostringstream s; s.precision(17); s << acts::name(k) << "(" << (double)xs[i] << ") at position " << i << " is " << (double)o[i] << ", expected " << want; MC_FAIL(s.str()); }
        MC_CHECK(memcmp(&q[i], &xs[i], sizeof(T)) == 0, acts::name(k) << " changed its input at position " << i);
    }
    mc::step(xs.size());
}
template <class T> void softmaxCase(const Dims& d, const std::vector<double>& vals) {
    RT m(d, vals); Tensor<T> in = mk<T>(m); RT r = rounded<T>(m);
    auto act = acts::make<T>(acts::NKINDS); Tensor<T> out = act->forward(in);
    RT want(d); size_t n = d[0], k = prod(d) / n;
    for (size_t b = 0; b < n; ++b) {
        long double mx = r.v[b * k], s = 0; for (size_t i = 0; i < k; ++i) mx = std::max(mx, (long double)r.v[b * k + i]);
        for (size_t i = 0; i < k; ++i) s += std::exp((long double)r.v[b * k + i] - mx);
        for (size_t i = 0; i < k; ++i) want.v[b * k + i] = (double)(std::exp((long double)r.v[b * k + i] - mx) / s);
    }
    RT got = rd(out);
    Tol tol = std::is_same<T, float>::value ? Tol{1e-6, 1e-5} : Tol{1e-13, 1e-12};
    expect(out, want, "softmax of " + str(r), tol);
    for (size_t b = 0; b < n; ++b) {
        double s = 0; for (size_t i = 0; i < k; ++i) { MC_CHECK(got.v[b * k + i] >= 0, "negative probability for " << str(r)); s += got.v[b * k + i]; }
        MC_CHECK(std::fabs(s - 1) <= 1e-5, "sample " << b << " of softmax " << str(r) << " sums to " << s);
    }
    expectExact(in, r, "input of softmax"); mc::state(hash(got));
}
void explore() {
    const int B = 256; // patterns per tensor
    bool full = mc::thorough();
    mc::bound("scalar activations", full ? "all 2^32 float inputs, and 2^20 double inputs (every sign, exponent and leading 8 mantissa bits)" : "all finite float inputs with the 16 low bits 0 or 0xffff or 0x5a5a, all finite double inputs with any sign, exponent and leading 4 mantissa bits");
    std::vector<Dims> shapes4 = {{B}, {1, B}, {B / 4, 4}, {2, 4, B / 8}, {2, 2, 4, B / 16}};
    for (int k = 0; k < acts::NKINDS; ++k) {
        if (!full) for (uint32_t hi = 0; hi < 65536; hi += 4096) mc::run([&] { return std::string(acts::name(k)) + " of float patterns from 0x" + std::to_string(hi); }, [&] {
            for (uint32_t h = hi; h < hi + 4096; h += B) for (uint32_t low : {0u, 0xffffu, 0x5a5au}) {
                std::vector<float> xs; for (uint32_t j = 0; j < (uint32_t)B; ++j) { float x = fromBits<float>((h + j) << 16 | low); xs.push_back(std::isfinite(x) ? x : 0.25f); }
                block<float, long double>(k, xs, shapes4[(h / B) % shapes4.size()]);
            }
        });
        else for (uint64_t hi = 0; hi < (1ull << 32); hi += (1u << 22)) mc::run([&] { return std::string(acts::name(k)) + " of float patterns from " + std::to_string(hi); }, [&] {
            for (uint64_t h = hi; h < hi + (1u << 22); h += 8192) {
                std::vector<float> xs; for (uint32_t j = 0; j < 8192; ++j) { float x = fromBits<float>((uint32_t)(h + j)); xs.push_back(std::isfinite(x) ? x : 0.25f); }
                block<float, double>(k, xs, {8192});
            }
        });
        uint64_t dn = full ? (1u << 20) : 65536;
        for (uint64_t hi = 0; hi < dn; hi += 4096) mc::run([&] { return std::string(acts::name(k)) + " of double patterns from " + std::to_string(hi); }, [&] {
            for (uint64_t h = hi; h < hi + 4096; h += B) for (uint64_t low : {0ull, ~0ull}) {
                std::vector<double> xs; int sh = full ? 44 : 48; for (uint32_t j = 0; j < (uint32_t)B; ++j) { double x = fromBits<double>((h + j) << sh | (low >> (64 - sh))); xs.push_back(std::isfinite(x) ? x : 0.25); }
                block<double, long double>(k, xs, shapes4[(h / B + 2) % shapes4.size()]);
            }
        });
        // every size and shape: each element depends on its own input only
        mc::run([&] { return std::string(acts::name(k)) + " over shapes"; }, [&] {
            auto one = [&](const Dims& d) {
                std::vector<float> xs; std::vector<double> ys; for (size_t i = 0; i < prod(d); ++i) { double v = 0.37 * (double)((i * 29) % 61) - 11; xs.push_back((float)v); ys.push_back(v); }
                block<float, long double>(k, xs, d); block<double, long double>(k, ys, d);
            };
            shapes(4, 3, 81, one); for (int n : {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 257, 1000, 1023, 1024, 1025, 4097, 65537, 70001}) { one({n}); one({n, 2}); one({3, n}); one({1, n}); } for (int n : {131101, 262147, 1000003}) { one({n}); one({n / 100, 100}); }
        });
    }
    // softmax: all samples over an alphabet of magnitudes
    std::vector<double> al = {0, 1, -1, 87, -103, 1000, -1000, 3e38, -3e38, 1e-30};
    if (full) for (double x : {0.5, 20.0, 88.8, -88.0, 1e10, -1e20}) al.push_back(x);
    int maxLen = full ? 4 : 3;
    mc::bound("softmax samples", "all words of length 1.." + std::to_string(maxLen) + " over " + std::to_string(al.size()) + " magnitudes up to 3e38, as single samples, in batches of 2 and 3 with other samples, and in rank 3 and 4 tensors");
    for (int n = 1; n <= maxLen; ++n) for (size_t first = 0; first < al.size(); ++first) mc::run([&] { return "softmax words of length " + std::to_string(n) + " starting with " + std::to_string(al[first]); }, [&] {
        words(n - 1, (int)al.size(), [&](const std::vector<int>& w) {
            std::vector<double> v = {al[first]}; for (int i : w) v.push_back(al[i]);
            softmaxCase<float>({1, n}, v); softmaxCase<double>({1, n}, v); softmaxCase<float>({n, 1}, v);
            std::vector<double> two = v; for (int i = n - 1; i >= 0; --i) two.push_back(al[(first + 3 * i) % al.size()]);
            softmaxCase<float>({2, n}, two); softmaxCase<double>({n, 2}, two); softmaxCase<float>({2, n, 1}, two); softmaxCase<float>({1, 2, n}, two); softmaxCase<double>({1, n, 1, 2}, two);
            std::vector<double> three = two; for (int i = 0; i < n; ++i) three.push_back(v[(i + 1) % n] * 0.5); softmaxCase<float>({3, n}, three); softmaxCase<double>({n, 3, 1}, three);
        });
        if (n == 1) for (int extra = 0; extra < 1; ++extra) shapes(4, 3, 81, [&](const Dims& d) { if (d.size() >= 2) for (int p = 0; p < 5; ++p) { softmaxCase<float>(d, pat(d, p, first).v); softmaxCase<double>(d, pat(d, p, first).v); } });
    });
    mc::run([&] { return std::string("softmax of 70001 features"); }, [&] { softmaxCase<double>({2, 70001}, pat({2, 70001}, 4).v); softmaxCase<double>({1, 70001}, pat({1, 70001}, 1).v); });
    for (Dims d : std::vector<Dims>{{1, 262147}, {3, 400009}, {200003, 3}, {1000, 1001}}) mc::run([&] { return "softmax of " + str(d); }, [&] { softmaxCase<double>(d, pat(d, 4).v); });
    for (int n : {10, 33, 100, 257, 1000, 1025, 4099}) mc::run([&] { return "softmax of " + std::to_string(n) + " features"; }, [&] {
        for (int b : {1, 2, 5}) { softmaxCase<float>({b, n}, pat({b, n}, 4).v); softmaxCase<double>({b, n}, pat({b, n}, 1).v); softmaxCase<float>({b, n}, pat({b, n}, 0).v); softmaxCase<float>({b, n}, pat({b, n}, 3).v); }
        if (n <= 257) for (int b : {17, 64, 65}) softmaxCase<float>({b, n}, pat({b, n}, 4).v);
        softmaxCase<float>({n, 3}, pat({n, 3}, 4).v); softmaxCase<float>({n, 1}, pat({n, 1}, 4).v);
    });
}
