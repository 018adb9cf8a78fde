// ref.hpp - the reference model: naive tensors of doubles, written to be boring.
#pragma once
#include "smart_dnn/Tensor/Tensor.hpp"
#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"
#include "mc.hpp"
#include <cmath>
#include <string>
#include <vector>

using Dims = std::vector<int>;
using smart_dnn::Tensor;
using smart_dnn::TensorData;

namespace ref {

inline size_t prod(const Dims& d) { size_t p = 1; for (int x : d) p *= (size_t)x; return p; }
inline std::string str(const Dims& d) { std::string s = "("; for (size_t i = 0; i < d.size(); ++i) s += (i ? "," : "") + std::to_string(d[i]); return s + ")"; }
template <class V> std::string vstr(const std::vector<V>& v, size_t max = 24) {
    std::ostringstream o; o << "["; for (size_t i = 0; i < v.size() && i < max; ++i) o << (i ? "," : "") << v[i]; if (v.size() > max) o << ",..."; o << "]"; return o.str();
}
// row-major: last index runs fastest
inline Dims unflat(size_t f, const Dims& d) { Dims r(d.size()); for (int i = (int)d.size() - 1; i >= 0; --i) { r[i] = (int)(f % d[i]); f /= d[i]; } return r; }
inline size_t flat(const Dims& i, const Dims& d) { size_t f = 0; for (size_t k = 0; k < d.size(); ++k) f = f * d[k] + i[k]; return f; }

struct RT {
    Dims d; std::vector<double> v;
    RT() {}
    explicit RT(Dims dd, double x = 0) : d(std::move(dd)), v(prod(d), x) {}
    RT(Dims dd, std::vector<double> vv) : d(std::move(dd)), v(std::move(vv)) {}
    double& at(const Dims& i) { return v[flat(i, d)]; }
    double at(const Dims& i) const { return v[flat(i, d)]; }
    size_t size() const { return v.size(); }
    bool operator==(const RT& o) const { return d == o.d && v == o.v; }
};
inline std::string str(const RT& r) { return str(r.d) + vstr(r.v); }

inline bool compatible(const Dims& a, const Dims& b, Dims* out = nullptr) {
    size_t n = std::max(a.size(), b.size()); Dims r(n);
    for (size_t k = 0; k < n; ++k) {
        int x = k < a.size() ? a[a.size() - 1 - k] : 1, y = k < b.size() ? b[b.size() - 1 - k] : 1;
        if (x != y && x != 1 && y != 1) return false;
        r[n - 1 - k] = std::max(x, y);
    }
    if (out) *out = r;
    return true;
}
// element of a at index i of the broadcast shape
inline double bat(const RT& a, const Dims& i) {
    Dims j(a.d.size());
    for (size_t k = 0; k < a.d.size(); ++k) { int x = i[i.size() - a.d.size() + k]; j[k] = a.d[k] == 1 ? 0 : x; }
    return a.at(j);
}
template <class F> RT zip(const RT& a, const RT& b, F f) {
    Dims o; if (!compatible(a.d, b.d, &o)) abort();
    RT r(o); for (size_t k = 0; k < r.size(); ++k) { Dims i = unflat(k, o); r.v[k] = f(bat(a, i), bat(b, i)); }
    return r;
}
template <class F> RT map(const RT& a, F f) { RT r(a.d); for (size_t k = 0; k < a.size(); ++k) r.v[k] = f(a.v[k]); return r; }
inline RT transpose(const RT& a, size_t x, size_t y) {
    Dims o = a.d; std::swap(o[x], o[y]); RT r(o);
    for (size_t k = 0; k < a.size(); ++k) { Dims i = unflat(k, a.d); std::swap(i[x], i[y]); r.at(i) = a.v[k]; }
    return r;
}
// sum over axes, summed extents kept as 1
inline RT sumKeep(const RT& a, const std::vector<size_t>& axes) {
    Dims o = a.d; for (size_t x : axes) o[x] = 1;
    RT r(o);
    for (size_t k = 0; k < a.size(); ++k) { Dims i = unflat(k, a.d); for (size_t x : axes) i[x] = 0; r.at(i) += a.v[k]; }
    return r;
}
inline Dims dropAxes(const Dims& d, const std::vector<size_t>& axes) {
    Dims o; for (size_t k = 0; k < d.size(); ++k) if (std::find(axes.begin(), axes.end(), k) == axes.end()) o.push_back(d[k]);
    if (o.empty()) o.push_back(1);
    return o;
}

// ---- tolerances: every comparison is |x-y| <= atol + rtol*|y| ----
struct Tol { double a, r; };
template <class T> constexpr Tol exactish() { return std::is_same<T, float>::value ? Tol{1e-6, 2e-6} : Tol{1e-14, 4e-15}; }
template <class T> constexpr Tol loose() { return std::is_same<T, float>::value ? Tol{2e-5, 1e-4} : Tol{1e-11, 1e-9}; }
inline bool close(double x, double y, Tol t) {
    if (x == y) return true;
    if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y);
    if (std::isinf(x) || std::isinf(y)) return false;
    return std::fabs(x - y) <= t.a + t.r * std::fabs(y);
}

template <class T> Tensor<T> mk(const RT& r) { Tensor<T> t{Shape(r.d)}; for (size_t i = 0; i < r.size(); ++i) t.getData().data()[i] = T(r.v[i]); return t; }
template <class T> RT rd(const Tensor<T>& t) {
    RT r; r.d = t.getShape().getDimensions(); size_t n = t.getShape().size();
    MC_CHECK(n == prod(r.d), "tensor of shape " << str(r.d) << " reports size " << n);
    MC_CHECK(t.getData().data() != nullptr, "tensor without storage");
    const T* p = t.getData().data(); r.v.resize(n);
    for (size_t i = 0; i < n; ++i) r.v[i] = (double)p[i];
    return r;
}
// the values a tensor of type T holds after being given r
template <class T> RT rounded(RT r) { for (auto& x : r.v) x = (double)T(x); return r; }

template <class T> void expect(const Tensor<T>& t, const RT& want, const std::string& what, Tol tol) {
    RT got = rd(t);
    MC_CHECK(got.d == want.d, what << ": shape " << str(got.d) << ", expected " << str(want.d));
    for (size_t i = 0; i < want.size(); ++i)
        MC_CHECK(close(got.v[i], want.v[i], tol), what << ": element " << str(unflat(i, want.d)) << " is " << got.v[i] << ", expected " << want.v[i]
                 << "; got " << vstr(got.v) << ", expected " << vstr(want.v));
    mc::step();
}
template <class T> void expectExact(const Tensor<T>& t, const RT& want, const std::string& what) { expect(t, rounded<T>(want), what, Tol{0, 0}); }

inline uint64_t hash(const RT& r) {
    uint64_t h = 77; for (int x : r.d) h = mc::mix(h, (uint64_t)x + 1);
    for (double x : r.v) { uint64_t b; float f = (float)x; if (f == 0) f = 0; uint32_t c; memcpy(&c, &f, 4); b = c; h = mc::mix(h, b); }
    return h;
}
template <class T> void seen(const Tensor<T>& t) { mc::state(hash(rd(t))); }

// ---- enumeration helpers ----
template <class F> void shapesOfRank(int rank, int maxDim, size_t maxSize, F f) {
    Dims d(rank, 1);
    for (;;) {
        if (prod(d) <= maxSize) f(d);
        int k = rank - 1;
        while (k >= 0 && ++d[k] > maxDim) d[k--] = 1;
        if (k < 0) return;
    }
}
template <class F> void shapes(int maxRank, int maxDim, size_t maxSize, F f) { for (int r = 1; r <= maxRank; ++r) shapesOfRank(r, maxDim, maxSize, f); }
// all vectors over alphabet 0..k-1 of length n
template <class F> void words(int n, int k, F f) {
    std::vector<int> w(n, 0);
    for (;;) { f(w); int i = n - 1; while (i >= 0 && ++w[i] == k) w[i--] = 0; if (i < 0) return; }
}

// ---- value patterns ----
// 0: 1,2,3..  1: alternating signs with halves  2: contains zeros and repeats  3: mixed magnitudes (powers of two)
inline double pv(int kind, size_t i) {
    switch (kind) {
        case 0: return double(i % 1021 + 1);
        case 1: return ((i * 7) % 23 + 1) * 0.5 * (i % 2 ? -1 : 1);
        case 2: return double((int)((i * 5) % 7) - 3);
        case 3: return std::ldexp(1.0 + (i % 5) * 0.25, (int)((i * 3) % 21) - 10) * (i % 3 == 1 ? -1 : 1);
        case 4: return 0.25 * (double)((i * 11) % 17) - 1.75;
        default: return 0;
    }
}
// below float precision every value carries its own tail: float tensors do not see it, double tensors lose it in any detour through float
inline double tail(size_t i) { return 1 + (double)((int)((i * 37) % 101) - 50) * 0x1p-37; }
inline RT pat(const Dims& d, int kind, size_t off = 0) { RT r(d); for (size_t i = 0; i < r.size(); ++i) r.v[i] = pv(kind, i + off) * tail(i + off); return r; }

} // namespace ref
