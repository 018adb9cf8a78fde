// C03: broadcasting follows the right-aligned rule.
#include "ref.hpp"
#include "big.hpp"
using namespace ref;
using smart_dnn::BroadcastView;
using smart_dnn::ShapeOperations;

template <class T> static void view(const Dims& src, const Dims& dst) {
    RT base = rounded<T>(pat(src, 0)); Tensor<T> t = mk<T>(base);
    const TensorData<T, CPUDevice>& data = t.getData();
    Dims o; bool comp = compatible(src, dst, &o);
    // expandable: right-aligned, each source extent equals the target's or is 1, and no further source dimensions
    bool leadingOnes = src.size() > dst.size();
    for (size_t k = 0; k + dst.size() < src.size(); ++k) leadingOnes &= src[k] == 1;
    bool fits = comp; for (size_t k = 0; k < std::min(src.size(), dst.size()); ++k) { int s = src[src.size() - 1 - k], d = dst[dst.size() - 1 - k]; fits &= s == d || s == 1; }
    bool ok = fits && src.size() <= dst.size();
    if (!ok && !(fits && leadingOnes)) {
        MC_CHECK(mc::throws([&] { BroadcastView<T, CPUDevice> v(data, Shape(dst)); }), "a view of " << str(src) << " as " << str(dst) << " was accepted");
        expectExact(t, base, "source of a rejected view"); return;
    }
    if (!ok) { // only extra leading extents of 1: rejecting and dropping them are both sound
        if (mc::throws([&] { BroadcastView<T, CPUDevice> v(data, Shape(dst)); })) return;
    }
    BroadcastView<T, CPUDevice> v(data, Shape(dst));
    MC_CHECK(v.shape().getDimensions() == dst && v.shape().size() == prod(dst), "view shape " << str(v.shape().getDimensions()));
    RT b2(base); if (leadingOnes) b2.d = Dims(src.end() - dst.size(), src.end());
    size_t n = prod(dst); auto it = v.begin(), e = v.end(); auto it2 = v.begin();
    uint64_t h = 3;
    for (size_t f = 0; f < n; ++f) {
        Dims i = unflat(f, dst); double want = bat(b2, i);
        MC_CHECK((double)v[i] == want, "view of " << str(src) << " as " << str(dst) << " at " << str(i) << " is " << v[i] << ", expected " << want);
        MC_CHECK(it != e && !(it == e), "iteration of " << str(src) << " as " << str(dst) << " ends after " << f << " elements");
        MC_CHECK((double)*it == want, "iteration of " << str(src) << " as " << str(dst) << " gives " << *it << " at position " << f << ", expected " << want);
        MC_CHECK(it == it2 && !(it != it2), "equal iterators differ");
        ++it; ++it2; h = mc::mix(h, (uint64_t)want); mc::step();
    }
    MC_CHECK(it == e && !(it != e), "iteration of " << str(src) << " as " << str(dst) << " does not end after " << n << " elements");
    MC_CHECK(mc::throws([&] { volatile T x = *it; (void)x; }), "the end iterator could be read");
    // the view shows the current contents of its source
    if (prod(src) <= 12) for (size_t k = 0; k < base.size(); ++k) {
        t.getData().data()[k] = T(-7); b2.v[k] = -7;
        for (size_t f = 0; f < n; ++f) { Dims i = unflat(f, dst); MC_CHECK((double)v[i] == bat(b2, i), "view does not follow its source"); }
        b2.v[k] = base.v[k]; t.getData().data()[k] = T(base.v[k]);
    }
    expectExact(t, base, "source of a view"); mc::state(h);
}
static void pair(const Dims& a, const Dims& b) {
    Shape x(a), y(b); Dims o; bool comp = compatible(a, b, &o);
    MC_CHECK(ShapeOperations::areBroadcastable(x, y) == comp, "areBroadcastable(" << str(a) << "," << str(b) << ") is " << !comp);
    if (comp) {
        Shape r = ShapeOperations::broadcastShapes(x, y);
        MC_CHECK(r.getDimensions() == o && r.size() == prod(o) && r == Shape(o) && r.getStride() == Shape(o).getStride(), "broadcast of " << str(a) << " and " << str(b) << " is " << str(r.getDimensions()));
    } else MC_CHECK(mc::throws([&] { ShapeOperations::broadcastShapes(x, y); }), "broadcast of " << str(a) << " and " << str(b) << " accepted");
    MC_CHECK(x.getDimensions() == a && y.getDimensions() == b, "operands changed"); mc::step();
}
// more elements than 32 bits can count, in the source or only in the target
static void huge(const Dims& src, const Dims& dst) {
    big::Big b(src); if (!b.t) return; BroadcastView<big::C, CPUDevice> v(*b.t, Shape(dst)); int k = 0;
    MC_CHECK(v.shape().getDimensions() == dst && v.shape().size() == prod(dst), "view shape " << str(v.shape().getDimensions()));
    big::corners(dst, [&](const Dims& i) { Dims j(src.size()); for (size_t q = 0; q < src.size(); ++q) j[q] = src[q] == 1 ? 0 : i[i.size() - src.size() + q]; size_t f = flat(j, src); MC_TRAIL(str(i)); big::C x = (big::C)(1 + ++k % 100), old = b.p[f]; b.p[f] = x; MC_CHECK(v[i] == x, "view of " << str(src) << " as " << str(dst) << " at " << str(i) << " does not show the element " << str(j)); b.p[f] = old; mc::step(); });
}
void explore() {
    mc::bound("large views", "corners, thirds and middles of views of tensors of up to 2^33 elements and of small tensors over such targets");
    for (auto& d : big::dims()) mc::run([&] { return "huge views of " + str(d); }, [&] {
        huge(d, d); Dims e = d; e.insert(e.begin(), 3); huge(d, e); huge({1}, d);
        for (size_t k = 0; k < d.size(); ++k) { Dims s = d; s[k] = 1; huge(s, d); Dims o(d.size(), 1); o[k] = d[k]; huge(o, d); }
    });
    for (auto& q : std::vector<std::pair<Dims, Dims>>{{{1}, {262147}}, {{131101}, {131101}}, {{131101}, {2, 131101}}, {{131101, 1}, {131101, 2}}, {{1, 131101}, {3, 131101}}, {{400, 1}, {400, 401}}, {{401}, {400, 401}}, {{20, 1, 20, 1}, {20, 21, 20, 23}}}) mc::run([&] { return "long view of " + str(q.first) + " as " + str(q.second); }, [&] { view<float>(q.first, q.second); pair(q.first, q.second); });
    std::vector<Dims> all, big;
    shapes(4, 3, 81, [&](const Dims& d) { all.push_back(d); });
    if (mc::thorough()) shapesOfRank(5, 3, 243, [&](const Dims& d) { all.push_back(d); });
    else shapesOfRank(5, 2, 32, [&](const Dims& d) { all.push_back(d); });
    for (Dims d : std::vector<Dims>{{4}, {5}, {4, 1}, {1, 4}, {5, 4}, {1, 5, 1}, {70}, {70, 1}, {3, 70}, {70, 3}, {130}, {2, 130}, {130, 2}, {1, 130, 1}, {2, 130, 3}, {1000, 1}, {1000, 2}, {2, 1, 2, 1, 2, 1}, {1, 2, 1, 2, 1, 2}, {2, 2, 2, 2, 2, 2}}) big.push_back(d);
    mc::bound("pairs", "all ordered pairs of " + std::to_string(all.size()) + " shapes (rank 1..5, extents 1..3) and all pairs of " + std::to_string(big.size()) + " larger shapes");
    auto both = [&](const std::vector<Dims>& s) {
        for (auto& a : s) mc::run([&] { return "source " + str(a) + " against every target"; }, [&] {
            for (auto& b : s) { MC_TRAIL(str(b)); pair(a, b); view<float>(a, b); if (prod(b) <= 16) view<double>(a, b); }
        });
    };
    both(all);
    for (auto& d : all) if (d.size() <= 2) big.push_back(d);
    both(big);
}
