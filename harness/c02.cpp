// C02: element addressing is an exact row-major bijection.
#include "ref.hpp"
#include "big.hpp"
#include <climits>
#include <set>
using namespace ref;

template <class T> static void checkAddressing(Tensor<T>& t, const Dims& d, const RT& base, size_t sparse = 130) {
    const Tensor<T>& c = t;
    size_t n = prod(d);
    bool big = n > sparse;
    std::set<const T*> seenAddr;
    T marker = T(-4096);
    for (size_t f = 0; f < n; ++f) {
        Dims i = unflat(f, d);
        MC_CHECK((double)c.at(i) == base.v[f], "at" << str(i) << " of " << str(d) << " reads " << c.at(i) << ", expected " << base.v[f]);
        MC_CHECK((double)t.at(i) == base.v[f] && (double)c[f] == base.v[f] && (double)t[f] == base.v[f], "element " << f << " of " << str(d) << " reads inconsistently");
        MC_CHECK((double)t.getData().at(i) == base.v[f] && (double)c.getData().at(i) == base.v[f] && (double)c.getData()[f] == base.v[f], "data element " << f << " of " << str(d) << " reads inconsistently");
        MC_CHECK(smart_dnn::computeFlatIndex(t.getShape(), i) == f, "flat index of " << str(i) << " in " << str(d) << " is " << smart_dnn::computeFlatIndex(t.getShape(), i));
        seenAddr.insert(&c.at(i));
        T old = t.at(i);
        if (f % 2) t.at(i) = marker; else t[f] = marker;
        if (!big || f % (n > 20000 ? n / 23 : 37) == 0 || f + 1 == n) { RT r = rd(t); for (size_t k = 0; k < n; ++k) MC_CHECK(r.v[k] == (k == f ? (double)marker : base.v[k]), "writing element " << str(i) << " of " << str(d) << " changed element " << str(unflat(k, d))); }
        else MC_CHECK(c[f] == marker, "write lost");
        t.getData().at(i) = old;
        mc::step();
    }
    MC_CHECK(seenAddr.size() == n, "two index tuples of " << str(d) << " share an element");
    expectExact(t, base, "after restoring every element");
}
template <class T> static void checkRejections(Tensor<T>& t, const Dims& d, const RT& base, size_t boxLimit = 64) {
    const Tensor<T>& c = t;
    auto bad = [&](const Dims& i) {
        MC_CHECK(mc::throws([&] { t.at(i) = T(5); }), "index " << str(i) << " accepted for shape " << str(d));
        MC_CHECK(mc::throws([&] { volatile T x = c.at(i); (void)x; }), "index " << str(i) << " accepted for const shape " << str(d));
    };
    bad(Dims{});
    Dims longer(d.size() + 1, 0), shorter(d.size() - 1, 0); bad(longer); if (!shorter.empty()) bad(shorter);
    // every tuple in the box -1..d with at least one component outside, and extreme components
    size_t n = prod(d);
    if (n <= boxLimit && d.size() <= (mc::thorough() ? 5u : 4u)) {
        Dims box = d; for (int& x : box) x += 2;
        for (size_t f = 0; f < prod(box); ++f) { Dims i = unflat(f, box); bool out = false; for (size_t k = 0; k < d.size(); ++k) { i[k] -= 1; out |= i[k] < 0 || i[k] >= d[k]; } if (out) bad(i); }
    }
    for (size_t k = 0; k < d.size(); ++k) for (int x : {INT_MIN, -2147483647, -d[k], -1, d[k], d[k] + 1, INT_MAX}) for (int other : {0, 1}) {
        Dims i(d.size(), 0); for (size_t q = 0; q < d.size(); ++q) i[q] = other ? d[q] - 1 : 0; i[k] = x; bad(i);
    }
    // a component too large in one dimension compensated in another must still be rejected
    if (d.size() >= 2) { Dims i(d.size(), 0); i[d.size() - 1] = d[d.size() - 1]; bad(i); i[d.size() - 1] = -1; i[0] = d[0] - 1; bad(i); }
    expectExact(t, base, "after rejected accesses");
}
template <class T> static void oneShape(const Dims& d, const std::vector<Dims>& others) {
    RT base = rounded<T>(pat(d, 0)); Tensor<T> t = mk<T>(base);
    checkAddressing(t, d, base); checkRejections(t, d, base);
    for (auto& o : others) if (prod(o) == prod(d)) {
        MC_TRAIL("reshape to " << str(o));
        t.reshape(o); RT b2(o, base.v); expectExact(t, b2, "after reshape"); checkAddressing(t, o, b2, 12);
        if (prod(d) <= 24) checkRejections(t, o, b2, mc::thorough() ? 64 : 8);
        seen(t);
    }
}
// more elements than 32 bits can count
static void huge(const Dims& d) {
    big::Big b(d); if (!b.t) return; auto& t = *b.t; const auto& c = t; Shape s(d); int k = 0;
    big::corners(d, [&](const Dims& i) {
        size_t f = flat(i, d); MC_TRAIL(str(i));
        MC_CHECK(smart_dnn::computeFlatIndex(s, i) == f, "the flat index of " << str(i) << " in " << str(d) << " is " << smart_dnn::computeFlatIndex(s, i) << ", expected " << f);
        big::C v = (big::C)(1 + ++k % 100), old = b.p[f]; b.p[f] = v; MC_CHECK(c.at(i) == v && t.at(i) == v && c[f] == v && t[f] == v, "element " << str(i) << " of " << str(d) << " does not read its own storage");
        t.at(i) = (big::C)-v; MC_CHECK(b.p[f] == -v, "element " << str(i) << " of " << str(d) << " is not written in place"); b.p[f] = old;
        for (size_t q = 0; q < d.size(); ++q) { Dims j = i; j[q] = d[q]; if (d[q] < INT_MAX) MC_CHECK(mc::throws([&] { t.at(j); }), str(j) << " accepted for " << str(d)); j[q] = -1; MC_CHECK(mc::throws([&] { t.at(j); }), str(j) << " accepted for " << str(d)); }
        mc::step();
    });
}
// flat indices of shapes too large to hold
static void indexOnly() {
    std::vector<int> al = {1, 2, 3, 46341, 65536, 2147483647};
    for (int r = 1; r <= 4; ++r) words(r, (int)al.size(), [&](const std::vector<int>& w) {
        Dims d; unsigned __int128 p = 1; bool ok = true; for (int x : w) { d.push_back(al[x]); p *= (unsigned)al[x]; if (p > SIZE_MAX) { ok = false; break; } } if (!ok) return;
        mc::run([&] { return "flat indices of " + str(d); }, [&] { Shape s(d); big::corners(d, [&](const Dims& i) { MC_CHECK(smart_dnn::computeFlatIndex(s, i) == flat(i, d), "the flat index of " << str(i) << " in " << str(d) << " is " << smart_dnn::computeFlatIndex(s, i) << ", expected " << flat(i, d)); mc::step(); }); });
    });
}
void explore() {
    mc::bound("large shapes", "flat indices at the corners, thirds and middles of every shape of rank 1..4 over extents {1,2,3,46341,65536,2^31-1}; reads, writes and rejections in " + std::to_string(big::dims().size()) + " tensors of 2^31 to 2^33 elements");
    for (auto& d : big::dims()) mc::run([&] { return "huge tensor " + str(d); }, [&] { huge(d); });
    indexOnly();
    mc::bound("long tensors", "131101 to 1000003 elements in six shapes, all elements");
    for (Dims d : std::vector<Dims>{{131101}, {262147}, {3, 100003}, {100003, 3}, {1000, 1001}, {10, 101, 10, 99}}) mc::run([&] { return "long tensor " + str(d); }, [&] { oneShape<float>(d, {}); });
    std::vector<Dims> all; int maxDim = mc::thorough() ? 4 : 3; size_t cap = mc::thorough() ? 400 : 120;
    shapes(5, maxDim, cap, [&](const Dims& d) { all.push_back(d); });
    std::vector<Dims> extra = {{7}, {5, 7}, {7, 5}, {70}, {70, 3}, {3, 70}, {130, 2}, {2, 130}, {257}, {1, 257}, {4, 4, 4}, {5, 6, 7}, {2, 2, 2, 2, 2, 2}, {1, 2, 1, 3, 1, 2}, {10, 10, 10}, {33, 33}, {1025}, {2, 3, 2, 3, 2, 3}, {3, 300}, {300, 3}, {6, 4}, {4, 6}, {12, 2}, {24}, {2, 12}};
    mc::bound("shapes", "all shapes of rank 1..5 with extents 1.." + std::to_string(maxDim) + " and at most " + std::to_string(cap) + " elements, and 25 larger shapes up to rank 6");
    for (auto& d : extra) all.push_back(d);
    for (auto& d : all) {
        mc::run([&] { return "float tensor " + str(d); }, [&] { oneShape<float>(d, all); });
        mc::run([&] { return "double tensor " + str(d); }, [&] { oneShape<double>(d, {}); });
    }
}
