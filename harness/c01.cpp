// C01: shapes are always consistent, and a rejected shape operation changes nothing.
#include "ref.hpp"
#include <climits>
using namespace ref;
typedef unsigned __int128 u128;

static bool valid(const Dims& d) {
    if (d.empty()) return false;
    for (int x : d) if (x <= 0) return false;
    u128 p = 1;
    for (int x : d) { p *= (u128)x; if (p > (u128)SIZE_MAX) return false; }
    return true;
}
static std::string printed(const Dims& d) { std::string s = "("; for (size_t i = 0; i < d.size(); ++i) s += (i ? ", " : "") + std::to_string(d[i]); return s + ")"; }

static void checkShape(const Shape& s, const Dims& d, const char* what) {
    MC_CHECK(s.getDimensions() == d, what << ": dimensions are " << str(s.getDimensions()) << ", expected " << str(d));
    MC_CHECK(s.rank() == d.size(), what << ": rank " << s.rank() << " for " << str(d));
    MC_CHECK(s.size() == prod(d), what << ": size " << s.size() << " for " << str(d));
    MC_CHECK(s.getStride().size() == d.size(), what << ": " << s.getStride().size() << " strides for " << str(d));
    size_t st = 1;
    for (int i = (int)d.size() - 1; i >= 0; --i) {
        MC_CHECK(s.getStride()[i] == st, what << ": stride " << i << " of " << str(d) << " is " << s.getStride()[i] << ", expected " << st);
        MC_CHECK(s[i] == d[i], what << ": extent " << i << " is " << s[i] << " for " << str(d));
        st *= (size_t)d[i];
    }
    Dims it(s.begin(), s.end());
    MC_CHECK(it == d, what << ": iteration gives " << str(it) << " for " << str(d));
    std::ostringstream o; o << s;
    MC_CHECK(o.str() == printed(d) && s.toString() == printed(d), what << ": printed as " << o.str() << " / " << s.toString() << " for " << str(d));
    uint64_t h = 1; for (int x : d) h = mc::mix(h, (unsigned)x);
    mc::state(h); mc::step();
}
static void checkEq(const Shape& a, const Dims& x, const Shape& b, const Dims& y) {
    MC_CHECK((a == b) == (x == y) && (a != b) == (x != y) && (b == a) == (x == y), "equality of " << str(x) << " and " << str(y) << " is wrong");
}

// ---------- every construction and every reshape over an alphabet of extents ----------
static void constructions() {
    std::vector<int> al = {1, 2, 3, 7, 0, -1, 46341, 65536, 2147483647, INT_MIN};
    int maxRank = mc::thorough() ? 5 : 4;
    mc::bound("construction", "all dimension lists of rank 0.." + std::to_string(maxRank) + " over {1,2,3,7,0,-1,46341,65536,2^31-1,-2^31}, plus wrap-around products");
    auto one = [&](const Dims& d) {
        mc::run([&] { return "construct " + str(d); }, [&] {
            if (!valid(d)) {
                MC_CHECK(mc::throws([&] { Shape s(d); }), "dimension list " << str(d) << " accepted");
            } else {
                Shape s(d); checkShape(s, d, "constructed");
                Shape c(s); checkShape(c, d, "copied"); checkShape(s, d, "copy source");
                Shape m(std::move(c)); checkShape(m, d, "moved");
                Shape a({2, 2}); a = m; checkShape(a, d, "assigned"); checkEq(a, d, s, d);
                Shape b({5}); checkEq(b, Dims{5}, s, d); b = std::move(a); checkShape(b, d, "move-assigned");
                a = b; checkShape(a, d, "assigned after move");
            }
        });
    };
    one(Dims{});
    for (int r = 1; r <= maxRank; ++r) words(r, (int)al.size(), [&](const std::vector<int>& w) { Dims d; for (int x : w) d.push_back(al[x]); one(d); });
    // rank 5 and more over small extents
    for (int r = 5; r <= (mc::thorough() ? 9 : 7); ++r) words(r, 3, [&](const std::vector<int>& w) { Dims d; for (int x : w) d.push_back(std::vector<int>{1, 2, 3}[x]); one(d); });
    // initializer-list construction
    mc::run([] { return std::string("initializer lists"); }, [] {
        checkShape(Shape{4}, {4}, "list"); checkShape(Shape{2, 3}, {2, 3}, "list"); checkShape(Shape({2, 3, 4}), {2, 3, 4}, "list"); checkShape(Shape{1, 1, 1, 1, 1}, {1, 1, 1, 1, 1}, "list");
        MC_CHECK(mc::throws([] { Shape s{2, 0}; }), "{2,0} accepted"); MC_CHECK(mc::throws([] { Shape s{-3}; }), "{-3} accepted");
        MC_CHECK(mc::throws([] { Shape s(std::initializer_list<int>{}); }), "{} accepted");
        MC_CHECK(mc::throws([] { Shape s{65536, 65536, 65536, 65536}; }), "2^64 elements accepted");
    });
}
// products that wrap around to a small number modulo 2^64
static const std::vector<std::pair<Dims, Dims>>& wraps() {
    static std::vector<std::pair<Dims, Dims>> w = {
        // lists whose true product is k modulo 2^64 with small k (checked below), and a shape of k elements
#include "c01_wraps.inc"
    };
    return w;
}
// every assignment between two valid shapes, over all pairs, and chains through a reused object
static void assignments() {
    std::vector<Dims> all; shapes(3, 4, 64, [&](const Dims& d) { all.push_back(d); }); shapesOfRank(4, 2, 16, [&](const Dims& d) { all.push_back(d); });
    for (Dims d : std::vector<Dims>{{6}, {6, 1}, {1, 6}, {12}, {2, 6}, {6, 2}, {12, 1}, {1, 12}, {8}, {24}, {65536, 65536}, {46341, 3}, {3, 46341}, {2147483647}, {2, 3, 1, 1, 4}, {4, 1, 1, 3, 2}}) all.push_back(d);
    mc::bound("assignment", "copy and move construction, assignment and swap between all ordered pairs of " + std::to_string(all.size()) + " shapes, each checked in full, and one object assigned every shape in turn");
    for (auto& a : all) mc::run([&] { return "assign every shape to " + str(a); }, [&] {
        Shape walker(a);
        for (auto& b : all) {
            MC_TRAIL(str(b));
            Shape x(a), y(b); x = y; checkShape(x, b, "assigned"); checkShape(y, b, "source of an assignment"); checkEq(x, b, y, b);
            Shape z(a); checkEq(z, a, y, b); z = std::move(y); checkShape(z, b, "move-assigned"); y = Shape(a); checkShape(y, a, "moved-from shape after a new assignment");
            std::swap(y, z); checkShape(y, b, "swapped"); checkShape(z, a, "swapped");
            z = z; checkShape(z, a, "self-assigned"); z = Shape(b); checkShape(z, b, "assigned a temporary");
            if (prod(a) == prod(b)) { z.reshape(a); checkShape(z, a, "reshaped after assignment"); x.reshape(Shape(a)); checkShape(x, a, "reshaped after assignment"); x = z; checkShape(x, a, "assigned after reshape"); }
            walker = Shape(b); checkShape(walker, b, "one object assigned every shape"); walker = x; checkShape(walker, x.getDimensions(), "reused object");
            if (prod(a) <= 64 && prod(b) <= 64) { Tensor<float> s{Shape(a)}; Tensor<float> t{Shape(b)}; s = t; checkShape(s.getShape(), b, "shape of an assigned tensor"); if (prod(a) == prod(b)) { s.reshape(a); checkShape(s.getShape(), a, "shape of a reshaped tensor"); } s = Tensor<float>(Shape(a)); checkShape(s.getShape(), a, "shape of a move-assigned tensor"); }
        }
    });
}
static void reshapes() {
    std::vector<int> al = {1, 2, 3, 4, 6, 0, -1, 65536, 2147483647};
    std::vector<Dims> all;
    for (int r = 1; r <= 3; ++r) words(r, (int)al.size(), [&](const std::vector<int>& w) { Dims d; for (int x : w) d.push_back(al[x]); all.push_back(d); });
    mc::bound("reshape", "all pairs of dimension lists of rank 1..3 over {1,2,3,4,6,0,-1,65536,2^31-1}");
    for (auto& a : all) {
        if (!valid(a)) continue;
        mc::run([&] { return "reshape " + str(a) + " to every list"; }, [&] {
            for (auto& b : all) {
                Shape s(a); bool ok = valid(b) && prod(a) == prod(b);
                if (ok) { s.reshape(b); checkShape(s, b, "reshaped"); s.reshape(Shape(a)); checkShape(s, a, "reshaped back"); }
                else {
                    MC_CHECK(mc::throws([&] { s.reshape(b); }), "reshape " << str(a) << " to " << str(b) << " accepted");
                    checkShape(s, a, "after a rejected reshape");
                    if (valid(b)) { Shape t(b); MC_CHECK(mc::throws([&] { s.reshape(t); }), "reshape to a shape accepted"); checkShape(s, a, "after a rejected reshape"); checkShape(t, b, "argument of a rejected reshape"); }
                }
            }
            MC_CHECK(mc::throws([&] { Shape s(a); s.reshape(Dims{}); }), "reshape to () accepted");
        });
    }
    for (auto& w : wraps())
        mc::run([&] { return "wrap-around " + str(w.first); }, [&] {
            u128 p = 1; bool over = false; for (int x : w.first) { p *= (u128)x; over |= p > (u128)SIZE_MAX; p &= ~(u128)0; }
            MC_CHECK(!valid(w.first), "bad table entry");
            MC_CHECK(mc::throws([&] { Shape s(w.first); }), "a list whose element count does not fit was accepted: " << str(w.first));
            Shape s(w.second);
            MC_CHECK(mc::throws([&] { s.reshape(w.first); }), "reshape to a list whose element count does not fit was accepted");
            checkShape(s, w.second, "after the rejection");
        });
}
// ---------- tensors keep shape and data when a reshape is rejected ----------
static void tensorReshapes() {
    std::vector<int> al = {1, 2, 3, 4, 6, 8, 12, 0, -1};
    shapes(4, 4, 12, [&](const Dims& a) {
        mc::run([&] { return "tensor reshape " + str(a); }, [&] {
            RT want = pat(a, 0);
            for (int r = 0; r <= 3; ++r) words(r, (int)al.size(), [&](const std::vector<int>& w) {
                Dims b; for (int x : w) b.push_back(al[x]);
                bool ok = valid(b) && prod(b) == prod(a);
                if (!ok && w.size() == 3 && w[0] > 3 && w[1] > 3) return;
                Tensor<float> t = mk<float>(want);
                if (ok) { t.reshape(b); expectExact(t, RT(b, want.v), "reshaped tensor"); checkShape(t.getShape(), b, "tensor shape"); }
                else { MC_CHECK(mc::throws([&] { t.reshape(b); }), "tensor reshape " << str(a) << " to " << str(b) << " accepted"); expectExact(t, want, "after a rejected reshape"); checkShape(t.getShape(), a, "tensor shape"); }
                if (valid(b)) {
                    Tensor<double> u = mk<double>(want); Shape sb(b);
                    if (ok) { u.reshape(sb); expectExact(u, RT(b, want.v), "reshaped tensor"); auto q = smart_dnn::AdvancedTensorOperations<double>::reshape(u, Shape(a)); expectExact(q, want, "reshape copy"); expectExact(u, RT(b, want.v), "source of a reshaped copy"); }
                    else { MC_CHECK(mc::throws([&] { u.reshape(sb); }), "tensor reshape accepted"); expectExact(u, want, "after a rejected reshape"); }
                }
            });
        });
    });
}
// ---------- histories over a pool of shapes ----------
struct Pool { std::vector<Shape> s; std::vector<Dims> d; std::vector<bool> live; };
struct Op { std::string name; std::function<void(Pool&)> f; };

static void histories() {
    using smart_dnn::ShapeOperations;
    std::vector<Dims> lists = {{2, 3}, {6}, {3, 2, 1}, {1}, {4}, {2, 0}, {}, {-1, -6}, {65536, 65536, 65536, 65536}};
    std::vector<Op> ops;
    const int N = 2;
    for (int i = 0; i < N; ++i) {
        for (auto& l : lists) {
            ops.push_back({"s" + std::to_string(i) + " = Shape" + str(l), [=](Pool& p) {
                if (valid(l)) { p.s[i] = Shape(l); p.d[i] = l; p.live[i] = true; }
                else MC_CHECK(mc::throws([&] { p.s[i] = Shape(l); }), "accepted " << str(l)); }});
            ops.push_back({"s" + std::to_string(i) + ".reshape" + str(l), [=](Pool& p) {
                if (!p.live[i]) return;
                if (valid(l) && prod(l) == prod(p.d[i])) { p.s[i].reshape(l); p.d[i] = l; }
                else MC_CHECK(mc::throws([&] { p.s[i].reshape(l); }), "reshape of " << str(p.d[i]) << " to " << str(l) << " accepted"); }});
        }
        for (int j = 0; j < N; ++j) {
            std::string n = "s" + std::to_string(i), m = "s" + std::to_string(j);
            ops.push_back({n + " = " + m, [=](Pool& p) { if (!p.live[j]) return; p.s[i] = p.s[j]; p.d[i] = p.d[j]; p.live[i] = true; }});
            ops.push_back({n + " = move(" + m + ")", [=](Pool& p) { if (!p.live[j]) return; Dims d = p.d[j]; p.s[i] = std::move(p.s[j]); if (i != j) p.live[j] = false; p.d[i] = d; p.live[i] = true; }});
            ops.push_back({n + ".reshape(" + m + ")", [=](Pool& p) { if (!p.live[i] || !p.live[j]) return;
                if (prod(p.d[i]) == prod(p.d[j])) { p.s[i].reshape(p.s[j]); p.d[i] = p.d[j]; } else MC_CHECK(mc::throws([&] { p.s[i].reshape(p.s[j]); }), "reshape accepted"); }});
            ops.push_back({n + " = concat(" + n + "," + m + ")", [=](Pool& p) { if (!p.live[i] || !p.live[j]) return; if (p.d[i].size() + p.d[j].size() > 8) return;
                p.s[i] = ShapeOperations::concat(p.s[i], p.s[j]); Dims c = p.d[i]; Dims e = p.d[j]; c.insert(c.end(), e.begin(), e.end()); p.d[i] = c; }});
            ops.push_back({n + " = broadcast(" + n + "," + m + ")", [=](Pool& p) { if (!p.live[i] || !p.live[j]) return; Dims o;
                if (compatible(p.d[i], p.d[j], &o)) { p.s[i] = ShapeOperations::broadcastShapes(p.s[i], p.s[j]); p.d[i] = o; }
                else MC_CHECK(mc::throws([&] { p.s[i] = ShapeOperations::broadcastShapes(p.s[i], p.s[j]); }), "broadcast accepted"); }});
        }
    }
    int depth = mc::thorough() ? 4 : 3;
    mc::bound("histories", "all sequences of " + std::to_string(depth) + " operations out of " + std::to_string(ops.size()) + " over two shapes");
    for (int L = 1; L <= depth; ++L)
        words(L, (int)ops.size(), [&](const std::vector<int>& w) {
            mc::run([&] { std::string s = "history from (2,3),(6):"; for (int x : w) s += " " + ops[x].name + ";"; return s; }, [&] {
                Pool p{{Shape({2, 3}), Shape({6})}, {{2, 3}, {6}}, {true, true}};
                for (int x : w) {
                    MC_TRAIL(ops[x].name);
                    ops[x].f(p);
                    for (int i = 0; i < N; ++i) if (p.live[i]) checkShape(p.s[i], p.d[i], "pool shape");
                    if (p.live[0] && p.live[1]) checkEq(p.s[0], p.d[0], p.s[1], p.d[1]);
                }
            });
        });
}
void explore() { constructions(); assignments(); reshapes(); tensorReshapes(); histories(); }
