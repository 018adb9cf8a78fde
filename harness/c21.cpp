// C21: Adam follows its update rule for every option and gradient history.
#include "opts.hpp"
void explore() {
    using namespace opts; std::vector<Opt> all;
    for (double lr : {0.001, 0.25}) for (auto b : std::vector<std::pair<double, double>>{{0.9, 0.999}, {0.5, 0.75}, {0.0, 0.9}, {0.9, 0.0}}) for (double e : {1e-8, 0.1}) for (int r = 0; r < 4; ++r) for (double dc : {0.0, 0.1, 1.0}) { Opt o{ADAM, lr}; o.b1 = b.first; o.b2 = b.second; o.eps = e; o.l1 = r & 1 ? 0.01 : 0; o.l2 = r & 2 ? 0.1 : 0; o.decay = dc; o.batch = 1 + (int)(all.size() % 3); all.push_back(o); }
    explore(all, {0, 1, -2.5, 0.125}, {1, -0.5, 0.25, 0, -1, 0.125, 2});
    // the step number is that of the tensor: any interleaving of updates of three tensors, in separate or common calls
    int L = mc::thorough() ? 6 : 4;
    mc::bound("tensor interleavings", "all words of length " + std::to_string(L) + " over the 7 non-empty sets of 3 tensors updated in one call, 12 option combinations");
    words(L, 7, [&](const std::vector<int>& w) { mc::run([&] { return "interleaving " + vstr(w); }, [&] {
        for (size_t q = 0; q < all.size(); q += 16) { const Opt& o = all[q]; auto op = make<double>(o); Param<double> p[3] = {Param<double>(weights({2})), Param<double>(weights({2, 2})), Param<double>(weights({3}))}; size_t k = 0;
            for (int c : w) { std::vector<Tensor<double>*> ws, gs; std::vector<Tensor<double>> store; store.reserve(3); double lr = ++k % 3 == 2 ? 0.125 : NONE; for (int i = 0; i < 3; ++i) if ((c + 1) >> i & 1) { RT g = pat(p[i].d, 4, k + i); store.push_back(mk<double>(g)); ws.push_back(&p[i].w); gs.push_back(&store.back()); p[i].advance(o, g, eff(lr)); } MC_TRAIL("update set " << c + 1); call<double>(*op, ws, gs, lr); for (int i = 0; i < 3; ++i) p[i].judge(str(o) + ", tensor " + std::to_string(i)); } }
    }); });
    mc::run([&] { return std::string("default options"); }, [&] { AdamOptimizer<float> s; Tensor<float> g({2}, {1.0f, 0.5f}); Opt o{ADAM, 0.001}; Param<float> p(RT({2}, {1, -1})); for (int k = 0; k < 5; ++k) { call<float>(s, {&p.w}, {&g}, NONE); p.advance(o, RT({2}, {1, 0.5}), -1); p.judge("default Adam"); } });
}
