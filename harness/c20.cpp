// C20: RMSProp follows its update rule for every option and gradient history.
#include "opts.hpp"
void explore() {
    using namespace opts; std::vector<Opt> all;
    for (double lr : {0.01, 0.25}) for (double a : {0.0, 0.5, 0.9, 0.99}) for (double e : {1e-8, 1e-2}) for (double m : {0.0, 0.9}) for (double w : {0.0, 0.1}) for (int c = 0; c < 2; ++c) { Opt o{RMS, lr}; o.alpha = a; o.eps = e; o.momentum = m; o.wd = w; o.centered = c; all.push_back(o); }
    explore(all, {0, 1, -2.5, 0.125}, {1, -0.5, 0.25, 0, -1, 0.125, 2});
    // weights stay finite for all gradients whose squares are representable
    std::vector<double> big = {0, 1e-18, 1e-6, 1, 3.3, 1e4, -1e4, 1e9, -1e15, 1e18};
    mc::bound("magnitudes", "all gradient words of length 3 over ten magnitudes from 1e-18 to 1e18, and constant gradients for 60 steps, weights must stay finite");
    // (not for centered with alpha 0 and weight decay: its variance is exactly 0 and the exact recurrence diverges)
    for (auto& o : all) if (!(o.centered && o.alpha == 0 && o.wd > 0)) mc::run([&] { return "magnitudes: " + str(o); }, [&] {
        auto op = make<float>(o); Dims d = {1000}; Tensor<float> w = mk<float>(weights(d)); size_t div = 1;
        for (int k = 0; k < 3; ++k, div *= 10) { RT g(d); for (size_t j = 0; j < 1000; ++j) g.v[j] = big[(j / div) % 10]; Tensor<float> gt = mk<float>(g); call<float>(*op, {&w}, {&gt}, NONE); RT r = rd(w); for (size_t j = 0; j < 1000; ++j) MC_CHECK(std::isfinite(r.v[j]), str(o) << ": after step " << k + 1 << " of gradients " << big[j % 10] << "," << big[j / 10 % 10] << "," << big[j / 100] << " the weight is " << r.v[j]); mc::step(); }
        if (!(o.centered && o.wd > 0)) // (constant gradients drive the centered variance to 0: the decayed weights may diverge exactly)
        for (double scale : {1.0, 1e3, 0.37, 1e-3}) { auto oc = make<float>(o); Dims c = {10}; Tensor<float> u = mk<float>(weights(c)), gt = mk<float>(RT(c, std::vector<double>(big.begin(), big.end()))); for (int i = 0; i < 10; ++i) gt.getData().data()[i] *= (float)(scale < 1 || std::fabs(big[i]) < 1e15 ? scale : 1); for (int k = 0; k < 60; ++k) { call<float>(*oc, {&u}, {&gt}, NONE); RT r = rd(u); for (double x : r.v) MC_CHECK(std::isfinite(x), str(o) << ": constant gradients scaled by " << scale << ": weight " << x << " after " << k + 1 << " steps, weights " << ref::str(r)); } mc::step(60); }
    });
    mc::run([&] { return std::string("default options"); }, [&] { RMSPropOptimizer<float> s; Tensor<float> g({2}, {1.0f, 0.5f}); Opt o{RMS, 0.01}; Param<float> p(RT({2}, {1, -1})); for (int k = 0; k < 5; ++k) { call<float>(s, {&p.w}, {&g}, NONE); p.advance(o, RT({2}, {1, 0.5}), -1); p.judge("default RMSProp"); } });
}
