// simulations with many nodes: states of up to 17 and matrices of up to 7 qubits in packages of the default configuration
#pragma once
#include "shape.hpp"
namespace vh {
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_SLOW 1
#endif
#endif
#if !defined(VH_SLOW) && defined(__SANITIZE_ADDRESS__)
#define VH_SLOW 1
#endif
#ifndef VH_SLOW
#define VH_SLOW 0
#endif
constexpr bool SLOW = VH_SLOW != 0;
// whether this case is one of the few wide ones (default configuration only)
template<class Cfg> bool wideCase(Rng& g) { if constexpr (std::is_same_v<Cfg, dd::DDPackageConfig>) return g.chance(0.01); else return false; }
inline void gateOn(C* v, std::size_t stride, int n, const Mat& G, int t, const std::vector<Ctl>& ctl) { // in place on the vector v[0], v[stride], ...
    const std::size_t D = std::size_t{1} << n, b = std::size_t{1} << t;
    for (std::size_t i = 0; i < D; i++) { if (i & b) continue; bool on = true; for (auto& c: ctl) if (static_cast<bool>((i >> c.q) & 1U) != c.pos) on = false; if (!on) continue; C &x = v[i * stride], &y = v[(i | b) * stride]; const C a = x, d = y; x = G(0, 0) * a + G(0, 1) * d; y = G(1, 0) * a + G(1, 1) * d; }
}
inline Vec wideVec(Rng& g, int n) { Vec v = randVec(g, n, g.chance(0.7) ? 0 : g.range(1, 2)); if (maxAbs(v) == 0) v[g.below(v.size())] = 1; return normalized(v); }
#define WEQ(got, want, key, ...) do { const double dd_ = vh::diff((got), (want)); vh::rec().events["comparisons"]++; if (!(dd_ <= 1e-9)) vh::fail(key, vh::str(__VA_ARGS__, ": max deviation ", dd_)); } while (0)
template<class P> struct WideSim {
    P& p; Rng& g; int n; dd::vEdge e; Vec d; std::size_t steps = 0;
    static dd::QubitCount N(int k) { return static_cast<dd::QubitCount>(k); }
    WideSim(P& pk, Rng& r, int nq): p(pk), g(r), n(nq) {
        if (g.chance(0.5)) { d = wideVec(g, n); e = p.makeStateFromVector(toCVec(d)); } else { d.assign(std::size_t{1} << n, 0); d[0] = 1; e = p.makeZeroState(N(n)); for (int q = 0; q < n; q++) { const auto old = e; p.incRef(old); step(unitary1(g), q, {}); p.decRef(old); } }
        p.incRef(e);
    }
    void release() { p.decRef(e); }
    void step(const Gate1& G, int t, const std::vector<Ctl>& c) { auto op = p.makeGateDD(G.mat, N(n), toControls(c), static_cast<dd::Qubit>(t)); e = p.multiply(op, e); gateOn(d.data(), 1, n, G.dense, t, c); steps++; count("wide_steps"); }
    void evolve(int k, bool collect = true) {
        while (k-- > 0) { const auto old = e; const int t = g.range(0, n - 1); step(unitary1(g), t, randCtl(g, n, {t}, 0.15)); p.incRef(e); p.decRef(old); if (collect) p.garbageCollect(g.chance(0.05)); }
    }
    void check(const char* what) { WEQ(evalV(e, n), d, "wide:state", what, ": state of ", n, " qubits after ", steps, " gates"); CHK(p.cn.cacheCount() == 0, "cache", "temporary numbers lost"); count("wide_nodes", countNodes(e)); }
};
// a matrix built up from gates, with its dense twin
template<class P> struct WideMat {
    P& p; Rng& g; int n; dd::mEdge e; Mat d;
    static dd::QubitCount N(int k) { return static_cast<dd::QubitCount>(k); }
    WideMat(P& pk, Rng& r, int nq): p(pk), g(r), n(nq), d(Mat::id(std::size_t{1} << nq)) { e = p.makeIdent(N(n)); p.incRef(e); }
    void release() { p.decRef(e); }
    void evolve(int k) {
        while (k-- > 0) {
            const int t = g.range(0, n - 1); auto G = unitary1(g); auto c = randCtl(g, n, {t}, 0.2); auto op = p.makeGateDD(G.mat, N(n), toControls(c), static_cast<dd::Qubit>(t)); const auto old = e; const std::size_t D = d.d;
            if (g.chance(0.7)) { e = p.multiply(op, e); for (std::size_t j = 0; j < D; j++) gateOn(d.a.data() + j, D, n, G.dense, t, c); }
            else { e = p.multiply(e, op); const Mat T = transpose(G.dense); for (std::size_t j = 0; j < D; j++) gateOn(d.a.data() + j * D, 1, n, T, t, c); } // row times gate
            p.incRef(e); p.decRef(old); p.garbageCollect(g.chance(0.05)); count("wide_steps");
        }
    }
    void check(const char* what) { WEQ(evalM(e, n), d, "wide:matrix", what, ": matrix of ", n, " qubits"); CHK(p.cn.cacheCount() == 0, "cache", "temporary numbers lost"); count("wide_nodes", countNodes(e)); }
};
} // namespace vh
