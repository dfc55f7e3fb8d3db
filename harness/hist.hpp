// long mixed histories over states, matrices and density matrices in one package
#pragma once
#include "dens.hpp"
#include "world.hpp"
namespace vh {
using Weights = std::vector<std::pair<int, int>>;
constexpr std::uint64_t HIST_OPS = ops({NEWV, NEWM, GATE, MULV, MULM, ADDV, ADDM, TRANS, CTRANS, KRONV, KRONM, INNER, FID, TRACE, PTRACE, GC, DROP, MEAS1, MEASALL, DELEDGE, SIZE, IDENT, ANC, EXTEND, PROBS, DUP, AUDIT, SERIAL});
inline Weights histWeights(Rng& g, int gc, int audit) {
    Weights w{{NEWV, 3}, {NEWM, 2}, {GATE, 4}, {MULV, 5}, {MULM, 4}, {ADDV, 3}, {ADDM, 3}, {TRANS, 2}, {CTRANS, 2}, {KRONV, 2}, {KRONM, 2}, {INNER, 2}, {FID, 1}, {TRACE, 1}, {PTRACE, 2}, {DROP, 5}, {MEAS1, 2}, {MEASALL, 2}, {DELEDGE, 2}, {SIZE, 2}, {IDENT, 2}, {ANC, 2}, {EXTEND, 2}, {PROBS, 1}, {DUP, 2}, {SERIAL, 1}, {GC, gc}, {AUDIT, audit}};
    for (auto& x: w) if (x.first != GC && x.first != AUDIT && g.chance(0.25)) x.second = g.chance(0.5) ? 0 : x.second * 4; // vary the mix
    return w;
}
template<class P> std::size_t primeLimits(P& p) { // repeated collections of an almost empty package lower the limit of the number table
    for (int k = 0; k < 12; k++) { p.cn.lookup(0.1234567 + 0.01 * k, 0.7); p.garbageCollect(true); }
    return 0;
}
template<class Cfg> struct Hist {
    World<Cfg, HIST_OPS> w; DWorld<Cfg> dw; Rng& g; int dn; Weights wt; bool dens;
    Hist(Rng& r, int mx, int dnq, int gc, int audit): w(r, mx), dw(*w.p, r, dnq), g(r), dn(dnq), wt(histWeights(r, gc, audit)), dens(r.chance(0.4)) {}
    VH_GLUE int step() { // returns the operation
        if (dens && g.chance(0.15)) {
            if (dw.ds.empty() || (dw.ds.size() < 3 && g.chance(0.1))) { dw.create(); return NOPS; }
            const std::size_t k = g.below(dw.ds.size());
            if (g.chance(0.08)) { dw.release(k); return NOPS; }
            dw.apply(dw.ds[k], g.range(0, 1)); if (g.chance(0.3)) dw.read(dw.ds[k]);
            return NOPS;
        }
        const int o = w.pickOp(wt); w.step(o); if (o == GC) dw.checkAll(); return o;
    }
    void releaseAll() { w.releaseAll(); while (!dw.ds.empty()) dw.release(0); }
    void checkRefs() {
        RefModel r; for (auto& s: w.vs) r.addRoot(s.e); for (auto& m: w.ms) r.addRoot(m.e); for (auto& d: dw.ds) r.addRoot(d.e);
        r.compareNodes(w.p->vUniqueTable, "vector"); r.compareNodes(w.p->mUniqueTable, "matrix"); r.compareNodes(w.p->dUniqueTable, "density"); r.compareNumbers(w.p->cn.complexTable, true);
        count("ref_audits");
    }
};
template<class Cfg> Hist<Cfg> makeHist(Rng& g, int gc, int audit) {
    const bool tiny = std::is_same_v<Cfg, Tiny>, std_ = std::is_same_v<Cfg, Std>;
    return Hist<Cfg>(g, tiny ? g.range(1, 4) : g.chance(0.15) ? 6 : g.range(2, 5), std_ ? g.range(1, 2) : g.range(1, tiny ? 2 : 3), gc, audit);
}
} // namespace vh
