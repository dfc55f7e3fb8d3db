// C10: garbage collection never changes referenced diagrams or later results
#include "hist.hpp"
using namespace vh;
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    auto h = makeHist<Cfg>(g, g.range(2, 12), 0); h.w.snaps = true; auto& p = *h.w.p;
    if (g.chance(0.5)) { primeLimits(p); count("primed"); }
    const int len = g.range(20, 60);
    struct Keep { std::uint64_t h; };
    for (int s = 0; s < len; s++) {
        const auto before = p.cn.complexTable.getStatistics()["gcRuns"];
        // structures of all referenced diagrams before a collection
        const int o = h.step();
        const auto after = p.cn.complexTable.getStatistics()["gcRuns"];
        if (after != before) { count("collections"); if (o != GC) count("automatic_collections"); }
        if (o == GC || after != before || g.chance(0.15)) { h.w.checkAll(); h.dw.checkAll(); }
        if (g.chance(0.1)) { // collection with structural snapshots of density matrices
            std::vector<std::uint64_t> sn; for (auto& d: h.dw.ds) sn.push_back(snapshot(d.e));
            p.garbageCollect(true); count("collections"); for (std::size_t k = 0; k < sn.size(); k++) { CHK(snapshot(h.dw.ds[k].e) == sn[k], "stability:density-structure", "structure of a referenced density matrix changed"); count("density_snapshots"); }
            h.w.checkAll(); h.dw.checkAll(); auditPackage(p);
            // the constants are still there
            for (double v: {0.5, -0.5, 1.0, -1.0, 0.0, 0.70710678118654757}) { auto c = p.cn.lookup(v, 0); CHK(val(c) == C(v, 0), "constant", "constant ", v, " reads as ", val(c)); }
        }
    }
    // results computed after collections equal results on untouched operands: every step above was compared with its dense twin
    h.w.checkAll(); h.dw.checkAll(); rec().distinct(h.w.hist ^ h.dw.hist); if (i < 8) rec().sample(rec().cur); h.releaseAll();
}
// collection triggered by size: many numbers or nodes, with some diagrams referenced
template<class Cfg> VH_GLUE void big(Rng& g, std::size_t i) {
    const int n = g.range(4, 8); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); p->garbageCollect(true); if (g.chance(0.8)) { p->garbageCollect(true); primeLimits(*p); }
    struct S { dd::vEdge e; Vec d; std::uint64_t sn; }; std::vector<S> keep; std::uint64_t runs = 0, hh = 1; std::size_t cc = 0; std::mt19937_64 mt(g.u64());
    for (int r = 0; r < 25; r++) {
        Vec v = normalized(randVec(g, n, g.chance(0.7) ? 0 : -1)); auto e = p->makeStateFromVector(toCVec(v)); EQV(evalV(e, n), v, "big:state", "state"); hh = mix(hh ^ hashOf(v));
        p->incRef(e); keep.push_back({e, v, snapshot(e)}); while (keep.size() > 4) { const std::size_t k = g.below(keep.size()); p->decRef(keep[k].e); keep.erase(keep.begin() + static_cast<std::ptrdiff_t>(k)); }
        const int t = g.range(0, n - 1); auto G = unitary1(g); auto op = p->makeGateDD(G.mat, static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(t)); auto f = p->multiply(op, keep.back().e); EQV(evalV(f, n), embed(G.dense, n, {t}, {}) * keep.back().d, "big:product", "product");
        const auto a = p->cn.complexTable.getStatistics()["gcRuns"]; const bool did = p->garbageCollect(); if (did) { cc++; } const auto b = p->cn.complexTable.getStatistics()["gcRuns"]; if (b != a) runs++;
        for (auto& s: keep) { EQV(evalV(s.e, n), s.d, "big:stability", "referenced state changed"); CHK(snapshot(s.e) == s.sn, "big:structure", "structure of a referenced state changed"); }
        if (g.chance(0.3)) { auto& s = keep[g.below(keep.size())]; const auto a1 = p->cn.complexTable.getStatistics()["gcRuns"]; int q = g.range(0, n - 1); char o = p->measureOneCollapsing(s.e, static_cast<dd::Qubit>(q), true, mt); Vec w = s.d; double pr = 0; for (std::size_t k = 0; k < w.size(); k++) if (((k >> q) & 1U) != static_cast<unsigned>(o - '0')) w[k] = 0; else pr += std::norm(w[k]); w = scaled(w, 1 / std::sqrt(pr)); EQV(evalV(s.e, n), w, "big:collapse", "collapsed state"); s.d = w; s.sn = snapshot(s.e); if (p->cn.complexTable.getStatistics()["gcRuns"] != a1) runs++; }
    }
    auditPackage(*p); count("threshold_collections", runs); count("big"); rec().distinct(hh); note(str("big n=", n, " collections ", cc)); (void)i;
    for (auto& s: keep) p->decRef(s.e);
}
template<class Cfg> void both(Rng& g, std::size_t i) { if (g.chance(0.15)) big<Cfg>(g, i); else body<Cfg>(g, i); }
VH_SPLIT(both)
VH_MAIN("collections", "automatic_collections", "threshold_collections", "density_snapshots", "primed", "population_checks")
