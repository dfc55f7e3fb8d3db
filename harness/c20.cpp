// C20: cutting branches, reducing ancillary and garbage qubits
#include "world.hpp"
#include "large.hpp"
using namespace vh;
constexpr std::uint64_t OPS20 = ops({NEWV, NEWM, GATE, MULV, MULM, ADDV, ADDM, TRANS, KRONV, KRONM, GC, DROP, IDENT});
inline Vec cutV(Vec w, int q, std::size_t k) { for (std::size_t i = 0; i < w.size(); i++) if (((i >> q) & 1U) == k) w[i] = 0; return w; }
inline Mat cutM(Mat w, int q, std::size_t k) { for (std::size_t i = 0; i < w.d; i++) for (std::size_t j = 0; j < w.d; j++) if (2 * ((i >> q) & 1U) + ((j >> q) & 1U) == k) w(i, j) = 0; return w; }
inline Mat cutAnc(Mat w, int n, const std::vector<bool>& anc, bool reg) { for (std::size_t i = 0; i < w.d; i++) for (std::size_t j = 0; j < w.d; j++) for (int q = 0; q < n; q++) if (anc[static_cast<std::size_t>(q)] && (((reg ? j : i) >> q) & 1U)) w(i, j) = 0; return w; }
inline std::size_t maskOf(int n, const std::vector<bool>& b) { std::size_t m = 0; for (int q = 0; q < n; q++) if (b[static_cast<std::size_t>(q)]) m |= std::size_t{1} << q; return m; }
inline Mat mergeGarbage(const Mat& w, int n, const std::vector<bool>& gar, bool reg) { Mat r(w.d); const std::size_t m = maskOf(n, gar); for (std::size_t i = 0; i < w.d; i++) for (std::size_t j = 0; j < w.d; j++) if (reg) r(i & ~m, j) += w(i, j); else r(i, j & ~m) += w(i, j); return r; }
inline std::vector<bool> subset(Rng& g, int n, int extra) { std::vector<bool> b(static_cast<std::size_t>(n + extra)); const double d = g.pick(std::vector<double>{0.0, 0.2, 0.5, 0.8, 1.0}); for (auto&& x: b) x = g.chance(d); if (g.chance(0.3)) for (auto&& x: b) x = false; if (g.chance(0.3)) b[g.below(b.size())] = true; return b; }
inline std::string showB(const std::vector<bool>& b) { std::string s; for (bool x: b) s += x ? '1' : '0'; return s; }

template<class Cfg> VH_GLUE void worlds(Rng& g) {
    const int n = g.range(1, std::is_same_v<Cfg, Tiny> ? 4 : 5); World<Cfg, OPS20> w(g, n); w.snaps = true; auto& p = *w.p; const int len = g.range(6, 22); w.nice = w.unitaryOnly = g.chance(0.3);
    static const std::vector<std::pair<int, int>> wt{{NEWV, 3}, {NEWM, 3}, {GATE, 3}, {MULV, 2}, {MULM, 3}, {ADDV, 2}, {ADDM, 3}, {TRANS, 1}, {KRONV, 1}, {KRONM, 2}, {GC, 1}, {DROP, 2}, {IDENT, 2}};
    for (int s = 0; s < len; s++) {
        w.step(w.pickOp(wt));
        const auto before = p.cn.cacheCount();
        switch (g.range(0, 4)) {
        case 0: { auto* x = w.pickV(); if (!x) break; auto a = *x; const int q = g.range(0, n - 1); const auto k = g.below(2); note(str("deletev", a.n, "q", q, "k", k)); p.incRef(a.e); auto e = p.deleteEdge(a.e, static_cast<dd::Qubit>(q), k); const bool u = w.unitaryOnly; w.unitaryOnly = false; w.store(e, q < a.n ? cutV(a.d, q, k) : a.d, a.n, "state with deleted edge"); w.unitaryOnly = u; p.decRef(a.e); if (q >= a.n) CHK(e == a.e, "cut:absent", "deleting at an absent qubit changed the state"); else { auto f = p.deleteEdge(e, static_cast<dd::Qubit>(q), k); EQV(evalV(f, a.n), evalV(e, a.n), "cut:twice", "deleting twice"); auto z = p.deleteEdge(e, static_cast<dd::Qubit>(q), 1 - k); CHK(z == dd::vEdge::zero, "cut:both", "deleting both edges leaves something"); } count("deleted_v"); break; }
        case 1: { auto* x = w.pickM(); if (!x) break; auto a = *x; const int q = g.range(0, n - 1); const auto k = g.below(4); note(str("deletem", a.n, "q", q, "k", k)); p.incRef(a.e); auto e = p.deleteEdge(a.e, static_cast<dd::Qubit>(q), k); const bool u = w.unitaryOnly; w.unitaryOnly = false; w.store(e, q < a.n ? cutM(a.d, q, k) : a.d, a.n, "matrix with deleted edge"); w.unitaryOnly = u; p.decRef(a.e); if (q >= a.n) CHK(e == a.e, "cut:absent", "deleting at an absent qubit changed the matrix"); else { auto f = p.deleteEdge(e, static_cast<dd::Qubit>(q), k); EQV(evalM(f, a.n), evalM(e, a.n), "cut:twice", "deleting twice"); } count("deleted_m"); break; }
        default: { // the reference held on the old diagram moves to the reduced one
            auto* x = w.pickM(); if (!x) break; const auto anc = subset(g, x->n, x->e.isTerminal() ? 0 : g.range(0, 2)); const bool reg = g.chance(0.5); note(str("anc", x->n, showB(anc), reg));
            const auto want = cutAnc(x->d, x->n, anc, reg); const auto old = x->e; auto e = p.reduceAncillae(x->e, anc, reg); x->e = e; 
            EQV(evalM(e, x->n), want, "ancillae:value", "reduced ", showB(anc), reg ? " columns" : " rows", " n=", x->n); x->d = want; x->snap = snapshot(e); if (maskOf(x->n, anc) == 0) CHK(e == old, "ancillae:none", "nothing to reduce, but another diagram"); 
            if (g.chance(0.4)) { auto f = p.reduceAncillae(x->e, anc, reg); x->e = f; EQV(evalM(f, x->n), want, "ancillae:twice", "reduced twice"); x->snap = snapshot(f); if (w.nice) CHK(f.p == e.p, "ancillae:twice", "another diagram when reduced twice"); }
            if (w.nice) { auto c = p.makeDDFromMatrix(toCMat(want)); CHK(c.p == x->e.p && std::abs(val(c.w) - val(x->e.w)) < 1e-9, "ancillae:canonical", "not the canonical diagram"); count("canonical"); }
            count(reg ? "anc_columns" : "anc_rows"); if (maxAbs(want) == 0) count("anc_to_zero"); if (maxAbs(want) < 1e-4 && !(x->e == dd::mEdge::zero)) { p.decRef(x->e); w.ms.erase(w.ms.begin() + (x - w.ms.data())); } break; } }
        CHK(p.cn.cacheCount() == before, "reduce:loan", "temporary numbers lost");
        if (g.chance(0.15)) { w.checkAll(); w.checkRefs(); } if (g.chance(0.1)) { p.garbageCollect(true); w.checkAll(); }
    }
    w.checkAll(); w.checkRefs(); auditPackage(p); rec().distinct(w.hist); w.releaseAll(); p.garbageCollect(true); p.clearIdentityTable(); p.garbageCollect(true); CHK(p.mUniqueTable.getNodeCount() == 0 && p.vUniqueTable.getNodeCount() == 0, "reduce:reclaim", "nodes left after release");
}
template<class P> void onlyRoots(P& p, const std::vector<dd::mEdge>& ms, const std::vector<dd::vEdge>& vs) { RefModel r; for (auto& x: ms) r.addRoot(x); for (auto& x: vs) r.addRoot(x); r.compareNodes(p.vUniqueTable, "vector"); r.compareNodes(p.mUniqueTable, "matrix"); r.compareNumbers(p.cn.complexTable, true); }
template<class Cfg> VH_GLUE void initial(Rng& g) {
    const int cap = std::is_same_v<Cfg, Tiny> ? 8 : 100; auto p = makePkg<Cfg>(static_cast<std::size_t>(cap)); std::vector<dd::mEdge> live; std::uint64_t hh = 3;
    for (int k = 0; k < 6; k++) {
        const int n = g.chance(0.6) ? g.range(1, 6) : g.range(1, cap); const auto anc = subset(g, n, g.range(0, 3)); note(str("init", n, showB(anc))); if (g.chance(0.3)) p->makeIdent(static_cast<dd::QubitCount>(g.range(1, n)));
        auto e = p->createInitialMatrix(static_cast<dd::QubitCount>(n), anc); live.push_back(e); CHK(!e.isTerminal() && e.p->v == n - 1, "initial:level", "level");
        // every node of the diagram is the identity or the identity with the column of one removed
        auto q = e.p; int lv = n - 1; CHK(std::abs(val(e.w) - C(1)) < 1e-12, "initial:value", "root weight");
        while (lv >= 0) { CHK(q->v == lv, "initial:level", "level"); const bool a = anc[static_cast<std::size_t>(lv)]; CHK(std::abs(val(q->e[0].w) - C(1)) < 1e-12 && q->e[1] == dd::mEdge::zero && q->e[2] == dd::mEdge::zero, "initial:value", "qubit ", lv, " of ", showB(anc)); if (a) CHK(q->e[3] == dd::mEdge::zero, "initial:value", "ancillary ", lv, " of ", showB(anc)); else CHK(std::abs(val(q->e[3].w) - C(1)) < 1e-12 && q->e[3].p == q->e[0].p, "initial:value", "qubit ", lv, " of ", showB(anc)); q = q->e[0].p; lv--; }
        CHK(dd::mNode::isTerminal(q), "initial:level", "terminal");
        if (n <= 6) { Mat I(std::size_t{1} << n); for (std::size_t i = 0; i < I.d; i++) I(i, i) = (i & maskOf(n, anc)) ? 0 : 1; EQV(evalM(e, n), I, "initial:value", "initial matrix"); }
        { dd::mEdge again = p->createInitialMatrix(static_cast<dd::QubitCount>(n), anc); CHK(again == e, "initial:again", "another diagram"); p->decRef(again); }
        hh = mix(hh ^ fnv(str(n, showB(anc)))); count("initial"); if (g.chance(0.2)) { p->garbageCollect(true); } if (n > 30) count("initial_large"); onlyRoots(*p, live, {}); if (g.chance(0.4)) { p->decRef(live.back()); live.pop_back(); }
    }
    for (auto& e: live) p->decRef(e); p->clearIdentityTable(); p->garbageCollect(true); CHK(p->mUniqueTable.getNodeCount() == 0, "initial:reclaim", "nodes left after release"); rec().distinct(hh);
}
template<class Cfg> VH_GLUE void garbage(Rng& g) {
    const bool tiny = std::is_same_v<Cfg, Tiny>; const int n = g.range(1, tiny ? 4 : 5); auto p = makePkg<Cfg>(static_cast<std::size_t>(n + 1)); std::vector<dd::mEdge> live; std::vector<dd::vEdge> liveV; std::uint64_t hh = 5;
    for (int k = 0; k < 4; k++) {
        Mat d(std::size_t{1} << n); dd::mEdge e{};
        if (g.chance(0.5)) { auto pm = g.perm(static_cast<int>(d.d)); for (std::size_t i = 0; i < d.d; i++) d(static_cast<std::size_t>(pm[i]), i) = 1; e = p->makeDDFromMatrix(toCMat(d)); }
        else { for (std::size_t i = 0; i < d.d; i++) d(i, i) = 1; e = p->makeIdent(static_cast<dd::QubitCount>(n)); for (int s = g.range(1, 8); s > 0; s--) { const int t = g.range(0, n - 1); auto c = randCtl(g, n, {t}); const dd::GateMatrix X = dd::Xmat; e = p->multiply(p->makeGateDD(X, static_cast<dd::QubitCount>(n), toControls(c), static_cast<dd::Qubit>(t)), e); Mat G(2); G(0, 1) = G(1, 0) = 1; d = embed(G, n, {t}, c) * d; } count("reversible_circuits"); }
        p->incRef(e); EQV(evalM(e, n), d, "garbage:build", "permutation"); 
        const bool reg = g.chance(0.5); const auto gar = subset(g, n, g.range(0, 2));
        if (g.chance(0.4)) { const auto anc = subset(g, n, 0); d = cutAnc(d, n, anc, reg); e = p->reduceAncillae(e, anc, reg); EQV(evalM(e, n), d, "garbage:ancillae", "ancillae ", showB(anc)); count("with_ancillae"); }
        note(str("garbage", n, showB(gar), reg)); const auto want = mergeGarbage(d, n, gar, reg); const auto before = p->cn.cacheCount();
        if (!(e == dd::mEdge::zero)) { e = p->reduceGarbage(e, gar, reg); EQV(evalM(e, n), want, "garbage:value", "merged ", showB(gar), reg ? " rows" : " columns"); auto c = p->makeDDFromMatrix(toCMat(want)); CHK(c == e, "garbage:canonical", "not the canonical diagram"); const auto f = e; e = p->reduceGarbage(e, gar, reg); CHK(e == f, "garbage:twice", "another diagram when merged twice"); count(reg ? "garbage_rows" : "garbage_columns"); }
        CHK(p->cn.cacheCount() == before, "garbage:loan", "temporary numbers lost"); live.push_back(e); hh = mix(hh ^ hashOf(want)); onlyRoots(*p, live, liveV);
        { // basis states
            const int m = g.range(1, n); std::vector<bool> b(static_cast<std::size_t>(m)); for (auto&& x: b) x = g.chance(0.5); const auto gv = subset(g, m, g.range(0, 2)); auto s = p->makeBasisState(static_cast<dd::QubitCount>(m), b); p->incRef(s); s = p->reduceGarbage(s, gv); std::size_t i = 0; for (int q = 0; q < m; q++) if (b[static_cast<std::size_t>(q)] && !gv[static_cast<std::size_t>(q)]) i |= std::size_t{1} << q; Vec wv(std::size_t{1} << m); wv[i] = 1; EQV(evalV(s, m), wv, "garbage:state", "basis state ", showB(b), " merged ", showB(gv)); std::vector<bool> bb = b; for (std::size_t q = 0; q < b.size(); q++) if (gv[q]) bb[q] = false; CHK(p->makeBasisState(static_cast<dd::QubitCount>(m), bb) == s, "garbage:state-canonical", "not the basis state"); liveV.push_back(s); count("garbage_states"); hh = mix(hh ^ hashOf(wv)); }
        if (g.chance(0.3)) p->garbageCollect(true); onlyRoots(*p, live, liveV);
    }
    auditPackage(*p); for (auto& e: live) p->decRef(e); for (auto& e: liveV) p->decRef(e); p->clearIdentityTable(); p->garbageCollect(true); CHK(p->mUniqueTable.getNodeCount() == 0 && p->vUniqueTable.getNodeCount() == 0, "garbage:reclaim", "nodes left after release"); rec().distinct(hh);
}
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    if (large::sometimes<Cfg>(g, 0.02, [](auto& r) { r.factorOps(16 + 4); })) return;
    switch (g.range(0, 5)) { case 0: case 1: case 2: worlds<Cfg>(g); break; case 3: initial<Cfg>(g); break; default: garbage<Cfg>(g); }
    if (i < 8) rec().sample(rec().cur);
}
VH_SPLIT(body)
VH_MAIN("large", "deleted_v", "deleted_m", "anc_columns", "anc_rows", "anc_to_zero", "canonical", "initial", "initial_large", "reversible_circuits", "with_ancillae", "garbage_rows", "garbage_columns", "garbage_states")
