// C19: transferring diagrams between packages
#include "shape.hpp"
#include "world.hpp"
#include "wide.hpp"
using namespace vh;
constexpr std::uint64_t OPS19 = ops({NEWV, NEWM, GATE, MULV, MULM, ADDV, ADDM, TRANS, KRONV, KRONM, GC, DROP, MEAS1, IDENT, DELEDGE});
template<class UT> bool stored(const UT& ut, const void* p) { for (auto& l: liveNodes(ut)) for (auto* x: l) if (x == p) return true; return false; }
template<class P, class E> void owned(P& q, const E& e) { // root belongs to q (the rest is covered by the audit of q)
    auto nums = auditNumbers(q.cn.complexTable); for (auto* x: {e.w.r, e.w.i}) CHK(isConst(aligned(x)) || nums.count(aligned(x)) == 1, "transfer:foreign-number", "the root weight is not a number of the target package");
    if (!e.isTerminal()) { if constexpr (std::is_same_v<E, dd::vEdge>) CHK(stored(q.vUniqueTable, e.p), "transfer:foreign-node", "the root is not a node of the target package"); else CHK(stored(q.mUniqueTable, e.p), "transfer:foreign-node", "the root is not a node of the target package"); }
}
template<class P, class E> VH_GLUE E move(P& p, P& q, Rng& g, E& e, bool nice) {
    const auto snap = snapshot(e); const auto o = e; const auto nv = p.vUniqueTable.getNodeCount(), nm = p.mUniqueTable.getNodeCount(), nn = p.cn.complexTable.getCount();
    E a = q.transfer(e);
    CHK(e == o && snapshot(e) == snap, "transfer:changed", "the original changed"); CHK(p.vUniqueTable.getNodeCount() == nv && p.mUniqueTable.getNodeCount() == nm && p.cn.complexTable.getCount() == nn, "transfer:source", "the source package changed");
    CHK(q.cn.cacheCount() == 0 && p.cn.cacheCount() == 0, "transfer:loan", "temporary numbers lost"); owned(q, a); q.incRef(a); auditPackage(q);
    { E b = q.transfer(e); CHK(b == a, "transfer:again", "a second transfer gives another diagram"); E c = q.transfer(a); CHK(c.p == a.p && std::abs(val(c.w) - val(a.w)) < 1e-11 * (1 + std::abs(val(a.w))), "transfer:self", "a transfer within a package gives another diagram"); }
    if (nice) { CHK(sameShape(a, e), "transfer:shape", "the transferred diagram has another shape"); E back = p.transfer(a); CHK(back.p == e.p && std::abs(val(back.w) - val(e.w)) < 1e-11 * (1 + std::abs(val(e.w))), "transfer:back", "not the same after a transfer back"); count("returned"); }
    CHK(countNodes(a) <= countNodes(e), "transfer:size", "more nodes than the original: ", countNodes(a), " / ", countNodes(e)); count("transfers"); (void)g; return a;
}
template<class Cfg> VH_GLUE void worlds(Rng& g) {
    const int n = g.range(1, std::is_same_v<Cfg, Tiny> ? 4 : 5); auto w = std::make_unique<World<Cfg, OPS19>>(g, n); w->nice = w->unitaryOnly = g.chance(0.5); w->snaps = true; auto q = std::make_unique<World<Cfg, OPS19>>(g, n); q->unitaryOnly = w->unitaryOnly; q->nice = w->nice; const int len = g.range(6, 25);
    static const std::vector<std::pair<int, int>> wt{{NEWV, 3}, {NEWM, 2}, {GATE, 3}, {MULV, 5}, {MULM, 4}, {ADDV, 2}, {ADDM, 2}, {TRANS, 1}, {KRONV, 2}, {KRONM, 2}, {GC, 1}, {DROP, 2}, {MEAS1, 1}, {IDENT, 1}, {DELEDGE, 1}};
    struct T { dd::vEdge v; dd::mEdge m; bool vec; Vec dv; Mat dm; int n; }; std::vector<T> ts; if (g.chance(0.4)) { for (int s = 0; s < 8; s++) q->step(q->pickOp(wt)); count("targets_with_history"); }
    auto check = [&](const char* when) { for (auto& t: ts) { if (t.vec) EQV(evalV(t.v, t.n), t.dv, "transfer:state", "transferred state ", when); else EQV(evalM(t.m, t.n), t.dm, "transfer:matrix", "transferred matrix ", when); } };
    for (int s = 0; s < len; s++) {
        w->step(w->pickOp(wt)); if (g.chance(0.3)) q->step(q->pickOp(wt)); if (!g.chance(0.4)) continue;
        if (g.chance(0.5) && !w->vs.empty()) { auto& x = *w->pickV(); T t{}; t.vec = true; t.n = x.n; t.dv = x.d; t.v = move(*w->p, *q->p, g, x.e, w->nice); EQV(evalV(t.v, t.n), t.dv, "transfer:state", "transferred state"); if (w->nice) { auto c = q->p->makeStateFromVector(toCVec(x.d)); CHK(c.p == t.v.p && std::abs(val(c.w) - val(t.v.w)) < 1e-9, "transfer:canonical", "transferred state is not the one built there"); count("canonical"); } ts.push_back(t); }
        else if (!w->ms.empty()) { auto& x = *w->pickM(); T t{}; t.vec = false; t.n = x.n; t.dm = x.d; t.m = move(*w->p, *q->p, g, x.e, w->nice); EQV(evalM(t.m, t.n), t.dm, "transfer:matrix", "transferred matrix"); if (w->nice) { auto c = q->p->makeDDFromMatrix(toCMat(x.d)); CHK(c.p == t.m.p && std::abs(val(c.w) - val(t.m.w)) < 1e-9, "transfer:canonical", "transferred matrix is not the one built there"); count("canonical"); } ts.push_back(t); }
        if (g.chance(0.2)) { q->p->garbageCollect(true); check("after a collection of the target"); w->p->garbageCollect(true); w->checkAll(); check("after a collection of the source"); }
    }
    w->checkAll(); w->checkRefs(); rec().distinct(w->hist);
    { RefModel r; for (auto& s: q->vs) r.addRoot(s.e); for (auto& m: q->ms) r.addRoot(m.e); for (auto& t: ts) { if (t.vec) r.addRoot(t.v); else r.addRoot(t.m); } r.compareNodes(q->p->vUniqueTable, "vector"); r.compareNodes(q->p->mUniqueTable, "matrix"); r.compareNumbers(q->p->cn.complexTable, true); }
    if (g.chance(0.5)) { // the source is destroyed, the copies live on
        w.reset(); check("after the source was destroyed"); auditPackage(*q->p);
        for (auto& t: ts) { if (t.vec) { auto G = unitary1(g); const int k = g.range(0, t.n - 1); auto e = q->p->multiply(q->p->makeGateDD(G.mat, static_cast<dd::QubitCount>(t.n), static_cast<dd::Qubit>(k)), t.v); EQV(evalV(e, t.n), embed(G.dense, t.n, {k}) * t.dv, "transfer:use", "operation on a transferred state"); q->p->decRef(t.v); } else { auto e = q->p->multiply(t.m, t.m); EQV(evalM(e, t.n), t.dm * t.dm, "transfer:use", "operation on a transferred matrix"); q->p->decRef(t.m); } }
        q->releaseAll(); q->p->garbageCollect(true); CHK(q->p->vUniqueTable.getNodeCount() == 0 && q->p->mUniqueTable.getNodeCount() == 0 && q->p->cn.complexTable.getCount() == 1, "transfer:reclaim", "left in the target after release"); count("source_destroyed");
    } else { q.reset(); w->checkAll(); for (int s = 0; s < 4; s++) w->step(w->pickOp(wt)); w->checkAll(); auditPackage(*w->p); w->releaseAll(); w->p->garbageCollect(true); CHK(w->p->vUniqueTable.getNodeCount() == 0 && w->p->mUniqueTable.getNodeCount() == 0, "transfer:reclaim", "left in the source after release"); count("target_destroyed"); }
}
template<class Cfg> VH_GLUE void terminals(Rng& g) {
    auto p = makePkg<Cfg>(2), q = makePkg<Cfg>(2); std::uint64_t hh = 1;
    for (int k = 0; k < 8; k++) { const C v = g.chance(0.3) ? C(0) : g.chance(0.3) ? C(1) : C(g.gauss(), g.gauss()); hh = mix(hh ^ hashOf(Vec{v})); auto one = [&](auto e) { e.w = p->cn.lookup(v); auto a = q->transfer(e); CHK(a.isTerminal() && std::abs(val(a.w) - val(e.w)) < 1e-12, "transfer:terminal", "terminal"); owned(*q, a); if (v == C(0)) CHK(a == decltype(e)::zero, "transfer:zero", "zero"); count("terminals"); }; if (g.chance(0.5)) one(dd::vEdge::one); else one(dd::mEdge::one); }
    rec().distinct(hh); note("terminals");
}
template<class Cfg> VH_GLUE void deep(Rng& g) {
    const bool tiny = std::is_same_v<Cfg, Tiny>; const int n = tiny ? g.range(4, 8) : g.range(6, std::is_same_v<Cfg, Std> ? 127 : 40); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)), q = makePkg<Cfg>(static_cast<std::size_t>(n)), r = makePkg<Cfg>(static_cast<std::size_t>(n)); std::uint64_t hh = 1;
    auto chain = [&](auto e) { p->incRef(e); auto a = move(*p, *q, g, e, true); auto b = move(*q, *r, g, a, true); CHK(sameShape(b, e), "transfer:chain", "shape after two transfers"); auto c = p->transfer(b); CHK(c.p == e.p && std::abs(val(c.w) - val(e.w)) < 1e-10, "transfer:chain", "not the same after three transfers"); p->decRef(e); p.reset(); CHK(countNodes(a) == countNodes(b), "transfer:chain", "sizes"); q->decRef(a); r->decRef(b); };
    if (g.chance(0.6)) { chain(layeredV(*p, g, n, g.range(1, 6), hh, g.uni(0, 0.4))); count("deep_states"); } else { chain(layeredM(*p, g, n, g.range(1, tiny ? 2 : 3), hh, g.uni(0.1, 0.5))); count("deep_matrices"); }
    rec().distinct(hh); note(str("deep n=", n));
}
// diagrams with many nodes
template<class Cfg> VH_GLUE void wide(Rng& g) {
    auto p = makePkg<Cfg>(16), q = makePkg<Cfg>(16); std::uint64_t hh = 5;
    auto trip = [&](auto e, const char* what) { p->incRef(e); auto a = q->transfer(e); CHK(countNodes(a) == countNodes(e) && sameShape(a, e), "transfer:shape", "wide ", what, " of ", countNodes(e), " nodes: another diagram"); q->incRef(a); p->garbageCollect(true); q->garbageCollect(true); CHK(sameShape(a, e), "transfer:shape", "wide ", what, " after collections"); auto b = p->transfer(a); CHK(sameShape(b, e), "transfer:back", "wide ", what, " transferred back"); count("wide_nodes", countNodes(e)); p->decRef(e); q->decRef(a); };
    if (g.chance(0.6)) { const int n = g.range(9, SLOW ? 10 : 16); note(str("wide state n=", n)); const Vec v = normalized(randVec(g, n, 0)); hh = hashOf(v); trip(p->makeStateFromVector(toCVec(v)), "state"); }
    else { const int n = g.range(4, SLOW ? 5 : 7); note(str("wide matrix n=", n)); Mat m(std::size_t{1} << n); for (auto& x: m.a) x = {g.uni(-1, 1), g.uni(-1, 1)}; hh = hashOf(m); trip(p->makeDDFromMatrix(toCMat(m)), "matrix"); }
    CHK(q->cn.cacheCount() == 0 && p->cn.cacheCount() == 0, "transfer:loan", "temporary numbers lost"); rec().distinct(hh); count("wide");
}
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    if (wideCase<Cfg>(g)) { if constexpr (std::is_same_v<Cfg, Std>) wide<Cfg>(g); return; }
    switch (g.range(0, 6)) { case 0: case 1: case 2: case 3: worlds<Cfg>(g); break; case 4: terminals<Cfg>(g); break; default: deep<Cfg>(g); }
    if (i < 8) rec().sample(rec().cur);
}
VH_SPLIT(body)
VH_MAIN("wide", "transfers", "returned", "canonical", "terminals", "deep_states", "deep_matrices", "source_destroyed", "target_destroyed", "targets_with_history")
