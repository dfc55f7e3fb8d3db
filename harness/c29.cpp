// C29: the consistency checks accept intact diagrams and report damaged ones
#include "hist.hpp"
#include "shape.hpp"
using namespace vh;
struct Quiet { std::ostringstream o; std::streambuf* old; Quiet(): old(std::clog.rdbuf(o.rdbuf())) {} ~Quiet() { std::clog.rdbuf(old); } };
template<class P, class E> bool local(P& p, const E& e, bool expectText) { Quiet q; const bool r = p.isLocallyConsistent(e); CHK(r || !expectText || !q.o.str().empty(), "local:silent", "a damage is reported without any message"); return r; }
template<class P, class E> bool global(P& p, const E& e) { Quiet q; try { return p.isGloballyConsistent(e); } catch (const std::runtime_error&) { return false; } }
template<class E> auto nodesOf(const E& root) { using Node = typename NodeOf<E>::type; std::vector<Node*> r; std::unordered_set<Node*> seen; std::vector<Node*> st{root.p}; while (!st.empty()) { auto* p = st.back(); st.pop_back(); if (Node::isTerminal(p) || !seen.insert(p).second) continue; r.push_back(p); for (auto& e: p->e) st.push_back(e.p); } return r; }
// one referenced diagram: both checks accept it, and each kind of damage is reported; afterwards the damage is undone
template<class P, class E> void damage(P& p, Rng& g, const E& e, bool alone, std::string& desc) {
    using Node = typename NodeOf<E>::type; const char* kind = std::is_same_v<E, dd::vEdge> ? "state" : "matrix";
    auto intact = [&](const char* when) { CHK(local(p, e, false), "local:false-alarm", when, ": the ", kind, " is intact but reported"); if (alone) CHK(global(p, e), "global:false-alarm", when, ": the ", kind, " is the only referenced diagram but reported"); count("intact_accepted"); };
    intact("before"); auto ns = nodesOf(e); if (ns.empty()) return;
    for (int r = 0; r < 4; r++) {
        Node* x = g.pick(ns);
        switch (g.range(0, 6)) {
        case 0: { const auto old = x->ref; x->ref = 0; const bool l = local(p, e, true), gl = alone && global(p, e); x->ref = old; CHK(!l, "local:missed", "node of level ", int(x->v), " of ", ns.size(), " without reference not reported"); CHK(!gl, "global:missed", "node without reference not reported"); desc += " ref0"; count("damage_ref0"); break; }
        case 1: { if (!alone) break; const auto old = x->ref; x->ref = g.chance(0.5) ? old + 1 : g.chance(0.5) && old > 1 ? old - 1 : old + static_cast<decltype(x->ref)>(g.range(2, 9)); const bool gl = global(p, e); const auto bad = x->ref; x->ref = old; CHK(!gl, "global:missed", "node of level ", int(x->v), " with ", bad, " instead of ", old, " references not reported"); desc += " refcount"; count("damage_refcount"); break; }
        case 2: { // a level that fits neither predecessors nor successors
            if (x == e.p) break; const auto old = x->v; const int d = g.chance(0.5) ? 1 : g.range(2, 5); x->v = static_cast<dd::Qubit>(g.chance(0.5) || old - d < 0 ? old + d : old - d); const bool l = local(p, e, true), gl = alone && global(p, e); const int bad = x->v; x->v = old; CHK(!l, "local:missed", "node of level ", int(old), " marked as level ", bad, " not reported"); CHK(!gl, "global:missed", "wrong level not reported"); desc += " level"; count("damage_level"); break; }
        case 3: { // an unreferenced number
            auto& w = x->e[g.below(x->e.size())].w; auto* n = const_cast<dd::CTEntry*>(aligned(g.chance(0.5) ? w.r : w.i)); if (isConst(n) || n->refCount == 0) break; const auto old = n->refCount; n->refCount = 0; const bool l = local(p, e, true), gl = alone && global(p, e); n->refCount = old; CHK(!l, "local:missed", "weight ", val(w), " of an unreferenced number not reported"); CHK(!gl, "global:missed", "unreferenced number not reported"); desc += " number0"; count("damage_number0"); break; }
        case 4: { // fewer references of a number than occurrences
            if (!alone) break; auto& w = x->e[g.below(x->e.size())].w; auto* n = const_cast<dd::CTEntry*>(aligned(g.chance(0.5) ? w.r : w.i)); if (isConst(n)) break; std::uint64_t occ = 0; auto see = [&](const dd::Complex& c) { for (auto* y: {c.r, c.i}) if (aligned(y) == n) occ++; }; see(e.w); for (auto* y: ns) for (auto& c: y->e) see(c.w); const auto old = n->refCount; if (occ < 2) break; n->refCount = static_cast<decltype(n->refCount)>(occ - 1); const bool gl = global(p, e); n->refCount = old; CHK(!gl, "global:missed", "number with ", occ, " occurrences and ", occ - 1, " references not reported"); desc += " number-count"; count("damage_numbercount"); break; }
        case 5: { // a successor that skips a level
            std::vector<Node*> hi; for (auto* y: ns) if (y->v >= 2) hi.push_back(y); if (hi.empty()) break; Node* y = g.pick(hi); std::vector<Node*> lo; for (auto* z: ns) if (z->v < y->v - 1) lo.push_back(z); auto& c = y->e[g.below(y->e.size())]; if (lo.empty() || c.w.approximatelyZero() || c.isTerminal()) break; auto* old = c.p; c.p = g.pick(lo); const bool l = local(p, e, true), gl = alone && global(p, e); c.p = old; CHK(!l, "local:missed", "successor that skips a level not reported"); CHK(!gl, "global:missed", "successor that skips a level not reported"); desc += " skip"; count("damage_skip"); break; }
        default: { // the root weight
            auto* n = const_cast<dd::CTEntry*>(aligned(g.chance(0.5) ? e.w.r : e.w.i)); if (isConst(n)) break; const auto old = n->refCount; if (old == 0) break; n->refCount = 0; const bool l = local(p, e, true); n->refCount = old; CHK(!l, "local:missed", "unreferenced root weight not reported"); desc += " root"; count("damage_root"); }
        }
    }
    intact("after");
}
template<class Cfg> VH_GLUE void single(Rng& g, std::size_t i) {
    const int n = g.range(1, 5); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); std::string desc = str("single n=", n); std::uint64_t hh = 1;
    if (g.chance(0.5)) {
        dd::vEdge e = dd::vEdge::zero; switch (g.range(0, 2)) { case 0: e = layeredV(*p, g, n, g.range(1, 3), hh); break; case 1: e = p->makeStateFromVector(toCVec(randVec(g, n))); break; default: { auto a = p->makeStateFromVector(toCVec(randVec(g, n))); auto m = p->makeDDFromMatrix(toCMat(randMat(g, n))); e = p->multiply(m, a); } }
        p->incRef(e); p->garbageCollect(g.chance(0.5)); damage(*p, g, e, true, desc); hh = mix(hh ^ snapshot(e)); p->decRef(e);
    } else {
        dd::mEdge e = dd::mEdge::zero; switch (g.range(0, 3)) { case 0: e = layeredM(*p, g, n, g.range(1, 3), hh); break; case 1: e = p->makeDDFromMatrix(toCMat(randMat(g, n))); break; case 2: { const int t = g.range(0, n - 1); auto c = randCtl(g, n, {t}); e = p->makeGateDD(gate1(g).mat, static_cast<dd::QubitCount>(n), toControls(c), static_cast<dd::Qubit>(t)); break; } default: e = p->makeIdent(static_cast<dd::QubitCount>(n)); }
        p->incRef(e); p->garbageCollect(g.chance(0.5)); damage(*p, g, e, true, desc); p->decRef(e);
    }
    note(desc); rec().distinct(mix(hh ^ fnv(desc) ^ g.u64())); count("single"); if (i < 8) rec().sample(desc);
}
template<class Cfg> VH_GLUE void many(Rng& g, std::size_t i) {
    auto h = makeHist<Cfg>(g, 2, 0); auto& p = *h.w.p; std::string desc = "history:";
    for (int s = 0, len = g.range(8, 30); s < len; s++) { h.step(); if (s % 4 == 3) { for (auto& v: h.w.vs) CHK(local(p, v.e, false), "local:false-alarm", "a referenced state is reported"); for (auto& m: h.w.ms) CHK(local(p, m.e, false), "local:false-alarm", "a referenced matrix is reported"); count("populations_accepted"); if (g.chance(0.5)) { if (auto* v = h.w.pickV()) damage(p, g, v->e, false, desc); } else if (auto* m = h.w.pickM()) damage(p, g, m->e, false, desc); } }
    rec().distinct(h.w.hist ^ h.dw.hist); if (i < 8) rec().sample(rec().cur + desc); h.releaseAll(); count("histories");
    // once everything is released, a diagram built anew is the only one
    auto e = p.makeStateFromVector(toCVec(randVec(g, h.w.maxN))); p.incRef(e); damage(p, g, e, true, desc); p.decRef(e);
    if (!e.isTerminal()) { p.garbageCollect(true); } auto z = p.makeStateFromVector(toCVec(randVec(g, h.w.maxN, 0))); if (!z.isTerminal()) CHK(!local(p, z, true), "local:missed", "a state that was never referenced is not reported"); count("unreferenced");
}
template<class Cfg> void both(Rng& g, std::size_t i) { if (g.chance(0.7)) single<Cfg>(g, i); else many<Cfg>(g, i); }
VH_SPLIT(both)
VH_MAIN("intact_accepted", "damage_ref0", "damage_refcount", "damage_level", "damage_number0", "damage_numbercount", "damage_skip", "damage_root", "populations_accepted", "unreferenced", "single", "histories")
