// C11: reference counts are exact; everything unreferenced is reclaimed
#include "hist.hpp"
using namespace vh;
struct ClogCapture { std::ostringstream o; std::streambuf* old; ClogCapture(): old(std::clog.rdbuf(o.rdbuf())) {} ~ClogCapture() { std::clog.rdbuf(old); } };
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    auto h = makeHist<Cfg>(g, 2, 0); auto& p = *h.w.p; const int len = g.range(20, 60); const int every = std::is_same_v<Cfg, Std> ? 8 : 2;
    for (int s = 0; s < len; s++) {
        h.step();
        if (g.below(static_cast<std::size_t>(every)) == 0 || s + 1 == len) h.checkRefs();
        if (g.chance(0.1)) { // repeated references to the same diagrams, released in another order
            std::vector<dd::vEdge> a; std::vector<dd::mEdge> b; const int k = g.range(1, 6);
            for (int j = 0; j < k; j++) { if (!h.w.vs.empty() && g.chance(0.5)) { a.push_back(h.w.vs[g.below(h.w.vs.size())].e); p.incRef(a.back()); } else if (!h.w.ms.empty()) { b.push_back(h.w.ms[g.below(h.w.ms.size())].e); p.incRef(b.back()); } }
            RefModel r; for (auto& x: h.w.vs) r.addRoot(x.e); for (auto& x: h.w.ms) r.addRoot(x.e); for (auto& x: h.dw.ds) r.addRoot(x.e); for (auto& x: a) r.addRoot(x); for (auto& x: b) r.addRoot(x);
            r.compareNodes(p.vUniqueTable, "vector"); r.compareNodes(p.mUniqueTable, "matrix"); r.compareNodes(p.dUniqueTable, "density"); r.compareNumbers(p.cn.complexTable, true);
            for (std::size_t j = 0; j < a.size(); j++) std::swap(a[j], a[g.below(a.size())]); for (auto& x: a) p.decRef(x); for (auto& x: b) p.decRef(x); count("multi_refs");
        }
        if (g.chance(0.1)) { // releasing an unreferenced diagram is reported and changes nothing
            const int n = g.range(1, h.w.maxN); std::vector<bool> bs; for (int q = 0; q < n; q++) bs.push_back(g.chance(0.5));
            bool thrown = false; auto e = p.makeBasisState(static_cast<dd::QubitCount>(n), bs);
            if (e.p->ref == 0) { try { p.decRef(e); } catch (const std::runtime_error&) { thrown = true; } CHK(thrown, "refs:underflow", "release of an unreferenced state accepted"); count("underflow_reported"); }
            thrown = false; auto m = p.makeGateDD(dd::Zmat, static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(g.range(0, n - 1)));
            if (m.p->ref == 0 && m.w == dd::Complex::one) { try { p.decRef(m); } catch (const std::runtime_error&) { thrown = true; } CHK(thrown, "refs:underflow", "release of an unreferenced matrix accepted"); count("underflow_reported"); }
        }
        if (g.chance(0.06)) { // forced collection keeps exactly the referenced nodes and numbers
            p.garbageCollect(true); RefModel r; for (auto& x: h.w.vs) r.addRoot(x.e); for (auto& x: h.w.ms) r.addRoot(x.e); for (auto& x: h.dw.ds) r.addRoot(x.e);
            const std::size_t stored = p.vUniqueTable.getNodeCount() + p.mUniqueTable.getNodeCount() + p.dUniqueTable.getNodeCount(); CHK(stored == r.node.size(), "reclaim:nodes", "after a forced collection ", stored, " nodes stored, ", r.node.size(), " referenced");
            const std::size_t act = p.vUniqueTable.getActiveNodeCount() + p.mUniqueTable.getActiveNodeCount() + p.dUniqueTable.getActiveNodeCount(); CHK(act == stored, "reclaim:active", act, " active of ", stored);
            std::size_t half = 1; for (auto& [k, v]: r.num) if (std::abs(static_cast<const dd::CTEntry*>(k)->value - 0.5) < 1e-12) half = 0;
            CHK(p.cn.complexTable.getCount() == r.num.size() + half, "reclaim:numbers", p.cn.complexTable.getCount(), " numbers stored, ", r.num.size() + half, " referenced"); count("exact_collections");
        }
    }
    for (auto& x: h.w.vs) CHK(p.isLocallyConsistent(x.e), "consistent", "state"); for (auto& x: h.w.ms) CHK(p.isLocallyConsistent(x.e), "consistent", "matrix");
    const std::uint64_t hh = h.w.hist ^ h.dw.hist; h.releaseAll(); h.checkRefs(); p.garbageCollect(true);
    CHK(p.vUniqueTable.getNodeCount() == 0 && p.mUniqueTable.getNodeCount() == 0 && p.dUniqueTable.getNodeCount() == 0, "reclaim:all", "nodes left after everything was released: ", p.vUniqueTable.getNodeCount(), " ", p.mUniqueTable.getNodeCount(), " ", p.dUniqueTable.getNodeCount());
    CHK(p.cn.complexTable.getCount() == 1, "reclaim:all-numbers", "numbers left: ", p.cn.complexTable.getCount()); for (auto& s: {p.vUniqueTable.getActiveNodeCount(), p.mUniqueTable.getActiveNodeCount(), p.dUniqueTable.getActiveNodeCount()}) CHK(s == 0, "reclaim:active", "active ", s);
    count("full_reclaims"); rec().distinct(hh); if (i < 8) rec().sample(rec().cur);
}
// a saturated counter keeps its diagram forever, without wrapping around
template<class Cfg> VH_GLUE void saturate(Rng& g, std::size_t i) {
    const int n = g.range(1, 4); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); Vec v = normalized(randVec(g, n, 0)); auto e = p->makeStateFromVector(toCVec(v)); p->incRef(e); ClogCapture cl; constexpr auto MX = std::numeric_limits<dd::RefCount>::max();
    const bool num = g.chance(0.4); dd::CTEntry* w = dd::CTEntry::getAlignedPointer(e.w.r);
    Mat m = randMat(g, n, 0); auto f = p->makeDDFromMatrix(toCMat(m)); p->incRef(f); const bool mat = g.chance(0.5);
    const dd::RefCount below = static_cast<dd::RefCount>(g.range(0, 3)); const int inc = g.range(4, 8);
    if (num) { if (isConst(w)) throw Skip{}; w->refCount = MX - below; } else if (mat) f.p->ref = MX - below; else e.p->ref = MX - below;
    auto cur = [&]() -> dd::RefCount { return num ? w->refCount : mat ? f.p->ref : e.p->ref; };
    for (int k = 0; k < inc; k++) { if (num) dd::ComplexTable<>::incRef(e.w.r); else if (mat) p->incRef(f); else p->incRef(e); CHK(cur() >= MX - below, "saturation:wrap", "counter wrapped to ", cur()); }
    CHK(cur() == MX, "saturation:value", "counter is ", cur()); const int dec = g.range(1, 12);
    for (int k = 0; k < dec; k++) { if (num) dd::ComplexTable<>::decRef(e.w.r); else if (mat) p->mUniqueTable.decRef({f.p, dd::Complex::one}); else p->vUniqueTable.decRef({e.p, dd::Complex::one}); CHK(cur() == MX, "saturation:left", "a saturated counter was decreased to ", cur()); }
    p->garbageCollect(true); EQV(evalV(e, n), v, "saturation:state", "state after a collection"); EQV(evalM(f, n), m, "saturation:matrix", "matrix after a collection"); auditPackage(*p);
    count("saturations"); rec().distinct(hashOf(v)); note(str("saturate n=", n)); (void)i;
}
// one diagram alone in the package passes the library's own global reference-count check
template<class Cfg> VH_GLUE void single(Rng& g, std::size_t i) {
    const int n = g.range(1, 4); auto p = makePkg<Cfg>(static_cast<std::size_t>(n));
    if (g.chance(0.5)) { auto e = p->makeStateFromVector(toCVec(normalized(randVec(g, n)))); p->incRef(e); CHK(p->isGloballyConsistent(e), "global", "state"); RefModel r; r.addRoot(e); r.compareNodes(p->vUniqueTable, "vector"); r.compareNumbers(p->cn.complexTable, true); p->decRef(e); }
    else { auto e = p->makeDDFromMatrix(toCMat(randMat(g, n))); p->incRef(e); CHK(p->isGloballyConsistent(e), "global", "matrix"); RefModel r; r.addRoot(e); r.compareNodes(p->mUniqueTable, "matrix"); r.compareNumbers(p->cn.complexTable, true); p->decRef(e); }
    p->garbageCollect(true); CHK(p->vUniqueTable.getNodeCount() == 0 && p->mUniqueTable.getNodeCount() == 0 && p->cn.complexTable.getCount() == 1, "reclaim:all", "left after release"); count("single"); note("single"); (void)i;
}
template<class Cfg> void both(Rng& g, std::size_t i) { if (g.chance(0.1)) saturate<Cfg>(g, i); else if (g.chance(0.1)) single<Cfg>(g, i); else body<Cfg>(g, i); }
VH_SPLIT(both)
VH_MAIN("ref_audits", "multi_refs", "underflow_reported", "exact_collections", "full_reclaims", "saturations", "single", "density_created")
