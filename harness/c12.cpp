// C12: no temporary number, node or table entry is lost
#include "hist.hpp"
using namespace vh;
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    auto h = makeHist<Cfg>(g, 2, 0); auto& p = *h.w.p; const int len = g.range(20, 60), mid = g.range(0, 2 * len);
    for (int s = 0; s < len; s++) {
        h.step(); CHK(p.cn.cacheCount() == 0, "cache-leak", "temporary numbers on loan: ", p.cn.cacheCount());
        if (s == mid) conservePackage(p); // every audit makes the tables grow by one chunk
    }
    rec().distinct(h.w.hist ^ h.dw.hist); if (i < 8) rec().sample(rec().cur); h.releaseAll(); p.garbageCollect(true); conservePackage(p); h.w.checkAll();
}
// operations with tiny or cancelling results
template<class Cfg> VH_GLUE void tinyOps(Rng& g, std::size_t i) {
    const int n = g.range(1, 4); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); std::string desc = str("tiny n=", n, " "); const auto N = static_cast<dd::QubitCount>(n); const std::size_t D = std::size_t{1} << n;
    auto perturb = [&](Vec v, bool neg) { for (auto& x: v) { if (neg) x = -x; if (g.chance(0.6)) x += std::pow(10.0, g.uni(-17, -11)) * randPhaseUnit(g); } return v; };
    auto chk = [&](const char* w) { CHK(p->cn.cacheCount() == 0, "cache-leak", w, ": temporary numbers on loan: ", p->cn.cacheCount()); desc += w; desc += ' '; };
    const int rounds = g.range(5, 15);
    for (int r = 0; r < rounds; r++) {
        Vec a = randVec(g, n), b = perturb(a, g.chance(0.8)); Mat m = randMat(g, n), k(D); k.a = perturb(m.a, g.chance(0.8));
        if (g.chance(0.3)) { const double s = std::pow(10.0, g.uni(-16, -10)); for (auto& x: a) x *= s; for (auto& x: m.a) x *= s; } // everything near the tolerance
        auto ea = p->makeStateFromVector(toCVec(a)); chk("sv"); auto eb = p->makeStateFromVector(toCVec(b)); chk("sv"); auto em = p->makeDDFromMatrix(toCMat(m)); chk("mm"); auto ek = p->makeDDFromMatrix(toCMat(k)); chk("mm");
        for (int j = 0; j < 6; j++) switch (g.range(0, 13)) {
            case 0: (void)p->add(ea, eb); chk("av"); break;
            case 1: (void)p->add(em, ek); chk("am"); break;
            case 2: (void)p->multiply(em, ea); chk("mv"); break;
            case 3: (void)p->multiply(em, ek); chk("mul"); break;
            case 4: (void)p->transpose(em); chk("tr"); break;
            case 5: (void)p->conjugateTranspose(ek); chk("ct"); break;
            case 6: (void)p->innerProduct(ea, eb); chk("ip"); break;
            case 7: (void)p->fidelity(ea, eb); chk("fid"); break;
            case 8: (void)p->trace(em); chk("trace"); break;
            case 9: { std::vector<bool> el(p->qubits()); for (auto&& x: el) x = g.chance(0.5); (void)p->partialTrace(em, el); chk("pt"); break; }
            case 10: { auto s = p->multiply(em, p->add(ea, eb)); (void)p->add(s, ea); chk("expr"); break; }
            case 11: (void)p->deleteEdge(ea, static_cast<dd::Qubit>(g.range(0, n - 1)), g.below(2)); chk("del"); (void)p->deleteEdge(em, static_cast<dd::Qubit>(g.range(0, n - 1)), g.below(4)); chk("del"); break;
            case 12: if (n >= 2) { auto s = p->makeDDFromMatrix(toCMat(randMat(g, 1))), t = p->makeDDFromMatrix(toCMat(randMat(g, n - 1))); (void)p->kronecker(s, t); (void)p->kronecker(t, s); auto x = p->makeStateFromVector(toCVec(randVec(g, 1))), y = p->makeStateFromVector(toCVec(randVec(g, n - 1))); (void)p->kronecker(x, y); chk("kron"); } break;
            default: { p->incRef(em); std::vector<bool> an(static_cast<std::size_t>(n)); for (auto&& x: an) x = g.chance(0.5); if (em.isTerminal()) { p->decRef(em); break; } auto x = p->reduceAncillae(em, an, g.chance(0.5)); p->decRef(x); chk("anc"); break; }
        }
        if (g.chance(0.2)) { p->garbageCollect(true); desc += "gc "; }
    }
    (void)N; conservePackage(*p); note(desc); rec().distinct(fnv(desc)); count("tiny"); if (i < 8) rec().sample(desc);
}
// the same workload again and again: memory stays bounded
template<class Cfg> VH_GLUE void plateau(Rng& g, std::size_t i) {
    const int n = g.range(1, std::is_same_v<Cfg, Std> ? 2 : 3); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); const std::uint64_t seed = g.u64(); std::vector<std::size_t> alloc; std::mt19937_64 mt(1); const int kind = g.range(0, 2); const bool gcEach = g.chance(0.9);
    // the peak of a round depends a little on the addresses of the nodes (they are the keys of small caches), so a single step is no
    // evidence: the rounds are doubled as long as the tables still grow, and growing in every doubling is a leak
    int rounds = 30, growths = 0;
    for (int r = 0; r < rounds; r++) {
        Rng w(seed);
        if (kind <= 1) {
            auto v = p->makeZeroState(static_cast<dd::QubitCount>(n)); p->incRef(v);
            for (int s = 0; s < 12; s++) { const int t = w.range(0, n - 1); auto G = unitary1(w); auto c = randCtl(w, n, {t}); auto op = p->makeGateDD(G.mat, static_cast<dd::QubitCount>(n), toControls(c), static_cast<dd::Qubit>(t)); auto x = p->multiply(op, v); p->incRef(x); p->decRef(v); v = x; auto y = p->multiply(op, p->conjugateTranspose(op)); (void)p->transpose(y); (void)p->add(y, op); }
            (void)p->innerProduct(v, v); (void)p->measureAll(v, false, mt); std::stringstream ss; dd::serialize(v, ss, false); (void)p->template deserialize<dd::vNode>(ss, false); p->decRef(v);
        }
        if (kind >= 1) { DWorld<Cfg> d(*p, w, n); d.create(); for (int s = 0; s < 6; s++) { d.apply(d.ds[0], w.range(0, 1)); if (w.chance(0.3)) d.read(d.ds[0]); } d.release(0); }
        rec().cur.clear(); if (gcEach || r % 5 == 4) p->garbageCollect(true);
        alloc.push_back(p->vUniqueTable.getAllocations() + p->mUniqueTable.getAllocations() + p->dUniqueTable.getAllocations() + p->cn.complexTable.getAllocations() + p->cn.complexCache.getAllocations());
        CHK(p->cn.cacheCount() == 0, "cache-leak", "temporary numbers on loan");
        if (r + 1 == rounds && alloc.back() != alloc[alloc.size() / 2 - 1] && ++growths < 4) { rounds *= 2; count("plateau_extended"); }
    }
    CHK(growths < 4, "plateau", "allocations grow in each of four doublings: ", alloc[alloc.size() / 16 - 1], " after ", alloc.size() / 16, " rounds, ", alloc.back(), " after ", alloc.size()); conservePackage(*p);
    count("plateaus"); rec().distinct(seed); note(str("plateau n=", n, " kind=", kind)); (void)i;
}
template<class Cfg> void both(Rng& g, std::size_t i) { if (g.chance(0.2)) plateau<Cfg>(g, i); else if (g.chance(0.5)) tinyOps<Cfg>(g, i); else body<Cfg>(g, i); }
VH_SPLIT(both)
VH_MAIN("conservation_audits", "tiny", "plateaus", "density_created", "gc_forced")
