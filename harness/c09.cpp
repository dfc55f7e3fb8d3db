// C09: well-formed, reduced, unique nodes and reported sizes at every point of long histories
#include "hist.hpp"
using namespace vh;
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    auto h = makeHist<Cfg>(g, 2, 0); const int len = g.range(15, 50);
    h.w.nice = g.chance(0.3); const int every = std::is_same_v<Cfg, Std> ? 6 : 2;
    for (int s = 0; s < len; s++) {
        h.step();
        if (g.below(static_cast<std::size_t>(every)) == 0 || s + 1 == len) { auditPackage(*h.w.p); count("audits"); }
        if (g.chance(0.3)) {
            for (auto& x: h.w.vs) { CHK(h.w.p->size(x.e) == countNodes(x.e), "result:size", "size ", h.w.p->size(x.e), " want ", countNodes(x.e)); CHK(h.w.p->isLocallyConsistent(x.e), "consistent", "a referenced state is reported as inconsistent"); }
            for (auto& x: h.w.ms) { CHK(h.w.p->size(x.e) == countNodes(x.e), "result:size", "size ", h.w.p->size(x.e), " want ", countNodes(x.e)); CHK(h.w.p->isLocallyConsistent(x.e), "consistent", "a referenced matrix is reported as inconsistent"); }
            count("sizes", h.w.vs.size() + h.w.ms.size());
        }
    }
    // each function of the population built anew does not add nodes for already stored well separated functions (covered by C08)
    auditPackage(*h.w.p); rec().distinct(h.w.hist ^ h.dw.hist); if (i < 8) rec().sample(rec().cur);
    h.releaseAll(); h.w.p->garbageCollect(true); auditPackage(*h.w.p);
}
// strict: moderate values only, so that the largest weight of every matrix node has magnitude one
template<class Cfg> VH_GLUE void strict(Rng& g, std::size_t i) {
    const int n = g.range(1, 4); auto p = makePkg<Cfg>(static_cast<std::size_t>(n));
    bestLimit = 1 + 1e-6; const int k = g.range(2, 6); std::vector<dd::mEdge> ms; std::uint64_t hh = 3;
    for (int j = 0; j < k; j++) { Mat m = randMat(g, n, g.range(0, 8)); for (auto& x: m.a) if (std::abs(x) < 1e-3) x = 0; hh = mix(hh ^ hashOf(m)); auto e = p->makeDDFromMatrix(toCMat(m)); EQV(evalM(e, n), m, "strict:matrix", "matrix"); p->incRef(e); ms.push_back(e); auditPackage(*p); }
    for (int j = 0; j < k; j++) { Vec m = normalized(randVec(g, n, g.range(0, 6))); for (auto& x: m) if (std::abs(x) < 1e-3) x = 0; if (maxAbs(m) < 0.01) continue; auto e = p->makeStateFromVector(toCVec(m)); EQV(evalV(e, n), m, "strict:vector", "vector"); auditPackage(*p); }
    for (auto& e: ms) p->decRef(e);
    bestLimit = 1.5; count("strict"); rec().distinct(hh); note(str("strict n=", n)); (void)i;
}
// scales: amplitudes and entries far apart, so that quotients of weights vanish although the numbers themselves do not
template<class Cfg> VH_GLUE void scales(Rng& g, std::size_t i) {
    struct Lax { double a = normTol, b = bestLimit; Lax() { normTol = bestLimit = 1e300; } ~Lax() { normTol = a; bestLimit = b; } } lax; // weights near the tolerance have no relative accuracy
    const int n = g.range(1, 4); auto p = makePkg<Cfg>(static_cast<std::size_t>(n) + 1); const int k = g.range(2, 8); std::uint64_t hh = 5; note(str("scales n=", n));
    std::vector<dd::vEdge> vs; std::vector<dd::mEdge> ms;
    auto val = [&] { if (g.chance(0.2)) return C(0); return std::pow(10.0, g.chance(0.5) ? g.uni(-1, 4) : g.uni(-14, -6)) * (g.chance(0.5) ? C(1) : randPhaseUnit(g)); };
    for (int j = 0; j < k; j++) {
        switch (g.range(0, 5)) {
        case 0: case 1: { Vec d(std::size_t{1} << n); for (auto& x: d) x = val(); hh = mix(hh ^ hashOf(d)); vs.push_back(p->makeStateFromVector(toCVec(d))); p->incRef(vs.back()); break; }
        case 2: { Mat d(std::size_t{1} << n); for (auto& x: d.a) x = val(); hh = mix(hh ^ hashOf(d)); ms.push_back(p->makeDDFromMatrix(toCMat(d))); p->incRef(ms.back()); break; }
        case 3: if (vs.size() > 1) { vs.push_back(p->add(g.pick(vs), g.pick(vs))); p->incRef(vs.back()); } break;
        case 4: if (!ms.empty() && !vs.empty()) { vs.push_back(p->multiply(g.pick(ms), g.pick(vs))); p->incRef(vs.back()); } break;
        default: if (ms.size() > 1) { ms.push_back(g.chance(0.5) ? p->add(g.pick(ms), g.pick(ms)) : p->conjugateTranspose(g.pick(ms))); p->incRef(ms.back()); } break;
        }
        auditPackage(*p);
    }
    for (auto& e: vs) p->decRef(e); for (auto& e: ms) p->decRef(e); p->garbageCollect(true); auditPackage(*p); count("scales"); rec().distinct(hh); (void)i;
}
template<class Cfg> void both(Rng& g, std::size_t i) { if (g.chance(0.15)) strict<Cfg>(g, i); else if (g.chance(0.2)) scales<Cfg>(g, i); else body<Cfg>(g, i); }
VH_SPLIT(both)
VH_MAIN("audits", "sizes", "strict", "scales", "density_created", "nodes_audited", "numbers_audited", "gc_forced")
