// C21: reset and growth
#include "dens.hpp"
#include "shape.hpp"
#include "world.hpp"
using namespace vh;
template<class P> VH_GLUE void burst(P& p, Rng& g) { // many temporaries at once
    const int k = g.chance(0.1) ? g.range(1000, 6000) : g.range(1, 100); std::vector<dd::Complex> c; std::set<const void*> seen; for (int j = 0; j < k; j++) { c.push_back(p.cn.getCached(j, -j)); CHK(seen.insert(c.back().r).second && seen.insert(c.back().i).second, "reset:loan-twice", "a temporary number is loaned twice"); }
    for (int j = 0; j < k; j++) CHK(val(c[static_cast<std::size_t>(j)]) == C(j, -j), "reset:loan-value", "temporary number ", j, " is ", val(c[static_cast<std::size_t>(j)])); for (auto& x: c) p.cn.returnToCache(x); CHK(p.cn.cacheCount() == 0, "reset:loan-count", "loans"); count("loan_bursts");
}
constexpr std::uint64_t OPS21 = ops({NEWV, NEWM, GATE, MULV, MULM, ADDV, ADDM, TRANS, CTRANS, KRONV, KRONM, INNER, FID, TRACE, PTRACE, GC, DROP, MEAS1, MEASALL, IDENT, ANC, EXTEND, SERIAL, SIZE});
using WT = std::vector<std::pair<int, int>>;
template<class Cfg> using W21 = World<Cfg, OPS21>;
inline WT weights(Rng& g) { WT w{{NEWV, 3}, {NEWM, 3}, {GATE, 4}, {MULV, 4}, {MULM, 4}, {ADDV, 3}, {ADDM, 3}, {TRANS, 2}, {CTRANS, 2}, {KRONV, 2}, {KRONM, 2}, {INNER, 2}, {FID, 1}, {TRACE, 1}, {PTRACE, 1}, {GC, 1}, {DROP, 2}, {MEAS1, 1}, {MEASALL, 1}, {IDENT, 2}, {ANC, 1}, {EXTEND, 2}, {SERIAL, 1}, {SIZE, 1}}; for (auto& x: w) if (g.chance(0.3)) x.second = g.chance(0.5) ? 0 : x.second * 4; w.push_back({NEWV, 1}); w.push_back({GATE, 1}); return w; }
template<class P> VH_GLUE void fresh(P& p, const char* when) { // nothing from before is visible
    CHK(p.vUniqueTable.getNodeCount() == 0 && p.mUniqueTable.getNodeCount() == 0 && p.dUniqueTable.getNodeCount() == 0, "reset:nodes", when, ": nodes left");
    CHK(p.vUniqueTable.getActiveNodeCount() == 0 && p.mUniqueTable.getActiveNodeCount() == 0 && p.dUniqueTable.getActiveNodeCount() == 0, "reset:active", when, ": active nodes left");
    CHK(p.vUniqueTable.getMaxActiveNodes() == 0 && p.mUniqueTable.getMaxActiveNodes() == 0 && p.vUniqueTable.getPeakNodeCount() == 0 && p.mUniqueTable.getPeakNodeCount() == 0, "reset:statistics", when, ": statistics left");
    CHK(p.cn.complexTable.getCount() <= 1 && p.cn.cacheCount() == 0, "reset:numbers", when, ": ", p.cn.complexTable.getCount(), " numbers, ", p.cn.cacheCount(), " temporaries left");
    RefModel().compareNodes(p.vUniqueTable, "vector"); RefModel().compareNodes(p.mUniqueTable, "matrix"); RefModel().compareNodes(p.dUniqueTable, "density");
    for (auto& v: liveNodes(p.vUniqueTable)) CHK(v.empty(), "reset:nodes", when, ": state nodes still stored"); for (auto& v: liveNodes(p.mUniqueTable)) CHK(v.empty(), "reset:nodes", when, ": matrix nodes still stored"); for (auto& v: liveNodes(p.dUniqueTable)) CHK(v.empty(), "reset:nodes", when, ": density nodes still stored");
    const auto nums = auditNumbers(p.cn.complexTable); CHK(nums.size() <= 1, "reset:numbers", when, ": ", nums.size(), " numbers still stored"); RefModel().compareNumbers(p.cn.complexTable, false); auditPackage(p); count("fresh_audits");
}
template<class Cfg> VH_GLUE void junkCaches(W21<Cfg>& w, Rng& g) { // tables that only clients fill
    auto* m = w.pickM(); if (!m) return; auto e = m->e; auto& p = *w.p; const int n = w.maxN;
    for (int q = 0; q < n; q++) for (std::size_t k = 0; k < Cfg::STOCHASTIC_CACHE_OPS; k++) if (g.chance(0.7)) p.stochasticNoiseOperationCache.insert(static_cast<std::uint8_t>(k), static_cast<dd::Qubit>(q), e);
    for (int q = 0; q < n; q++) { dd::Controls c; for (int r = 0; r < n; r++) if (r != q && g.chance(0.5)) c.insert(dd::Control{static_cast<dd::Qubit>(r), g.chance(0.5) ? dd::Control::Type::pos : dd::Control::Type::neg}); p.toffoliTable.insert(static_cast<dd::QubitCount>(n), c, static_cast<dd::Qubit>(q), e); p.toffoliTable.insert(static_cast<dd::QubitCount>(n), {}, static_cast<dd::Qubit>(q), e); }
    count("client_caches");
}
template<class Cfg> VH_GLUE void noJunk(dd::Package<Cfg>& p, int n) {
    for (int q = 0; q < n; q++) { for (std::size_t k = 0; k < Cfg::STOCHASTIC_CACHE_OPS; k++) CHK(p.stochasticNoiseOperationCache.lookup(static_cast<std::uint8_t>(k), static_cast<dd::Qubit>(q)).p == nullptr, "reset:noise-cache", "cached noise operation survives"); CHK(p.toffoliTable.lookup(static_cast<dd::QubitCount>(n), {}, static_cast<dd::Qubit>(q)).p == nullptr, "reset:toffoli", "cached controlled gate survives"); }
}
// the same program on two packages, step by step
template<class Cfg> VH_GLUE bool same(W21<Cfg>& a, W21<Cfg>& b, Rng& ga, Rng& gb, const char* what) {
    if (ga.s != gb.s || a.vs.size() != b.vs.size() || a.ms.size() != b.ms.size()) { CHK(!a.nice, "reset:program", what, ": the same program runs differently"); count("diverged"); return false; }
    for (std::size_t k = 0; k < a.vs.size(); k++) { EQV(evalV(a.vs[k].e, a.vs[k].n), evalV(b.vs[k].e, b.vs[k].n), "reset:state", what, ": states differ"); if (a.nice) CHK(sameShape(a.vs[k].e, b.vs[k].e), "reset:shape", what, ": states have different diagrams"); }
    for (std::size_t k = 0; k < a.ms.size(); k++) { EQV(evalM(a.ms[k].e, a.ms[k].n), evalM(b.ms[k].e, b.ms[k].n), "reset:matrix", what, ": matrices differ"); if (a.nice) CHK(sameShape(a.ms[k].e, b.ms[k].e), "reset:shape", what, ": matrices have different diagrams"); }
    count("lockstep_compares"); return true;
}
template<class Cfg> VH_GLUE void dens(dd::Package<Cfg>& p, Rng& g, int n) { // density matrices before or after
    DWorld<Cfg> d(p, g, n); const int len = g.range(1, 4); d.create(); const int mode = g.range(0, 2); for (int s = 0; s < len; s++) { d.apply(d.ds[0], mode == 2 ? g.range(0, 1) : mode); if (g.chance(0.3)) d.read(d.ds[0]); } count("density_runs"); d.release(0);
}
template<class Cfg> VH_GLUE void resets(Rng& g) {
    const bool std_ = std::is_same_v<Cfg, Std>; const int n = g.chance(0.6) ? g.range(1, 2) : g.range(2, 4); auto keep = makePkg<Cfg>(static_cast<std::size_t>(n + 1)); const int rounds = g.range(2, std_ ? 4 : 7); std::uint64_t hh = 1;
    for (int r = 0; r < rounds; r++) {
        const auto seed = g.u64(); const auto wt = weights(g); Rng ga(seed), gb(seed); W21<Cfg> a(ga, n), b(gb, n); std::swap(a.p, keep); a.snaps = b.snaps = true; a.nice = a.unitaryOnly = b.nice = b.unitaryOnly = g.chance(0.5); b.countCache = false; const int len = g.range(3, 14); bool together = true; note(str("| round", r, a.nice ? "nice" : ""));
        const bool dn0 = g.chance(0.25); if (dn0) { auto x = a.p->makeZeroDensityOperator(1); a.p->densityNoise.insert(x, x, {0}); (void)b.p->makeZeroDensityOperator(1); }
        if (g.chance(0.25)) { Rng d1(seed + 1), d2(seed + 1); const int dn = g.range(1, std_ ? 2 : std::min(n, 2)); dens<Cfg>(*a.p, d1, std::min(dn, n)); dens<Cfg>(*b.p, d2, std::min(dn, n)); }
        for (int s = 0; s < len; s++) {
            const auto op = a.pickOp(wt); const auto op2 = b.pickOp(wt); if (op != op2) { together = false; }
            a.step(op); if (together) { const auto len0 = rec().cur.size(); b.step(op); rec().cur.resize(len0); together = same(a, b, ga, gb, r == 0 ? "new packages" : "after a reset"); }
        }
        if (together && r > 0) count("equal_rounds");
        a.checkAll(); if (together && a.nice) { a.p->garbageCollect(true); b.p->garbageCollect(true); CHK(a.p->vUniqueTable.getNodeCount() == b.p->vUniqueTable.getNodeCount() && a.p->mUniqueTable.getNodeCount() == b.p->mUniqueTable.getNodeCount() && a.p->dUniqueTable.getNodeCount() == b.p->dUniqueTable.getNodeCount(), "reset:node-count", "node counts differ from those of a new package"); CHK(a.p->vUniqueTable.getActiveNodeCount() == b.p->vUniqueTable.getActiveNodeCount() && a.p->mUniqueTable.getActiveNodeCount() == b.p->mUniqueTable.getActiveNodeCount(), "reset:active-count", "active node counts differ from those of a new package"); count("equal_counts"); }
        { RefModel m; for (auto& s: a.vs) m.addRoot(s.e); for (auto& s: a.ms) m.addRoot(s.e); m.compareNodes(a.p->vUniqueTable, "vector"); m.compareNodes(a.p->mUniqueTable, "matrix"); m.compareNumbers(a.p->cn.complexTable, false); }
        hh = mix(hh ^ a.hist); junkCaches<Cfg>(a, g);
        if (g.chance(0.3)) { (void)a.p->cn.getTemporary(0.3, 0.4); for (int k = g.chance(0.1) ? g.range(2000, 9000) : g.range(0, 600); k > 0; k--) (void)a.p->cn.getCached(0.1, 0.2); count("loans_at_reset"); } // even with loans outstanding
        if (g.chance(0.2)) { a.p->garbageCollect(true); count("collected_at_reset"); }
        if (g.chance(0.15)) { for (int k = 0; k < 6000; k++) (void)a.p->cn.lookup(1e-3 + k * 2e-4, 0.); count("many_numbers"); }
        a.p->reset(); std::swap(a.p, keep); fresh(*keep, "after a reset"); burst(*keep, g); noJunk<Cfg>(*keep, n); if (dn0) { auto x = keep->makeZeroDensityOperator(1); CHK(keep->densityNoise.lookup(x, {0}).p == nullptr, "reset:density-noise", "cached noisy density matrix survives"); keep->reset(); count("density_caches"); }; CHK(keep->qubits() == static_cast<std::size_t>(n + 1), "reset:qubits", "number of qubits"); count("resets"); if (g.chance(0.1)) { keep->reset(); fresh(*keep, "after two resets"); }
    }
    conservePackage(*keep); rec().distinct(hh);
}
template<class Cfg> VH_GLUE void growth(Rng& g) {
    const bool tiny = std::is_same_v<Cfg, Tiny>; int n = g.range(1, 2); W21<Cfg> w(g, n, 0); w.snaps = true; w.nice = w.unitaryOnly = g.chance(0.5); const auto wt = weights(g); std::unique_ptr<DWorld<Cfg>> d; if (g.chance(0.3)) { d = std::make_unique<DWorld<Cfg>>(*w.p, g, 1); d->create(); }
    for (int r = g.range(1, 3); r >= 0; r--) {
        const int len = g.range(4, 12); for (int s = 0; s < len; s++) w.step(w.pickOp(wt)); if (d) d->apply(d->ds[0], g.range(0, 1));
        const int have = static_cast<int>(w.p->qubits()); const int big = tiny ? g.range(have, std::max(have, std::min(4, have + 2))) : g.range(have, have + 2); const auto nv = w.p->vUniqueTable.getNodeCount(), nm = w.p->mUniqueTable.getNodeCount(), nn = w.p->cn.complexTable.getCount(); note(str("resize", big)); if (g.chance(0.3)) junkCaches<Cfg>(w, g);
        w.p->resize(static_cast<std::size_t>(big)); CHK(w.p->qubits() == static_cast<std::size_t>(big), "grow:qubits", "number of qubits"); CHK(w.p->vUniqueTable.getNodeCount() == nv && w.p->mUniqueTable.getNodeCount() == nm && w.p->cn.complexTable.getCount() == nn, "grow:contents", "contents changed by a resize");
        w.checkAll(); if (d) d->checkAll(); auditPackage(*w.p); { RefModel m; for (auto& s: w.vs) m.addRoot(s.e); for (auto& s: w.ms) m.addRoot(s.e); if (d) for (auto& x: d->ds) m.addRoot(x.e); m.compareNodes(w.p->vUniqueTable, "vector"); m.compareNodes(w.p->mUniqueTable, "matrix"); m.compareNumbers(w.p->cn.complexTable, true); }
        if (w.nice) for (auto& s: w.vs) { auto c = w.p->makeStateFromVector(toCVec(s.d)); CHK(c.p == s.e.p, "grow:canonical", "an existing state is not found again after a resize"); }
        if (big > have) count("grown"); n = w.maxN = std::min(big, 5);
        for (int q = 1; q <= big; q++) { auto I = w.p->makeIdent(static_cast<dd::QubitCount>(q)); CHK(!I.isTerminal() && I.p->v == q - 1, "grow:identity", "identity on ", q, " qubits"); }
        w.p->stochasticNoiseOperationCache.lookup(0, static_cast<dd::Qubit>(big - 1)); w.p->stochasticNoiseOperationCache.insert(0, static_cast<dd::Qubit>(big - 1), w.p->makeIdent(1)); CHK(w.p->stochasticNoiseOperationCache.lookup(0, static_cast<dd::Qubit>(big - 1)).p != nullptr, "grow:noise-cache", "cached noise operation lost");
        if (g.chance(0.3)) { w.p->garbageCollect(true); w.checkAll(); }
        if (d && g.chance(0.5)) { d->apply(d->ds[0], g.range(0, 1)); }
    }
    for (int s = 0; s < 8; s++) w.step(w.pickOp(wt)); w.checkAll(); auditPackage(*w.p); rec().distinct(w.hist);
    if (g.chance(0.5)) { auto& p = *w.p; p.reset(); fresh(p, "after growth and reset"); CHK(p.qubits() == static_cast<std::size_t>(p.qubits()), "grow:qubits", ""); w.vs.clear(); w.ms.clear(); d.reset(); for (int s = 0; s < 8; s++) w.step(w.pickOp(wt)); w.checkAll(); count("reset_after_growth"); }
    else { w.releaseAll(); if (d) d->release(0); w.p->garbageCollect(true); w.p->clearIdentityTable(); w.p->garbageCollect(true); CHK(w.p->vUniqueTable.getNodeCount() == 0 && w.p->mUniqueTable.getNodeCount() == 0 && w.p->dUniqueTable.getNodeCount() == 0, "grow:reclaim", "nodes left after release"); }
}
template<class Cfg> VH_GLUE void wide(Rng& g) { // growth up to the maximum
    int n = g.range(1, 20); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); std::vector<std::pair<dd::vEdge, int>> vs; std::vector<std::pair<dd::mEdge, int>> ms; std::uint64_t hh = 9;
    auto bits = [&](int m) { std::vector<bool> b(static_cast<std::size_t>(m)); for (auto&& x: b) x = g.chance(0.5); return b; }; std::vector<std::vector<bool>> bs;
    while (true) {
        bs.push_back(bits(n)); auto e = p->makeBasisState(static_cast<dd::QubitCount>(n), bs.back()); p->incRef(e); vs.push_back({e, n}); auto I = p->makeIdent(static_cast<dd::QubitCount>(n)); p->incRef(I); ms.push_back({I, n});
        auto x = p->makeGateDD(dd::Xmat, static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(n - 1)); auto y = p->multiply(x, e); auto b2 = bs.back(); b2.back() = !b2.back(); CHK(y == p->makeBasisState(static_cast<dd::QubitCount>(n), b2), "grow:wide-gate", "X on the top qubit of ", n); CHK(p->multiply(x, x) == p->makeIdent(static_cast<dd::QubitCount>(n)), "grow:wide-product", "X X is not the identity on ", n);
        for (std::size_t k = 0; k < vs.size(); k++) { CHK(p->makeBasisState(static_cast<dd::QubitCount>(vs[k].second), bs[k]) == vs[k].first, "grow:wide-state", "basis state of ", vs[k].second, " qubits lost at ", n); CHK(p->makeIdent(static_cast<dd::QubitCount>(ms[k].second)) == ms[k].first, "grow:wide-identity", "identity of ", ms[k].second, " qubits lost at ", n); }
        if (g.chance(0.2)) p->garbageCollect(true); hh = mix(hh ^ static_cast<std::uint64_t>(n)); note(str(n)); if (n == 128) break; if (vs.size() > 6) n = 128; else n = std::min(128, n + g.range(1, 40)); p->resize(static_cast<std::size_t>(n)); auditPackage(*p);
    }
    RefModel m; for (auto& s: vs) m.addRoot(s.first); for (auto& s: ms) m.addRoot(s.first); m.compareNodes(p->vUniqueTable, "vector"); m.compareNodes(p->mUniqueTable, "matrix"); p->reset(); fresh(*p, "after a wide reset"); CHK(p->qubits() == 128, "grow:qubits", "qubits"); auto e = p->makeBasisState(128, bs.back()); CHK(e.p->v == 127, "grow:wide-reset", "level"); rec().distinct(hh); count("wide");
}
// the same addresses and weights stand for other functions after every reset
template<class Cfg> VH_GLUE void twins(Rng& g) {
    const int n = g.range(1, 2); auto p = makePkg<Cfg>(static_cast<std::size_t>(2 * n)); const int rounds = g.range(4, 8); std::uint64_t hh = 11; const double sh = g.uni(); (void)sh;
    static const std::vector<C> pal{{1, 0}, {0, 0}, {-1, 0}, {0, 1}, {0.5, 0}, {0, -0.5}}; const int order = g.range(0, 2);
    for (int r = 0; r < rounds; r++) {
        std::vector<std::pair<dd::vEdge, Vec>> vs; std::vector<std::pair<dd::mEdge, Mat>> ms; note("|");
        auto mkV = [&]() { while (true) { Vec d(std::size_t{1} << n); for (auto& x: d) x = g.pick(pal); if (maxAbs(d) == 0) continue; auto e = p->makeStateFromVector(toCVec(d)); if (std::abs(val(e.w)) < 0.1) continue; const C f = C(1) / val(e.w); e.w = dd::Complex::one; p->incRef(e); for (auto& x: d) x *= f; vs.emplace_back(e, d); return; } };
        auto mkM = [&]() { while (true) { Mat d(std::size_t{1} << n); for (std::size_t i = 0; i < d.d; i++) for (std::size_t j = 0; j < d.d; j++) d(i, j) = g.pick(pal); auto e = p->makeDDFromMatrix(toCMat(d)); if (e == dd::mEdge::zero) continue; const C f = C(1) / val(e.w); e.w = dd::Complex::one; p->incRef(e); for (std::size_t i = 0; i < d.d; i++) for (std::size_t j = 0; j < d.d; j++) d(i, j) *= f; ms.emplace_back(e, d); return; } };
        if (order == 0 && g.chance(0.5)) { const int k = g.range(1, n); auto I = p->makeIdent(static_cast<dd::QubitCount>(k)); EQV(evalM(I, k), Mat::id(std::size_t{1} << k), "reset:identity", "identity"); }
        for (int k = 0; k < 3; k++) { if (order == 1) mkM(); mkV(); if (order != 1) mkM(); }
        auto a = [&](auto& l) -> auto& { return l[g.below(2)]; };
        for (int s = 0; s < 24; s++) switch (g.range(0, 9)) {
            case 0: { auto &x = a(vs), &y = a(vs); EQV(evalV(p->add(x.first, y.first), n), x.second + y.second, "reset:stale-add", "sum of states"); break; }
            case 1: { auto &x = a(ms), &y = a(ms); EQV(evalM(p->add(x.first, y.first), n), x.second + y.second, "reset:stale-add", "sum of matrices"); break; }
            case 2: { auto& x = a(ms); auto& y = a(vs); EQV(evalV(p->multiply(x.first, y.first), n), x.second * y.second, "reset:stale-multiply", "matrix-vector product"); break; }
            case 3: { auto &x = a(ms), &y = a(ms); EQV(evalM(p->multiply(x.first, y.first), n), x.second * y.second, "reset:stale-multiply", "matrix product"); break; }
            case 4: { auto& x = a(ms); EQV(evalM(p->transpose(x.first), n), transpose(x.second), "reset:stale-transpose", "transpose"); break; }
            case 5: { auto& x = a(ms); EQV(evalM(p->conjugateTranspose(x.first), n), dagger(x.second), "reset:stale-adjoint", "conjugate transpose"); break; }
            case 6: { auto &x = a(vs), &y = a(vs); EQV(evalV(p->kronecker(x.first, y.first), 2 * n), kron(x.second, y.second), "reset:stale-kronecker", "Kronecker product of states"); break; }
            case 7: { auto &x = a(ms), &y = a(ms); EQV(evalM(p->kronecker(x.first, y.first), 2 * n), kron(x.second, y.second), "reset:stale-kronecker", "Kronecker product of matrices"); break; }
            case 8: { auto &x = a(vs), &y = a(vs); const C w = dot(x.second, y.second), z = val(p->innerProduct(x.first, y.first)); CHK(std::abs(w - z) < 1e-9 * (1 + std::abs(w)), "reset:stale-inner", "inner product ", z, " want ", w); break; }
            default: { const int k = g.range(1, 2 * n); auto I = p->makeIdent(static_cast<dd::QubitCount>(k)); EQV(evalM(I, k), Mat::id(std::size_t{1} << k), "reset:identity", "identity"); } }
        for (auto& x: vs) { hh = mix(hh ^ hashOf(x.second)); EQV(evalV(x.first, n), x.second, "reset:state", "state"); } for (auto& x: ms) { hh = mix(hh ^ hashOf(x.second)); EQV(evalM(x.first, n), x.second, "reset:matrix", "matrix"); }
        p->reset(); count("twin_rounds");
    }
    if (g.chance(0.5)) for (int r = 0; r < rounds; r++) { // density matrices
        DWorld<Cfg> d(*p, g, n); d.nice = true; const int mode = g.range(0, 1); d.create(); for (int s = g.range(1, 3); s > 0; s--) d.apply(d.ds[0], mode); hh = mix(hh ^ d.hist); p->reset(); count("twin_density_rounds");
    }
    if (g.chance(0.6)) for (int r = 0; r < rounds; r++) { // the same sums of other blocks: phases on the lowest qubit, interference on the highest
        const int m = 2; if (p->qubits() < 2) p->resize(2); auto e = p->makeZeroDensityOperator(2); p->incRef(e); Mat d(4); d(0, 0) = 1; const double th = 0.3 + 0.8 * r; const dd::GateMatrix ph{dd::complex_one, dd::complex_zero, dd::complex_zero, dd::ComplexValue{std::cos(th), std::sin(th)}}; const C s2 = std::sqrt(0.5); Mat H(2), P(2); H(0, 0) = H(0, 1) = H(1, 0) = s2; H(1, 1) = -s2; P(0, 0) = 1; P(1, 1) = C(std::cos(th), std::sin(th));
        auto ap = [&](const dd::GateMatrix& gm, const Mat& u, int t) { auto op = p->makeGateDD(gm, 2, static_cast<dd::Qubit>(t)); p->applyOperationToDensity(e, op, false); const auto U = embed(u, m, {t}); d = U * d * dagger(U); EQV(evalD(e, 1, false), d, "reset:stale-density", "density matrix"); };
        ap(dd::Hmat, H, 0); ap(dd::Hmat, H, 1); { auto op = p->makeGateDD(ph, 2, dd::Control{1}, 0); p->applyOperationToDensity(e, op, false); const auto U = embed(P, m, {0}, {{1, true}}); d = U * d * dagger(U); EQV(evalD(e, 1, false), d, "reset:stale-density", "density matrix"); } ap(dd::Hmat, H, 1); ap(dd::Hmat, H, 0); hh = mix(hh ^ hashOf(d)); p->reset(); count("phase_rounds");
    }
    rec().distinct(hh);
}
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    switch (g.range(0, 14)) { case 12: case 13: case 14: twins<Cfg>(g); break; case 0: case 1: case 2: case 3: case 4: case 5: case 6: resets<Cfg>(g); break; case 7: wide<Cfg>(g); break; default: growth<Cfg>(g); }
    if (i < 8) rec().sample(rec().cur);
}
VH_SPLIT(body)
VH_MAIN("resets", "equal_rounds", "equal_counts", "fresh_audits", "client_caches", "density_caches", "loans_at_reset", "collected_at_reset", "many_numbers", "grown", "wide", "reset_after_growth", "density_runs", "twin_rounds", "phase_rounds", "twin_density_rounds", "lockstep_compares", "loan_bursts")
