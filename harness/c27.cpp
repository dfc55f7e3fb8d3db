// C27: identity test, and nodes marked as identity or symmetric
#include "world.hpp"
using namespace vh;
constexpr std::uint64_t OPS27 = ops({NEWM, GATE, MULM, ADDM, TRANS, CTRANS, KRONM, PTRACE, GC, DROP, SERIAL, DELEDGE, IDENT, ANC, EXTEND, DUP, AUDIT});
inline int expected(const Mat& m, int n, double tol) { // 1 close, 0 not close, -1 between
    const C f = m(0, 0); if (f == C(0)) { return maxAbs(m) > 1e-9 ? 0 : -1; } double dev = 0; bool zeros = false; std::vector<char> zero(m.d, 0);
    for (std::size_t j = 0; j < m.d; j++) { bool z = true; for (std::size_t i = 0; i < m.d; i++) z = z && m(i, j) == C(0); zero[j] = z; zeros = zeros || z; }
    bool close = true, away = false; const double big = 2 * std::sqrt(tol);
    if (zeros) { std::size_t mask = 0; for (int q = 0; q < n; q++) { bool all = true; for (std::size_t j = 0; j < m.d; j++) if (((j >> q) & 1U) && !zero[j]) all = false; if (all) mask |= std::size_t{1} << q; } for (std::size_t j = 0; j < m.d; j++) if (static_cast<bool>(zero[j]) != ((j & mask) != 0)) close = false; }
    for (std::size_t i = 0; i < m.d; i++) for (std::size_t j = 0; j < m.d; j++) { const C r = m(i, j) / f; if (i == j) { if (!zero[j]) { dev = std::max(dev, std::abs(r - C(1))); if (std::abs(r) > big && std::abs(r - C(1)) > 4 * (n + 1) * tol) away = true; } } else { if (!zero[j]) dev = std::max(dev, std::abs(r)); if (std::abs(r) > big) away = true; } }
    if (close && dev <= tol / 20) return 1; return away ? 0 : -1;
}
template<class Cfg> VH_GLUE void ask(Rng& g, dd::Package<Cfg>& p, const dd::mEdge& e, const Mat& m, int n, const std::string& what) {
    (void)g; if (e == dd::mEdge::zero) return;
    for (double tol: {1e-10, 1e-6, 1e-4}) { const int w = expected(m, n, tol); if (w < 0) { count("between"); continue; } const bool r = tol == 1e-10 ? p.isCloseToIdentity(e) : p.isCloseToIdentity(e, tol); CHK(r == (w == 1), w ? "identity:rejected" : "identity:accepted", what, " on ", n, " qubits, tolerance ", tol, ": ", r ? "accepted " : "rejected ", show(m)); count(w ? "close" : "away"); }
    rec().distinct(hashOf(m));
}
inline int depthOf(const dd::mNode* p) { int d = 0; while (!dd::mNode::isTerminal(p)) { d++; const dd::mNode* q = nullptr; for (auto& x: p->e) if (!(x.w == dd::Complex::zero)) q = x.p; if (!q) fail("structure:empty-node", "node with four zero edges"); p = q; } return d; }
template<class P> VH_GLUE void flags(P& p) {
    auto lv = liveNodes(p.mUniqueTable); std::unordered_map<const dd::mNode*, bool> id; std::function<bool(const dd::mNode*)> isId = [&](const dd::mNode* x) -> bool { if (dd::mNode::isTerminal(x)) return true; auto it = id.find(x); if (it != id.end()) return it->second; const bool r = x->e[0].w == dd::Complex::one && x->e[3].w == dd::Complex::one && x->e[1].w == dd::Complex::zero && x->e[2].w == dd::Complex::zero && isId(x->e[0].p) && isId(x->e[3].p); id[x] = r; return r; };
    for (auto& l: lv) for (auto* x: l) {
        if (x->isIdentity()) { CHK(isId(x), "flags:identity", "node of level ", int(x->v), " is marked as identity but is not"); count("identity_nodes"); }
        if (x->isSymmetric()) { const int d = depthOf(x); if (d > 4) continue; const Mat m = evalM(dd::mEdge{const_cast<dd::mNode*>(x), dd::Complex::one}, d, x->v - d + 1); CHK(diff(m, transpose(m)) < 1e-9, "flags:symmetric", "node of level ", int(x->v), " is marked as symmetric but represents ", show(m)); if (!isId(x)) count("symmetric_nodes"); }
        count("nodes_checked");
    }
}
template<class Cfg> VH_GLUE void closeness(Rng& g) {
    const int n = g.range(1, std::is_same_v<Cfg, Tiny> ? 4 : 6); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); const std::size_t D = std::size_t{1} << n; note(str("n=", n));
    for (int rep = 0; rep < 6; rep++) {
        Mat m = Mat::id(D); const int kind = g.range(0, 8); std::string what;
        std::vector<bool> anc(static_cast<std::size_t>(n)); if (kind == 1) { for (auto&& b: anc) b = g.chance(0.4); for (std::size_t i = 0; i < D; i++) for (int q = 0; q < n; q++) if (anc[static_cast<std::size_t>(q)] && ((i >> q) & 1U)) m(i, i) = 0; what = "ancillary columns"; }
        if (kind == 2) { m = randMat(g, n, 5); what = "diagonal"; } if (kind == 3) { m = randMat(g, n, 4); what = "permutation"; } if (kind == 4) { const int t = g.range(0, n - 1); auto G = gate1(g); m = embed(G.dense, n, {t}, randCtl(g, n, {t}, 0.8)); what = G.name; }
        if (kind == 5) { m = kron(randMat(g, g.range(0, n), 5), Mat(1)); if (true) { const int a = g.range(0, n - 1); Mat x = Mat::id(std::size_t{1} << (n - 1 - a)), y = Mat::id(std::size_t{1} << a); m = kron(kron(x, gate1(g).dense), y); } what = "local"; }
        if (kind >= 7) { // the identity plus a block: one of the four quadrants of a qubit holds a scaled structured matrix
            const int q = g.range(0, n - 1), hi = n - 1 - q, quad = g.range(0, 3); const double dl = std::pow(10.0, g.pick(std::vector<double>{-13, -12, -7, -5, -3, -1, 0, 0}) + g.uni(-0.3, 0.3)); Mat cell(2); cell(static_cast<std::size_t>(quad / 2), static_cast<std::size_t>(quad % 2)) = dl * (g.chance(0.5) ? g.pick(std::vector<C>{1, -1, {0, 1}, {0, -1}}) : randPhaseUnit(g));
            const int sh = g.range(0, 2); auto part = [&](int k) { return sh == 0 ? Mat::id(std::size_t{1} << k) : sh == 1 ? randMat(g, k, g.range(0, 6)) : randMat(g, k, 4); }; const Mat b = kron(kron(part(hi), cell), part(q)); const double s = std::max(1.0, maxAbs(b) / dl); for (std::size_t i = 0; i < m.a.size(); i++) m.a[i] += b.a[i] / s; what = str("block in quadrant ", quad, " of qubit ", q, " scaled by ", dl); count("blocks");
        }
        const int pert = g.range(0, 5); if (kind != 3 && pert > 0) for (int k = g.chance(0.7) ? 1 : g.range(2, 6); k > 0; k--) { const double dl = std::pow(10.0, g.pick(std::vector<double>{-12, -11.5, -8, -7.5, -6, -4, -3, -2, -1, 0}) + g.uni(-0.3, 0.3)); std::size_t i = g.below(D), j = g.chance(0.5) ? i : g.below(D); if (kind == 1 && g.chance(0.8)) { std::size_t mk = 0; for (int q = 0; q < n; q++) if (anc[static_cast<std::size_t>(q)]) mk |= std::size_t{1} << q; i &= ~mk; j &= ~mk; } m(i, j) += dl * (g.chance(0.5) ? g.pick(std::vector<C>{1, -1, {0, 1}, {0, -1}}) : randPhaseUnit(g)); if (g.chance(0.2)) m(j, i) = std::conj(m(i, j)); what += str(" perturbed at ", i, ",", j, " by ", dl); }
        if (g.chance(0.5)) { const C f = g.chance(0.5) ? niceValue(g) : randPhaseUnit(g) * g.uni(0.2, 3); m = scaled(m, f); what += str(" times ", f); }
        auto e = p->makeDDFromMatrix(toCMat(m)); note(what); ask<Cfg>(g, *p, e, m, n, what); if (g.chance(0.3)) flags(*p);
    }
}
template<class Cfg> VH_GLUE void circuits(Rng& g) { // as used by equivalence checking
    const int n = g.range(1, std::is_same_v<Cfg, Tiny> ? 3 : 5); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); const auto N = static_cast<dd::QubitCount>(n); std::vector<std::pair<dd::mEdge, Mat>> gs; auto u = p->makeIdent(N); p->incRef(u); Mat U = Mat::id(std::size_t{1} << n); note(str("circuit n=", n));
    auto mul = [&](const dd::mEdge& a, const dd::mEdge& b, bool left) { auto r = left ? p->multiply(a, b) : p->multiply(b, a); p->incRef(r); p->decRef(b); return r; };
    for (int s = g.range(1, 10); s > 0; s--) { const int t = g.range(0, n - 1); auto G = g.chance(0.5) ? cliffordT(g) : unitary1(g); auto c = randCtl(g, n, {t}); auto e = p->makeGateDD(G.mat, N, toControls(c), static_cast<dd::Qubit>(t)); p->incRef(e); gs.emplace_back(e, embed(G.dense, n, {t}, c)); u = mul(e, u, true); U = gs.back().second * U; note(G.name); if (g.chance(0.2)) { p->garbageCollect(true); } }
    ask<Cfg>(g, *p, u, U, n, "circuit"); flags(*p);
    std::size_t wrong = g.chance(0.4) ? g.below(gs.size()) : gs.size(); for (std::size_t k = gs.size(); k-- > 0;) { auto d = p->conjugateTranspose(gs[k].first); Mat D = dagger(gs[k].second); if (k == wrong) { const int t = g.range(0, n - 1); const double a = g.pick(std::vector<double>{1e-13, 1e-7, 1e-5, 1e-3, 0.1, 3.14159}); d = p->multiply(p->makeGateDD(g.chance(0.5) ? dd::RZmat(a) : dd::RXmat(a), N, static_cast<dd::Qubit>(t)), d); D = fromCMat(p->getMatrix(d)); } u = mul(d, u, g.chance(0.5) || k == wrong ? true : true); U = D * U; }
    ask<Cfg>(g, *p, u, U, n, wrong < gs.size() ? "circuit, wrong inverse" : "circuit and its inverse"); count("circuits"); { std::vector<bool> anc(static_cast<std::size_t>(n)); for (auto&& b: anc) b = g.chance(0.3); Mat w = U; for (std::size_t i = 0; i < w.d; i++) for (std::size_t j = 0; j < w.d; j++) for (int q = 0; q < n; q++) if (anc[static_cast<std::size_t>(q)] && ((j >> q) & 1U)) w(i, j) = 0; if (!u.isTerminal()) { auto v = u; p->incRef(v); v = p->reduceAncillae(v, anc, true); const Mat z = evalM(v, n); if (wrong >= gs.size()) { bool some = false; for (bool b: anc) some = some || b; CHK(p->isCloseToIdentity(v), "identity:rejected-ancillary", "circuit, its inverse and ", some ? "reduced ancillaries" : "no ancillaries"); count("ancillary"); } else { Mat y = z; for (std::size_t i = 0; i < y.a.size(); i++) if (std::abs(y.a[i]) < 1e-12) y.a[i] = 0; ask<Cfg>(g, *p, v, y, n, "wrong inverse with reduced ancillaries"); } } }
    flags(*p);
}
template<class Cfg> VH_GLUE void wide(Rng& g) {
    const int n = g.range(7, 128); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); const auto N = static_cast<dd::QubitCount>(n); note(str("wide n=", n));
    auto I = p->makeIdent(N); CHK(p->isCloseToIdentity(I) && I.p->isIdentity(), "identity:rejected", "identity on ", n, " qubits"); const int t = g.range(0, n - 1); std::vector<Ctl> c; const double d = g.pick(std::vector<double>{0.05, 0.5, 1.0}); for (int k = 0; k < n; k++) if (k != t && g.chance(d)) c.push_back({k, g.chance(0.7)});
    const double a = g.pick(std::vector<double>{1e-13, 1e-8, 1e-6, 1e-4, 0.01, 0.5, 3}); const int w = g.range(0, 2); auto e = p->makeGateDD(w == 0 ? dd::Phasemat(a) : w == 1 ? dd::RYmat(a) : dd::Xmat, N, toControls(c), static_cast<dd::Qubit>(t)); rec().distinct(fnv(str(n, t, c.size(), a, w))); note(str("controls=", c.size(), " angle=", a, " kind=", w));
    const bool r = p->isCloseToIdentity(e); if (w == 2) CHK(!r, "identity:accepted", "controlled X with ", c.size(), " controls on ", n, " qubits"); else if (a <= 1e-13) CHK(r, "identity:rejected", "negligible rotation with ", c.size(), " controls on ", n, " qubits"); else if (w == 0 ? a >= 1e-7 : a >= 1e-4) CHK(!r, "identity:accepted", w ? "rotation" : "phase", " by ", a, " with ", c.size(), " controls on ", n, " qubits");
    auto u = p->multiply(p->conjugateTranspose(e), e); CHK(p->isCloseToIdentity(u), "identity:rejected", "gate and adjoint on ", n, " qubits"); for (auto& l: liveNodes(p->mUniqueTable)) for (auto* x: l) if (x->isIdentity()) { auto* y = x; while (!dd::mNode::isTerminal(y)) { CHK(y->e[0] == y->e[3] && y->e[0].w == dd::Complex::one && y->e[1] == dd::mEdge::zero && y->e[2] == dd::mEdge::zero, "flags:identity", "node of level ", int(x->v)); y = y->e[0].p; } } count("wide");
}
template<class Cfg> VH_GLUE void history(Rng& g) {
    World<Cfg, OPS27> w(g, std::is_same_v<Cfg, Tiny> ? g.range(1, 3) : g.range(1, 4)); const std::vector<std::pair<int, int>> wt{{NEWM, 3}, {GATE, 5}, {MULM, 5}, {ADDM, 3}, {TRANS, 3}, {CTRANS, 2}, {KRONM, 3}, {PTRACE, 2}, {GC, 3}, {DROP, 6}, {SERIAL, 1}, {DELEDGE, 2}, {IDENT, 2}, {ANC, 2}, {EXTEND, 3}, {DUP, 1}};
    w.nice = g.chance(0.5); for (int s = g.range(10, 50); s > 0; s--) { w.step(w.pickOp(wt)); if (g.chance(0.2)) { flags(*w.p); if (auto* m = w.pickM()) { Mat z = m->d; for (auto& x: z.a) if (std::abs(x) < 1e-11) x = 0; ask<Cfg>(g, *w.p, m->e, z, m->n, "matrix of the history"); } } } flags(*w.p); rec().distinct(w.hist); count("histories");
}
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    const int k = g.range(0, 9); if (k < 4) closeness<Cfg>(g); else if (k < 6) circuits<Cfg>(g); else if (k < 7) { if constexpr (std::is_same_v<Cfg, Tiny>) closeness<Cfg>(g); else wide<Cfg>(g); } else history<Cfg>(g);
    if (i < 8) rec().sample(rec().cur);
}
VH_SPLIT(body)
VH_MAIN("close", "blocks", "away", "identity_nodes", "symmetric_nodes", "circuits", "ancillary", "wide", "histories")
