// C04: add / multiply / transpose / conjugateTranspose against dense linear algebra
#include "world.hpp"
#include "wide.hpp"
#include "large.hpp"
using namespace vh;
template<class Cfg> VH_GLUE void tree(Rng& g, std::size_t idx) {
    const int mx = std::is_same_v<Cfg, Tiny> ? g.range(1, 4) : g.chance(0.5) ? g.range(1, 3) : g.chance(0.1) ? 6 : g.range(1, 5);
    World<Cfg, ops({NEWV, NEWM, GATE, IDENT, MULV, MULM, ADDV, ADDM, TRANS, CTRANS, KRONM, DUP, GC})> w(g, mx);
    const std::vector<std::pair<int, int>> wt{{NEWV, 3}, {NEWM, 4}, {GATE, 3}, {IDENT, 1}, {MULV, 5}, {MULM, 5}, {ADDV, 5}, {ADDM, 5}, {TRANS, 3}, {CTRANS, 3}, {KRONM, 1}, {DUP, 1}, {GC, g.chance(0.5) ? 1 : 0}};
    const int len = g.range(10, 60);
    for (int i = 0; i < len; i++) w.step(w.pickOp(wt));
    rec().distinct(w.hist); if (idx < 8) rec().sample("expression history: " + rec().cur);
}
// algebraic corner cases on explicit operands, also on registers that start above qubit 0
template<class Cfg> VH_GLUE void corner(Rng& g, std::size_t idx) {
    const int n = g.range(1, 4), start = g.chance(0.5) ? 0 : g.range(1, 3);
    auto p = makePkg<Cfg>(static_cast<std::size_t>(n + start) + g.below(2));
    const auto N = static_cast<dd::QubitCount>(n); const auto S = static_cast<std::size_t>(start);
    // operands built from gates (they accept a start index), products, sums and scalings
    struct T { dd::mEdge e; Mat d; }; struct W { dd::vEdge e; Vec d; };
    std::vector<T> ms; std::vector<W> vs;
    auto chk = [&](const dd::mEdge& e, const Mat& d, const char* what) { EQV(evalM(e, n, start), d, std::string("result:") + what, what, " n=", n, " start=", start); if (maxAbs(d) < 1e3 && maxAbs(d) > 1e-3) ms.push_back({e, evalM(e, n, start)}); };
    auto chv = [&](const dd::vEdge& e, const Vec& d, const char* what) { EQV(evalV(e, n, start), d, std::string("result:") + what, what, " n=", n, " start=", start); if (maxAbs(d) < 1e3 && maxAbs(d) > 1e-3) vs.push_back({e, evalV(e, n, start)}); };
    std::string desc = str("n=", n, " start=", start, ": ");
    for (int k = 0; k < 3; k++) {
        int t = g.range(0, n - 1); auto G = gate1(g); auto c = randCtl(g, n, {t}); desc += G.name + " ";
        chk(p->makeGateDD(G.mat, N, toControls(c, start), static_cast<dd::Qubit>(t + start), S), embed(G.dense, n, {t}, c), "gate");
        std::vector<bool> b(static_cast<std::size_t>(start)); std::size_t i = 0; for (int q = 0; q < n; q++) { bool x = g.chance(0.5); b.push_back(x); if (x) i |= std::size_t{1} << q; }
        Vec v(std::size_t{1} << n); v[i] = 1; chv(p->makeBasisState(N, b, S), v, "basis");
    }
    if (ms.empty()) throw Skip{};
    const auto st = static_cast<dd::Qubit>(start);
    for (int k = 0; k < 12; k++) {
        auto a = g.pick(ms), b = g.pick(ms); auto v = g.pick(vs), u = g.pick(vs);
        switch (g.range(0, 9)) {
        case 0: desc += "mm "; chk(g.chance(0.5) ? p->multiply(a.e, b.e, st) : p->multiply(a.e, b.e), a.d * b.d, "matrix product"); break;
        case 1: desc += "mv "; chv(g.chance(0.5) ? p->multiply(a.e, v.e, st) : p->multiply(a.e, v.e), a.d * v.d, "matrix-vector product"); break;
        case 2: desc += "am "; chk(p->add(a.e, b.e), a.d + b.d, "matrix sum"); break;
        case 3: desc += "av "; chv(p->add(v.e, u.e), v.d + u.d, "vector sum"); break;
        case 4: desc += "t "; chk(p->transpose(a.e), transpose(a.d), "transpose"); break;
        case 5: desc += "ct "; chk(p->conjugateTranspose(a.e), dagger(a.d), "conjugate transpose"); break;
        case 6: { desc += "cancel "; C f = g.chance(0.5) ? C(-1) : niceValue(g); auto x = a.e; x.w = p->cn.lookup(val(a.e.w) * f); // a + f*a and f*a + a
            chk(g.chance(0.5) ? p->add(a.e, x) : p->add(x, a.e), scaled(a.d, C(1) + f), "sum of multiples"); break; }
        case 7: { desc += "cancelv "; C f = g.chance(0.5) ? C(-1) : niceValue(g); auto x = v.e; x.w = p->cn.lookup(val(v.e.w) * f);
            chv(g.chance(0.5) ? p->add(v.e, x) : p->add(x, v.e), scaled(v.d, C(1) + f), "sum of multiples"); break; }
        case 8: { desc += "zero "; Mat z(a.d.d); Vec zv(v.d.size());
            chk(p->add(a.e, dd::mEdge::zero), a.d, "sum with zero"); chk(p->add(dd::mEdge::zero, a.e), a.d, "sum with zero"); chv(p->add(dd::vEdge::zero, v.e), v.d, "sum with zero"); chv(p->add(v.e, dd::vEdge::zero), v.d, "sum with zero");
            chk(p->multiply(a.e, dd::mEdge::zero), z, "product with zero"); chk(p->multiply(dd::mEdge::zero, a.e), z, "product with zero"); chv(p->multiply(a.e, dd::vEdge::zero), zv, "product with zero"); chv(p->multiply(dd::mEdge::zero, v.e), zv, "product with zero");
            chk(p->transpose(dd::mEdge::zero), z, "transpose of zero"); chk(p->conjugateTranspose(dd::mEdge::zero), z, "adjoint of zero"); break; }
        default: { desc += "adj "; auto x = p->multiply(p->conjugateTranspose(a.e), a.e); chk(x, dagger(a.d) * a.d, "A^dagger A"); chk(p->add(a.e, p->conjugateTranspose(a.e)), a.d + dagger(a.d), "A + A^dagger"); chk(p->add(a.e, p->transpose(a.e)), a.d + transpose(a.d), "A + A^T"); break; }
        }
        CHK(p->cn.cacheCount() == 0, "cache", "temporary numbers lost");
    }
    note(desc); rec().distinct(fnv(desc)); count("corner_cases"); if (start > 0) count("offset_registers"); if (idx < 8) rec().sample(desc);
}
// circuits whose states and matrices have many nodes, so that the default tables and caches fill up
template<class Cfg> VH_GLUE void wide(Rng& g) {
    if (g.chance(0.6)) {
        const int n = g.range(8, SLOW ? 9 : 13); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); note(str("wide state n=", n)); WideSim<dd::Package<Cfg>> s(*p, g, n), t(*p, g, n);
        for (int r = 0; r < 3; r++) { s.evolve(g.range(2, 8)); t.evolve(g.range(1, 4)); s.check("evolved"); t.check("evolved"); const C f = g.chance(0.3) ? C(-1) : niceValue(g); auto x = t.e; x.w = p->cn.lookup(val(x.w) * f); WEQ(evalV(p->add(s.e, x), n), s.d + scaled(t.d, f), "wide:sum", "sum of states of ", n, " qubits"); auto y = s.e; y.w = p->cn.lookup(val(y.w) * C(-1)); CHK(p->add(s.e, y) == dd::vEdge::zero || maxAbs(evalV(p->add(s.e, y), n)) < 1e-10, "wide:cancel", "difference of equal states"); }
        s.check("at the end"); t.check("at the end"); rec().distinct(hashOf(s.d)); s.release(); t.release();
    } else {
        const int n = g.range(4, SLOW ? 5 : 6); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); note(str("wide matrix n=", n)); WideMat<dd::Package<Cfg>> a(*p, g, n), b(*p, g, n); a.evolve(g.range(6, 20)); b.evolve(g.range(3, 12)); a.check("evolved"); b.check("evolved");
        WEQ(evalM(p->add(a.e, b.e), n), a.d + b.d, "wide:sum", "sum of matrices"); WEQ(evalM(p->multiply(a.e, b.e), n), a.d * b.d, "wide:product", "product of matrices"); WEQ(evalM(p->transpose(a.e), n), transpose(a.d), "wide:transpose", "transpose"); WEQ(evalM(p->conjugateTranspose(b.e), n), dagger(b.d), "wide:adjoint", "adjoint");
        { const Vec v = wideVec(g, n); WEQ(evalV(p->multiply(a.e, p->makeStateFromVector(toCVec(v))), n), a.d * v, "wide:product", "matrix times vector"); } a.check("at the end"); b.check("at the end"); rec().distinct(hashOf(a.d)); a.release(); b.release();
    }
    count("wide");
}
template<class Cfg> void body(Rng& g, std::size_t i) { if (large::sometimes<Cfg>(g, 0.015, [&](auto& r) { if (g.chance(0.7)) r.factorOps(1); else r.blocks(); })) return; if (wideCase<Cfg>(g)) { if constexpr (std::is_same_v<Cfg, Std>) wide<Cfg>(g); return; } if (g.chance(0.6)) tree<Cfg>(g, i); else corner<Cfg>(g, i); }
VH_SPLIT(body)
VH_MAIN("large", "wide", "mulv", "mulm", "addv", "addm", "trans", "ctrans", "corner_cases", "offset_registers")
