// C05: Kronecker products (with and without index shift, interleaved), extension, identities
#include "world.hpp"
#include "large.hpp"
using namespace vh;
template<class Cfg> VH_GLUE void direct(Rng& g, std::size_t idx) {
    const int total = std::is_same_v<Cfg, Tiny> ? 5 : 6;
    auto p = makePkg<Cfg>(static_cast<std::size_t>(total));
    std::string desc; const int rounds = g.range(2, 6);
    // operands: built on qubits [start, start+n); scaled
    struct Fm { Mat d; int n, start; dd::mEdge e; }; struct Fv { Vec d; int n, start; dd::vEdge e; };
    auto scaleOf = [&]() { return g.chance(0.5) ? C(1) : niceValue(g); };
    auto mk = [&](int n, int start) -> Fm {
        Fm f; f.n = n; f.start = start; const C s = scaleOf(); const auto N = static_cast<dd::QubitCount>(n); const auto S = static_cast<std::size_t>(start);
        const int kind = g.range(0, 4);
        if (kind == 0) { f.e = p->makeIdent(static_cast<dd::Qubit>(start), static_cast<dd::Qubit>(start + n - 1)); f.d = Mat::id(std::size_t{1} << n); desc += "I"; }
        else if (kind == 1 && start == 0) { f.d = randMat(g, n); f.e = p->makeDDFromMatrix(toCMat(f.d)); desc += "M"; if (maxAbs(f.d) > 1e3 || maxAbs(f.d) < 1e-3) throw Skip{}; return f; }
        else if (kind == 2 && n > 1) { int a = g.range(0, n - 1), b = g.range(0, n - 2); if (b >= a) b++; auto r = gate2(*p, g, n, a, b, {}, start); f.e = r.e; f.d = embed(r.dense, n, {a, b}); desc += "T"; }
        else { int t = g.range(0, n - 1); auto G = gate1(g); auto c = randCtl(g, n, {t}); f.e = p->makeGateDD(G.mat, N, toControls(c, start), static_cast<dd::Qubit>(t + start), S); f.d = embed(G.dense, n, {t}, c); desc += "G"; }
        if (f.e.w != dd::Complex::zero) { f.e.w = p->cn.lookup(val(f.e.w) * s); f.d = scaled(f.d, s); }
        return f;
    };
    auto mkv = [&](int n, int start) -> Fv {
        Fv f; f.n = n; f.start = start; const C s = scaleOf();
        if (start == 0 && g.chance(0.5)) { f.d = randVec(g, n); f.e = p->makeStateFromVector(toCVec(f.d)); if (maxAbs(f.d) > 1e3 || maxAbs(f.d) < 1e-3) throw Skip{}; desc += "V"; return f; }
        std::vector<dd::BasisStates> b(static_cast<std::size_t>(start)); f.d = {C(1)}; const double h = std::sqrt(0.5);
        for (int q = 0; q < n; q++) { int t = g.range(0, 5); b.push_back(static_cast<dd::BasisStates>(t)); f.d = kron(t == 0 ? Vec{1, 0} : t == 1 ? Vec{0, 1} : t == 2 ? Vec{h, h} : t == 3 ? Vec{h, -h} : t == 4 ? Vec{h, C(0, h)} : Vec{h, C(0, -h)}, f.d); }
        f.e = p->makeBasisState(static_cast<dd::QubitCount>(n), b, static_cast<std::size_t>(start)); desc += "B";
        f.e.w = p->cn.lookup(val(f.e.w) * s); f.d = scaled(f.d, s); return f;
    };
    std::vector<Fm> mm; std::vector<Fv> vv;
    for (int k = 0; k < rounds; k++) {
        const int ny = g.range(1, total - 1), nx = g.range(1, total - ny); desc += str(" ", nx, "x", ny);
        const bool shift = g.chance(0.5);
        auto x = mk(nx, shift ? 0 : ny), y = mk(ny, 0);
        if (shift && !mm.empty() && g.chance(0.4)) { auto z = g.pick(mm); if (z.start == 0 && z.n + ny <= total) x = z; }
        desc += shift ? "s" : "d";
        auto one = [&](const Fm& a, const Fm& b, bool inc) { auto e = p->kronecker(a.e, b.e, inc); EQV(evalM(e, a.n + b.n), kron(a.d, b.d), "result:kron-matrix", "matrix Kronecker product ", inc ? "with" : "without", " shift, ", a.n, " over ", b.n, " ", desc); count(inc ? "kron_shift" : "kron_noshift"); return e; };
        auto e = one(x, y, shift);
        if (!e.isTerminal()) mm.push_back({evalM(e, x.n + y.n), x.n + y.n, 0, e});
        if (!shift && x.n + x.start <= total) { // the same upper operand, once shifted and once not, over operands of different height
            const int l2 = g.range(1, total - x.n); auto y2 = mk(l2, 0);
            if (l2 == ny) one(x, y2, false);
            // un-shifted kinds with identical nodes must not be mixed up
            auto xs = mk(x.n, 0); one(xs, y, true); one(x, y, false);
        }
        const bool sv = g.chance(0.5); auto u = mkv(nx, sv ? 0 : ny), w = mkv(ny, 0);
        if (sv && !vv.empty() && g.chance(0.4)) { auto z = g.pick(vv); if (z.n + ny <= total) u = z; }
        auto ev = p->kronecker(u.e, w.e, sv); EQV(evalV(ev, u.n + w.n), kron(u.d, w.d), "result:kron-vector", "state Kronecker product ", desc); count("kron_vector");
        if (!ev.isTerminal() && maxAbs(kron(u.d, w.d)) > 1e-4 && maxAbs(kron(u.d, w.d)) < 1e4) vv.push_back({evalV(ev, u.n + w.n), u.n + w.n, 0, ev});
        { auto b = mk(g.range(1, total - 1), 0); int h = g.range(0, total - b.n), l = g.range(0, total - b.n - h); Mat want = kron(kron(Mat::id(std::size_t{1} << h), b.d), Mat::id(std::size_t{1} << l));
          EQV(evalM(p->extend(b.e, static_cast<dd::Qubit>(h), static_cast<dd::Qubit>(l)), b.n + h + l), want, "result:extend", "extend by ", h, " above and ", l, " below ", desc); count("extend"); }
        { int lo = g.range(0, total - 1), hi = g.range(lo, total - 1); auto i = p->makeIdent(static_cast<dd::Qubit>(lo), static_cast<dd::Qubit>(hi)); EQV(evalM(i, hi - lo + 1, lo), Mat::id(std::size_t{1} << (hi - lo + 1)), "result:identity", "identity on ", lo, "..", hi); count("identities");
          auto j = p->makeIdent(static_cast<dd::QubitCount>(hi + 1)); EQV(evalM(j, hi + 1), Mat::id(std::size_t{1} << (hi + 1)), "result:identity", "identity on ", hi + 1); }
        { // zero and scalar operands
          auto z = p->kronecker(dd::mEdge::zero, y.e); CHK(z == dd::mEdge::zero, "result:kron-zero", "0 (x) M"); z = p->kronecker(y.e, dd::mEdge::zero); CHK(z == dd::mEdge::zero, "result:kron-zero", "M (x) 0");
          C s = niceValue(g); auto t = dd::mEdge::terminal(p->cn.lookup(s)); EQV(evalM(p->kronecker(t, y.e), ny), scaled(y.d, s), "result:kron-scalar", "scalar (x) M"); EQV(evalM(p->kronecker(y.e, t), ny), scaled(y.d, s), "result:kron-scalar", "M (x) scalar");
          auto tv = dd::vEdge::terminal(p->cn.lookup(s)); EQV(evalV(p->kronecker(tv, w.e), w.n), scaled(w.d, s), "result:kron-scalar", "scalar (x) v"); CHK(p->kronecker(dd::vEdge::zero, w.e) == dd::vEdge::zero, "result:kron-zero", "0 (x) v"); }
        CHK(p->cn.cacheCount() == 0, "cache", "temporary numbers lost ", desc);
        if (g.chance(0.15)) { for (auto& m: mm) p->incRef(m.e); for (auto& m: vv) p->incRef(m.e); p->garbageCollect(true); for (auto& m: mm) p->decRef(m.e); for (auto& m: vv) p->decRef(m.e); }
    }
    std::uint64_t h = 1; for (auto& m: mm) h = mix(h ^ hashOf(m.d)); rec().distinct(h); note(desc); if (idx < 8) rec().sample(desc);
}
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    if (large::sometimes<Cfg>(g, 0.015, [](auto& r) { r.factorOps(2); })) return;
    if (g.chance(0.5)) { direct<Cfg>(g, i); return; }
    const int mx = std::is_same_v<Cfg, Tiny> ? g.range(2, 4) : g.range(2, 6);
    World<Cfg, ops({NEWV, NEWM, GATE, IDENT, KRONV, KRONM, EXTEND, MULM, TRANS, GC, DROP})> w(g, mx);
    const std::vector<std::pair<int, int>> wt{{NEWV, 3}, {NEWM, 3}, {GATE, 3}, {IDENT, 2}, {KRONV, 8}, {KRONM, 10}, {EXTEND, 5}, {MULM, 2}, {TRANS, 1}, {GC, g.chance(0.5) ? 2 : 0}, {DROP, 4}};
    const int len = g.range(15, 50);
    // prefer small factors so that products fit
    for (int k = 0; k < len; k++) { int op = w.pickOp(wt); if (op == NEWV) w.newV(g.range(1, std::max(1, mx / 2))); else if (op == NEWM) w.newM(g.range(1, std::max(1, mx / 2))); else if (op == GATE) w.gate(g.range(1, std::max(1, mx / 2))); else w.step(op); }
    rec().distinct(w.hist);
}
VH_SPLIT(body)
VH_MAIN("large", "kron_shift", "kron_noshift", "kron_vector", "extend", "identities", "kronv", "kronm")
