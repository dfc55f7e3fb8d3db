// C07: trace and partial trace
#include "world.hpp"
#include "wide.hpp"
#include "large.hpp"
using namespace vh;
// matrices with many nodes
template<class Cfg> VH_GLUE void wide(Rng& g) {
    const int n = g.range(4, SLOW ? 5 : 7); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); note(str("wide n=", n)); WideMat<dd::Package<Cfg>> a(*p, g, n); a.evolve(g.range(6, 20)); a.check("evolved"); C w = 0; for (std::size_t k = 0; k < a.d.d; k++) w += a.d(k, k);
    CHK(std::abs(val(p->trace(a.e)) - w) < 1e-8, "wide:trace", "trace ", val(p->trace(a.e)), " want ", w);
    for (int r = 0; r < 4; r++) { std::vector<bool> el(static_cast<std::size_t>(n)); std::vector<int> keep; for (int q = 0; q < n; q++) { const bool b = g.chance(0.5); el[static_cast<std::size_t>(q)] = b; if (!b) keep.push_back(q); } if (keep.empty()) continue; const double df = diff(evalM(p->partialTrace(a.e, el), static_cast<int>(keep.size())), World<Cfg, 0>::ptrace(a.d, n, keep)); CHK(df < 1e-8, "wide:ptrace", "partial trace deviates by ", df); }
    a.check("at the end"); rec().distinct(hashOf(a.d)); a.release(); count("wide");
}
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    if (large::sometimes<Cfg>(g, 0.015, [](auto& r) { r.factorOps(8); })) return;
    if (wideCase<Cfg>(g)) { if constexpr (std::is_same_v<Cfg, Std>) wide<Cfg>(g); return; }
    using W = World<Cfg, 0>;
    const int n = std::is_same_v<Cfg, Tiny> ? g.range(1, 4) : g.range(1, 5), total = n + g.range(0, 2);
    auto p = makePkg<Cfg>(static_cast<std::size_t>(total));
    std::string desc = str("n=", n, " of ", total, " ");
    const int rounds = g.range(1, 4);
    for (int r = 0; r < rounds; r++) {
        Mat m; dd::mEdge e; const int kind = g.range(0, 4);
        if (kind <= 1) { m = randMat(g, n); e = p->makeDDFromMatrix(toCMat(m)); }
        else if (kind == 2) { int t = g.range(0, n - 1); auto G = gate1(g); auto c = randCtl(g, n, {t}); m = embed(G.dense, n, {t}, c); e = p->makeGateDD(G.mat, static_cast<dd::QubitCount>(n), toControls(c), static_cast<dd::Qubit>(t)); }
        else if (kind == 3) { Vec v = normalized(randVec(g, n)); m = Mat(v.size()); for (std::size_t x = 0; x < v.size(); x++) for (std::size_t y = 0; y < v.size(); y++) m(x, y) = v[x] * std::conj(v[y]); e = p->makeDDFromMatrix(toCMat(m)); } // pure state
        else { m = Mat::id(std::size_t{1} << n); e = p->makeIdent(static_cast<dd::QubitCount>(n)); if (g.chance(0.5)) { C s = niceValue(g); m = scaled(m, s); e.w = p->cn.lookup(s); } } // (scaled) identity
        if (maxAbs(m) > 1e3 || maxAbs(m) < 1e-3) { if (maxAbs(m) != 0) continue; }
        EQV(evalM(e, n), m, "setup", "matrix " + show(m)); const Mat d = evalM(e, n); p->incRef(e);
        C w = 0; for (std::size_t k = 0; k < d.d; k++) w += d(k, k);
        C x = val(p->trace(e)); CHK(std::abs(x - w) <= 1e-9 * (1 + double(d.d) * maxAbs(d)), "trace", "trace ", x, " want ", w, " for ", show(d)); count("trace");
        const int subsets = g.range(1, 4);
        for (int s = 0; s < subsets; s++) {
            std::vector<bool> el(static_cast<std::size_t>(total)); std::vector<int> keep; std::string es;
            const int mode = g.range(0, 5);
            for (int q = 0; q < n; q++) { const bool b = mode == 0 ? false : mode == 1 ? true : mode == 2 ? q == g.range(0, n - 1) : g.chance(0.5); el[static_cast<std::size_t>(q)] = b; es += b ? '1' : '0'; if (!b) keep.push_back(q); }
            // qubits above the matrix are kept: they only exist in the package
            auto t = p->partialTrace(e, el); Mat want = W::ptrace(d, n, keep);
            if (keep.empty()) { CHK(t.isTerminal() && std::abs(val(t.w) - w) <= 1e-9 * (1 + double(d.d) * maxAbs(d)), "ptrace:all", "tracing out everything gives ", val(t.w), " want ", w); count("all"); }
            else if (static_cast<int>(keep.size()) == n) { CHK(t == e, "ptrace:none", "tracing out nothing changed the matrix"); count("none"); }
            else { const double df = diff(evalM(t, static_cast<int>(keep.size())), want); CHK(df <= 1e-9 * (1 + double(d.d) * maxAbs(d)), "ptrace", "partial trace of qubits ", es, " (bit 0 first) of ", show(d), " deviates by ", df); count("partial"); }
            rec().distinct(mix(hashOf(d)) ^ fnv(es)); desc += es + " ";
            CHK(p->cn.cacheCount() == 0, "cache", "temporary numbers lost");
        }
        EQV(evalM(e, n), d, "operand", "the operand changed"); if (g.chance(0.2)) p->garbageCollect(true);
    }
    note(desc); if (i < 8) rec().sample(desc);
}
VH_SPLIT(body)
VH_MAIN("large", "wide", "trace", "partial", "all", "none")
