// density matrices: independent evaluation and a population with dense twins
#pragma once
#include "audit.hpp"
#include "gates2.hpp"
namespace vh {
// plain: every successor is a block; dm: compact Hermitian form (lower-left block is the adjoint of the stored third successor)
inline Mat evalD(const dd::dEdge& e0, int lvl, bool dm) {
    dd::dNode* p = e0.p; dd::dNode::alignDensityNode(p);
    const C w = val(e0.w); const std::size_t D = std::size_t{1} << (lvl + 1); Mat r(D);
    if (!std::isfinite(w.real()) || !std::isfinite(w.imag())) fail("structure:nonfinite", "density weight");
    if (w == C(0)) return r;
    if (lvl < 0) { if (!dd::dNode::isTerminal(p)) fail("structure:level", "density non-terminal below level 0"); r(0, 0) = w; return r; }
    if (dd::dNode::isTerminal(p)) fail("structure:skipped-level", "density terminal edge above level 0");
    if (p->v != lvl) fail("structure:level", str("density node of variable ", int(p->v), " at level ", lvl));
    const std::size_t h = D / 2;
    for (int k = 0; k < 4; k++) {
        Mat q;
        if (!dm) q = evalD(p->e[static_cast<std::size_t>(k)], lvl - 1, false);
        else if (k == 0 || k == 3) q = evalD(p->e[static_cast<std::size_t>(k)], lvl - 1, true);
        else if (k == 1) q = evalD(p->e[1], lvl - 1, false);
        else q = dagger(evalD(p->e[2], lvl - 1, false));
        const std::size_t r0 = (k & 2) ? h : 0, c0 = (k & 1) ? h : 0;
        for (std::size_t i = 0; i < h; i++) for (std::size_t j = 0; j < h; j++) r(r0 + i, c0 + j) = w * q(i, j);
    }
    return r;
}
template<class Cfg> struct DWorld {
    using P = dd::Package<Cfg>;
    P& p; Rng& g; int n;
    struct D { dd::dEdge e; Mat d; bool dm; bool dirty; };
    std::vector<D> ds; std::uint64_t hist = 1; bool nice = false, pooled = false; std::size_t applied = 0; struct Op { dd::mEdge e; Mat U; std::string name; }; std::vector<Op> pool; // operations to be applied again
    DWorld(P& pk, Rng& r, int nq): p(pk), g(r), n(nq) {}
    void create() {
        D x{p.makeZeroDensityOperator(static_cast<dd::QubitCount>(n)), Mat(std::size_t{1} << n), false, false}; x.d(0, 0) = 1;
        p.incRef(x.e); ds.push_back(x); check(ds.back(), "zero density operator"); count("density_created");
    }
    Mat ev(const D& x) { return evalD(x.e, n - 1, x.dm); }
    void check(D& x, const char* what) { EQV(ev(x), x.d, std::string("density:") + what, what, " on ", n, " qubits"); }
    VH_GLUE void apply(D& x, int mode) { // mode: 0 full, 1 compact
        dd::mEdge op; Mat U; std::string name;
        const bool again = pooled && !pool.empty() && g.chance(pool.size() < 3 ? 0.4 : 0.9);
        if (again) { const auto& o = g.pick(pool); op = o.e; U = o.U; name = o.name; count("repeated"); }
        else if (n == 1 || g.chance(0.6)) { int t = g.range(0, n - 1); auto G = nice ? cliffordT(g) : unitary1(g); auto c = randCtl(g, n, {t}); U = embed(G.dense, n, {t}, c); op = p.makeGateDD(G.mat, static_cast<dd::QubitCount>(n), toControls(c), static_cast<dd::Qubit>(t)); name = G.name; }
        else { int a = g.range(0, n - 1), b = g.range(0, n - 2); if (b >= a) b++; auto c = g.chance(0.6) ? std::vector<Ctl>{} : randCtl(g, n, {a, b}); auto r = gate2(p, g, n, a, b, c, 0, nice ? g.range(0, 5) : g.range(0, 13)); U = embed(r.dense, n, {a, b}, c); op = r.e; name = r.name; }
        if (pooled && !again) { p.incRef(op); pool.push_back({op, U, name}); }
        const bool held = g.chance(0.3); if (held) p.incRef(op);
        note(str("apply", mode, ":", name));
        p.applyOperationToDensity(x.e, op, mode == 1);
        x.dm = mode == 1; x.d = U * x.d * dagger(U); hist = mix(hist ^ fnv(name) ^ hashOf(x.d)); applied++;
        check(x, mode ? "compact evolution" : "full evolution"); count(mode ? "compact_steps" : "full_steps");
        EQV(evalM(op, n), U, "density:operator", "the operator ", name, " changed");
        if (held) p.decRef(op);
    }
    VH_GLUE void read(D& x) {
        auto m = fromCMat(p.getDensityMatrix(x.e)); EQV(m, x.d, "density:getDensityMatrix", "extracted density matrix");
        C tr = 0; for (std::size_t i = 0; i < m.d; i++) tr += m(i, i);
        CHK(std::abs(tr - C(1)) < 1e-9, "density:trace", "trace ", tr); CHK(diff(m, dagger(m)) < 1e-9, "density:hermitian", "not Hermitian");
        check(x, "state after reading"); count("density_reads");
        const double th = g.chance(0.5) ? 0.0 : g.chance(0.5) ? 0.001 : g.uni(0, 0.5);
        auto pv = p.getProbVectorFromDensityMatrix(x.e, th); std::size_t found = 0;
        for (auto& [k, v]: pv) {
            CHK(k.size() == static_cast<std::size_t>(n), "density:prob", "outcome '", k, "'"); std::size_t i = 0; for (std::size_t q = 0; q < k.size(); q++) if (k[q] == '1') i |= std::size_t{1} << q;
            const double w = x.d(i, i).real(); CHK(std::abs(v - w) < 1e-9, "density:prob", "outcome ", k, " has probability ", v, " want ", w); found++;
        }
        std::size_t want = 0; for (std::size_t i = 0; i < x.d.d; i++) { std::string k; for (int q = 0; q < n; q++) k += ((i >> q) & 1U) ? '1' : '0'; if (x.d(i, i).real() > th + 1e-9) { want++; CHK(pv.count(k) == 1, "density:prob-missing", "outcome ", k, " of probability ", x.d(i, i).real(), " missing (threshold ", th, ")"); } }
        (void)found; (void)want; check(x, "state after probabilities"); count("density_probs");
    }
    void release(std::size_t k) { auto e = ds[k].e; dd::dEdge::alignDensityEdge(e); p.decRef(e); ds.erase(ds.begin() + static_cast<std::ptrdiff_t>(k)); }
    void checkAll() { for (auto& x: ds) check(x, "state of the population"); }
};
} // namespace vh
