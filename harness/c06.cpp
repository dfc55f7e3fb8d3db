// C06: inner products, fidelities, expectation values, fidelity of measurement outcomes
#include "world.hpp"
#ifdef NDEBUG
constexpr bool DBG = false;
#else
constexpr bool DBG = true; // the library asserts that the imaginary part is within its absolute tolerance
#endif
#include "wide.hpp"
#include "large.hpp"
using namespace vh;
// states with many nodes
template<class Cfg> VH_GLUE void wide(Rng& g) {
    const int n = g.range(8, SLOW ? 9 : 14); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); note(str("wide n=", n)); WideSim<dd::Package<Cfg>> s(*p, g, n), t(*p, g, n); const auto N = static_cast<dd::QubitCount>(n);
    for (int r = 0; r < 3; r++) {
        s.evolve(g.range(1, 4)); t.evolve(g.range(0, 3)); const C w = dot(s.d, t.d); const C x = val(p->innerProduct(s.e, t.e)), y = val(p->innerProduct(t.e, s.e)); CHK(std::abs(x - w) < 1e-9 && std::abs(y - std::conj(w)) < 1e-9, "wide:inner", "inner products ", x, " and ", y, " want ", w);
        CHK(std::abs(p->fidelity(s.e, t.e) - std::norm(w)) < 1e-9, "wide:fidelity", "fidelity"); CHK(std::abs(val(p->innerProduct(s.e, s.e)) - norm2(s.d)) < 1e-9, "wide:norm", "norm");
        Vec u = s.d; const int q = g.range(0, n - 1); auto c = randCtl(g, n, {q}, 0.1); const bool zz = g.chance(0.5); Mat G(2); if (zz) { G(0, 0) = 1; G(1, 1) = -1; } else G(0, 1) = G(1, 0) = 1; gateOn(u.data(), 1, n, G, q, c); auto op = p->makeGateDD(zz ? dd::Zmat : dd::Xmat, N, toControls(c), static_cast<dd::Qubit>(q)); const C ew = dot(s.d, u); const auto ev = p->expectationValue(op, s.e); CHK(std::abs(ev - ew.real()) < 1e-9, "wide:expectation", "expectation value ", ev, " want ", ew);
        dd::ProbabilityVector pv; double ow = 0; for (std::size_t i = 0; i < s.d.size(); i++) if (g.chance(0.5)) { const double pr = g.uni(); pv[i] = pr; ow += std::sqrt(pr) * std::abs(s.d[i]); } const double of = p->fidelityOfMeasurementOutcomes(s.e, pv); CHK(std::abs(of - ow) < 1e-8 * (1 + ow), "wide:outcomes", "fidelity of outcomes ", of, " want ", ow);
    }
    s.check("at the end"); t.check("at the end"); rec().distinct(hashOf(s.d)); s.release(); t.release(); count("wide");
}
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    if (large::sometimes<Cfg>(g, 0.015, [&](auto& r) { if (g.chance(0.5)) r.factorOps(4); else if (g.chance(0.5)) r.products(); else r.graph(); })) return;
    if (wideCase<Cfg>(g)) { if constexpr (std::is_same_v<Cfg, Std>) wide<Cfg>(g); return; }
    const int n = std::is_same_v<Cfg, Tiny> ? g.range(1, 5) : g.range(1, 8);
    auto p = makePkg<Cfg>(static_cast<std::size_t>(n) + g.below(2));
    struct S { dd::vEdge e; Vec d; };
    std::vector<S> vs; std::string desc = str("n=", n, " ");
    auto push = [&](const dd::vEdge& e, const Vec& d) { if (maxAbs(d) > 1e4 || (maxAbs(d) < 1e-3 && !(e == dd::vEdge::zero))) return; EQV(evalV(e, n), d, "setup", "state"); p->incRef(e); vs.push_back({e, evalV(e, n)}); };
    const int k = g.range(2, 4);
    for (int j = 0; j < k; j++) { Vec v = g.chance(0.5) ? normalized(randVec(g, n)) : randVec(g, n); push(p->makeStateFromVector(toCVec(v)), v); }
    if (vs.empty()) throw Skip{};
    { auto a = g.pick(vs); C f = niceValue(g); auto x = a.e; if (x.w != dd::Complex::zero) { x.w = p->cn.lookup(val(x.w) * f); push(x, scaled(a.d, f)); } } // proportional
    { auto a = g.pick(vs); int t = g.range(0, n - 1); auto G = unitary1(g); auto c = randCtl(g, n, {t}); push(p->multiply(p->makeGateDD(G.mat, static_cast<dd::QubitCount>(n), toControls(c), static_cast<dd::Qubit>(t)), a.e), embed(G.dense, n, {t}, c) * a.d); }
    if (g.chance(0.3)) push(dd::vEdge::zero, Vec(std::size_t{1} << n));
    const int rounds = g.range(5, 15);
    for (int r = 0; r < rounds; r++) {
        auto& a = g.pick(vs); auto& b = g.pick(vs); const double sc = std::sqrt(norm2(a.d) * norm2(b.d));
        switch (g.range(0, 5)) {
        case 0: case 1: { C w = dot(a.d, b.d), x = val(p->innerProduct(a.e, b.e)); CHK(std::abs(x - w) <= 1e-10 * (1 + sc), "inner", "inner product ", x, " want ", w, " on ", n, " qubits");
            C y = val(p->innerProduct(b.e, a.e)); CHK(std::abs(y - std::conj(w)) <= 1e-10 * (1 + sc), "inner:conj", "reversed inner product ", y, " want ", std::conj(w)); C z = val(p->innerProduct(a.e, a.e)); CHK(std::abs(z - norm2(a.d)) <= 1e-10 * (1 + norm2(a.d)), "inner:self", z, " want ", norm2(a.d)); count("inner"); desc += "i"; break; }
        case 2: { double w = std::norm(dot(a.d, b.d)), x = p->fidelity(a.e, b.e); CHK(std::abs(x - w) <= 1e-9 * (1 + w + sc), "fidelity", x, " want ", w); count("fidelity"); desc += "f"; break; }
        case 3: { // expectation value of a Hermitian observable
            Mat h; dd::mEdge e; const int kind = g.range(0, 2);
            if (n <= (DBG ? 3 : 5) && kind == 0) { h = randMat(g, n, 8); e = p->makeDDFromMatrix(toCMat(h)); }
            else if (kind == 1) { static const std::vector<int> herm{0, 1, 2, 3, 4}; int t = g.range(0, n - 1); auto G = gate1(g, g.pick(herm)); auto c = randCtl(g, n, {t}); h = embed(G.dense, n, {t}, c); e = p->makeGateDD(G.mat, static_cast<dd::QubitCount>(n), toControls(c), static_cast<dd::Qubit>(t)); }
            else { h = Mat::id(1); e = dd::mEdge::one; for (int q = 0; q < n; q++) { static const std::vector<int> pl{0, 2, 3, 4}; auto G = gate1(g, g.pick(pl)); h = kron(G.dense, h); e = q == 0 ? p->makeGateDD(G.mat, 1, 0) : p->kronecker(p->makeGateDD(G.mat, 1, 0), e); } } // Pauli string
            if (a.e == dd::vEdge::zero || e == dd::mEdge::zero) break;
#ifndef NDEBUG
            if (std::abs(norm2(a.d) - 1) > 1e-9) break; // the library asserts an imaginary part within its absolute tolerance
#endif
            C w = dot(a.d, h * a.d); double x = p->expectationValue(e, a.e); CHK(std::abs(x - w.real()) <= 1e-9 * (1 + std::abs(w) + norm2(a.d)), "expectation", "expectation value ", x, " want ", w); count("expectation"); desc += "e"; break; }
        case 4: { // sum over outcomes of |amplitude| * sqrt(frequency)
            std::vector<double> f(a.d.size()); double s = 0; for (auto& x: f) { if (g.chance(0.5)) x = g.uni(); s += x; } 
            using PV = std::decay_t<std::remove_reference_t<dd::ProbabilityVector>>; PV pv; double w = 0;
            for (std::size_t q = 0; q < f.size(); q++) if (f[q] > 0) { pv[q] = f[q] / s; w += std::abs(a.d[q]) * std::sqrt(f[q] / s); }
            double x = p->fidelityOfMeasurementOutcomes(a.e, pv); CHK(std::abs(x - w) <= 1e-9 * (1 + w + std::sqrt(norm2(a.d))), "outcomes", "fidelity of outcomes ", x, " want ", w); count("outcomes"); desc += "o"; break; }
        default: if (g.chance(0.5)) { p->garbageCollect(true); count("gc"); desc += "g"; }
        }
        CHK(p->cn.cacheCount() == 0, "cache", "temporary numbers lost");
    }
    // a different register size in one of the arguments of the expectation value is rejected
    if (n > 1 && g.chance(0.3)) { bool thrown = false; try { (void)p->expectationValue(p->makeIdent(static_cast<dd::QubitCount>(n - 1)), p->makeZeroState(static_cast<dd::QubitCount>(n))); } catch (const std::invalid_argument&) { thrown = true; } CHK(thrown, "expectation:shape", "mismatching sizes accepted"); }
    std::uint64_t h = 3; for (auto& v: vs) h = mix(h ^ hashOf(v.d)); rec().distinct(h); note(desc); if (i < 8) rec().sample(desc + show(vs[0].d));
    for (auto& v: vs) p->decRef(v.e);
}
VH_SPLIT(body)
VH_MAIN("large", "wide", "inner", "fidelity", "expectation", "outcomes", "gc")
