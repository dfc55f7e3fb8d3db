// C17: serialisation round trips (text and binary, streams and files, same and other package)
#include "shape.hpp"
#include "world.hpp"
#include "wide.hpp"
using namespace vh;
constexpr std::uint64_t OPS17 = ops({NEWV, NEWM, GATE, MULV, MULM, ADDV, ADDM, TRANS, CTRANS, KRONV, KRONM, GC, DROP, MEAS1, IDENT, DELEDGE, EXTEND});
template<class P, class E> E load(P& p, const std::string& s, bool bin, Rng& g, const std::string& file) {
    using N = typename NodeOf<E>::type;
    if (!file.empty()) { std::ofstream(file, std::ios::binary) << s; E e = p.template deserialize<N>(file, bin); return e; }
    std::istringstream is(s, std::ios::in | std::ios::binary); E e = p.template deserialize<N>(is, bin); (void)g; return e;
}
inline std::string scratch() { static std::string f = str("/tmp/ddv-c17-", getpid(), ".bin"); return f; }
struct Rm { ~Rm() { std::remove(scratch().c_str()); } };
// text files may contain blank lines and comments after a node
inline std::string decorate(Rng& g, const std::string& s) {
    std::istringstream is(s); std::string o, l; int k = 0;
    while (std::getline(is, l)) { if (k >= 2 && g.chance(0.2)) o += "\n"; o += l; if (k >= 2 && g.chance(0.3)) o += g.chance(0.5) ? " # comment (1 2)" : "   "; o += '\n'; k++; }
    return o;
}
template<class P, class E> VH_GLUE void roundTrip(P& p, P& q, Rng& g, const E& e, bool nice, const char* what) {
    const bool bin = g.chance(0.5), file = g.chance(0.15); std::string s; const auto snap = snapshot(e); Rm rm;
    if (file) { dd::serialize(e, scratch(), bin); std::ifstream f(scratch(), std::ios::binary); std::stringstream b; b << f.rdbuf(); s = b.str(); { std::ostringstream os(std::ios::out | std::ios::binary); dd::serialize(e, os, bin); CHK(os.str() == s, "serial:file", "file and stream differ"); } count("files"); }
    else { std::ostringstream os(std::ios::out | std::ios::binary); dd::serialize(e, os, bin); s = os.str(); }
    CHK(snapshot(e) == snap, "serial:changed", "writing changed the diagram");
    if (!bin && g.chance(0.2)) { s = decorate(g, s); count("decorated"); }
    const auto loan = p.cn.cacheCount(), loan2 = q.cn.cacheCount();
    const E a = load<P, E>(p, s, bin, g, file && g.chance(0.5) ? scratch() : ""); CHK(p.cn.cacheCount() == loan, "serial:loan", "temporary numbers lost");
    const C w = val(e.w); const bool wOk = std::abs(val(a.w) - w) <= 1e-11 * (1 + std::abs(w));
    if (nice) { CHK(a.p == e.p, "serial:same-node", what, bin ? " (binary)" : " (text)", ": another node in the same package"); CHK(a.p == e.p && wOk, "serial:weight", what, ": root weight ", val(a.w), " want ", w); count("same_node"); }
    else if (a.p == e.p) { CHK(wOk, "serial:weight", what, ": root weight ", val(a.w), " want ", w); count("same_node"); } else { count("other_node"); CHK(sameShape(a, e) || countNodes(a) <= countNodes(e), "serial:shape", what, ": loaded diagram has another shape"); }
    const E b = load<P, E>(q, s, bin, g, ""); CHK(q.cn.cacheCount() == loan2, "serial:loan", "temporary numbers lost");
    if (nice) { CHK(sameShape(b, e), "serial:shape", what, bin ? " (binary)" : " (text)", ": another diagram in the other package"); count("same_shape"); }
    { std::istringstream is(s, std::ios::in | std::ios::binary); E c = q.template deserialize<typename NodeOf<E>::type>(is, bin); CHK(c == b, "serial:again", what, ": loading twice gives different diagrams"); }
    if (nice && g.chance(0.5)) { std::ostringstream os(std::ios::out | std::ios::binary); const bool b2 = g.chance(0.5); dd::serialize(b, os, b2); const E d = load<P, E>(p, os.str(), b2, g, ""); CHK(d.p == e.p && std::abs(val(d.w) - w) <= 1e-11 * (1 + std::abs(w)), "serial:back", what, ": not the same after a trip through another package"); count("returned"); }
    count(bin ? "binary" : "text");
}
template<class Cfg> VH_GLUE void worlds(Rng& g) {
    const int n = g.range(1, std::is_same_v<Cfg, Tiny> ? 4 : 5); World<Cfg, OPS17> w(g, n); w.nice = w.unitaryOnly = g.chance(0.5); auto q = makePkg<Cfg>(static_cast<std::size_t>(n + g.range(0, 2))); const int len = g.range(6, 25);
    static const std::vector<std::pair<int, int>> wt{{NEWV, 3}, {NEWM, 2}, {GATE, 3}, {MULV, 5}, {MULM, 4}, {ADDV, 2}, {ADDM, 2}, {TRANS, 1}, {CTRANS, 1}, {KRONV, 2}, {KRONM, 2}, {GC, 1}, {DROP, 2}, {MEAS1, 1}, {IDENT, 1}, {DELEDGE, 1}, {EXTEND, 1}};
    for (int s = 0; s < len; s++) {
        w.step(w.pickOp(wt)); if (!g.chance(0.4)) continue;
        if (g.chance(0.5) && !w.vs.empty()) { auto& x = *w.pickV(); roundTrip(*w.p, *q, g, x.e, w.nice, "state"); std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); const bool b = g.chance(0.5); dd::serialize(x.e, ss, b); EQV(evalV(q->template deserialize<dd::vNode>(ss, b), x.n), x.d, "serial:function", "loaded state"); count("states"); }
        else if (!w.ms.empty()) { auto& x = *w.pickM(); roundTrip(*w.p, *q, g, x.e, w.nice, "matrix"); std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); const bool b = g.chance(0.5); dd::serialize(x.e, ss, b); EQV(evalM(q->template deserialize<dd::mNode>(ss, b), x.n), x.d, "serial:function", "loaded matrix"); count("matrices"); }
    }
    w.checkAll(); auditPackage(*q); rec().distinct(w.hist);
}
template<class Cfg> VH_GLUE void terminals(Rng& g) { // zero, one, scalars
    auto p = makePkg<Cfg>(2), q = makePkg<Cfg>(2); std::uint64_t hh = 1;
    for (int k = 0; k < 10; k++) {
        C v = g.chance(0.2) ? C(0) : g.chance(0.2) ? C(1) : g.chance(0.3) ? niceValue(g) : C(g.gauss() * std::pow(10.0, g.uni(-9, g.chance(0.3) ? 60 : 9)), g.gauss() * std::pow(10.0, g.uni(-9, g.chance(0.3) ? 60 : 9))); if (g.chance(0.3)) v = {v.real(), 0}; else if (g.chance(0.3)) v = {0, v.imag()}; hh = mix(hh ^ hashOf(Vec{v}));
        auto one = [&](auto e) { e.w = p->cn.lookup(v); if (e.w == dd::Complex::zero) e = decltype(e)::zero; const bool bin = g.chance(0.5); std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); dd::serialize(e, ss, bin); const auto s = ss.str(); auto a = load<dd::Package<Cfg>, decltype(e)>(*p, s, bin, g, ""), b = load<dd::Package<Cfg>, decltype(e)>(*q, s, bin, g, "");
            CHK(a.isTerminal() && b.isTerminal(), "serial:terminal", "not a terminal"); const double t = 1e-12 + 1e-14 * std::abs(v); CHK(std::abs(val(a.w) - val(e.w)) <= t && std::abs(val(b.w) - val(e.w)) <= t, "serial:terminal", bin ? "binary " : "text ", s.size() > 60 ? "" : s, ": loaded ", val(a.w), " and ", val(b.w), " want ", val(e.w)); if (e == decltype(e)::zero) CHK(a == e && b == e, "serial:zero", "zero diagram"); if (e == decltype(e)::one) CHK(a == e && b == e, "serial:one", "unit diagram"); count("terminals"); };
        if (g.chance(0.5)) one(dd::vEdge::one); else one(dd::mEdge::one);
    }
    rec().distinct(hh); note("terminals");
}
template<class Cfg> VH_GLUE void scaledRoots(Rng& g) { // tiny and huge weights, all signs
    const int n = g.range(1, 4); auto p = makePkg<Cfg>(4), q = makePkg<Cfg>(4); const std::size_t D = std::size_t{1} << n; const double sc = std::pow(10.0, g.uni(-6, 8));
    auto sgn = [&](Vec& v) { for (auto& x: v) { x = C(g.chance(0.5) ? x.real() : -x.real(), g.chance(0.5) ? x.imag() : -x.imag()); if (g.chance(0.1)) x = x.real(); else if (g.chance(0.1)) x = C(0, x.imag()); else if (g.chance(0.1)) x *= std::pow(10.0, g.uni(-6, -1)); } };
    const bool bin = g.chance(0.5);
    if (g.chance(0.5)) { Vec v = randVec(g, n, g.chance(0.5) ? 0 : 2); sgn(v); auto e = p->makeStateFromVector(toCVec(scaled(normalized(v), sc))); if (e == dd::vEdge::zero) throw Skip{}; p->incRef(e); v = evalV(e, n); std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); dd::serialize(e, ss, bin); const auto s = ss.str();
        for (auto* t: {p.get(), q.get()}) { auto a = load<dd::Package<Cfg>, dd::vEdge>(*t, s, bin, g, ""); const double dv = diff(evalV(a, n), v); CHK(dv <= 1e-11 * std::max(sc, 0.01), "serial:scaled", bin ? "binary" : "text", " state of scale ", sc, " deviates by ", dv); if (t == p.get()) { CHK(sameShape(a, e) || countNodes(a) <= countNodes(e), "serial:shape", "shape"); if (a.p == e.p) count("same_node"); } }
        rec().distinct(hashOf(v)); p->decRef(e); }
    else { Mat m = randMat(g, n, g.chance(0.5) ? 0 : 2); sgn(m.a); double mx = maxAbs(m); if (mx == 0) throw Skip{}; auto e = p->makeDDFromMatrix(toCMat(scaled(m, sc / mx))); p->incRef(e); m = evalM(e, n); std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); dd::serialize(e, ss, bin); const auto s = ss.str();
        for (auto* t: {p.get(), q.get()}) { auto a = load<dd::Package<Cfg>, dd::mEdge>(*t, s, bin, g, ""); const double dv = diff(evalM(a, n), m); CHK(dv <= 1e-11 * std::max(sc, 0.01), "serial:scaled", bin ? "binary" : "text", " matrix of scale ", sc, " deviates by ", dv); if (a.p == e.p && t == p.get()) count("same_node"); }
        rec().distinct(hashOf(m)); p->decRef(e); }
    (void)D; count("scaled"); note(str("scaled ", sc));
}
template<class Cfg> VH_GLUE void hugeRoots(Rng& g) { // root weights whose parts have unrelated magnitudes, written with exponents
    const int n = g.range(1, 4); auto p = makePkg<Cfg>(4), q = makePkg<Cfg>(4); std::uint64_t hh = 2;
    auto one = [&](auto e) {
        using E = decltype(e); if (e.isTerminal()) return; auto part = [&] { const double x = std::pow(10.0, g.uni(-10, g.chance(0.5) ? 60 : 10)) * (g.chance(0.5) ? 1 : -1); return g.chance(0.1) ? 0. : x; };
        e.w = p->cn.lookup(part(), part()); if (e.w.approximatelyZero()) return; p->incRef(e); const C w = val(e.w); hh = mix(hh ^ hashOf(Vec{w}));
        const bool bin = g.chance(0.3); std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); dd::serialize(e, ss, bin); const auto s = ss.str();
        for (auto* t: {p.get(), q.get()}) { const E a = load<dd::Package<Cfg>, E>(*t, s, bin, g, ""); CHK(t != p.get() || a.p == e.p, "serial:same-node", "root weight ", w, bin ? " (binary)" : " (text)", ": another node in the same package");
            const auto near = [](double x, double y) { return std::abs(x - y) <= 1e-12 + 1e-14 * std::abs(y); }; CHK(near(val(a.w).real(), w.real()) && near(val(a.w).imag(), w.imag()), "serial:weight", bin ? "binary" : "text", ": root weight ", val(a.w), " want ", w); }
        count("huge_roots"); p->decRef(e); };
    for (int k = 0; k < 6; k++) { if (g.chance(0.5)) { std::vector<dd::BasisStates> l(4); for (auto& b: l) b = static_cast<dd::BasisStates>(g.range(0, 5)); one(p->makeBasisState(static_cast<dd::QubitCount>(n), l)); } else one(p->makeIdent(static_cast<dd::QubitCount>(n))); }
    rec().distinct(hh); note("huge roots");
}
template<class Cfg> VH_GLUE void deep(Rng& g) { // long chains and heavily shared diagrams over many levels
    const bool tiny = std::is_same_v<Cfg, Tiny>; const int n = tiny ? g.range(5, 8) : g.range(8, std::is_same_v<Cfg, Std> ? 127 : 40); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)), q = makePkg<Cfg>(static_cast<std::size_t>(n)); std::uint64_t hh = 1;
    if (g.chance(0.6)) { auto e = layeredV(*p, g, n, g.range(1, 6), hh); p->incRef(e); roundTrip(*p, *q, g, e, true, "layered state"); p->decRef(e); count("deep_states"); }
    else { auto e = layeredM(*p, g, n, g.range(1, tiny ? 2 : 3), hh); p->incRef(e); roundTrip(*p, *q, g, e, true, "layered matrix"); p->decRef(e); count("deep_matrices"); }
    rec().distinct(hh); auditPackage(*p); auditPackage(*q); note(str("deep n=", n));
}
// diagrams with more nodes than fit into small indices
template<class Cfg> VH_GLUE void wide(Rng& g) {
    const bool bin = g.chance(0.6); std::uint64_t hh = 5; auto q = makePkg<Cfg>(17); auto p = makePkg<Cfg>(17);
    auto trip = [&](auto e, const char* what) { using E = decltype(e); p->incRef(e); std::ostringstream os(std::ios::out | std::ios::binary); dd::serialize(e, os, bin); const auto s = os.str(); const E b = load<dd::Package<Cfg>, E>(*q, s, bin, g, ""); CHK(countNodes(b) == countNodes(e) && sameShape(b, e), "serial:shape", "wide ", what, bin ? " (binary)" : " (text)", " of ", countNodes(e), " nodes: another diagram"); const E a = load<dd::Package<Cfg>, E>(*p, s, bin, g, ""); CHK(sameShape(a, e) && countNodes(a) == countNodes(e), "serial:shape", "wide ", what, ": another diagram in the same package"); count("wide_nodes", countNodes(e)); p->decRef(e); };
    if (g.chance(0.6)) { const int n = g.range(9, SLOW ? 10 : bin ? 17 : 14); note(str("wide state n=", n)); const Vec v = normalized(randVec(g, n, 0)); hh = hashOf(v); trip(p->makeStateFromVector(toCVec(v)), "state"); }
    else { const int n = g.range(4, SLOW ? 5 : bin ? 8 : 6); note(str("wide matrix n=", n)); Mat m(std::size_t{1} << n); for (auto& x: m.a) x = {g.uni(-1, 1), g.uni(-1, 1)}; hh = hashOf(m); trip(p->makeDDFromMatrix(toCMat(m)), "matrix"); }
    rec().distinct(hh); count("wide");
}
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    if (wideCase<Cfg>(g)) { if constexpr (std::is_same_v<Cfg, Std>) wide<Cfg>(g); return; }
    switch (g.range(0, 8)) { case 0: case 1: case 2: worlds<Cfg>(g); break; case 3: terminals<Cfg>(g); break; case 4: case 5: scaledRoots<Cfg>(g); break; case 6: hugeRoots<Cfg>(g); break; default: deep<Cfg>(g); }
    if (i < 8) rec().sample(rec().cur);
}
VH_SPLIT(body)
VH_MAIN("wide", "states", "matrices", "binary", "text", "files", "decorated", "same_node", "same_shape", "returned", "terminals", "scaled", "huge_roots", "deep_states", "deep_matrices")
