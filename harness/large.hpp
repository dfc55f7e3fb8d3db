#pragma once
// diagrams on registers of 17..128 qubits with closed forms
#include "dens.hpp"
#include "shape.hpp"
#include <set>
namespace vh::large {
struct Big: public Mid { static constexpr std::size_t UT_VEC_NBUCKET = 64U, UT_VEC_INITIAL_ALLOCATION_SIZE = 2U, UT_MAT_NBUCKET = 64U, UT_MAT_INITIAL_ALLOCATION_SIZE = 2U; };
using Bits = std::vector<int>;
inline std::string path(const Bits& b) { std::string s; for (int x: b) s += static_cast<char>('0' + x); return s; }
inline Bits randBits(Rng& g, int n) { Bits b(static_cast<std::size_t>(n)); const double d = g.pick(std::vector<double>{0.02, 0.5, 0.98}); for (auto& x: b) x = g.chance(d); return b; }
inline std::vector<bool> bools(const Bits& b) { std::vector<bool> r; for (int x: b) r.push_back(x != 0); return r; }
inline bool near(C a, C b, double scale) { return std::abs(a - b) <= 1e-8 * scale; }
template<class Cfg> struct Reg {
    using P = dd::Package<Cfg>; Rng& g; int n; std::unique_ptr<P> own; P& p; std::uint64_t hh; std::mt19937_64 mt; std::vector<dd::vEdge> live; std::vector<dd::mEdge> liveM;
    static int pickN(Rng& g) { return g.chance(0.5) ? g.pick(std::vector<int>{63, 64, 65, 66, 126, 127, 128, 128}) : g.range(17, 128); }
    Reg(Rng& r, int nq): g(r), n(nq), own(makePkg<Cfg>(static_cast<std::size_t>(nq))), p(*own), hh(static_cast<std::uint64_t>(nq)), mt(r.u64()) { note(str("n=", nq)); }
    [[nodiscard]] dd::QubitCount N() const { return static_cast<dd::QubitCount>(n); }
    static dd::Qubit q(int x) { return static_cast<dd::Qubit>(x); }
    static C walk(const dd::vEdge& e, const Bits& b) { C r = val(e.w); auto* x = e.p; int lv = x->v; while (!dd::vNode::isTerminal(x)) { if (x->v != lv--) fail("large:level", "levels out of order"); auto& f = x->e[static_cast<std::size_t>(b[static_cast<std::size_t>(x->v)])]; r *= val(f.w); if (r == C(0)) return 0; x = f.p; } if (lv != -1) fail("large:level", "terminal too early"); return r; }
    static C walkM(const dd::mEdge& e, const Bits& i, const Bits& j) { C r = val(e.w); auto* x = e.p; int lv = x->v; while (!dd::mNode::isTerminal(x)) { if (x->v != lv--) fail("large:level", "levels out of order"); const auto k = static_cast<std::size_t>(x->v); auto& f = x->e[static_cast<std::size_t>(2 * i[k] + j[k])]; r *= val(f.w); if (r == C(0)) return 0; x = f.p; } if (lv != -1) fail("large:level", "terminal too early"); return r; }
    VH_GLUE void amplitude(const dd::vEdge& e, const Bits& b, C want, double scale, const char* what) {
        CHK(e.p->v == n - 1, "large:level", what, ": top level ", int(e.p->v), " of ", n); const C a = walk(e, b); CHK(near(a, want, scale), "large:value", what, ": amplitude ", a, " want ", want, " n=", n);
        if (scale > 1e-10) { const C c = val(p.getValueByPath(e, path(b))); CHK(near(c, want, scale), "large:path", what, ": amplitude by path ", c, " want ", want, " n=", n); }
        bool low = true; std::size_t idx = 0; for (int k = 0; k < n; k++) if (b[static_cast<std::size_t>(k)]) { if (k < 64) idx |= std::size_t{1} << k; else low = false; }
        if (low && scale > 1e-10) { const C c = val(p.getValueByPath(e, idx)); CHK(near(c, want, scale), "large:index", what, ": amplitude by index ", c, " want ", want, " n=", n); count("by_index"); }
        count("amplitudes");
    }
    VH_GLUE void entry(const dd::mEdge& e, const Bits& i, const Bits& j, C want, const char* what) {
        CHK(e.p->v == n - 1, "large:level", what, ": top level"); const C a = walkM(e, i, j); CHK(near(a, want, 1), "large:matrix", what, ": entry ", a, " want ", want, " n=", n); std::string s; for (int k = 0; k < n; k++) s += static_cast<char>('0' + 2 * i[static_cast<std::size_t>(k)] + j[static_cast<std::size_t>(k)]); const C c = val(p.getValueByPath(e, s)); CHK(near(c, want, 1), "large:matrix-path", what, ": entry by path ", c, " want ", want);
        bool low = true; std::size_t ii = 0, jj = 0; for (int k = 0; k < n; k++) { if (k < 64) { ii |= static_cast<std::size_t>(i[static_cast<std::size_t>(k)]) << k; jj |= static_cast<std::size_t>(j[static_cast<std::size_t>(k)]) << k; } else if (i[static_cast<std::size_t>(k)] || j[static_cast<std::size_t>(k)]) low = false; } if (low) { const C d = val(p.getValueByPath(e, ii, jj)); CHK(near(d, want, 1), "large:matrix-index", what, ": entry by indices ", d, " want ", want); } count("entries");
    }
    VH_GLUE dd::vEdge apply(const dd::mEdge& op, dd::vEdge e) { auto r = p.multiply(op, e); p.incRef(r); p.decRef(e); if (g.chance(0.05)) { p.garbageCollect(g.chance(0.5)); count("gc"); } return r; }
    dd::mEdge gate(const dd::GateMatrix& m, int t, const std::vector<Ctl>& c = {}) { return p.makeGateDD(m, N(), toControls(c), q(t)); }
    template<class E> VH_GLUE void trips(const E& e) { // serialisation, transfer, copies
        using Node = typename NodeOf<E>::type; const bool bin = g.chance(0.5); std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); dd::serialize(e, ss, bin); auto f = p.template deserialize<Node>(ss, bin); CHK(f.p == e.p && std::abs(val(f.w) - val(e.w)) < 1e-9, "large:serial", "another diagram after saving and loading, n=", n);
        auto o = makePkg<Cfg>(static_cast<std::size_t>(n)); auto ec = e; auto t = o->transfer(ec); CHK(sameShape(t, e), "large:transfer", "another diagram after a transfer, n=", n); count("round_trips");
    }
    template<class E> void size(const E& e, std::size_t want, const char* what) { CHK(p.size(e) == want, "large:size", what, ": size ", p.size(e), " want ", want, " n=", n); count("sizes"); }
    VH_GLUE void finish(const char* what) { for (auto& e: live) p.decRef(e); for (auto& e: liveM) p.decRef(e); CHK(p.cn.cacheCount() == 0, "large:loan", what, ": temporary numbers lost"); p.garbageCollect(true); p.clearIdentityTable(); p.garbageCollect(true); CHK(p.vUniqueTable.getNodeCount() == 0 && p.mUniqueTable.getNodeCount() == 0, "large:reclaim", what, ": nodes left after release"); CHK(p.vUniqueTable.getActiveNodeCount() == 0 && p.mUniqueTable.getActiveNodeCount() == 0, "large:active", what, ": active nodes left"); rec().distinct(hh); }

    // ---- product states
    struct Prod { std::vector<int> lab; };
    static C one(int t, int b) { const double h = std::sqrt(0.5); switch (t) { case 0: return b ? 0 : 1; case 1: return b; case 2: return h; case 3: return b ? -h : h; case 4: return b ? C(0, h) : C(h); default: return b ? C(0, -h) : C(h); } }
    Prod prod() { Prod r; const double d = g.pick(std::vector<double>{0.0, 0.1, 1.0}); for (int k = 0; k < n; k++) { r.lab.push_back(g.chance(d) ? g.range(2, 5) : g.range(0, 1)); hh = mix(hh + static_cast<std::uint64_t>(r.lab.back())); } return r; }
    dd::vEdge make(const Prod& a) { std::vector<dd::BasisStates> l; for (int t: a.lab) l.push_back(static_cast<dd::BasisStates>(t)); auto e = p.makeBasisState(N(), l); p.incRef(e); live.push_back(e); return e; }
    VH_GLUE void products() {
        auto A = prod(), B = prod(); if (g.chance(0.5)) { B = A; for (int k = g.range(0, 3); k > 0; k--) B.lab[g.below(B.lab.size())] = g.range(0, 5); } auto a = make(A), b = make(B); size(a, static_cast<std::size_t>(n) + 1, "product state"); trips(a);
        double scale = 1; for (int t: A.lab) if (t > 1) scale *= std::sqrt(0.5);
        for (int k = 0; k < 6; k++) { Bits x = randBits(g, n); if (k < 4) for (int j = 0; j < n; j++) if (A.lab[static_cast<std::size_t>(j)] < 2 && g.chance(0.999)) x[static_cast<std::size_t>(j)] = A.lab[static_cast<std::size_t>(j)]; C w = 1; for (int j = 0; j < n; j++) w *= one(A.lab[static_cast<std::size_t>(j)], x[static_cast<std::size_t>(j)]); amplitude(a, x, w, scale, "product state"); }
        C in = 1; for (int j = 0; j < n; j++) { const int s = A.lab[static_cast<std::size_t>(j)], t = B.lab[static_cast<std::size_t>(j)]; in *= std::conj(one(s, 0)) * one(t, 0) + std::conj(one(s, 1)) * one(t, 1); }
        const C ip = val(p.innerProduct(a, b)); CHK(std::abs(ip - in) < 1e-9, "large:inner", "inner product ", ip, " want ", in, " n=", n); const double f = p.fidelity(a, b); CHK(std::abs(f - std::norm(in)) < 1e-9, "large:fidelity", "fidelity ", f, " want ", std::norm(in), " n=", n);
        for (int k = 0; k < 4; k++) { const int j = k == 0 ? n - 1 : k == 1 ? 0 : g.range(0, n - 1); const int t = A.lab[static_cast<std::size_t>(j)]; const double w = t == 0 ? 1 : t == 1 ? 0 : 0.5; auto [p0, p1] = p.determineMeasurementProbabilities(a, q(j), g.chance(0.5)); CHK(std::abs(p0 - w) < 1e-9 && std::abs(p1 - 1 + w) < 1e-9, "large:probabilities", "qubit ", j, ": ", p0, " ", p1, " want ", w, " n=", n); }
        { const int lo = g.range(1, n - 1); std::vector<dd::BasisStates> l, h; for (int k = 0; k < n; k++) (k < lo ? l : h).push_back(static_cast<dd::BasisStates>(A.lab[static_cast<std::size_t>(k)])); auto x = p.makeBasisState(static_cast<dd::QubitCount>(lo), l); auto y = p.makeBasisState(static_cast<dd::QubitCount>(n - lo), h); auto z = p.kronecker(y, x); CHK(z.p == a.p && std::abs(val(z.w) - val(a.w)) < 1e-9, "large:kronecker", "product of ", n - lo, " and ", lo, " qubits"); }
        { auto pl = prod(); for (auto& t: pl.lab) t = 0; auto z = p.makeZeroState(N()); p.incRef(z); for (int k = 0; k < n; k++) { const int t = A.lab[static_cast<std::size_t>(k)]; if (t == 1 || t == 3) z = apply(gate(dd::Xmat, k), z); if (t >= 2) z = apply(gate(dd::Hmat, k), z); if (t == 4) z = apply(gate(dd::Smat, k), z); if (t == 5) z = apply(gate(dd::Sdagmat, k), z); } live.push_back(z); CHK(z.p == a.p && std::abs(val(z.w) - val(a.w)) < 1e-9, "large:circuit", "product state prepared by gates, n=", n); }
        measureProduct(A, a); finish("products"); count("products");
    }
    VH_GLUE void measureProduct(const Prod& A, dd::vEdge a) {
        int ones = 0, free = 0; for (int s = 0; s < 12; s++) { auto c = a; const auto r = p.measureAll(c, false, mt); CHK(r.size() == static_cast<std::size_t>(n) && c == a, "large:measure", "outcome '", r, "'"); for (int k = 0; k < n; k++) { const int bit = r[static_cast<std::size_t>(n - 1 - k)] - '0', t = A.lab[static_cast<std::size_t>(k)]; if (t < 2) CHK(bit == t, "large:measure", "qubit ", k, " of ", n, " measured ", bit, " want ", t); else { free++; ones += bit; } } }
        if (free > 0) CHK(std::abs(ones - free / 2.0) < 4 * std::sqrt(free) + 6, "large:frequencies", ones, " ones of ", free);
        p.incRef(a); auto c = a; const auto r = p.measureAll(c, true, mt); Bits b; for (int k = 0; k < n; k++) b.push_back(r[static_cast<std::size_t>(n - 1 - k)] - '0'); CHK(c == p.makeBasisState(N(), bools(b)), "large:collapse", "not the measured basis state, n=", n); p.decRef(c); count("measurements");
    }
    // ---- GHZ states
    VH_GLUE void ghz() {
        auto e = p.makeZeroState(N()); p.incRef(e); const int root = g.range(0, n - 1); e = apply(gate(dd::Hmat, root), e); const bool chain = g.chance(0.5); int prev = root; auto order = g.perm(n); for (int k: order) if (k != root) { e = apply(gate(dd::Xmat, k, {{chain ? prev : root, true}}), e); prev = k; hh = mix(hh + static_cast<std::uint64_t>(k)); }
        const Bits z(static_cast<std::size_t>(n), 0), o(static_cast<std::size_t>(n), 1); amplitude(e, z, std::sqrt(0.5), 1, "GHZ"); amplitude(e, o, std::sqrt(0.5), 1, "GHZ"); for (int k = 0; k < 3; k++) { auto b = g.chance(0.5) ? z : o; b[g.below(b.size())] ^= 1; amplitude(e, b, 0, 1, "GHZ"); } size(e, 2 * static_cast<std::size_t>(n), "GHZ"); trips(e);
        auto zs = p.makeZeroState(N()); p.incRef(zs); CHK(std::abs(val(p.innerProduct(e, zs)) - std::sqrt(0.5)) < 1e-9, "large:inner", "GHZ with zero"); CHK(std::abs(p.fidelity(e, e) - 1) < 1e-9, "large:fidelity", "GHZ with itself"); dd::ProbabilityVector pv; pv[0] = 0.5; if (n <= 64) pv[n == 64 ? ~std::size_t{0} : (std::size_t{1} << n) - 1] = 0.5; const double of = p.fidelityOfMeasurementOutcomes(e, pv); CHK(std::abs(of - (n <= 64 ? 1 : 0.5)) < 1e-9, "large:outcome-fidelity", "outcome fidelity ", of, " n=", n);
        for (int k = 0; k < 3; k++) { auto [p0, p1] = p.determineMeasurementProbabilities(e, q(g.range(0, n - 1)), g.chance(0.5)); CHK(std::abs(p0 - 0.5) < 1e-9 && std::abs(p1 - 0.5) < 1e-9, "large:probabilities", "GHZ ", p0, " ", p1); }
        for (int k = 0; k < 4; k++) { const auto r = p.measureAll(e, false, mt); CHK(r == std::string(static_cast<std::size_t>(n), r[0]), "large:measure", "GHZ outcome ", r); }
        { auto c = e; p.incRef(c); const int t = g.range(0, n - 1); const char m = p.measureOneCollapsing(c, q(t), g.chance(0.5), mt); const auto want = p.makeBasisState(N(), std::vector<bool>(static_cast<std::size_t>(n), m == '1')); CHK(c.p == want.p && std::abs(std::abs(val(c.w)) - 1) < 1e-9, "large:collapse", "GHZ collapsed at qubit ", t, " to ", m); p.decRef(c); count("measurements"); }
        // undo
        prev = -1; std::vector<std::pair<int, int>> cx; { int pr = root; for (int k: order) if (k != root) { cx.emplace_back(chain ? pr : root, k); pr = k; } } for (std::size_t k = cx.size(); k-- > 0;) e = apply(gate(dd::Xmat, cx[k].second, {{cx[k].first, true}}), e); e = apply(gate(dd::Hmat, root), e); CHK(e.p == zs.p && std::abs(val(e.w) - C(1)) < 1e-9, "large:inverse", "GHZ preparation undone, n=", n); live.push_back(e); live.push_back(zs); finish("GHZ"); count("ghz");
    }
    // ---- W states as sums of basis states
    VH_GLUE void wstate() {
        auto order = g.perm(n); dd::vEdge e = dd::vEdge::zero; std::vector<dd::vEdge> parts; for (int k: order) { std::vector<bool> b(static_cast<std::size_t>(n)); b[static_cast<std::size_t>(k)] = true; auto s = p.makeBasisState(N(), b); p.incRef(s); parts.push_back(s); }
        while (parts.size() > 1) { const bool tree = n % 2 == 0; auto x = parts.back(); parts.pop_back(); const std::size_t j = tree ? 0 : parts.size() - 1; auto y = parts[j]; auto z = p.add(x, y); p.incRef(z); p.decRef(x); p.decRef(y); if (tree) { parts.erase(parts.begin()); parts.insert(parts.begin() + static_cast<std::ptrdiff_t>(g.below(parts.size() + 1)), z); } else parts.back() = z; } e = parts[0];
        CHK(std::abs(std::abs(val(e.w)) - std::sqrt(double(n))) < 1e-8, "large:norm", "norm of the sum ", val(e.w)); auto u = e; u.w = p.cn.lookup(1. , 0.); p.incRef(u); p.decRef(e); e = u; const double a = 1 / std::sqrt(double(n)); 
        for (int k = 0; k < 6; k++) { Bits b(static_cast<std::size_t>(n), 0); for (int j = g.range(0, 2); j > 0; j--) b[g.below(b.size())] = 1; int s = 0; for (int x: b) s += x; amplitude(e, b, s == 1 ? a : 0, 1, "W"); } for (int k: {0, n - 1}) { Bits b(static_cast<std::size_t>(n), 0); b[static_cast<std::size_t>(k)] = 1; amplitude(e, b, a, 1, "W"); } size(e, 2 * static_cast<std::size_t>(n), "W"); trips(e);
        for (int k = 0; k < 3; k++) { const int t = g.range(0, n - 1); auto [p0, p1] = p.determineMeasurementProbabilities(e, q(t), g.chance(0.5)); CHK(std::abs(p1 - 1.0 / n) < 1e-9 && std::abs(p0 + p1 - 1) < 1e-9, "large:probabilities", "W ", p0, " ", p1); } std::set<std::string> seen; for (int k = 0; k < 10; k++) { const auto r = p.measureAll(e, false, mt); int s = 0; for (char c: r) s += c == '1'; CHK(s == 1, "large:measure", "W outcome ", r); seen.insert(r); } CHK(seen.size() > 1, "large:measure", "W always gives the same outcome");
        { auto c = e; p.incRef(c); const int t = g.range(0, n - 1); const char m = p.measureOneCollapsing(c, q(t), g.chance(0.5), mt); Bits b(static_cast<std::size_t>(n), 0); if (m == '1') { b[static_cast<std::size_t>(t)] = 1; amplitude(c, b, 1, 1, "collapsed W"); } else { amplitude(c, b, 0, 1, "collapsed W"); b[static_cast<std::size_t>((t + 1) % n)] = 1; amplitude(c, b, 1 / std::sqrt(n - 1.0), 1, "collapsed W"); } p.decRef(c); count("measurements"); }
        live.push_back(e); hh = mix(hh + fnv(str(order[0], order[1], order[2]))); finish("W"); count("w_states");
    }
    // ---- graph states of bounded width
    VH_GLUE void graph() {
        std::set<std::pair<int, int>> ed; const int w = g.range(1, 3); for (int k = g.range(n / 2, 2 * n); k > 0; k--) { const int a = g.range(0, n - 2), b = std::min(n - 1, a + g.range(1, w)); ed.insert({a, b}); hh = mix(hh + static_cast<std::uint64_t>(a * 131 + b)); } if (g.chance(0.5)) ed.insert({0, n - 1}); std::vector<std::pair<int, int>> es(ed.begin(), ed.end());
        auto build = [&]() { auto e = p.makeZeroState(N()); p.incRef(e); for (int k = 0; k < n; k++) e = apply(gate(dd::Hmat, k), e); for (std::size_t k = es.size(); k > 1; k--) std::swap(es[k - 1], es[g.below(k)]); for (auto& x: es) { const bool sw = g.chance(0.5); e = apply(gate(dd::Zmat, sw ? x.first : x.second, {{sw ? x.second : x.first, true}}), e); } return e; };
        auto e = build(); const double a = std::pow(0.5, n / 2.0); for (int k = 0; k < 8; k++) { Bits b = randBits(g, n); int s = 0; for (auto& x: es) s += b[static_cast<std::size_t>(x.first)] & b[static_cast<std::size_t>(x.second)]; amplitude(e, b, (s % 2) ? -a : a, a, "graph state"); }
        auto f = build(); CHK(f.p == e.p && std::abs(val(f.w) - val(e.w)) < 1e-9, "large:canonical", "the same graph state in another order is another diagram, n=", n); CHK(std::abs(p.fidelity(e, f) - 1) < 1e-8, "large:fidelity", "graph state with itself");
        { // stabilisers: X on a vertex and Z on its neighbours
            const int v = g.range(0, n - 1); auto s = e; p.incRef(s); s = apply(gate(dd::Xmat, v), s); for (auto& x: es) if (x.first == v || x.second == v) s = apply(gate(dd::Zmat, x.first == v ? x.second : x.first), s); CHK(s.p == e.p && std::abs(val(s.w) - val(e.w)) < 1e-9, "large:stabiliser", "vertex ", v, " n=", n); p.decRef(s); auto z = p.multiply(gate(dd::Zmat, v), e); CHK(std::abs(val(p.innerProduct(e, z))) < 1e-9, "large:stabiliser", "Z on vertex ", v, " is not orthogonal"); }
        { auto [p0, p1] = p.determineMeasurementProbabilities(e, q(g.range(0, n - 1)), g.chance(0.5)); CHK(std::abs(p0 - 0.5) < 1e-9 && std::abs(p1 - 0.5) < 1e-9, "large:probabilities", "graph state ", p0, " ", p1); } trips(e);
        for (std::size_t k = es.size(); k-- > 0;) f = apply(gate(dd::Zmat, es[k].first, {{es[k].second, true}}), f); for (int k = n - 1; k >= 0; k--) f = apply(gate(dd::Hmat, k), f); auto z = p.makeZeroState(N()); CHK(f.p == z.p && std::abs(val(f.w) - C(1)) < 1e-8, "large:inverse", "graph state undone, n=", n); live.push_back(e); live.push_back(f); finish("graph"); count("graphs");
    }
    // ---- small circuits on qubits spread over a large register
    VH_GLUE void blocks() {
        const int k = g.range(2, 5); std::set<int> ps; while (static_cast<int>(ps.size()) < k) ps.insert(g.chance(0.3) ? g.pick(std::vector<int>{0, n - 1, n - 2, std::min(n - 1, 63), std::min(n - 1, 64), std::min(n - 1, 62)}) : g.range(0, n - 1)); std::vector<int> pos(ps.begin(), ps.end()); Vec d(std::size_t{1} << k); Mat U = Mat::id(d.size());
        Bits base = randBits(g, n); std::size_t i0 = 0; for (int j = 0; j < k; j++) i0 |= static_cast<std::size_t>(base[static_cast<std::size_t>(pos[static_cast<std::size_t>(j)])]) << j; d[i0] = 1; auto e = p.makeBasisState(N(), bools(base)); p.incRef(e); const bool nice = g.chance(0.5), mat = g.chance(0.5); auto m = p.makeIdent(N()); p.incRef(m); std::vector<dd::mEdge> used;
        for (int s = g.range(3, 12); s > 0; s--) {
            dd::mEdge op; Mat G; if (g.chance(0.6)) { const int t = g.range(0, k - 1); auto u = nice ? cliffordT(g) : unitary1(g); auto c = randCtl(g, k, {t}); auto cp = c; for (auto& x: cp) x.q = pos[static_cast<std::size_t>(x.q)]; op = gate(u.mat, pos[static_cast<std::size_t>(t)], cp); G = embed(u.dense, k, {t}, c); note(u.name); hh = mix(hh + fnv(str(u.name, t))); }
            else { const int a = g.range(0, k - 1); int b = g.range(0, k - 2); if (b >= a) b++; auto c = g.chance(0.6) ? std::vector<Ctl>{} : randCtl(g, k, {a, b}); auto cp = c; for (auto& x: cp) x.q = pos[static_cast<std::size_t>(x.q)]; auto r = gate2(p, g, n, pos[static_cast<std::size_t>(a)], pos[static_cast<std::size_t>(b)], cp, 0, nice ? g.range(0, 5) : -1); while (r.name.rfind("M4", 0) == 0) r = gate2(p, g, n, pos[static_cast<std::size_t>(a)], pos[static_cast<std::size_t>(b)], cp, 0, -1); op = r.e; G = embed(r.dense, k, {a, b}, c); note(r.name); hh = mix(hh + fnv(str(r.name, a, b))); }
            if (mat) { p.incRef(op); used.push_back(op); } e = apply(op, e); d = G * d; if (mat) { auto r = p.multiply(op, m); p.incRef(r); p.decRef(m); m = r; U = G * U; }
        }
        auto bits = [&](std::size_t i) { auto b = base; for (int j = 0; j < k; j++) b[static_cast<std::size_t>(pos[static_cast<std::size_t>(j)])] = static_cast<int>((i >> j) & 1U); return b; };
        for (std::size_t i = 0; i < d.size(); i++) amplitude(e, bits(i), d[i], 1, "block"); { auto b = bits(g.below(d.size())); int j = g.range(0, n - 1); while (ps.count(j)) j = (j + 1) % n; b[static_cast<std::size_t>(j)] ^= 1; amplitude(e, b, 0, 1, "block"); }
        { const double nm = norm2(d); if (std::abs(nm - 1) < 1e-9) { const int j = g.range(0, k - 1); double w = 0; for (std::size_t i = 0; i < d.size(); i++) if ((i >> j) & 1U) w += std::norm(d[i]); auto [p0, p1] = p.determineMeasurementProbabilities(e, q(pos[static_cast<std::size_t>(j)]), g.chance(0.5)); CHK(std::abs(p1 - w) < 1e-9 && std::abs(p0 + w - 1) < 1e-9, "large:probabilities", "block ", p0, " ", p1, " want ", w); } }
        if (mat) {
            for (int s = 0; s < 10; s++) { const std::size_t i = g.below(d.size()), j = g.below(d.size()); auto x = randBits(g, n); auto y = x; for (int t = 0; t < k; t++) { x[static_cast<std::size_t>(pos[static_cast<std::size_t>(t)])] = static_cast<int>((i >> t) & 1U); y[static_cast<std::size_t>(pos[static_cast<std::size_t>(t)])] = static_cast<int>((j >> t) & 1U); } entry(m, x, y, U(i, j), "block"); auto z = y; int o = g.range(0, n - 1); while (ps.count(o)) o = (o + 1) % n; z[static_cast<std::size_t>(o)] ^= 1; entry(m, x, z, 0, "block"); entry(p.transpose(m), y, x, U(i, j), "transposed block"); entry(p.conjugateTranspose(m), y, x, std::conj(U(i, j)), "adjoint block"); }
            auto I = p.makeIdent(N()); auto r = m; p.incRef(r); for (std::size_t t = used.size(); t-- > 0;) { auto x = p.multiply(p.conjugateTranspose(used[t]), r); p.incRef(x); p.decRef(r); r = x; } bool unitary = true; { auto W = U * dagger(U); unitary = diff(W, Mat::id(W.d)) < 1e-9; } if (unitary) { const Bits x = randBits(g, n); entry(r, x, x, 1, "block undone"); if (nice) CHK(r.p == I.p && std::abs(val(r.w) - C(1)) < 1e-9, "large:inverse", "a circuit and its inverse are not the identity, n=", n); CHK(p.isCloseToIdentity(r, 1e-8), "large:inverse", "a circuit and its inverse are not close to the identity, n=", n); count("inverses"); }
            p.decRef(r); auto v = p.multiply(m, p.makeBasisState(N(), bools(base))); const C ip = val(p.innerProduct(v, e)); CHK(std::abs(ip - C(norm2(d))) < 1e-8, "large:circuit", "matrix and state evolution differ: ", ip); trips(m); for (auto& x: used) p.decRef(x); count("matrix_blocks");
        }
        p.decRef(m); trips(e); live.push_back(e); finish("blocks"); count("blocks");
    }
    // ---- gates with many controls
    VH_GLUE void controls() {
        const int t = g.chance(0.3) ? g.pick(std::vector<int>{0, n - 1}) : g.range(0, n - 1); std::vector<Ctl> c; const double dens = g.pick(std::vector<double>{0.1, 0.5, 1.0}); for (int k = 0; k < n; k++) if (k != t && g.chance(dens)) c.push_back({k, g.chance(0.7)}); auto G = unitary1(g); auto op = gate(G.mat, t, c); p.incRef(op); liveM.push_back(op); hh = mix(hh + fnv(str(G.name, t, c.size()))); note(str(G.name, " controls=", c.size()));
        for (int s = 0; s < 6; s++) { Bits x = randBits(g, n); if (s < 4) for (auto& k: c) x[static_cast<std::size_t>(k.q)] = k.pos; if (s == 3 && !c.empty()) x[static_cast<std::size_t>(c[g.below(c.size())].q)] ^= 1; bool on = true; for (auto& k: c) on = on && x[static_cast<std::size_t>(k.q)] == static_cast<int>(k.pos); auto y = x; y[static_cast<std::size_t>(t)] ^= 1; const auto a = static_cast<std::size_t>(x[static_cast<std::size_t>(t)]); entry(op, x, x, on ? G.dense(a, a) : C(1), "controlled gate"); entry(op, y, x, on ? G.dense(1 - a, a) : C(0), "controlled gate"); auto e = p.multiply(op, p.makeBasisState(N(), bools(x))); amplitude(e, x, on ? G.dense(a, a) : C(1), 1, "controlled gate"); amplitude(e, y, on ? G.dense(1 - a, a) : C(0), 1, "controlled gate"); }
        { auto u = p.multiply(p.conjugateTranspose(op), op); CHK(u.p == p.makeIdent(N()).p || p.isCloseToIdentity(u, 1e-8), "large:inverse", "controlled gate and its adjoint"); } trips(op);
        { // extension by identities
            const int low = g.range(0, n - 1), m = n - low; if (low > 0 && m > 1) { auto u = unitary1(g); const int tt = g.range(0, m - 1); auto s = p.makeGateDD(u.mat, static_cast<dd::QubitCount>(m), q(tt)); auto x = p.extend(s, 0, q(low)); auto w = gate(u.mat, tt + low); CHK(x.p == w.p && std::abs(val(x.w) - val(w.w)) < 1e-9, "large:extend", "gate extended by ", low, " qubits below"); auto y = p.extend(s, q(low)); w = gate(u.mat, tt); CHK(y.p == w.p && std::abs(val(y.w) - val(w.w)) < 1e-9, "large:extend", "gate extended by ", low, " qubits above"); } }
        { // registers that do not start at qubit 0
            const int st = g.range(1, n - 2), m = n - st; auto u = unitary1(g); const int tt = st + g.range(0, m - 1); auto s = p.makeZeroState(static_cast<dd::QubitCount>(m), static_cast<std::size_t>(st)); CHK(s.p->v == n - 1, "large:offset", "state with offset"); auto o = p.makeGateDD(u.mat, static_cast<dd::QubitCount>(m), q(tt), static_cast<std::size_t>(st)); auto r = p.multiply(o, s); const C v0 = val(r.w); (void)v0; auto f = r.p; C a0 = v0, a1 = v0; bool ok = true; int lv = n - 1; while (f && f->v > tt) { a0 *= val(f->e[0].w); a1 *= val(f->e[0].w); ok = ok && f->e[1] == dd::vEdge::zero && f->v == lv--; f = f->e[0].p; } CHK(ok && f->v == tt, "large:offset", "levels"); a0 *= val(f->e[0].w); a1 *= val(f->e[1].w); CHK(near(a0, u.dense(0, 0), 1) && near(a1, u.dense(1, 0), 1), "large:offset", u.name, " on qubit ", tt, " of a register from ", st, ": ", a0, " ", a1); count("offsets"); }
        finish("controls"); count("controls");
    }
    // ---- products of 2x2 factors
    using F2 = std::array<C, 4>; using Fs = std::vector<F2>;
    VH_GLUE dd::mEdge build(const Fs& f, int lo = 0, int hi = -1, int shift = 0) {
        if (hi < 0) hi = static_cast<int>(f.size()); dd::mEdge e = dd::mEdge::one; for (int k = lo; k < hi; k++) { std::array<dd::mEdge, 4> s{}; for (std::size_t i = 0; i < 4; i++) { const C w = f[static_cast<std::size_t>(k)][i] * val(e.w); s[i] = std::abs(w) == 0 || e.w == dd::Complex::zero ? dd::mEdge::zero : dd::mEdge{e.p, p.cn.lookup(w.real(), w.imag())}; } e = p.makeDDNode(q(k - shift), s); }
        return e;
    }
    static C ph(Rng& g) { return g.chance(0.5) ? C(1) : std::polar(1.0, g.uni(-3.1, 3.1)); }
    F2 factor(int kind) { // 0 one entry, 1 diagonal, 2 antidiagonal, 3 general, 4 identity, 5 Hermitian
        F2 r{}; switch (kind) { case 0: r[g.below(4)] = ph(g); break; case 1: r[0] = ph(g); r[3] = ph(g); break; case 2: r[1] = ph(g); r[2] = ph(g); break; case 3: for (auto& x: r) x = g.chance(0.2) ? C(0) : std::polar(g.uni(0.3, 1), g.uni(-3.1, 3.1)); r[g.below(4)] = ph(g); break; case 4: r[0] = r[3] = 1; break; default: switch (g.range(0, 5)) { case 0: r[1] = r[2] = 1; break; case 1: r[1] = C(0, -1); r[2] = C(0, 1); break; case 2: r[0] = 1; r[3] = -1; break; case 3: r[0] = 1; break; case 4: r[3] = 1; break; default: r[0] = 1; r[3] = g.uni(-1, 1); r[1] = std::polar(g.uni(0.1, 1), g.uni(-3, 3)); r[2] = std::conj(r[1]); } }
        for (auto& x: r) hh = mix(hh ^ fnv(str(x))); return r;
    }
    Fs factors(int special, std::vector<int> common) { Fs f; for (int k = 0; k < n; k++) f.push_back(factor(g.pick(common))); for (int k = 0; k < special; k++) f[g.chance(0.3) ? static_cast<std::size_t>(n - 1 - k) : g.below(f.size())] = factor(g.range(1, 3)); return f; }
    VH_GLUE void matches(const dd::mEdge& e, const Fs& f, const char* what, double scale = 1) {
        for (auto& x: f) if (std::abs(x[0]) + std::abs(x[1]) + std::abs(x[2]) + std::abs(x[3]) == 0) { CHK(e == dd::mEdge::zero, "factors:zero", what, " of a zero factor, n=", n); return; }
        CHK(!e.isTerminal() && e.p->v == static_cast<int>(f.size()) - 1, "factors:level", what, ": top level ", int(e.p->v), " of ", f.size());
        for (int t = 0; t < 5; t++) { Bits i, j; C w = 1; for (std::size_t k = 0; k < f.size(); k++) { std::size_t x = g.below(4); while (std::abs(f[k][x]) == 0) x = g.below(4); i.push_back(static_cast<int>(x >> 1)); j.push_back(static_cast<int>(x & 1)); w *= f[k][x]; }
            if (t == 4) { const std::size_t k = g.below(f.size()); i[k] ^= g.range(0, 1); j[k] ^= 1; w = 1; for (std::size_t m = 0; m < f.size(); m++) w *= f[m][static_cast<std::size_t>(2 * i[m] + j[m])]; }
            const C a = walkM(e, i, j); CHK(near(a, w, scale), "factors:value", what, ": entry ", a, " want ", w, " n=", n); count("factor_entries"); }
    }
    // parts: 1 transposes, sums and products, 2 Kronecker products, 4 observables, 8 traces, 16 cuts, ancillary and garbage qubits
    VH_GLUE void factorOps(int parts = 31) {
        auto f = factors(g.range(0, 6), g.pick(std::vector<std::vector<int>>{{0}, {1}, {4}, {1, 2}, {0, 1, 2, 4}, {2, 4}})); auto e = build(f); p.incRef(e); matches(e, f, "product"); const auto before = p.cn.cacheCount(); auto N_ = static_cast<std::size_t>(n);
        if (parts & 1) { Fs t = f; for (auto& x: t) std::swap(x[1], x[2]); matches(p.transpose(e), t, "transpose"); for (auto& x: t) for (auto& y: x) y = std::conj(y); matches(p.conjugateTranspose(e), t, "conjugate transpose"); }
        if (parts & 16) for (int r = 0; r < 3; r++) { const std::size_t k = g.chance(0.4) ? g.pick(std::vector<std::size_t>{N_ - 1, std::min(N_ - 1, std::size_t{63}), std::min(N_ - 1, std::size_t{64}), 0}) : g.below(N_), x = g.below(4); Fs t = f; t[k][x] = 0; note(str("cut ", k, " ", x)); matches(p.deleteEdge(e, q(static_cast<int>(k)), x), t, "cut branch"); }
        if (parts & 16) { const bool reg = g.chance(0.5); std::vector<bool> anc(N_); for (int r = g.range(1, 4); r > 0; r--) anc[g.chance(0.4) ? N_ - 1 - g.below(std::min<std::size_t>(N_, 66)) : g.below(N_)] = true; Fs t = f; for (std::size_t k = 0; k < N_; k++) if (anc[k]) { t[k][3] = 0; t[k][reg ? 1 : 2] = 0; } p.incRef(e); auto r = p.reduceAncillae(e, anc, reg); matches(r, t, "reduced ancillaries"); p.decRef(r); }
        if (parts & 1) { // weights of the paths above the changed factor differ, and sums are only shared for the same weights
            std::size_t low = N_ - 1; double above = 0; for (; low > 0; low--) { int c = 0; for (auto& y: f[low]) c += std::abs(y) > 0; above += std::log2(c); if (above > 6) break; } const std::size_t k = low + g.below(N_ - low); Fs b = f, s = f; b[k] = factor(3); for (std::size_t i = 0; i < 4; i++) s[k][i] = f[k][i] + b[k][i]; auto y = build(b); auto z = p.add(e, y); bool zero = true, tiny = false; for (auto& x: s[k]) { zero = zero && std::abs(x) < 1e-12; tiny = tiny || (std::abs(x) > 0 && std::abs(x) < 1e-6); } if (!zero && !tiny) matches(z, s, "sum"); }
        if (parts & 1) { Fs b = factors(0, {1, 2, 4}), t = f; for (std::size_t k = 0; k < N_; k++) for (std::size_t i = 0; i < 2; i++) for (std::size_t j = 0; j < 2; j++) t[k][2 * i + j] = f[k][2 * i] * b[k][j] + f[k][2 * i + 1] * b[k][2 + j]; matches(p.multiply(e, build(b)), t, "product of matrices"); }
        if (parts & 2) { const int lo = g.range(1, n - 1); auto x = build(f, 0, lo), y = build(f, lo, n, lo); matches(p.kronecker(y, x), f, "Kronecker product"); }
        double paths = 0; for (auto& x: f) { int c = 0; for (auto& y: x) c += std::abs(y) > 0; paths += std::log2(c); } // the check walks every path
        if (paths < 12) CHK(p.isLocallyConsistent(e), "factors:consistent", "an intact referenced matrix is reported as damaged, n=", n); trips(e);
        if (parts & 8) { // traces: at most a few factors with several entries, the operation does not share work
            Fs t = factors(0, {0}); for (int r = g.range(0, 4); r > 0; r--) t[g.below(N_)] = factor(g.range(1, 3)); std::vector<bool> el(N_); const double d = g.pick(std::vector<double>{0.0, 0.1, 0.5, 0.9, 1.0}); for (auto&& x: el) x = g.chance(d); if (g.chance(0.8)) for (std::size_t k = 0; k < N_; k++) if (el[k] && std::abs(t[k][0] + t[k][3]) < 0.1) { t[k] = F2{}; t[k][g.chance(0.5) ? 0 : 3] = ph(g); }
            Fs rest; C w = 1; for (std::size_t k = 0; k < N_; k++) { if (el[k]) w *= t[k][0] + t[k][3]; else rest.push_back(t[k]); } if (std::abs(w) > 1e-6 || w == C(0)) { auto x = build(t); auto y = p.partialTrace(x, el); if (rest.empty()) { CHK(y.isTerminal() && near(val(y.w), w, std::max(1.0, std::abs(w))), "factors:trace", "trace ", val(y.w), " want ", w, " n=", n); const auto tr = p.trace(x); CHK(near(C(tr.r, tr.i), w, std::max(1.0, std::abs(w))), "factors:trace", "trace ", tr.r, " ", tr.i, " want ", w, " n=", n); count("large_traces"); } else if (std::abs(w) == 0) CHK(y == dd::mEdge::zero, "factors:trace", "partial trace of a traceless factor, n=", n); else { for (auto& z: rest[0]) z *= w; matches(y, rest, "partial trace", std::max(1.0, std::abs(w))); count("large_partial_traces"); } }
        }
        if (parts & 4) { // observables
            Fs o; for (int k = 0; k < n; k++) o.push_back(factor(g.chance(0.5) ? 4 : 5)); auto A = prod(); auto a = make(A); C w = 1; for (int k = 0; k < n; k++) { const int t = A.lab[static_cast<std::size_t>(k)]; C x = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) x += std::conj(one(t, i)) * o[static_cast<std::size_t>(k)][static_cast<std::size_t>(2 * i + j)] * one(t, j); if (std::abs(x) < 0.05) { o[static_cast<std::size_t>(k)] = F2{C(1), C(0), C(0), C(1)}; x = 1; } w *= x; }
            const double v = p.expectationValue(build(o), a); CHK(std::abs(v - w.real()) < 1e-8, "factors:expectation", "expectation value ", v, " want ", w.real(), " n=", n); count("expectations"); if (parts & 16) { const std::size_t k = g.below(N_), b = g.below(2); auto c = p.deleteEdge(a, q(static_cast<int>(k)), b); Bits x = randBits(g, n); double scale = 1; for (int j = 0; j < n; j++) { const int t = A.lab[static_cast<std::size_t>(j)]; if (t > 1) scale *= std::sqrt(0.5); else x[static_cast<std::size_t>(j)] = t; } const bool hit = A.lab[k] > 1; if (hit) { for (int bit = 0; bit < 2; bit++) { x[k] = bit; C u = 1; for (int j = 0; j < n; j++) u *= one(A.lab[static_cast<std::size_t>(j)], x[static_cast<std::size_t>(j)]); amplitude(c, x, bit == static_cast<int>(b) ? C(0) : u, scale, "cut state"); } } else if (A.lab[k] == static_cast<int>(b)) CHK(c == dd::vEdge::zero, "factors:cut", "the only branch was cut, n=", n); else CHK(c == a, "factors:cut", "nothing was cut, n=", n); }
        }
        if (parts & 16) { // garbage
            std::vector<bool> gar(N_); for (int r = g.range(1, 4); r > 0; r--) gar[g.chance(0.4) ? N_ - 1 - g.below(std::min<std::size_t>(N_, 66)) : g.below(N_)] = true; Bits b = randBits(g, n); auto s = p.makeBasisState(N(), bools(b)); p.incRef(s); s = p.reduceGarbage(s, gar); for (std::size_t k = 0; k < N_; k++) if (gar[k]) b[k] = 0; CHK(s == p.makeBasisState(N(), bools(b)), "factors:garbage", "not the merged basis state, n=", n); p.decRef(s);
            Fs t; for (int k = 0; k < n; k++) { F2 x{}; if (g.chance(0.5)) x[0] = x[3] = 1; else x[1] = x[2] = 1; t.push_back(x); } auto m = build(t); p.incRef(m); const bool reg = g.chance(0.5); m = p.reduceGarbage(m, gar, reg); for (std::size_t k = 0; k < N_; k++) if (gar[k]) { const F2 x = t[k]; t[k] = reg ? F2{x[0] + x[2], x[1] + x[3], C(0), C(0)} : F2{x[0] + x[1], C(0), x[2] + x[3], C(0)}; } matches(m, t, "merged permutation"); p.decRef(m); count("large_garbage");
        }
        CHK(p.cn.cacheCount() == before, "large:loan", "temporary numbers lost"); p.decRef(e); finish("factors"); count("factors");
    }
    // ---- one amplitude of a long permutation circuit
    VH_GLUE void permutations() {
        Bits x = randBits(g, n); auto e = p.makeBasisState(N(), bools(x)); p.incRef(e); for (int s = g.range(10, 60); s > 0; s--) { const int t = g.range(0, n - 1); std::vector<Ctl> c; for (int k = g.range(0, 3); k > 0; k--) { const int y = g.range(0, n - 1); bool dup = y == t; for (auto& z: c) dup = dup || z.q == y; if (!dup) c.push_back({y, g.chance(0.6)}); } if (g.chance(0.3)) { int b = g.range(0, n - 1); bool dup = b == t; for (auto& z: c) dup = dup || z.q == b; if (dup) continue; auto op = p.makeSWAPDD(N(), toControls(c), q(t), q(b)); bool on = true; for (auto& z: c) on = on && x[static_cast<std::size_t>(z.q)] == static_cast<int>(z.pos); if (on) std::swap(x[static_cast<std::size_t>(t)], x[static_cast<std::size_t>(b)]); e = apply(op, e); } else { bool on = true; for (auto& z: c) on = on && x[static_cast<std::size_t>(z.q)] == static_cast<int>(z.pos); if (on) x[static_cast<std::size_t>(t)] ^= 1; e = apply(gate(dd::Xmat, t, c), e); } hh = mix(hh + static_cast<std::uint64_t>(t)); }
        CHK(e == p.makeBasisState(N(), bools(x)), "large:permutation", "not the expected basis state, n=", n); amplitude(e, x, 1, 1, "permutation"); auto r = p.measureAll(e, true, mt); for (int k = 0; k < n; k++) CHK(r[static_cast<std::size_t>(n - 1 - k)] - '0' == x[static_cast<std::size_t>(k)], "large:measure", "qubit ", k); live.push_back(e); finish("permutation"); count("permutations");
    }
    VH_GLUE void density() { if constexpr (!std::is_same_v<Cfg, Std>) {
        const int t = g.chance(0.4) ? n - 1 : g.range(0, n - 1), t2 = (t + g.range(1, n - 1)) % n; auto e = p.makeZeroDensityOperator(N()); p.incRef(e); const bool compact = g.chance(0.5); auto a = unitary1(g), b = unitary1(g); auto A = gate(a.mat, t); p.applyOperationToDensity(e, A, compact); auto B = gate(b.mat, t2, {{t, true}}); p.applyOperationToDensity(e, B, compact);
        auto U = embed(b.dense, 2, {1}, {{0, true}}) * embed(a.dense, 2, {0}); Mat r(4); for (std::size_t i = 0; i < 4; i++) for (std::size_t j = 0; j < 4; j++) r(i, j) = U(i, 0) * std::conj(U(j, 0)); // local qubit 0 is t
        for (std::size_t i = 0; i < 4; i++) { C w = 1; auto c = e; dd::dEdge::alignDensityEdge(c); w = val(c.w); auto* x = c.p; while (!dd::dNode::isTerminal(x)) { const int bit = x->v == t ? static_cast<int>(i & 1U) : x->v == t2 ? static_cast<int>(i >> 1) : 0; auto& f = x->e[bit ? 3 : 0]; w *= val(f.w); if (w == C(0)) break; auto* y = f.p; dd::dNode::alignDensityNode(y); x = y; } CHK(near(w, r(i, i), 1), "large:density", "diagonal entry ", i, ": ", w, " want ", r(i, i), " n=", n); }
        dd::dEdge::alignDensityEdge(e); p.decRef(e); hh = mix(hh + fnv(str(a.name, b.name, t, t2))); finish("density"); count("density"); } }
};
// a large case now and then, in one configuration only (build time)
template<class Cfg, class F> VH_GLUE bool sometimes(Rng& g, double prob, F f) {
    if constexpr (std::is_same_v<Cfg, Tiny>) { if (g.chance(prob)) { Reg<Big> r(g, Reg<Big>::pickN(g)); f(r); count("large"); return true; } }
    return false;
}
} // namespace vh::large
