// C08: equal functions are the same diagram
#include "world.hpp"
#include "large.hpp"
using namespace vh;
// well separated values: sums and products of Clifford+T matrices on few qubits stay far apart from each other
template<class Cfg> struct Canon {
    using P = dd::Package<Cfg>;
    std::unique_ptr<P> p, other; Rng& g; int n; std::string desc;
    struct V { dd::vEdge e; Vec d; std::string how; }; struct M { dd::mEdge e; Mat d; std::string how; };
    std::vector<V> vs; std::vector<M> ms;
    Canon(Rng& r, int nq): p(makePkg<Cfg>(static_cast<std::size_t>(nq) + r.below(2))), g(r), n(nq) {}
    dd::QubitCount N() const { return static_cast<dd::QubitCount>(n); }
    template<class E> void same(const E& a, const E& b, const char* key, const std::string& what) {
        rec().events["comparisons"]++;
        if (a.p != b.p) fail(std::string("canon:") + key, what + ": different nodes for equal functions (n=" + std::to_string(n) + ") " + desc);
        if (std::abs(val(a.w) - val(b.w)) > 1e-9) fail(std::string("canon-weight:") + key, str(what, ": root weights ", val(a.w), " and ", val(b.w)));
    }
    VH_GLUE void addV(const dd::vEdge& e, const Vec& d, const std::string& how) {
        EQV(evalV(e, n), d, "canon:function", how);
        dd::vEdge ref = p->makeStateFromVector(toCVec(d));
        same(e, ref, "vector", how + " against the state built from its amplitudes"); count("rebuilt");
        for (auto& x: vs) { const double df = diff(x.d, d); if (df < 1e-12) { same(e, x.e, "vector-routes", how + " against " + x.how); count("equal_pairs"); } else if (df > 1e-6) { CHK(!(e == x.e), "canon:distinct", "different states share node and weight: ", how, " / ", x.how); count("distinct_pairs"); } }
        p->incRef(e); vs.push_back({e, d, how});
    }
    VH_GLUE void addM(const dd::mEdge& e, const Mat& d, const std::string& how) {
        EQV(evalM(e, n), d, "canon:function", how);
        dd::mEdge ref = p->makeDDFromMatrix(toCMat(d));
        same(e, ref, "matrix", how + " against the matrix built from its entries"); count("rebuilt");
        for (auto& x: ms) { const double df = diff(x.d, d); if (df < 1e-12) { same(e, x.e, "matrix-routes", how + " against " + x.how); count("equal_pairs"); } else if (df > 1e-6) { CHK(!(e == x.e), "canon:distinct", "different matrices share node and weight: ", how, " / ", x.how); count("distinct_pairs"); } }
        p->incRef(e); ms.push_back({e, d, how});
    }
    M gate() {
        if (n == 1 || g.chance(0.65)) { int t = g.range(0, n - 1); auto G = cliffordT(g); auto c = randCtl(g, n, {t}, 0.25); return {p->makeGateDD(G.mat, N(), toControls(c), static_cast<dd::Qubit>(t)), embed(G.dense, n, {t}, c), G.name + std::to_string(t) + showCtl(c)}; }
        int a = g.range(0, n - 1), b = g.range(0, n - 2); if (b >= a) b++; auto c = g.chance(0.7) ? std::vector<Ctl>{} : randCtl(g, n, {a, b});
        auto r = gate2(*p, g, n, a, b, c, 0, g.range(0, 5)); return {r.e, embed(r.dense, n, {a, b}, c), r.name + std::to_string(a) + std::to_string(b) + showCtl(c)};
    }
    void gc() { if (g.chance(0.15)) { p->garbageCollect(true); count("gc"); desc += "gc "; } }
    VH_GLUE void circuit() { // a short Clifford+T circuit, by state evolution, by operator, reordered, inverted
        const int len = g.range(1, n <= 2 ? 14 : 10); std::vector<M> gs; for (int k = 0; k < len; k++) { gs.push_back(gate()); p->incRef(gs.back().e); desc += gs.back().how + " "; }
        note(desc);
        Vec d(std::size_t{1} << n); d[0] = 1; dd::vEdge v = p->makeZeroState(N()); dd::mEdge u = p->makeIdent(N()); Mat U = Mat::id(std::size_t{1} << n);
        dd::vEdge v0 = v; p->incRef(v0); p->incRef(u); p->incRef(v);
        for (auto& x: gs) {
            auto nv = p->multiply(x.e, v); p->incRef(nv); p->decRef(v); v = nv; d = x.d * d;
            auto nu = p->multiply(x.e, u); p->incRef(nu); p->decRef(u); u = nu; U = x.d * U; gc();
        }
        addV(v, d, "gate by gate"); addM(u, U, "operator"); addV(p->multiply(u, v0), d, "operator on the zero state");
        auto back = u; // and back again
        for (std::size_t k = gs.size(); k-- > 0;) { back = p->multiply(p->conjugateTranspose(gs[k].e), back); }
        same(back, p->makeIdent(N()), "inverse", "circuit followed by its inverse"); count("inverses");
        auto vb = v; for (std::size_t k = gs.size(); k-- > 0;) vb = p->multiply(p->conjugateTranspose(gs[k].e), vb);
        same(vb, p->makeZeroState(N()), "inverse", "state evolved back"); 
        same(p->multiply(p->conjugateTranspose(u), u), p->makeIdent(N()), "unitary", "U^dagger U"); same(p->multiply(u, p->conjugateTranspose(u)), p->makeIdent(N()), "unitary", "U U^dagger");
        addM(p->conjugateTranspose(u), dagger(U), "adjoint"); addM(p->transpose(u), transpose(U), "transpose"); same(p->transpose(p->transpose(u)), u, "involution", "transpose twice"); same(p->conjugateTranspose(p->conjugateTranspose(u)), u, "involution", "adjoint twice");
        // association: split the product at a random point, right part first
        const std::size_t cut = g.below(gs.size() + 1); dd::mEdge lo = p->makeIdent(N()), hi = p->makeIdent(N());
        for (std::size_t k = 0; k < cut; k++) lo = p->multiply(gs[k].e, lo);
        for (std::size_t k = gs.size(); k-- > cut;) hi = p->multiply(hi, gs[k].e);
        same(p->multiply(hi, lo), u, "association", "product with another association");
        // a different package and a round trip through text and binary
        std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); const bool bin = g.chance(0.5); dd::serialize(v, ss, bin); addV(p->template deserialize<dd::vNode>(ss, bin), d, "deserialised");
        std::stringstream sm(std::ios::in | std::ios::out | std::ios::binary); dd::serialize(u, sm, bin); addM(p->template deserialize<dd::mNode>(sm, bin), U, "deserialised");
        other = makePkg<Cfg>(static_cast<std::size_t>(n)); auto ov = other->transfer(v); auto om = other->transfer(u); addV(p->transfer(ov), d, "transferred back"); addM(p->transfer(om), U, "transferred back");
        { auto x = other->makeStateFromVector(toCVec(d)); same(ov, x, "transfer", "transferred state"); auto y = other->makeDDFromMatrix(toCMat(U)); same(om, y, "transfer", "transferred matrix"); }
        p->decRef(u); p->decRef(v); p->decRef(v0); for (auto& x: gs) p->decRef(x.e);
        count("circuits");
    }
    VH_GLUE void linear() { // sums, Kronecker products and cuts of vectors and matrices over few values
        static const std::vector<C> pal{{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {0.5, 0}, {2, 0}, {0, 0}, {0, 0}, {0.5, 0.5}};
        auto rv = [&](std::size_t D) { Vec v(D); for (auto& x: v) x = g.pick(pal); return v; };
        const std::size_t D = std::size_t{1} << n;
        Vec a = rv(D), b = rv(D); dd::vEdge ea = p->makeStateFromVector(toCVec(a)), eb = p->makeStateFromVector(toCVec(b)); p->incRef(ea); p->incRef(eb);
        addV(p->add(ea, eb), a + b, "sum"); addV(p->add(eb, ea), a + b, "reversed sum"); gc();
        { auto s = p->add(ea, eb); p->incRef(s); auto nb = eb; nb.w = p->cn.lookup(-val(eb.w)); if (nb.w == dd::Complex::zero) nb = dd::vEdge::zero; addV(p->add(s, nb), a, "sum and difference"); p->decRef(s); }
        { int q = g.range(0, n - 1); Vec lo = a, hi = a; for (std::size_t i = 0; i < D; i++) (((i >> q) & 1U) ? lo : hi)[i] = 0; auto el = p->deleteEdge(ea, static_cast<dd::Qubit>(q), 1), eh = p->deleteEdge(ea, static_cast<dd::Qubit>(q), 0); addV(el, lo, "lower part"); addV(eh, hi, "upper part"); addV(p->add(el, eh), a, "parts put together"); }
        if (n >= 2) { int k = g.range(1, n - 1); Vec x = rv(std::size_t{1} << k), y = rv(std::size_t{1} << (n - k)); addV(p->kronecker(p->makeStateFromVector(toCVec(x)), p->makeStateFromVector(toCVec(y))), kron(x, y), "Kronecker product"); }
        if (n <= 3) {
            Mat m(D), k(D); m.a = rv(D * D); k.a = rv(D * D); auto em = p->makeDDFromMatrix(toCMat(m)), ek = p->makeDDFromMatrix(toCMat(k)); p->incRef(em); p->incRef(ek);
            addM(p->add(em, ek), m + k, "matrix sum"); addM(p->add(ek, em), m + k, "reversed matrix sum"); addM(p->multiply(em, ek), m * k, "matrix product"); addV(p->multiply(em, ea), m * a, "matrix-vector product"); gc();
            addM(p->transpose(em), transpose(m), "transpose"); addM(p->conjugateTranspose(em), dagger(m), "adjoint");
            addM(p->add(p->multiply(em, ek), em), m * k + m, "product and sum"); addM(p->multiply(em, p->add(ek, p->makeIdent(N()))), m * k + m, "distributed product");
            addM(p->transpose(p->multiply(em, ek)), transpose(m * k), "transposed product"); addM(p->multiply(p->transpose(ek), p->transpose(em)), transpose(m * k), "product of transposes");
            if (n >= 2) { int s = g.range(1, n - 1); Mat x(std::size_t{1} << s), y(std::size_t{1} << (n - s)); x.a = rv(x.d * x.d); y.a = rv(y.d * y.d); addM(p->kronecker(p->makeDDFromMatrix(toCMat(x)), p->makeDDFromMatrix(toCMat(y))), kron(x, y), "matrix Kronecker product"); }
            p->decRef(em); p->decRef(ek);
        }
        p->decRef(ea); p->decRef(eb); desc += "linear " + show(a) + show(b); note(desc); count("linear");
    }
    VH_GLUE void generic() { // arbitrary angles: equality by different construction orders of a product, and identical requests
        const int q = g.range(0, n - 1); auto G = unitary1(g), H = unitary1(g); auto c = randCtl(g, n, {q}, 0.4); desc += "generic " + G.name + H.name + showCtl(c); note(desc);
        auto a = p->makeGateDD(G.mat, N(), toControls(c), static_cast<dd::Qubit>(q)); p->incRef(a); gc();
        auto b = p->makeGateDD(H.mat, N(), toControls(c), static_cast<dd::Qubit>(q)); (void)b; auto a2 = p->makeGateDD(G.mat, N(), toControls(c), static_cast<dd::Qubit>(q));
        same(a, a2, "gate", "the same gate requested again"); same(p->makeDDFromMatrix(toCMat(embed(G.dense, n, {q}, c))), a, "gate-matrix", "gate and its matrix");
        auto ad = p->conjugateTranspose(a); same(p->makeGateDD(gm(dagger(G.dense)), N(), toControls(c), static_cast<dd::Qubit>(q)), ad, "gate-adjoint", "adjoint of a gate"); same(p->multiply(ad, a), p->makeIdent(N()), "unitary", "G^dagger G");
        std::vector<dd::BasisStates> bs; dd::vEdge v = p->makeZeroState(N()); // product states by label and by gates
        for (int k = 0; k < n; k++) { int t = g.range(0, 5); bs.push_back(static_cast<dd::BasisStates>(t)); auto ap = [&](const dd::GateMatrix& m) { v = p->multiply(p->makeGateDD(m, N(), static_cast<dd::Qubit>(k)), v); };
            if (t == 1 || t == 3) ap(dd::Xmat); if (t >= 2) ap(dd::Hmat); if (t == 4) ap(dd::Smat); if (t == 5) ap(dd::Sdagmat); }
        same(v, p->makeBasisState(N(), bs), "basis", "product state by gates"); same(p->makeIdent(N()), p->makeDDFromMatrix(toCMat(Mat::id(std::size_t{1} << n))), "ident", "identity");
        p->decRef(a); count("generic");
    }
};
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    if (large::sometimes<Cfg>(g, 0.01, [&](auto& r) { if (g.chance(0.5)) r.graph(); else r.products(); })) return;
    const int n = g.range(1, std::is_same_v<Cfg, Tiny> ? 3 : 4);
    Canon<Cfg> c(g, n);
    const int k = g.range(1, 3);
    for (int j = 0; j < k; j++) { switch (g.range(0, 2)) { case 0: c.circuit(); break; case 1: c.linear(); break; default: c.generic(); } if (g.chance(0.3)) { c.p->garbageCollect(true); count("gc"); } }
    rec().distinct(fnv(c.desc)); if (i < 8) rec().sample(c.desc);
}
VH_SPLIT(body)
VH_MAIN("large", "rebuilt", "equal_pairs", "distinct_pairs", "inverses", "circuits", "linear", "generic", "gc")
