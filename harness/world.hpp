// a growing population of states and matrices with their dense counterparts, on which random public
// operations are run; every result is compared with the dense oracle
#pragma once
#include "audit.hpp"
#include "gates2.hpp"
namespace vh {
enum Op { NEWV, NEWM, GATE, MULV, MULM, ADDV, ADDM, TRANS, CTRANS, KRONV, KRONM, INNER, FID, EXPV, TRACE, PTRACE, GC, DROP, MEAS1, MEASALL, SERIAL, DELEDGE, READ, SIZE, IDENT, ANC, EXTEND, PROBS, DUP, AUDIT, NOPS };
inline const char* opName(int o) {
    static const char* n[] = {"newv", "newm", "gate", "mulv", "mulm", "addv", "addm", "trans", "ctrans", "kronv", "kronm", "inner", "fid", "expv", "trace", "ptrace", "gc", "drop", "meas1", "measall", "serial", "deledge", "read", "size", "ident", "anc", "extend", "probs", "dup", "audit"};
    return n[o];
}
constexpr std::uint64_t ops(std::initializer_list<int> l) { std::uint64_t m = 0; for (int x: l) m |= std::uint64_t{1} << x; return m; }
template<class Cfg, std::uint64_t MASK = ~std::uint64_t{0}> struct World { // operations outside MASK are not compiled
    using P = dd::Package<Cfg>;
    struct S { dd::vEdge e; Vec d; int n; std::uint64_t snap; };
    struct M { dd::mEdge e; Mat d; int n; std::uint64_t snap; };
    std::unique_ptr<P> p; Rng& g; int maxN;
    std::vector<S> vs; std::vector<M> ms;
    std::size_t cap = 7;
    bool unitaryOnly = false; // keep states normalised and matrices unitary with well separated values
    bool snaps = false, countCache = true, nice = false;
    std::mt19937_64 mt;
    std::uint64_t hist = 0; std::size_t steps = 0;
    World(Rng& rng, int mx, int slack = 1): p(makePkg<Cfg>(static_cast<std::size_t>(mx + slack))), g(rng), maxN(mx), mt(rng.u64()) {}
    static dd::QubitCount qc(int n) { return static_cast<dd::QubitCount>(n); }

    void store(const dd::vEdge& e, const Vec& want, int n, const char* what) {
        Vec got = evalV(e, n);
        const double t = tolFor(maxAbs(want)); double df = diff(got, want); rec().events["comparisons"]++;
        if (!(df <= t)) fail(std::string("result:") + what, str(what, " on ", n, " qubits: deviation ", df, " want ", show(want), " got ", show(got)));
        if (n > 0 && !e.isTerminal() && e.p->v != n - 1) fail("structure:top-level", what);
        const double m = maxAbs(want);
        if (m > 1e4 || (m < 1e-4 && !(e == dd::vEdge::zero)) || n > maxN) return;
        p->incRef(e);
        if (vs.size() >= cap) { std::size_t k = g.below(vs.size()); p->decRef(vs[k].e); vs.erase(vs.begin() + static_cast<std::ptrdiff_t>(k)); }
        vs.push_back({e, unitaryOnly ? want : got, n, snaps ? snapshot(e) : 0});
        hist = mix(hist ^ hashOf(want));
    }
    void store(const dd::mEdge& e, const Mat& want, int n, const char* what) {
        Mat got = evalM(e, n);
        const double t = tolFor(maxAbs(want)); double df = diff(got, want); rec().events["comparisons"]++;
        if (!(df <= t)) fail(std::string("result:") + what, str(what, " on ", n, " qubits: deviation ", df, " want ", show(want), " got ", show(got)));
        if (n > 0 && !e.isTerminal() && e.p->v != n - 1) fail("structure:top-level", what);
        const double m = maxAbs(want);
        if (m > 1e4 || (m < 1e-4 && !(e == dd::mEdge::zero)) || n > maxN) return;
        p->incRef(e);
        if (ms.size() >= cap) { std::size_t k = g.below(ms.size()); p->decRef(ms[k].e); ms.erase(ms.begin() + static_cast<std::ptrdiff_t>(k)); }
        ms.push_back({e, unitaryOnly ? want : got, n, snaps ? snapshot(e) : 0});
        hist = mix(hist ^ hashOf(want));
    }
    int rn(int lo = 1) { return g.range(lo, maxN); }
    S* pickV() { return vs.empty() ? nullptr : &vs[g.below(vs.size())]; }
    M* pickM() { return ms.empty() ? nullptr : &ms[g.below(ms.size())]; }
    S* pickV(int n) { std::vector<S*> c; for (auto& x: vs) if (x.n == n) c.push_back(&x); return c.empty() ? nullptr : c[g.below(c.size())]; }
    M* pickM(int n) { std::vector<M*> c; for (auto& x: ms) if (x.n == n) c.push_back(&x); return c.empty() ? nullptr : c[g.below(c.size())]; }

    void newV(int n) {
        int k = g.range(0, 3);
        if (unitaryOnly && k == 0) k = 3;
        if (k == 0) { Vec v = randVec(g, n); store(p->makeStateFromVector(toCVec(v)), v, n, "state from vector"); }
        else if (k == 1) { std::vector<bool> b; std::size_t i = 0; for (int q = 0; q < n; q++) { bool x = g.chance(0.5); b.push_back(x); if (x) i |= std::size_t{1} << q; } Vec v(std::size_t{1} << n); v[i] = 1; store(p->makeBasisState(qc(n), b), v, n, "basis state"); }
        else if (k == 2) {
            std::vector<dd::BasisStates> b; Vec v{C(1)}; const double h = std::sqrt(0.5);
            for (int q = 0; q < n; q++) { int t = g.range(0, 5); b.push_back(static_cast<dd::BasisStates>(t)); v = kron(t == 0 ? Vec{1, 0} : t == 1 ? Vec{0, 1} : t == 2 ? Vec{h, h} : t == 3 ? Vec{h, -h} : t == 4 ? Vec{h, C(0, h)} : Vec{h, C(0, -h)}, v); }
            store(p->makeBasisState(qc(n), b), v, n, "product state");
        } else { Vec v = normalized(randVec(g, n, nice ? 2 : -1)); store(p->makeStateFromVector(toCVec(v)), v, n, "normalised state"); }
    }
    void newM(int n) {
        if (unitaryOnly) { gate(n); return; }
        Mat m = randMat(g, n); store(p->makeDDFromMatrix(toCMat(m)), m, n, "matrix from entries");
    }
    void gate(int n) {
        if (n == 1 || g.chance(0.6)) {
            int t = g.range(0, n - 1); auto G = nice ? cliffordT(g) : unitaryOnly ? unitary1(g) : gate1(g); auto c = randCtl(g, n, {t});
            store(p->makeGateDD(G.mat, qc(n), toControls(c), static_cast<dd::Qubit>(t)), embed(G.dense, n, {t}, c), n, "gate");
        } else {
            int a = g.range(0, n - 1), b = g.range(0, n - 2); if (b >= a) b++;
            auto c = g.chance(0.6) ? std::vector<Ctl>{} : randCtl(g, n, {a, b});
            auto r = gate2(*p, g, n, a, b, c, 0, nice ? g.range(0, 5) : unitaryOnly ? g.range(0, 13) : -1);
            store(r.e, embed(r.dense, n, {a, b}, c), n, "two-qubit gate");
        }
    }
    bool normalizedState(const S& s) { return std::abs(norm2(s.d) - 1) < 1e-9; }
    VH_GLUE void step(int op) {
        steps++; count(opName(op));
        const auto before = p->cn.cacheCount();
        note(opName(op));
        switch (op) {
        case NEWV: if constexpr ((MASK >> NEWV) & 1U) { newV(rn()); break; } break;
        case NEWM: if constexpr ((MASK >> NEWM) & 1U) { newM(rn()); break; } break;
        case GATE: if constexpr ((MASK >> GATE) & 1U) { gate(rn()); break; } break;
        case IDENT: if constexpr ((MASK >> IDENT) & 1U) { { int n = rn(); store(p->makeIdent(qc(n)), Mat::id(std::size_t{1} << n), n, "identity"); break; } } break;
        case MULV: if constexpr ((MASK >> MULV) & 1U) { { auto* m = pickM(); if (!m) break; auto* v = pickV(m->n); if (!v) { newV(m->n); break; } auto mm = *m; auto vv = *v; store(p->multiply(mm.e, vv.e), mm.d * vv.d, mm.n, "matrix-vector product"); break; } } break;
        case MULM: if constexpr ((MASK >> MULM) & 1U) { { auto* m = pickM(); if (!m) break; auto a = *m; auto b = *pickM(a.n); store(p->multiply(a.e, b.e), a.d * b.d, a.n, "matrix product"); break; } } break;
        case ADDV: if constexpr ((MASK >> ADDV) & 1U) { { auto* m = pickV(); if (!m || unitaryOnly) break; auto a = *m; auto b = *pickV(a.n); store(p->add(a.e, b.e), a.d + b.d, a.n, "vector sum"); break; } } break;
        case ADDM: if constexpr ((MASK >> ADDM) & 1U) { { auto* m = pickM(); if (!m || unitaryOnly) break; auto a = *m; auto b = *pickM(a.n); store(p->add(a.e, b.e), a.d + b.d, a.n, "matrix sum"); break; } } break;
        case TRANS: if constexpr ((MASK >> TRANS) & 1U) { { auto* m = pickM(); if (!m) break; auto a = *m; store(p->transpose(a.e), transpose(a.d), a.n, "transpose"); break; } } break;
        case CTRANS: if constexpr ((MASK >> CTRANS) & 1U) { { auto* m = pickM(); if (!m) break; auto a = *m; store(p->conjugateTranspose(a.e), dagger(a.d), a.n, "conjugate transpose"); break; } } break;
        case KRONV: if constexpr ((MASK >> KRONV) & 1U) { { auto* x = pickV(); auto* y = pickV(); if (!x || !y || x->n + y->n > maxN) break; auto a = *x; auto b = *y; store(p->kronecker(a.e, b.e), kron(a.d, b.d), a.n + b.n, "state Kronecker product"); break; } } break;
        case KRONM: if constexpr ((MASK >> KRONM) & 1U) { { auto* x = pickM(); auto* y = pickM(); if (!x || !y || x->n + y->n > maxN) break; auto a = *x; auto b = *y; store(p->kronecker(a.e, b.e), kron(a.d, b.d), a.n + b.n, "matrix Kronecker product"); break; } } break;
        case INNER: if constexpr ((MASK >> INNER) & 1U) { { auto* x = pickV(); if (!x) break; auto* y = pickV(x->n); C w = dot(x->d, y->d); C r = val(p->innerProduct(x->e, y->e)); CHK(std::abs(r - w) <= tolFor(1 + maxAbs(x->d) * maxAbs(y->d)) * 64, "result:inner", "inner product ", r, " want ", w); break; } } break;
        case FID: if constexpr ((MASK >> FID) & 1U) { { auto* x = pickV(); if (!x) break; auto* y = pickV(x->n); double w = std::norm(dot(x->d, y->d)), r = p->fidelity(x->e, y->e); CHK(std::abs(r - w) <= 1e-9 * (1 + w), "result:fidelity", "fidelity ", r, " want ", w); break; } } break;
        case EXPV: if constexpr ((MASK >> EXPV) & 1U) { {
            auto* x = pickV(); if (!x) break; const int n = x->n;
#ifndef NDEBUG
            if (n > 3 || !normalizedState(*x)) break; // the library asserts that the imaginary part is within its absolute tolerance
#endif
            Mat h = randMat(g, n, 8); auto e = p->makeDDFromMatrix(toCMat(h)); C w = dot(x->d, h * x->d);
            double r = p->expectationValue(e, x->e); CHK(std::abs(r - w.real()) <= 1e-9 * (1 + std::abs(w) + norm2(x->d) * maxAbs(h) * double(h.d)), "result:expectation", r, " want ", w); break; } } break;
        case TRACE: if constexpr ((MASK >> TRACE) & 1U) { { auto* x = pickM(); if (!x) break; C w = 0; for (std::size_t i = 0; i < x->d.d; i++) w += x->d(i, i); C r = val(p->trace(x->e)); CHK(std::abs(r - w) <= tolFor(double(x->d.d) * maxAbs(x->d)), "result:trace", "trace ", r, " want ", w); break; } } break;
        case PTRACE: if constexpr ((MASK >> PTRACE) & 1U) { {
            auto* x = pickM(); if (!x || unitaryOnly) break; auto a = *x; std::vector<bool> el(p->qubits(), false); std::vector<int> keep;
            for (int q = 0; q < a.n; q++) { el[static_cast<std::size_t>(q)] = g.chance(0.4); if (!el[static_cast<std::size_t>(q)]) keep.push_back(q); }
            if (keep.empty()) break;
            store(p->partialTrace(a.e, el), ptrace(a.d, a.n, keep), static_cast<int>(keep.size()), "partial trace"); break; } } break;
        case EXTEND: if constexpr ((MASK >> EXTEND) & 1U) { { auto* x = pickM(); if (!x || x->n >= maxN) break; auto a = *x; int h = g.range(0, maxN - a.n), l = g.range(0, maxN - a.n - h);
            Mat w = kron(kron(Mat::id(std::size_t{1} << h), a.d), Mat::id(std::size_t{1} << l)); store(p->extend(a.e, static_cast<dd::Qubit>(h), static_cast<dd::Qubit>(l)), w, a.n + h + l, "extended matrix"); break; } } break;
        case GC: if constexpr ((MASK >> GC) & 1U) { { bool f = g.chance(0.7); p->garbageCollect(f); count(f ? "gc_forced" : "gc_unforced"); checkAll(); break; } } break;
        case DROP: if constexpr ((MASK >> DROP) & 1U) { {
            if (g.chance(0.5)) { if (!vs.empty()) { std::size_t k = g.below(vs.size()); p->decRef(vs[k].e); vs.erase(vs.begin() + static_cast<std::ptrdiff_t>(k)); } }
            else if (!ms.empty()) { std::size_t k = g.below(ms.size()); p->decRef(ms[k].e); ms.erase(ms.begin() + static_cast<std::ptrdiff_t>(k)); }
            break; } } break;
        case DUP: if constexpr ((MASK >> DUP) & 1U) { if (g.chance(0.5)) { auto* x = pickV(); if (x) { auto a = *x; store(a.e, a.d, a.n, "same state"); } } else { auto* x = pickM(); if (x) { auto a = *x; store(a.e, a.d, a.n, "same matrix"); } } break; } break;
        case MEAS1: if constexpr ((MASK >> MEAS1) & 1U) { {
            std::vector<std::size_t> c; for (std::size_t i = 0; i < vs.size(); i++) if (normalizedState(vs[i])) c.push_back(i);
            if (c.empty()) break; auto& s = vs[g.pick(c)]; int q = g.range(0, s.n - 1);
            char r = p->measureOneCollapsing(s.e, static_cast<dd::Qubit>(q), g.chance(0.7), mt);
            Vec w = s.d; double pr = 0; for (std::size_t i = 0; i < w.size(); i++) { if (((i >> q) & 1U) != static_cast<unsigned>(r - '0')) w[i] = 0; else pr += std::norm(w[i]); }
            CHK(r == '0' || r == '1', "result:measure", "outcome ", r); CHK(pr > 1e-12, "result:measure-impossible", "outcome of probability ", pr);
            w = scaled(w, 1 / std::sqrt(pr)); EQV(evalV(s.e, s.n), w, "result:collapse", "post-measurement state"); s.d = unitaryOnly ? w : evalV(s.e, s.n); s.snap = snaps ? snapshot(s.e) : 0; break; } } break;
        case MEASALL: if constexpr ((MASK >> MEASALL) & 1U) { {
            std::vector<std::size_t> c; for (std::size_t i = 0; i < vs.size(); i++) if (normalizedState(vs[i])) c.push_back(i);
            if (c.empty()) break; auto& s = vs[g.pick(c)]; const bool col = g.chance(0.3); auto r = p->measureAll(s.e, col, mt);
            CHK(r.size() == static_cast<std::size_t>(s.n), "result:measureall", "length"); std::size_t i = 0; for (char ch: r) i = 2 * i + static_cast<std::size_t>(ch - '0');
            CHK(std::norm(s.d[i]) > 1e-13, "result:measure-impossible", "bit string ", r, " has amplitude ", s.d[i]);
            if (col) { Vec w(s.d.size()); w[i] = 1; EQV(evalV(s.e, s.n), w, "result:collapse-all", "post-measurement state"); s.d = w; s.snap = snaps ? snapshot(s.e) : 0; } break; } } break;
        case PROBS: if constexpr ((MASK >> PROBS) & 1U) { {
            std::vector<std::size_t> c; for (std::size_t i = 0; i < vs.size(); i++) if (normalizedState(vs[i])) c.push_back(i);
            if (c.empty()) break; auto& s = vs[g.pick(c)]; int q = g.range(0, s.n - 1); auto [p0, p1] = p->determineMeasurementProbabilities(s.e, static_cast<dd::Qubit>(q), g.chance(0.5));
            double w0 = 0, w1 = 0; for (std::size_t i = 0; i < s.d.size(); i++) (((i >> q) & 1U) ? w1 : w0) += std::norm(s.d[i]);
            CHK(std::abs(p0 - w0) < 1e-9 && std::abs(p1 - w1) < 1e-9, "result:probabilities", p0, " ", p1, " want ", w0, " ", w1); break; } } break;
        case SERIAL: if constexpr ((MASK >> SERIAL) & 1U) { {
            const bool bin = g.chance(0.5); std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
            if (g.chance(0.5)) { auto* x = pickV(); if (!x) break; auto a = *x; dd::serialize(a.e, ss, bin); auto e = p->template deserialize<dd::vNode>(ss, bin); CHK(e == a.e || diff(evalV(e, a.n), a.d) <= tolFor(maxAbs(a.d)), "result:serial", "state round trip"); store(e, a.d, a.n, "deserialised state"); }
            else { auto* x = pickM(); if (!x) break; auto a = *x; dd::serialize(a.e, ss, bin); auto e = p->template deserialize<dd::mNode>(ss, bin); store(e, a.d, a.n, "deserialised matrix"); }
            break; } } break;
        case DELEDGE: if constexpr ((MASK >> DELEDGE) & 1U) { {
            if (unitaryOnly) break;
            if (g.chance(0.5)) { auto* x = pickV(); if (!x) break; auto a = *x; int q = g.range(0, a.n - 1); std::size_t k = g.below(2); Vec w = a.d; for (std::size_t i = 0; i < w.size(); i++) if (((i >> q) & 1U) == k) w[i] = 0; store(p->deleteEdge(a.e, static_cast<dd::Qubit>(q), k), w, a.n, "state with deleted edge"); }
            else { auto* x = pickM(); if (!x) break; auto a = *x; int q = g.range(0, a.n - 1); std::size_t k = g.below(4); Mat w = a.d; for (std::size_t i = 0; i < w.d; i++) for (std::size_t j = 0; j < w.d; j++) if (2 * ((i >> q) & 1U) + ((j >> q) & 1U) == k) w(i, j) = 0; store(p->deleteEdge(a.e, static_cast<dd::Qubit>(q), k), w, a.n, "matrix with deleted edge"); }
            break; } } break;
        case ANC: if constexpr ((MASK >> ANC) & 1U) { {
            auto* x = pickM(); if (!x || unitaryOnly) break; auto a = *x; std::vector<bool> anc(static_cast<std::size_t>(a.n)); for (auto&& b: anc) b = g.chance(0.3); const bool reg = g.chance(0.5);
            if (a.e.isTerminal()) break;
            Mat w = a.d; for (std::size_t i = 0; i < w.d; i++) for (std::size_t j = 0; j < w.d; j++) for (int q = 0; q < a.n; q++) if (anc[static_cast<std::size_t>(q)] && (((reg ? j : i) >> q) & 1U)) w(i, j) = 0;
            p->incRef(a.e); dd::mEdge e = p->reduceAncillae(a.e, anc, reg); store(e, w, a.n, "reduced ancillaries"); p->decRef(e); break; } } break;
        case READ: if constexpr ((MASK >> READ) & 1U) { {
            if (g.chance(0.5)) { auto* x = pickV(); if (!x || x->e.isTerminal()) break; auto v = p->getVector(x->e); EQV(Vec(v.begin(), v.end()), x->d, "result:getVector", "getVector"); std::size_t i = g.below(x->d.size()); CHK(std::abs(val(p->getValueByPath(x->e, i)) - x->d[i]) <= tolFor(maxAbs(x->d)), "result:getValue", "amplitude"); }
            else { auto* x = pickM(); if (!x || x->e.isTerminal()) break; EQV(fromCMat(p->getMatrix(x->e)), x->d, "result:getMatrix", "getMatrix"); }
            break; } } break;
        case SIZE: if constexpr ((MASK >> SIZE) & 1U) { {
            if (g.chance(0.5)) { auto* x = pickV(); if (x) { auto s = p->size(x->e); CHK(s == countNodes(x->e), "result:size", "size ", s, " want ", countNodes(x->e)); } }
            else { auto* x = pickM(); if (x) { auto s = p->size(x->e); CHK(s == countNodes(x->e), "result:size", "size ", s, " want ", countNodes(x->e)); } }
            break; } } break;
        case AUDIT: if constexpr ((MASK >> AUDIT) & 1U) { auditPackage(*p); checkAll(); break; } break;
        default: break;
        }
        if (countCache && p->cn.cacheCount() != before) fail("cache-leak", str("operation ", opName(op), " changed the number of temporary numbers from ", before, " to ", p->cn.cacheCount()));
    }
    static Mat ptrace(const Mat& m, int n, const std::vector<int>& keep) {
        Mat r(std::size_t{1} << keep.size());
        auto proj = [&](std::size_t i) { std::size_t k = 0; for (std::size_t b = 0; b < keep.size(); b++) k |= ((i >> keep[b]) & 1U) << b; return k; };
        std::size_t mask = (std::size_t{1} << n) - 1; for (int q: keep) mask &= ~(std::size_t{1} << q);
        for (std::size_t i = 0; i < m.d; i++) for (std::size_t j = 0; j < m.d; j++) if ((i & mask) == (j & mask)) r(proj(i), proj(j)) += m(i, j);
        return r;
    }
    // every diagram that is referenced still represents what it did, with the same structure
    void checkAll() {
        for (auto& s: vs) { EQV(evalV(s.e, s.n), s.d, "stability:state", "stored state changed"); if (snaps && snapshot(s.e) != s.snap) fail("stability:state-structure", "structure of a referenced state changed"); }
        for (auto& m: ms) { EQV(evalM(m.e, m.n), m.d, "stability:matrix", "stored matrix changed"); if (snaps && snapshot(m.e) != m.snap) fail("stability:matrix-structure", "structure of a referenced matrix changed"); }
        count("population_checks");
    }
    void checkRefs(bool half = true) {
        RefModel r; for (auto& s: vs) r.addRoot(s.e); for (auto& m: ms) r.addRoot(m.e);
        r.compareNodes(p->vUniqueTable, "vector"); r.compareNodes(p->mUniqueTable, "matrix"); r.compareNumbers(p->cn.complexTable, half);
        count("ref_audits");
    }
    void releaseAll() { for (auto& s: vs) p->decRef(s.e); for (auto& m: ms) p->decRef(m.e); vs.clear(); ms.clear(); }
    int pickOp(const std::vector<std::pair<int, int>>& w) { int t = 0; for (auto& x: w) t += x.second; int r = static_cast<int>(g.below(static_cast<std::size_t>(t))); for (auto& x: w) { r -= x.second; if (r < 0) return x.first; } return w.back().first; }
};
} // namespace vh
