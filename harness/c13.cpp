// C13: operation caches never change a result
#include "hist.hpp"
using namespace vh;
// ---- adversarial use: operands share nodes and differ only in weight, level, kind of operation, mode or order
template<class Cfg> struct Dirty {
    using P = dd::Package<Cfg>;
    std::unique_ptr<P> p; Rng& g; int n; std::string desc; std::uint64_t hh = 1;
    struct V { dd::vEdge e; Vec d; int n; }; struct M { dd::mEdge e; Mat d; int n; };
    std::vector<V> vs; std::vector<M> ms; bool plain = false; // plain: only numbers that are kept permanently, so that collections remove nodes and no numbers
    Dirty(Rng& r, int nq): p(makePkg<Cfg>(static_cast<std::size_t>(nq + 2))), g(r), n(nq) {}
    void put(const dd::vEdge& e, const Vec& d, int k, const char* what) { EQV(evalV(e, k), d, std::string("result:") + what, what, " after: ", tail()); const double m = maxAbs(d); hh = mix(hh ^ hashOf(d)); if (k > n || m > 1e3 || (m < 1e-3 && !(e == dd::vEdge::zero))) return; p->incRef(e); vs.push_back({e, evalV(e, k), k}); if (vs.size() > 10) { std::size_t j = g.below(vs.size()); p->decRef(vs[j].e); vs.erase(vs.begin() + static_cast<std::ptrdiff_t>(j)); } }
    void put(const dd::mEdge& e, const Mat& d, int k, const char* what) { EQV(evalM(e, k), d, std::string("result:") + what, what, " after: ", tail()); const double m = maxAbs(d); hh = mix(hh ^ hashOf(d)); if (k > n || m > 1e3 || (m < 1e-3 && !(e == dd::mEdge::zero))) return; p->incRef(e); ms.push_back({e, evalM(e, k), k}); if (ms.size() > 10) { std::size_t j = g.below(ms.size()); p->decRef(ms[j].e); ms.erase(ms.begin() + static_cast<std::ptrdiff_t>(j)); } }
    std::string tail() { return desc.size() > 300 ? desc.substr(desc.size() - 300) : desc; }
    void variantV() { // same node, other weight; or a successor of the node
        if (vs.empty()) return; auto a = g.pick(vs); if (a.e.isTerminal()) return;
        if (!plain && (g.chance(0.5) || a.n == 1)) { C f = g.chance(0.3) ? C(-1) : niceValue(g); auto x = a.e; x.w = p->cn.lookup(val(a.e.w) * f); if (x.w.approximatelyZero()) return; put(x, scaled(a.d, f), a.n, "scaled state"); desc += "sv "; }
        else if (a.n > 1) { auto c = a.e.p->e[g.below(2)]; put(c, evalV(c, a.n - 1), a.n - 1, "successor state"); desc += "cv "; }
    }
    void variantM() {
        if (ms.empty()) return; auto a = g.pick(ms); if (a.e.isTerminal()) return;
        if (!plain && (g.chance(0.5) || a.n == 1)) { C f = g.chance(0.3) ? C(-1) : niceValue(g); auto x = a.e; x.w = p->cn.lookup(val(a.e.w) * f); if (x.w.approximatelyZero()) return; put(x, scaled(a.d, f), a.n, "scaled matrix"); desc += "sm "; }
        else if (a.n > 1) { auto c = a.e.p->e[g.below(4)]; put(c, evalM(c, a.n - 1), a.n - 1, "successor matrix"); desc += "cm "; }
    }
    V* sameV(int k) { std::vector<V*> c; for (auto& x: vs) if (x.n == k) c.push_back(&x); return c.empty() ? nullptr : g.pick(c); }
    M* sameM(int k) { std::vector<M*> c; for (auto& x: ms) if (x.n == k) c.push_back(&x); return c.empty() ? nullptr : g.pick(c); }
    VH_GLUE void op() {
        const auto N = [&](int k) { return static_cast<dd::QubitCount>(k); };
        const int what = g.range(0, 17);
        if (plain) switch (what) {
        case 0: { const int k = g.range(1, n); std::vector<bool> b; Vec v(std::size_t{1} << k); std::size_t ix = 0; for (int q = 0; q < k; q++) { b.push_back(g.chance(0.5)); if (b.back()) ix |= std::size_t{1} << q; } v[ix] = 1; put(p->makeBasisState(N(k), b), v, k, "basis state"); desc += "B "; return; }
        case 1: { const int k = g.range(1, n); const std::size_t D = std::size_t{1} << k; Mat m(D); if (g.chance(0.5)) { std::vector<std::size_t> pi; for (std::size_t j = 0; j < D; j++) pi.push_back(j); for (std::size_t j = D; j-- > 1;) std::swap(pi[j], pi[g.below(j + 1)]); for (std::size_t j = 0; j < D; j++) m(j, pi[j]) = 1; } else for (std::size_t j = 0; j < D; j++) for (std::size_t l = 0; l < D; l++) m(j, l) = g.chance(0.5); put(p->makeDDFromMatrix(toCMat(m)), m, k, "0-1 matrix"); desc += "P "; return; }
        case 2: case 14: { const int k = g.range(1, n), t = g.range(0, k - 1); auto c = randCtl(g, k, {t}); Mat x(2); x(0, 1) = x(1, 0) = 1; put(p->makeGateDD(dd::Xmat, N(k), toControls(c), static_cast<dd::Qubit>(t)), embed(x, k, {t}, c), k, "X gate"); desc += "X" + std::to_string(t) + showCtl(c) + " "; return; }
        case 17: { if (!g.chance(0.5)) return; const auto nn = p->vUniqueTable.getNodeCount() + p->mUniqueTable.getNodeCount(); const auto nc = p->cn.complexTable.getCount(); p->garbageCollect(true); desc += "gc "; count("gc"); if (nc == p->cn.complexTable.getCount() && nn != p->vUniqueTable.getNodeCount() + p->mUniqueTable.getNodeCount()) count("node_collections"); return; }
        default: break;
        }
        switch (what) {
        case 0: { int k = g.range(1, n); Vec v = randVec(g, k, g.range(0, 6)); put(p->makeStateFromVector(toCVec(v)), v, k, "state"); desc += "V "; break; }
        case 1: { int k = g.range(1, n); Mat m = randMat(g, k, g.range(0, 9)); put(p->makeDDFromMatrix(toCMat(m)), m, k, "matrix"); desc += "M "; break; }
        case 2: { int k = g.range(1, n), t = g.range(0, k - 1); auto c = randCtl(g, k, {t}); auto G = g.chance(0.5) ? gate1(g, 2) : gate1(g); put(p->makeGateDD(G.mat, N(k), toControls(c), static_cast<dd::Qubit>(t)), embed(G.dense, k, {t}, c), k, "gate"); desc += "G" + G.name + std::to_string(t) + showCtl(c) + " ";
            if (g.chance(0.5)) { const int s = g.range(1, 2); const int top = k + s; auto e = p->makeGateDD(G.mat, N(k), toControls(c, s), static_cast<dd::Qubit>(t + s), static_cast<std::size_t>(s)); (void)top; EQV(evalM(e, k, s), embed(G.dense, k, {t}, c), "result:offset-gate", "gate on a register starting at qubit ", s, " after: ", tail()); desc += "Go "; } break; }
        case 3: { if (vs.empty()) break; auto a = g.pick(vs); auto* b = sameV(a.n); auto bb = *b; put(p->add(a.e, bb.e), a.d + bb.d, a.n, "vector sum"); desc += "av "; if (g.chance(0.5)) put(p->add(bb.e, a.e), a.d + bb.d, a.n, "vector sum"); break; }
        case 4: { if (ms.empty()) break; auto a = g.pick(ms); auto bb = *sameM(a.n); put(p->add(a.e, bb.e), a.d + bb.d, a.n, "matrix sum"); desc += "am "; if (g.chance(0.5)) put(p->add(bb.e, a.e), a.d + bb.d, a.n, "matrix sum"); break; }
        case 5: { if (ms.empty()) break; auto a = g.pick(ms); auto* b = sameV(a.n); if (!b) break; auto bb = *b; put(p->multiply(a.e, bb.e), a.d * bb.d, a.n, "matrix-vector product"); desc += "mv "; break; }
        case 6: { if (ms.empty()) break; auto a = g.pick(ms); auto bb = *sameM(a.n); put(p->multiply(a.e, bb.e), a.d * bb.d, a.n, "matrix product"); desc += "mm "; if (g.chance(0.5)) put(p->multiply(bb.e, a.e), bb.d * a.d, a.n, "matrix product"); break; }
        case 7: { if (ms.empty()) break; auto a = g.pick(ms); put(p->transpose(a.e), transpose(a.d), a.n, "transpose"); put(p->conjugateTranspose(a.e), dagger(a.d), a.n, "conjugate transpose"); desc += "tr "; break; }
        case 8: { if (vs.empty()) break; auto a = g.pick(vs), b = g.pick(vs); if (a.n + b.n > n + 2) break; put(p->kronecker(a.e, b.e), kron(a.d, b.d), a.n + b.n, "state Kronecker product"); if (a.n == b.n) put(p->kronecker(b.e, a.e), kron(b.d, a.d), a.n + b.n, "state Kronecker product"); desc += "kv "; break; }
        case 9: { if (ms.empty()) break; auto a = g.pick(ms), b = g.pick(ms); if (a.n + b.n > n + 2) break; const bool first = g.chance(0.5);
            for (int r = 0; r < 2; r++) { if ((r == 0) == first) put(p->kronecker(a.e, b.e), kron(a.d, b.d), a.n + b.n, "matrix Kronecker product"); else if (g.chance(0.6)) { // without index shift: the upper factor is already placed above
                    if (a.e.isTerminal() || b.e.isTerminal()) continue; const int t = g.range(0, a.n - 1); auto G = gate1(g); auto up = p->makeGateDD(G.mat, N(a.n), static_cast<dd::Qubit>(t + b.n), static_cast<std::size_t>(b.n)); auto e = p->kronecker(up, b.e, false); put(e, kron(embed(G.dense, a.n, {t}, {}), b.d), a.n + b.n, "Kronecker product without shift"); desc += "k- "; } }
            desc += "km "; break; }
        case 10: { if (vs.empty()) break; auto a = g.pick(vs); auto bb = *sameV(a.n); C w = dot(a.d, bb.d), r = val(p->innerProduct(a.e, bb.e)); CHK(std::abs(r - w) <= 1e-9 * (1 + std::sqrt(norm2(a.d) * norm2(bb.d))), "result:inner", "inner product ", r, " want ", w, " after: ", tail()); C r2 = val(p->innerProduct(bb.e, a.e)); CHK(std::abs(r2 - std::conj(w)) <= 1e-9 * (1 + std::sqrt(norm2(a.d) * norm2(bb.d))), "result:inner", "inner product ", r2, " want ", std::conj(w), " after: ", tail()); desc += "ip "; break; }
        case 11: { if (ms.empty()) break; auto a = g.pick(ms); std::vector<bool> el(p->qubits()); std::vector<int> keep; for (int q = 0; q < a.n; q++) { el[static_cast<std::size_t>(q)] = g.chance(0.5); if (!el[static_cast<std::size_t>(q)]) keep.push_back(q); } if (keep.empty()) { C w = 0; for (std::size_t i = 0; i < a.d.d; i++) w += a.d(i, i); C r = val(p->trace(a.e)); CHK(std::abs(r - w) <= 1e-9 * (1 + maxAbs(a.d) * double(a.d.d)), "result:trace", r, " want ", w); break; }
            put(p->partialTrace(a.e, el), World<Cfg, 0>::ptrace(a.d, a.n, keep), static_cast<int>(keep.size()), "partial trace"); desc += "pt "; break; }
        case 12: { if (ms.empty()) break; auto a = g.pick(ms); int h = g.range(0, 2), l = g.range(0, 2 - h); if (a.n + h + l > n + 2) break; Mat w = kron(kron(Mat::id(std::size_t{1} << h), a.d), Mat::id(std::size_t{1} << l)); put(p->extend(a.e, static_cast<dd::Qubit>(h), static_cast<dd::Qubit>(l)), w, a.n + h + l, "extended matrix"); desc += "ex "; break; }
        case 13: { int k = g.range(1, n + 2); put(p->makeIdent(N(k)), Mat::id(std::size_t{1} << k), k, "identity"); desc += "id "; break; }
        case 14: { if (n < 2) break; const int k = g.range(2, n); int a = g.range(0, k - 1), b = g.range(0, k - 2); if (b >= a) b++; auto r = gate2(*p, g, k, a, b, {}, 0, -1); put(r.e, embed(r.dense, k, {a, b}, {}), k, "two-qubit gate"); auto r2 = gate2(*p, g, k, b, a, {}, 0, -1); put(r2.e, embed(r2.dense, k, {b, a}, {}), k, "two-qubit gate"); desc += "G2 "; break; }
        case 15: variantV(); break;
        case 16: variantM(); break;
        default: { // collections that remove numbers only, nodes only, or both
            if (!g.chance(0.4)) break;
            const int k = g.range(0, 3);
            if (k == 0) { for (int j = 0; j < 5; j++) (void)p->cn.lookup(g.uni(), g.uni()); p->garbageCollect(true); } // unreferenced numbers
            else if (k == 1) { for (int j = 0; j < 3; j++) { auto G = unitary1(g); (void)p->makeGateDD(G.mat, N(n), static_cast<dd::Qubit>(g.range(0, n - 1))); } p->garbageCollect(true); }
            else if (k == 2) p->garbageCollect(true);
            else { for (int j = 0; j < 10; j++) p->garbageCollect(); }
            desc += "gc" + std::to_string(k) + " "; count("gc");
            for (int j = 0; j < 8; j++) { (void)p->cn.lookup(g.uni(0, 3), g.uni(0, 3)); } // reuse collected entries for other values
            for (int j = 0; j < 2; j++) { Vec v = randVec(g, n, 0); (void)p->makeStateFromVector(toCVec(v)); Mat m = randMat(g, std::min(n, 3), 0); (void)p->makeDDFromMatrix(toCMat(m)); } // and collected nodes
            for (auto& x: vs) EQV(evalV(x.e, x.n), x.d, "stability:state", "stored state"); for (auto& x: ms) EQV(evalM(x.e, x.n), x.d, "stability:matrix", "stored matrix");
        } }
    }
    // the last operands in a package without history
    VH_GLUE void fresh() {
        if (ms.empty() || vs.empty()) return; auto f = makePkg<Cfg>(static_cast<std::size_t>(n + 2)); auto a = g.pick(ms); auto* vp = sameV(a.n); auto b = *sameM(a.n);
        auto fa = f->transfer(a.e), fb = f->transfer(b.e); EQV(evalM(fa, a.n), a.d, "fresh:transfer", "transferred matrix");
        auto cmp = [&](const dd::mEdge& x, const dd::mEdge& y, const char* w) { EQV(evalM(x, a.n), evalM(y, a.n), std::string("fresh:") + w, w, " differs between a used and a fresh package; history: ", tail()); CHK(p->size(x) == countNodes(x), "fresh:size", "size"); count("fresh_comparisons"); };
        cmp(p->multiply(a.e, b.e), f->multiply(fa, fb), "product"); cmp(p->add(a.e, b.e), f->add(fa, fb), "sum"); cmp(p->transpose(a.e), f->transpose(fa), "transpose"); cmp(p->conjugateTranspose(a.e), f->conjugateTranspose(fa), "adjoint");
        if (vp) { auto v = *vp; auto fv = f->transfer(v.e); auto x = p->multiply(a.e, v.e); auto y = f->multiply(fa, fv); EQV(evalV(x, a.n), evalV(y, a.n), "fresh:matvec", "matrix-vector product differs; history: ", tail()); count("fresh_comparisons"); }
    }
};
template<class Cfg> VH_GLUE void dirty(Rng& g, std::size_t i) {
    const int n = g.range(1, 3); Dirty<Cfg> w(g, n); w.plain = g.chance(0.25); const int len = g.range(20, 80);
    for (int s = 0; s < len; s++) { w.op(); if (g.chance(0.05)) w.fresh(); CHK(w.p->cn.cacheCount() == 0, "cache", "temporary numbers lost"); }
    note(w.desc); rec().distinct(w.hh); count("dirty_histories"); if (i < 8) rec().sample(w.desc);
    auto hr = [](double r) { return r > 0; }; if (hr(w.p->matrixAdd.hitRatio()) && hr(w.p->matrixMatrixMultiplication.hitRatio())) count("cache_hits_seen");
}
// collections that remove numbers and no node: every node stays referenced, the weights of the operands change
template<class Cfg> VH_GLUE void weights(Rng& g, std::size_t i) {
    const int n = g.range(1, 2); auto p = makePkg<Cfg>(static_cast<std::size_t>(2 * n)); struct V { dd::vEdge e; Vec d; }; struct M { dd::mEdge e; Mat d; }; std::vector<V> vs; std::vector<M> ms; std::vector<dd::vEdge> kv; std::vector<dd::mEdge> km; std::uint64_t hh = 1;
    auto unit = [](auto e) { e.w = dd::Complex::one; return e; };
    for (int k = 0; k < 2; k++) { Vec v = normalized(randVec(g, n, 0)); auto e = unit(p->makeStateFromVector(toCVec(v))); if (e.isTerminal()) return; p->incRef(e); vs.push_back({e, evalV(e, n)}); kv.push_back(e); Mat m = randMat(g, n, g.chance(0.5) ? 0 : g.range(0, 9)); auto f = unit(p->makeDDFromMatrix(toCMat(m))); if (f.isTerminal()) return; p->incRef(f); ms.push_back({f, evalM(f, n)}); km.push_back(f); }
    p->garbageCollect(true); const int len = g.range(10, 40);
    auto w = [&] { return C(g.uni(0.2, 2), g.chance(0.5) ? 0 : g.uni(-2, 2)); }; std::size_t only = 0; C a = w(), b = w(); const int focus = g.range(0, 7);
    for (int s = 0; s < len; s++) {
        if (g.chance(0.6)) a = w(); if (g.chance(0.4)) b = w(); const auto& x = g.pick(vs); const auto& y = g.pick(vs); const auto& A = g.pick(ms); const auto& B = g.pick(ms);
        auto sv = [&](const V& q, C f) { V r{q.e, Vec()}; r.e.w = p->cn.lookup(f); r.d = scaled(q.d, val(r.e.w)); return r; }; auto sm = [&](const M& q, C f) { M r{q.e, q.d}; r.e.w = p->cn.lookup(f); for (auto& z: r.d.a) z *= val(r.e.w); return r; };
        auto gotV = [&](const dd::vEdge& e, const Vec& d, int k, const char* what) { EQV(evalV(e, k), d, std::string("weights:") + what, what, " step ", s); hh = mix(hh ^ hashOf(d)); if (!e.isTerminal() && kv.size() < 60) { auto u = unit(e); p->incRef(u); kv.push_back(u); } };
        auto gotM = [&](const dd::mEdge& e, const Mat& d, int k, const char* what) { EQV(evalM(e, k), d, std::string("weights:") + what, what, " step ", s); hh = mix(hh ^ hashOf(d)); if (!e.isTerminal() && km.size() < 60) { auto u = unit(e); p->incRef(u); km.push_back(u); } };
        switch (g.chance(0.6) ? focus : g.range(0, 7)) {
        case 0: { auto q = sv(x, a), r = sv(y, b); gotV(p->kronecker(q.e, r.e), kron(q.d, r.d), 2 * n, "state product"); break; }
        case 1: { auto q = sm(A, a), r = sm(B, b); gotM(p->kronecker(q.e, r.e), kron(q.d, r.d), 2 * n, "matrix product"); break; }
        case 2: { auto q = sm(A, a); gotM(p->transpose(q.e), transpose(q.d), n, "transpose"); break; }
        case 3: { auto q = sm(A, a); gotM(p->conjugateTranspose(q.e), dagger(q.d), n, "adjoint"); break; }
        case 4: { auto q = sv(x, a), r = sv(y, b); const C want = dot(q.d, r.d), z = val(p->innerProduct(q.e, r.e)); CHK(std::abs(z - want) <= 1e-9 * (1 + std::abs(want)), "weights:inner", z, " want ", want, " step ", s); break; }
        case 5: { auto q = sm(A, a); auto r = sv(y, b); gotV(p->multiply(q.e, r.e), q.d * r.d, n, "matrix-vector product"); break; }
        case 6: { auto q = sm(A, a), r = sm(B, b); gotM(p->multiply(q.e, r.e), q.d * r.d, n, "matrix multiplication"); break; }
        default: { auto q = sv(x, a), r = sv(y, b); gotV(p->add(q.e, r.e), q.d + r.d, n, "sum"); break; }
        }
        if (g.chance(0.6)) { const auto nn = p->vUniqueTable.getNodeCount() + p->mUniqueTable.getNodeCount(); const auto nc = p->cn.complexTable.getCount(); p->garbageCollect(true); if (nn == p->vUniqueTable.getNodeCount() + p->mUniqueTable.getNodeCount() && p->cn.complexTable.getCount() < nc) only++; }
    }
    for (auto& e: kv) p->decRef(e); for (auto& e: km) p->decRef(e); count("number_collections", only); count("weight_histories"); rec().distinct(hh); note(str("weights focus=", focus, " steps=", len)); (void)i;
}
// several density matrices evolving under the same operations in different representations
template<class Cfg> VH_GLUE void density(Rng& g, std::size_t i) {
    const int n = std::is_same_v<Cfg, Std> ? g.range(1, 2) : g.range(1, 3); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); DWorld<Cfg> w(*p, g, n); w.nice = true; for (int k = 0; k < 3; k++) w.create();
    const int len = g.range(6, 16); for (int s = 0; s < len; s++) { w.apply(w.ds[g.below(3)], g.range(0, 1)); if (g.chance(0.15)) { p->garbageCollect(true); count("gc"); } if (g.chance(0.2)) w.read(w.ds[g.below(3)]); } w.checkAll(); rec().distinct(w.hist); count("density_histories"); (void)i; while (!w.ds.empty()) w.release(0);
}
// ---- the tables themselves against a model
template<class K, class R> bool keyEq(const K& a, const K& b) { return a == b; }
template<class T, class L, class RO, class MkL, class MkR> VH_GLUE void modelTable(Rng& g, T& t, MkL mkL, MkR mkR, const char* name) {
    struct E { L l; RO r; std::uintptr_t id; }; std::vector<E> m; std::uintptr_t id = 1; std::vector<L> ls; std::vector<RO> rs;
    for (int k = 0; k < 6; k++) { ls.push_back(mkL()); rs.push_back(mkR()); }
    const int len = g.range(30, 150); std::uint64_t hit = 0;
    for (int s = 0; s < len; s++) {
        if (g.chance(0.1)) { ls[g.below(ls.size())] = mkL(); rs[g.below(rs.size())] = mkR(); }
        auto l = g.pick(ls); auto r = g.pick(rs);
        if (g.chance(0.4)) { auto res = typename std::decay_t<decltype(t.lookup(l, r))>{}; res.p = reinterpret_cast<decltype(res.p)>(id * 16); res.w = {static_cast<double>(id), 0.5}; t.insert(l, r, res); m.push_back({l, r, id}); id++; }
        else if (g.chance(0.03)) { t.clear(); m.clear(); }
        else {
            auto res = t.lookup(l, r); rec().events["comparisons"]++;
            if (res.p == nullptr) continue; hit++;
            const E* last = nullptr; for (auto& e: m) if (e.l == l && e.r == r) last = &e;
            if (last == nullptr) fail(str("table:", name), str(name, ": result returned for a pair that was not stored since the last clear"));
            if (reinterpret_cast<std::uintptr_t>(res.p) != last->id * 16 || res.w.r != static_cast<double>(last->id)) fail(str("table:", name), str(name, ": result of another entry returned"));
        }
    }
    count("table_models"); count("table_hits", hit);
}
template<class Cfg> VH_GLUE void tables(Rng& g, std::size_t i) {
    auto p = makePkg<Cfg>(3); std::vector<dd::vEdge> ve; std::vector<dd::mEdge> me;
    for (int k = 0; k < 5; k++) { const int n = g.range(1, 3); ve.push_back(p->makeStateFromVector(toCVec(randVec(g, n, 0)))); me.push_back(p->makeDDFromMatrix(toCMat(randMat(g, n, 0)))); }
    auto w = [&]() { static const std::vector<double> vals{0.5, -0.5, 0.25, 1, -1, 0, 0.3}; return C(g.pick(vals), g.pick(vals)); };
    auto mkV = [&]() { auto e = g.pick(ve); e.w = p->cn.lookup(w()); return e; }; auto mkM = [&]() { auto e = g.pick(me); e.w = p->cn.lookup(w()); return e; };
    auto mkVC = [&]() { auto e = mkV(); return dd::CachedEdge<dd::vNode>(e.p, e.w); }; auto mkMC = [&]() { auto e = mkM(); return dd::CachedEdge<dd::mNode>(e.p, e.w); };
    using vC = dd::CachedEdge<dd::vNode>; using mC = dd::CachedEdge<dd::mNode>;
    if (g.chance(0.5)) modelTable<decltype(p->vectorAdd), vC, vC>(g, p->vectorAdd, mkVC, mkVC, "vectorAdd");
    if (g.chance(0.5)) modelTable<decltype(p->matrixAdd), mC, mC>(g, p->matrixAdd, mkMC, mkMC, "matrixAdd");
    if (g.chance(0.5)) modelTable<decltype(p->matrixVectorMultiplication), dd::mEdge, dd::vEdge>(g, p->matrixVectorMultiplication, mkM, mkV, "matrixVector");
    if (g.chance(0.5)) modelTable<decltype(p->matrixMatrixMultiplication), dd::mEdge, dd::mEdge>(g, p->matrixMatrixMultiplication, mkM, mkM, "matrixMatrix");
    if (g.chance(0.5)) modelTable<decltype(p->vectorInnerProduct), dd::vEdge, dd::vEdge>(g, p->vectorInnerProduct, mkV, mkV, "inner");
    if (g.chance(0.5)) { static dd::ComputeTable<dd::mEdge, dd::mEdge, mC, 1> one; one.clear(); modelTable<decltype(one), dd::mEdge, dd::mEdge>(g, one, mkM, mkM, "single bucket"); }
    { // unary tables
        auto& t = p->matrixTranspose; t.clear(); struct E { dd::mEdge k, r; }; std::vector<E> m;
        for (int s = 0; s < 60; s++) { auto k = mkM(); if (g.chance(0.5)) { auto r = mkM(); t.insert(k, r); m.push_back({k, r}); } else if (g.chance(0.05)) { t.clear(); m.clear(); } else { auto r = t.lookup(k); if (r.p == nullptr) continue; const E* last = nullptr; for (auto& e: m) if (e.k == k) last = &e; CHK(last != nullptr && last->r.p == r.p && last->r.w == r.w, "table:unary", "result of another entry"); count("table_hits"); } }
        t.clear();
    }
    { // controlled-gate table
        auto& t = p->toffoliTable; t.clear(); struct E { int n; std::vector<Ctl> c; int t; dd::mEdge r; }; std::vector<E> m; auto eq = [](const std::vector<Ctl>& a, const std::vector<Ctl>& b) { if (a.size() != b.size()) return false; for (std::size_t k = 0; k < a.size(); k++) if (a[k].q != b[k].q || a[k].pos != b[k].pos) return false; return true; };
        for (int s = 0; s < 80; s++) { const int n = g.range(2, 5), tg = g.range(0, n - 1); auto c = randCtl(g, n, {tg}, 0.5); if (g.chance(0.5)) { auto r = mkM(); t.insert(static_cast<dd::QubitCount>(n), toControls(c), static_cast<dd::Qubit>(tg), r); m.push_back({n, c, tg, r}); } else if (g.chance(0.05)) { t.clear(); m.clear(); } else { auto r = t.lookup(static_cast<dd::QubitCount>(n), toControls(c), static_cast<dd::Qubit>(tg)); if (r.p == nullptr) continue; const E* last = nullptr; for (auto& e: m) if (e.n == n && e.t == tg && eq(e.c, c)) last = &e; CHK(last != nullptr && last->r.p == r.p && last->r.w == r.w, "table:toffoli", "controlled-gate entry of another request returned (n=", n, " target ", tg, showCtl(c), ")"); count("toffoli_hits"); } }
        t.clear();
    }
    { // noise tables
        auto& t = p->densityNoise; t.clear(); std::vector<dd::dEdge> de; for (int k = 0; k < 3; k++) { auto e = p->makeZeroDensityOperator(static_cast<dd::QubitCount>(k + 1)); de.push_back(e); } struct E { dd::dEdge k, r; std::vector<dd::Qubit> u; }; std::vector<E> m; auto mk = [&]() { auto e = g.pick(de); e.w = p->cn.lookup(w()); return e; };
        for (int s = 0; s < 80; s++) { auto k = mk(); std::vector<dd::Qubit> u; const int un = g.range(0, 3); for (int q = 0; q < un; q++) u.push_back(static_cast<dd::Qubit>(g.range(0, 3))); if (g.chance(0.5)) { auto r = mk(); t.insert(k, r, u); m.push_back({k, r, u}); } else if (g.chance(0.05)) { t.clear(); m.clear(); } else { auto r = t.lookup(k, u); if (r.p == nullptr) continue; const E* last = nullptr; for (auto& e: m) if (e.k == k && e.u == u) last = &e; CHK(last != nullptr && last->r.p == r.p && last->r.w == r.w, "table:noise", "noise entry of another request returned"); count("noise_hits"); } }
        t.clear();
        auto& st = p->stochasticNoiseOperationCache; st.clear(); std::map<std::pair<int, int>, dd::mEdge> sm; constexpr int K = static_cast<int>(Cfg::STOCHASTIC_CACHE_OPS);
        for (int s = 0; s < 60; s++) { const int k = g.range(0, K - 1), q = g.range(0, 2); if (g.chance(0.5)) { auto r = mkM(); st.insert(static_cast<std::uint8_t>(k), static_cast<dd::Qubit>(q), r); sm[{k, q}] = r; } else if (g.chance(0.05)) { st.clear(); sm.clear(); } else { auto r = st.lookup(static_cast<std::uint8_t>(k), static_cast<dd::Qubit>(q)); auto it = sm.find({k, q}); if (r.p == nullptr) continue; CHK(it != sm.end() && it->second.p == r.p && it->second.w == r.w, "table:stochastic", "operation of another qubit or kind returned"); count("stochastic_hits"); } }
        st.clear();
    }
    // a collection that removes something leaves no entry behind in any of the caches that refer to it
    { auto m = mkM(); p->toffoliTable.insert(2, {}, 0, m); p->stochasticNoiseOperationCache.insert(0, 0, m); p->matrixTranspose.insert(m, m); p->densityNoise.insert(p->makeZeroDensityOperator(1), p->makeZeroDensityOperator(1), {0}); auto z = p->makeZeroDensityOperator(1); p->matrixMatrixMultiplication.insert(m, m, dd::CachedEdge<dd::mNode>(m.p, m.w));
      p->garbageCollect(true); CHK(p->toffoliTable.lookup(2, {}, 0).p == nullptr, "table:stale", "controlled gate survives the collection of its nodes"); CHK(p->stochasticNoiseOperationCache.lookup(0, 0).p == nullptr, "table:stale", "noise operation survives the collection of its nodes"); CHK(p->matrixTranspose.lookup(m).p == nullptr, "table:stale", "transpose survives"); CHK(p->matrixMatrixMultiplication.lookup(m, m).p == nullptr, "table:stale", "product survives"); CHK(p->densityNoise.lookup(z, {0}).p == nullptr, "table:stale", "density noise survives"); count("stale_checks"); }
    rec().distinct(g.u64()); note("tables"); (void)i;
}
template<class Cfg> void both(Rng& g, std::size_t i) { const int k = g.range(0, 9); if (k < 2) tables<Cfg>(g, i); else if (k < 3) density<Cfg>(g, i); else if (k < 5) weights<Cfg>(g, i); else dirty<Cfg>(g, i); }
VH_SPLIT(both)
VH_MAIN("dirty_histories", "fresh_comparisons", "cache_hits_seen", "table_models", "table_hits", "toffoli_hits", "noise_hits", "stochastic_hits", "stale_checks", "density_histories", "gc", "node_collections", "number_collections", "weight_histories")
