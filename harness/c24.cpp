// C24: valid use of the whole public interface under sanitizers, memory checkers and the library's own assertions
#include "hist.hpp"
#include "io.hpp"
#include "shape.hpp"
using namespace vh;
inline std::mt19937_64::result_type one1(std::mt19937_64& m) { return m(); }
template<class Cfg> struct Use {
    using P = dd::Package<Cfg>; Hist<Cfg> h; Rng& g; World<Cfg, HIST_OPS>& w; P& p; std::vector<dd::vEdge> deepV; std::vector<dd::mEdge> deepM; std::mt19937_64 mt; std::string file;
    struct Fixed { std::vector<dd::vEdge> v; std::vector<dd::mEdge> m; int n = 0; std::vector<Vec> dv; std::vector<Mat> dm; std::map<int, Vec> rv; std::map<int, Mat> rm; std::vector<Mat> noise; } fx;
    std::map<std::string, Mat> dn; // density results stored in the noise cache
    explicit Use(Rng& r): h(makeHist<Cfg>(r, 3, 2)), g(r), w(h.w), p(*w.p), mt(r.u64()) { file = "dd_" + std::to_string(getpid()) + ".tmp"; }
    static dd::QubitCount N(int n) { return static_cast<dd::QubitCount>(n); }
    static dd::Qubit Q(int n) { return static_cast<dd::Qubit>(n); }
    template<class E> VH_GLUE void graph(const E& e) { std::ostringstream o; const bool mem = g.chance(0.3); dd::toDot(e, o, g.chance(0.5), g.chance(0.5), g.chance(0.5), mem, g.chance(0.5)); CHK(o.str().find("digraph") != std::string::npos, "use:export", "no graph"); std::ostringstream x; dd::exportEdgeWeights(e, x); CHK(!x.str().empty(), "use:export", "no weights"); count("graphs"); }
    // the same operations on the same referenced operands, again and again in a changing package
    VH_GLUE void again() {
        if (fx.n == 0) { fx.n = g.range(1, std::max(1, w.maxN / 2)); for (int k = 0; k < 2; k++) { fx.dv.push_back(randVec(g, fx.n, 0)); fx.dm.push_back(randMat(g, fx.n, 0)); fx.v.push_back(p.makeStateFromVector(toCVec(fx.dv.back()))); fx.m.push_back(p.makeDDFromMatrix(toCMat(fx.dm.back()))); p.incRef(fx.v.back()); p.incRef(fx.m.back()); } }
        const int n = fx.n; auto V = [&](const dd::vEdge& e, int q, const Vec& want, const char* what) { EQV(evalV(e, q), want, "use:repeated", what); }; auto M = [&](const dd::mEdge& e, int q, const Mat& want, const char* what) { EQV(evalM(e, q), want, "use:repeated", what); };
        for (int r = g.range(3, 24); r > 0; r--) switch (g.range(0, 13)) {
        case 11: case 12: case 13: if (g.chance(0.5)) collectAndReuse(); break;
        case 0: if (2 * n <= static_cast<int>(p.qubits())) V(p.kronecker(fx.v[0], fx.v[1]), 2 * n, kron(fx.dv[0], fx.dv[1]), "state Kronecker product"); break;
        case 1: if (2 * n <= static_cast<int>(p.qubits())) M(p.kronecker(fx.m[0], fx.m[1]), 2 * n, kron(fx.dm[0], fx.dm[1]), "matrix Kronecker product"); break;
        case 2: V(p.add(fx.v[0], fx.v[1]), n, fx.dv[0] + fx.dv[1], "sum of states"); break;
        case 3: M(p.add(fx.m[0], fx.m[1]), n, fx.dm[0] + fx.dm[1], "sum of matrices"); break;
        case 4: V(p.multiply(fx.m[0], fx.v[1]), n, fx.dm[0] * fx.dv[1], "matrix-vector product"); break;
        case 5: M(p.multiply(fx.m[0], fx.m[1]), n, fx.dm[0] * fx.dm[1], "matrix product"); break;
        case 6: M(p.transpose(fx.m[0]), n, transpose(fx.dm[0]), "transpose"); break;
        case 7: M(p.conjugateTranspose(fx.m[1]), n, dagger(fx.dm[1]), "conjugate transpose"); break;
        case 8: { const C a = val(p.innerProduct(fx.v[0], fx.v[1])), b = dot(fx.dv[0], fx.dv[1]); CHK(std::abs(a - b) < 1e-8 * (1 + std::abs(b)), "use:repeated", "inner product ", a, " want ", b); break; }
        case 9: { const int q = w.maxN; std::vector<Ctl> c; for (int x = 1; x < q; x++) c.push_back({x, true}); auto e = p.toffoliTable.lookup(N(q), toControls(c), 0); if (e.p == nullptr) { e = p.makeGateDD(dd::Xmat, N(q), toControls(c), 0); p.toffoliTable.insert(N(q), toControls(c), 0, e); } else count("toffoli_hits"); M(e, q, embed(m2(0, 1, 1, 0), q, {0}, c), "Toffoli gate"); M(p.makeIdent(N(q)), q, Mat::id(std::size_t{1} << q), "identity"); break; }
        default: { const int q = w.maxN; if (fx.noise.empty()) fx.noise.push_back(unitary1(g).dense); const Mat want = embed(fx.noise[0], q, {0}, {}); auto e = p.stochasticNoiseOperationCache.lookup(0, static_cast<dd::Qubit>(p.qubits() - 1)); if (e.p != nullptr) { M(e, q, want, "cached noise operation"); count("noise_hits"); } else { e = p.makeGateDD(gm(fx.noise[0]), N(q), 0); p.stochasticNoiseOperationCache.insert(0, static_cast<dd::Qubit>(p.qubits() - 1), e); } }
        }
        count("repeated");
    }
    // a collection while all numbers are still referenced: only nodes are collected
    VH_GLUE void nodesOnly() { std::vector<dd::CTEntry*> held; for (auto* b: p.cn.complexTable.getTable()) for (auto* e = b; e != nullptr; e = e->next) if (e->refCount == 0) { e->refCount++; held.push_back(e); } p.garbageCollect(true); for (auto* e: held) e->refCount--; count("gc_nodes_only"); }
    VH_GLUE void collectAndReuse() { if (g.chance(0.6)) nodesOnly(); else p.garbageCollect(true); const int n = w.maxN; for (int j = g.range(0, 3); j > 0; j--) { Vec v = randVec(g, n, 0); (void)p.makeStateFromVector(toCVec(v)); Mat m = randMat(g, std::min(n, 3), 0); (void)p.makeDDFromMatrix(toCMat(m)); } w.checkAll(); }
    VH_GLUE void bursts() { // many temporary numbers and nodes at once, then the ordinary use right at the end of the chunks
        const std::size_t cap = p.cn.complexCache.getAllocations(), cnt = p.cn.cacheCount(); std::vector<dd::Complex> l; std::size_t want = g.chance(0.6) ? cap / 2 + 2 - g.below(4) : g.below(3 * cap / 2); if (want > 6000) want = 6000; while (cnt + 2 * l.size() < 2 * want) l.push_back(p.cn.getCached(0.25, static_cast<double>(l.size())));
        for (int k = 0; k < 3; k++) { auto t = p.cn.getTemporary(0.5, 0.25 * k); auto c = p.cn.mulCached(t, t); (void)val(c); l.push_back(c); }
        if (auto* v = w.pickV()) { if (auto* m = w.pickM(v->n)) { auto r = p.multiply(m->e, v->e); EQV(evalV(r, v->n), m->d * v->d, "use:burst", "product"); } }
        const bool rev = g.chance(0.5); while (!l.empty()) { if (rev) { p.cn.returnToCache(l.front()); std::swap(l.front(), l.back()); } else p.cn.returnToCache(l.back()); l.pop_back(); }
        std::vector<dd::vEdge> es; const int nn = g.range(0, 700); for (int k = 0; k < nn; k++) es.push_back(p.makeDDNode(0, std::array<dd::vEdge, 2>{dd::vEdge::one, dd::vEdge{dd::vNode::terminal, p.cn.lookup(g.uni(0.1, 1.0), 0)}})); for (auto& e: es) evalV(e, 1); if (g.chance(0.5)) p.garbageCollect(true); w.checkAll(); count("bursts");
    }
    // diagrams over no qubits: a single number
    VH_GLUE void scalars() {
        const C want = g.chance(0.2) ? C(0) : g.chance(0.2) ? C(1) : C(g.uni(-1, 1), g.uni(-1, 1)); Mat wm(1); wm(0, 0) = want; const dd::Complex c = p.cn.lookup(want.real(), want.imag()); const dd::vEdge sv = dd::vEdge::terminal(c); const dd::mEdge sm = dd::mEdge::terminal(c);
        auto one = [&](const std::string& t, const char* what) { auto l = t; while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back(); CHK(l.find('\n') == std::string::npos, "use:scalar", what, " printed several lines: ", l); auto b = l.find_first_not_of(": "); CHK(b != std::string::npos, "use:scalar", what, " printed nothing"); const C got = parsePlain(l.substr(b)); CHK(std::abs(got.real() - want.real()) <= 6e-3 * std::abs(want.real()) + 1e-9 && std::abs(got.imag() - want.imag()) <= 6e-3 * std::abs(want.imag()) + 1e-9, "use:scalar", what, " printed '", l, "' want ", want); };
        { CoutCapture o; p.printVector(sv); one(o.text(), "state"); } { CoutCapture o; p.printMatrix(sm); one(o.text(), "matrix"); }
        EQV(fromCMat(p.getMatrix(sm)), wm, "use:scalar", "matrix of a number"); { auto v = p.getVector(sv); CHK(v.size() == 1 && std::abs(C(v[0]) - want) < 1e-9, "use:scalar", "vector of a number"); }
        dd::dEdge sd = dd::dEdge::terminal(c); EQV(fromCMat(p.getDensityMatrix(sd)), wm, "use:scalar", "density matrix of a number");
        if (want.real() > 0.01 && want.imag() == 0) { auto pv = p.getProbVectorFromDensityMatrix(sd, 0.); CHK(pv.size() == 1 && pv.count("") == 1 && std::abs(pv[""] - want.real()) < 1e-9, "use:scalar", "probabilities of a number"); }
        count("scalars");
    }
    VH_GLUE void extra() {
        const int k = g.range(0, 27); auto* v = w.pickV(); auto* m = w.pickM(); auto before = p.cn.cacheCount(); note(str("x", k));
        switch (k) {
        case 0: if (v) graph(v->e); if (m) graph(m->e); break;
        case 1: { CoutCapture c; p.statistics(); P::printInformation(); p.vUniqueTable.printStatistics(); p.mUniqueTable.printStatistics(); p.dUniqueTable.printStatistics(); if (g.chance(0.2)) { p.cn.complexTable.print(); p.vUniqueTable.print(); p.mUniqueTable.print(); } p.vUniqueTable.printActive(); (void)p.cn.complexTable.getStatistics(); std::ostringstream o; p.cn.complexTable.printBucketDistribution(o); p.cn.complexTable.printStatistics(o); CHK(!c.text().empty(), "use:print", "nothing printed"); count("statistics"); break; }
        case 2: if (v && !v->e.isTerminal()) { CoutCapture c; p.printVector(v->e); CHK(!c.text().empty(), "use:print", "nothing printed"); count("printed"); } if (m && !m->e.isTerminal()) { CoutCapture c; p.printMatrix(m->e); CHK(!c.text().empty(), "use:print", "nothing printed"); } if (g.chance(0.3)) scalars(); break;
        case 3: if (v && !v->e.isTerminal()) { std::ostringstream o; const bool bin = g.chance(0.5); p.exportAmplitudes(v->e, o, N(v->n), bin); std::vector<std::complex<dd::fp>> a(v->d.size()), b(v->d.size()); p.exportAmplitudes(v->e, a, N(v->n)); p.addAmplitudes(v->e, b, N(v->n)); EQV(Vec(a.begin(), a.end()), v->d, "use:amplitudes", "exported amplitudes"); EQV(Vec(b.begin(), b.end()), v->d, "use:amplitudes", "added amplitudes"); count("amplitudes"); } break;
        case 4: if (v) { dd::ProbabilityVector pv; double want = 0; for (std::size_t i = 0; i < v->d.size(); i++) if (g.chance(0.6)) { const double x = g.uni(); pv[i] = x; want += std::sqrt(x) * std::abs(v->d[i]); } if (!v->e.isTerminal() && v->d.size() > 1) { const double f = p.fidelityOfMeasurementOutcomes(v->e, pv); CHK(std::isfinite(f) && std::abs(f - want) < 1e-6 * (1 + std::abs(want)), "use:outcomes", "outcome fidelity ", f, " want ", want); count("outcomes"); } } break;
        case 5: if (m && !m->e.isTerminal()) { (void)p.isCloseToIdentity(m->e, 1e-6); count("identity_tests"); } break;
        case 6: { const int n = w.rn(), t = g.range(0, n - 1); auto G = gate1(g); const auto kind = static_cast<std::uint8_t>(g.below(Cfg::STOCHASTIC_CACHE_OPS)); auto c = p.stochasticNoiseOperationCache.lookup(kind, Q(t)); if (c.p != nullptr) CHK(c.p->v >= t || c.p->v < 128, "use:noise", "level"); auto e = p.makeGateDD(G.mat, N(n), Q(t)); p.stochasticNoiseOperationCache.insert(kind, Q(t), e); CHK(p.stochasticNoiseOperationCache.lookup(kind, Q(t)) == e, "use:noise", "just stored operation not found"); count("noise_cache"); break; }
        case 7: if (!h.dw.ds.empty()) { auto& d = h.dw.ds[g.below(h.dw.ds.size())]; auto e = d.e; std::vector<dd::Qubit> q; for (int x = 0; x < h.dn; x++) if (g.chance(0.5)) q.push_back(Q(x)); dd::dEdge::alignDensityEdge(e); auto key = [&](const dd::dEdge& x) { std::string s = str(reinterpret_cast<std::uintptr_t>(x.p), x.w); for (auto y: q) s += "," + std::to_string(int(y)); return s; };
            auto old = p.densityNoise.lookup(e, q); if (old.p != nullptr) { auto it = dn.find(key(e)); CHK(it != dn.end(), "use:noise", "density result that was never stored"); EQV(evalD(old, h.dn - 1, false), it->second, "use:noise", "cached density result"); count("density_noise_hits"); }
            { const std::size_t D = std::size_t{1} << h.dn; auto res = p.makeZeroDensityOperator(N(h.dn)); Mat dm(D); dm(0, 0) = 1; for (int s = 0; s < 2; s++) { const int t = g.range(0, h.dn - 1); auto G = unitary1(g); p.incRef(res); p.applyOperationToDensity(res, p.makeGateDD(G.mat, N(h.dn), Q(t)), false); auto U = embed(G.dense, h.dn, {t}, {}); dm = U * dm * dagger(U); p.decRef(res); } p.densityNoise.insert(e, res, q); const bool gc = g.chance(0.3); if (gc) { nodesOnly(); auto j = p.makeZeroDensityOperator(N(h.dn)); p.incRef(j); p.applyOperationToDensity(j, p.makeGateDD(unitary1(g).mat, N(h.dn), 0), false); p.decRef(j); } auto r = p.densityNoise.lookup(e, q); if (r.p != nullptr) EQV(evalD(r, h.dn - 1, false), dm, "use:noise", "density result in the noise cache"); else CHK(gc, "use:noise", "just stored density result not found"); dn[key(e)] = dm; } count("density_noise"); } break;
        case 8: { const int n = w.rn(); std::vector<bool> a(static_cast<std::size_t>(n)); for (auto&& b: a) b = g.chance(0.4); Mat wm(std::size_t{1} << n); for (std::size_t i = 0; i < wm.d; i++) { bool z = false; for (int q = 0; q < n; q++) z |= a[static_cast<std::size_t>(q)] && ((i >> q) & 1U); wm(i, i) = z ? 0 : 1; } auto e = p.createInitialMatrix(N(n), a); w.store(e, wm, n, "initial matrix"); p.decRef(e); count("initial"); break; }
        case 9: { const int n = w.rn(); std::vector<bool> gb(static_cast<std::size_t>(n)); for (auto&& b: gb) b = g.chance(0.4); if (g.chance(0.5)) { Mat pm = randMat(g, n, 5); for (auto& x: pm.a) x = 0; auto perm = g.perm(static_cast<int>(pm.d)); for (std::size_t i = 0; i < pm.d; i++) pm(static_cast<std::size_t>(perm[i]), i) = 1; auto e = p.makeDDFromMatrix(toCMat(pm)); p.incRef(e); e = p.reduceGarbage(e, gb, g.chance(0.5)); evalM(e, n); p.decRef(e); } else { std::vector<bool> b(static_cast<std::size_t>(n)); for (auto&& x: b) x = g.chance(0.5); auto e = p.makeBasisState(N(n), b); p.incRef(e); e = p.reduceGarbage(e, gb); evalV(e, n); p.decRef(e); } count("garbage"); break; }
        case 10: { const int n = g.range(1, std::max(1, w.maxN - 1)), s = g.range(0, static_cast<int>(p.qubits()) - n); auto e = p.makeZeroState(N(n), static_cast<std::size_t>(s)); auto t = g.range(0, n - 1); auto o = p.makeGateDD(gate1(g, g.range(0, 19)).mat, N(n), Q(s + t), static_cast<std::size_t>(s)); auto r = p.multiply(o, e, Q(s)); auto r2 = p.multiply(o, p.conjugateTranspose(o), Q(s)); CHK(r.p->v == s + n - 1 && r2.p->v == s + n - 1, "use:offset", "level"); (void)p.size(r); (void)p.add(r, e); p.incRef(r); p.incRef(r2); if (g.chance(0.5)) { p.garbageCollect(true); evalV(dd::vEdge{r.p, r.w}, n, s); } p.decRef(r2); p.decRef(r); count("offset"); break; }
        case 11: { if (g.chance(0.5)) p.clearComputeTables(); else p.clearIdentityTable(); count("clears"); break; }
        case 12: if (g.chance(0.5)) { const auto nq = g.chance(0.3) ? std::max<std::size_t>(p.qubits(), static_cast<std::size_t>(g.range(96, 128))) : std::min<std::size_t>(128, p.qubits() + g.below(20)); p.resize(nq); w.checkAll(); count("growth"); } break;
        case 13: if (g.chance(0.15)) { p.reset(); w.vs.clear(); w.ms.clear(); h.dw.ds.clear(); deepV.clear(); deepM.clear(); fx = Fixed{}; dn.clear(); before = 0; count("resets"); } break;
        case 14: { const int lv = std::is_same_v<Cfg, Tiny> ? 3 : g.range(4, 40); if (static_cast<std::size_t>(lv) > p.qubits()) p.resize(static_cast<std::size_t>(lv)); auto e = layeredV(p, g, lv, g.range(1, 4), w.hist); p.incRef(e); deepV.push_back(e); count("deep"); break; }
        case 15: { const int lv = std::is_same_v<Cfg, Tiny> ? 3 : g.range(4, 10); if (static_cast<std::size_t>(lv) > p.qubits()) p.resize(static_cast<std::size_t>(lv)); auto e = layeredM(p, g, lv, g.range(1, 3), w.hist); p.incRef(e); deepM.push_back(e); count("deep"); break; }
        case 16: if (!deepV.empty()) { auto e = g.pick(deepV); const int n = e.p->v + 1; for (int q = 0; q < 3; q++) { const int t = g.range(0, n - 1); auto o = p.makeGateDD(cliffordT(g).mat, N(n), toControls(randCtl(g, n, {t}, 0.2)), Q(t)); e = p.multiply(o, e); } (void)p.innerProduct(e, e); (void)p.size(e); graph(e); p.incRef(e); deepV.push_back(e); if (deepV.size() > 5) { p.decRef(deepV[0]); deepV.erase(deepV.begin()); } count("deep_steps"); } break;
        case 17: if (!deepM.empty()) { auto e = g.pick(deepM); auto t = p.conjugateTranspose(e); auto u = p.transpose(t); if (p.size(e) < 40) (void)p.trace(u); std::vector<bool> el(static_cast<std::size_t>(e.p->v) + 1); for (auto&& b: el) b = g.chance(0.3); if (p.size(e) < 30) (void)p.partialTrace(e, el); graph(e); (void)p.size(u); count("deep_steps"); } break;
        case 18: if (v) { const bool bin = g.chance(0.5); dd::serialize(v->e, file, bin); auto e = p.template deserialize<dd::vNode>(file, bin); EQV(evalV(e, v->n), v->d, "use:file", "state loaded from a file"); if (m) { dd::serialize(m->e, file, bin); auto f = p.template deserialize<dd::mNode>(file, bin); EQV(evalM(f, m->n), m->d, "use:file", "matrix loaded from a file"); } if (!v->e.isTerminal()) p.exportAmplitudes(v->e, file, N(v->n), bin); unlink(file.c_str()); count("files"); } break;
        case 19: { auto o = makePkg<Cfg>(static_cast<std::size_t>(p.qubits())); if (v) { auto e = v->e; auto t = o->transfer(e); EQV(evalV(t, v->n), v->d, "use:transfer", "state"); } if (m) { auto e = m->e; auto t = o->transfer(e); EQV(evalM(t, m->n), m->d, "use:transfer", "matrix"); } count("transfers"); break; }
        case 20: { std::ostringstream lg; auto* old = std::clog.rdbuf(lg.rdbuf()); bool a = true, b = true; if (v) { a = p.isLocallyConsistent(v->e); p.debugnode(v->e.p); } if (m) { b = p.isLocallyConsistent(m->e); p.debugnode(m->e.p); } std::clog.rdbuf(old); CHK(a && b, "use:consistency", "a referenced diagram is reported inconsistent: ", lg.str()); count("consistency"); break; }
        case 21: { // number arithmetic and text
            auto c = p.cn.lookup(g.gauss(), g.gauss()), d = p.cn.getTemporary(g.gauss(), g.gauss()), e = p.cn.mulCached(c, d), f = p.cn.addCached(c, e); auto q = p.cn.getCached(); if (std::abs(val(d)) > 1e-3) dd::ComplexNumbers::div(q, c, d); p.cn.returnToCache(q); (void)f.toString(true, g.range(-1, 12)); std::ostringstream o; o << f << e; p.cn.returnToCache(f); p.cn.returnToCache(e); std::stringstream b(std::ios::in | std::ios::out | std::ios::binary); c.writeBinary(b); dd::ComplexValue x; x.readBinary(b); CHK(std::abs(val(x) - val(c)) < 1e-12, "use:number", "number after binary round trip"); count("numbers"); break; }
        case 22: { // several packages at the same time, destroyed in any order
            auto o = std::make_unique<World<Cfg, ops({NEWV, NEWM, GATE, MULV, MULM, ADDV, GC})>>(g, std::min(3, w.maxN)); for (int s = g.range(1, 12); s > 0; s--) o->step(g.pick(std::vector<int>{NEWV, NEWM, GATE, MULV, MULM, ADDV, GC})); if (g.chance(0.5)) o->releaseAll(); count("more_packages"); break; }
        case 23: case 24: case 25: again(); break;
        case 26: if (g.chance(0.3)) { bursts(); if (g.chance(0.4)) { p.reset(); w.vs.clear(); w.ms.clear(); h.dw.ds.clear(); deepV.clear(); deepM.clear(); fx = Fixed{}; dn.clear(); before = 0; bursts(); } } break;
        default: { // sampling with edge values of the generator
            if (v && w.normalizedState(*v)) { for (int s = 0; s < 3; s++) { auto e = v->e; auto r = p.measureAll(e, false, mt, g.pick(std::vector<double>{0.001, 1e-6, 0.1})); CHK(r.size() == static_cast<std::size_t>(v->n), "use:sample", "'", r, "'"); } count("samples"); } break; }
        }
        if (p.cn.cacheCount() != before) fail("cache-leak", str("extra operation ", k, " changed the number of temporary numbers from ", before, " to ", p.cn.cacheCount()));
    }
    void run(std::size_t i) {
        const int steps = g.range(20, 90); for (int s = 0; s < steps; s++) { if (g.chance(0.35)) extra(); else h.step(); }
        auditPackage(p); w.checkAll();
        const int end = g.range(0, 3); // how the package ends: with or without references and collections
        if (end > 0) { h.releaseAll(); for (auto& e: deepV) p.decRef(e); for (auto& e: deepM) p.decRef(e); for (auto& e: fx.v) p.decRef(e); for (auto& e: fx.m) p.decRef(e); } if (end > 1) p.garbageCollect(true); if (end > 2) { p.reset(); w.step(NEWV); }
        rec().distinct(w.hist); if (i < 8) rec().sample(rec().cur);
    }
};
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) { auto u = std::make_unique<Use<Cfg>>(g); u->run(i); }
VH_SPLIT(body)
VH_MAIN("graphs", "statistics", "printed", "amplitudes", "outcomes", "identity_tests", "noise_cache", "density_noise", "initial", "garbage", "offset", "clears", "growth", "resets", "deep_steps", "files", "transfers", "consistency", "numbers", "more_packages", "samples", "gc_nodes_only", "compact_steps", "repeated", "bursts", "noise_hits", "density_noise_hits")
