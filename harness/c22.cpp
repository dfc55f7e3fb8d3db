// C22: requests beyond the capacity or with inconsistent shapes
#include "world.hpp"
#include <climits>
#include <fstream>
#include <sys/stat.h>
using namespace vh;
constexpr std::uint64_t OPS22 = ops({NEWV, NEWM, GATE, MULV, ADDV, MULM, KRONV, KRONM, IDENT, GC});
enum Kind { RT, IA, LOGIC }; // documented kinds: runtime_error, invalid_argument
template<class Cfg> struct Cap {
    Rng& g; World<Cfg, OPS22> w; dd::Package<Cfg>& p; int nq; std::uint64_t hh = 1; dd::vEdge* held = nullptr; bool densityHeld = false;
    Cap(Rng& r, int cap, int maxN): g(r), w(r, std::min(cap, maxN), cap - std::min(cap, maxN)), p(*w.p), nq(cap) { w.snaps = true; for (int k = 0; k < 4 && w.maxN > 0; k++) { w.step(NEWV); w.step(NEWM); w.step(GATE); } }
    VH_GLUE void intact(const std::string& how) { // a rejected request leaves no trace but unreferenced nodes
        CHK(p.cn.cacheCount() == 0, "reject:loan", how, ": temporary numbers lost"); CHK(p.qubits() == static_cast<std::size_t>(nq), "reject:qubits", how, ": number of qubits changed"); w.checkAll();
        RefModel r; for (auto& s: w.vs) r.addRoot(s.e); for (auto& m: w.ms) r.addRoot(m.e); if (held) r.addRoot(*held); r.compareNodes(p.vUniqueTable, "vector"); r.compareNodes(p.mUniqueTable, "matrix"); if (!densityHeld) r.compareNumbers(p.cn.complexTable, true);
    }
    template<class F> VH_GLUE void request(bool ok, Kind kind, const std::string& how, const F& f) {
        note(how + (ok ? "+" : "-")); hh = mix(hh ^ fnv(how)); bool thrown = false;
        try { f(); }
        catch (const Fail&) { throw; }
        catch (const std::invalid_argument& x) { thrown = true; CHK(!ok, "reject:fits", how, " was rejected: ", x.what()); CHK(kind == IA, "reject:kind", how, " raises invalid_argument: ", x.what()); }
        catch (const std::runtime_error& x) { thrown = true; CHK(!ok, "reject:fits", how, " was rejected: ", x.what()); CHK(kind == RT, "reject:kind", how, " raises runtime_error: ", x.what()); }
        catch (const std::exception& x) { fail("reject:kind", str(how, " raises ", typeid(x).name(), ": ", x.what())); }
        CHK(thrown == !ok, "reject:accepted", how, " was accepted"); if (!ok) { count(kind == RT ? "rejected_capacity" : "rejected_argument"); if (g.chance(0.3)) intact(how); } else count("accepted");
    }
    // a state of qubits start..start+n-1 given by one edge per level
    VH_GLUE void top(const dd::vEdge& e, int n, int start) { if (n == 0) { CHK(e.isTerminal(), "accept:level", "terminal expected"); return; } CHK(!e.isTerminal() && e.p->v == start + n - 1, "accept:level", "top level of ", n, " qubits from ", start); }
    VH_GLUE void top(const dd::mEdge& e, int n, int start) { if (n == 0) { CHK(e.isTerminal(), "accept:level", "terminal expected"); return; } CHK(!e.isTerminal() && e.p->v == start + n - 1, "accept:level", "top level of ", n, " qubits from ", start); }
    VH_GLUE C amp(const dd::vEdge& e, const std::vector<int>& b) { C r = val(e.w); auto* q = e.p; while (!dd::vNode::isTerminal(q)) { auto& x = q->e[static_cast<std::size_t>(b.at(static_cast<std::size_t>(q->v)))]; r *= val(x.w); q = x.p; } return r; }
    VH_GLUE void size() { // a register of n qubits from start, around the capacity
        const int total = std::max(0, nq + g.range(-3, 3)); const int start = g.chance(0.5) ? 0 : g.range(0, total); const int n = std::max(0, total - start); const bool ok = n + start <= nq; const auto N = static_cast<dd::QubitCount>(n); const auto S = static_cast<std::size_t>(start); const std::string at = str(" n=", n, " start=", start, " capacity=", nq);
        switch (g.range(0, 7)) {
        case 0: request(ok, RT, "zero state" + at, [&] { auto e = p.makeZeroState(N, S); top(e, n, start); CHK(std::abs(amp(e, std::vector<int>(128)) - C(1)) < 1e-12, "accept:value", "zero state"); }); break;
        case 1: { const int len = g.chance(0.6) ? n + start : std::max(0, n + start + g.range(-2, 2)); std::vector<bool> b(static_cast<std::size_t>(len)); std::vector<int> bi(140); for (int q = 0; q < len; q++) { b[static_cast<std::size_t>(q)] = g.chance(0.5); bi[static_cast<std::size_t>(q)] = b[static_cast<std::size_t>(q)]; } request(ok && len >= n + start, RT, "basis state" + at + str(" bits=", len), [&] { auto e = p.makeBasisState(N, b, S); top(e, n, start); CHK(std::abs(amp(e, bi) - C(1)) < 1e-12, "accept:value", "basis state"); }); if (ok && len < n + start) count("too_few_bits"); break; }
        case 2: { const int len = g.chance(0.6) ? n + start : std::max(0, n + start + g.range(-2, 2)); std::vector<dd::BasisStates> b; std::vector<int> bi(140); double a = 1; C f = 1; for (int q = 0; q < len; q++) { const int t = g.range(0, 5); b.push_back(static_cast<dd::BasisStates>(t)); const int bit = t == 0 ? 0 : t == 1 ? 1 : g.range(0, 1); bi[static_cast<std::size_t>(q)] = bit; if (q >= start && q < start + n && t > 1) { a *= std::sqrt(0.5); if (bit) f *= t == 3 ? C(-1) : t == 4 ? C(0, 1) : t == 5 ? C(0, -1) : C(1); } }
            request(ok && len >= n + start, RT, "product state" + at + str(" labels=", len), [&] { auto e = p.makeBasisState(N, b, S); top(e, n, start); const C v = amp(e, bi); CHK(std::abs(v - a * f) < 1e-9 * a + 1e-12, "accept:value", "amplitude ", v, " want ", a * f); }); if (ok && len < n + start) count("too_few_bits"); break; }
        case 3: { // gates
            const int m = std::max(1, n); const bool okg = m + start <= nq; const int t = start + g.range(0, m - 1); if (t > 127) break; auto G = gate1(g); dd::Controls c; for (int q = start; q < start + m && q < 128; q++) if (q != t && g.chance(0.2)) c.insert(dd::Control{static_cast<dd::Qubit>(q), g.chance(0.5) ? dd::Control::Type::pos : dd::Control::Type::neg});
            request(okg, RT, "gate" + at + str(" target=", t), [&] { auto e = p.makeGateDD(G.mat, static_cast<dd::QubitCount>(m), c, static_cast<dd::Qubit>(t), S); if (!(e == dd::mEdge::zero)) top(e, m, start); });
            if (c.empty()) request(okg, RT, "gate/1" + at, [&] { (void)p.makeGateDD(G.mat, static_cast<dd::QubitCount>(m), static_cast<dd::Qubit>(t), S); }); else if (c.size() == 1) request(okg, RT, "gate/2" + at, [&] { (void)p.makeGateDD(G.mat, static_cast<dd::QubitCount>(m), *c.begin(), static_cast<dd::Qubit>(t), S); });
            break; }
        case 4: { // two-qubit gates of every kind
            const int m = std::max(2, n); const bool okg = m + start <= nq; int a = start + g.range(0, m - 1), b = start + g.range(0, m - 2); if (b >= a) b++; if (std::max(a, b) > 127) break; std::vector<Ctl> ctl; if (m > 2 && g.chance(0.4)) { int q = start; while (q == a || q == b) q++; if (q < 128) ctl.push_back({q, true}); }
            if (start + m > 140) break; const int kind = g.range(0, 13); request(okg, RT, "two-qubit gate" + at + str(" kind=", kind, " controls=", ctl.size()), [&] { auto r = dd2(m, a, b, ctl, start, kind); top(r, m, start); }); count("two_qubit_requests"); break; }
        case 5: request(n <= nq, RT, str("identity n=", n, " capacity=", nq), [&] { auto e = p.makeIdent(N); top(e, n, 0); }); if (total <= 128 && total > 0) { const int lo = g.range(0, total - 1), hi = total - 1; request(hi < nq, RT, str("identity ", lo, "..", hi, " capacity=", nq), [&] { auto e = p.makeIdent(static_cast<dd::Qubit>(lo), static_cast<dd::Qubit>(hi)); top(e, hi - lo + 1, lo); }); } if (g.chance(0.2) && nq > 0) request(true, RT, "empty identity", [&] { const int k = g.range(1, std::min(nq, 127)); CHK(p.makeIdent(static_cast<dd::Qubit>(k), static_cast<dd::Qubit>(k - 1)) == dd::mEdge::one, "accept:value", "empty identity"); }); break;
        case 6: if constexpr (!std::is_same_v<Cfg, Std>) request(n <= nq, RT, str("density operator n=", n, " capacity=", nq), [&] { auto e = p.makeZeroDensityOperator(N); if (n > 0) CHK(e.p->v == n - 1, "accept:level", "density operator"); else CHK(e.p->v == -1, "accept:level", "density operator"); }); break;
        default: { const int m = std::max(1, n); const bool okg = m <= nq; std::vector<bool> anc(static_cast<std::size_t>(m)); for (auto&& x: anc) x = g.chance(0.3); request(okg, RT, str("initial matrix n=", m, " capacity=", nq), [&] { auto e = p.createInitialMatrix(static_cast<dd::QubitCount>(m), anc); top(e, m, 0); p.decRef(e); }); break; }
        }
    }
    VH_GLUE dd::mEdge dd2(int n, int a, int b, const std::vector<Ctl>& ctl, int start, int kind) { // the operation only (its dense form would be too large)
        const auto N = static_cast<dd::QubitCount>(n); const auto A = static_cast<dd::Qubit>(a), B = static_cast<dd::Qubit>(b); const auto S = static_cast<std::size_t>(start); const auto c = toControls(ctl); const double th = 0.7, be = 0.3;
        if (c.empty()) switch (kind) { case 0: return p.makeSWAPDD(N, A, B, S); case 1: return p.makeiSWAPDD(N, A, B, S); case 2: return p.makeiSWAPinvDD(N, A, B, S); case 3: return p.makeDCXDD(N, A, B, S); case 4: return p.makeRZZDD(N, A, B, th, S); case 5: return p.makeRYYDD(N, A, B, th, S); case 6: return p.makeRXXDD(N, A, B, th, S); case 7: return p.makeRZXDD(N, A, B, th, S); case 8: return p.makeECRDD(N, A, B, S); case 9: return p.makeXXMinusYYDD(N, A, B, th, be, S); case 10: return p.makeXXPlusYYDD(N, A, B, th, be, S); case 11: return p.makePeresDD(N, c, A, B, S); case 12: return p.makePeresdagDD(N, c, A, B, S); default: return p.makeTwoQubitGateDD(dd::SWAPmat, N, A, B, S); }
        switch (kind) { case 0: return p.makeSWAPDD(N, c, A, B, S); case 1: return p.makeiSWAPDD(N, c, A, B, S); case 2: return p.makeiSWAPinvDD(N, c, A, B, S); case 3: return p.makeDCXDD(N, c, A, B, S); case 4: return p.makeRZZDD(N, c, A, B, th, S); case 5: return p.makeRYYDD(N, c, A, B, th, S); case 6: return p.makeRXXDD(N, c, A, B, th, S); case 7: return p.makeRZXDD(N, c, A, B, th, S); case 8: return p.makeECRDD(N, c, A, B, S); case 9: return p.makeXXMinusYYDD(N, c, A, B, th, be, S); case 10: return p.makeXXPlusYYDD(N, c, A, B, th, be, S); case 11: return p.makePeresDD(N, c, A, B, S); default: return p.makePeresdagDD(N, c, A, B, S); }
    }
    VH_GLUE void vector() {
        const std::size_t len = g.chance(0.5) ? g.below(71) : std::size_t{1} << g.range(0, std::min(nq + 3, 10)); Vec d(len); for (auto& x: d) x = C(g.uni(0.1, 1), g.uni(-1, 1)); const bool pow2 = (len & (len - 1)) == 0; int n = 0; while ((std::size_t{2} << n) <= len) n++;
        request(pow2 && (len <= 1 || n <= nq), pow2 ? RT : IA, str("vector of length ", len, " capacity=", nq), [&] { auto e = p.makeStateFromVector(toCVec(d)); if (len == 0) CHK(e == dd::vEdge::one, "accept:value", "empty vector"); else { EQV(evalV(e, n), d, "accept:value", "state of length ", len); top(e, n, 0); } }); if (!pow2) count("odd_vectors");
    }
    VH_GLUE void matrix() {
        const std::size_t rows = g.chance(0.5) ? g.below(20) : std::size_t{1} << g.range(0, std::min(nq + 2, 5)); std::vector<std::vector<std::complex<double>>> d(rows, std::vector<std::complex<double>>(rows)); if (g.chance(0.4)) { if (g.chance(0.5)) { const std::size_t c = g.below(20); for (auto& r: d) r.resize(c); } else if (rows > 0) d[g.below(rows)].resize(g.chance(0.5) ? rows + 1 : g.chance(0.5) ? rows - 1 : g.below(20)); }
        bool square = true; for (auto& r: d) { square = square && r.size() == rows; for (auto& x: r) x = C(g.uni(0.1, 1), g.uni(-1, 1)); } const bool pow2 = (rows & (rows - 1)) == 0; int n = 0; while ((std::size_t{2} << n) <= rows) n++;
        request((pow2 && square && (rows <= 1 || n <= nq)), pow2 && square ? RT : IA, str("matrix of ", rows, " rows ", square ? "" : "not square ", "capacity=", nq), [&] { dd::CMat m; for (auto& r: d) { m.emplace_back(); for (auto& x: r) m.back().push_back(x); } auto e = p.makeDDFromMatrix(m); if (rows == 0) CHK(e == dd::mEdge::one, "accept:value", "empty matrix"); else { Mat want(rows); for (std::size_t i = 0; i < rows; i++) for (std::size_t j = 0; j < rows; j++) want(i, j) = d[i][j]; EQV(evalM(e, n), want, "accept:value", "matrix of ", rows, " rows"); top(e, n, 0); } }); if (!square) count("ragged_matrices");
    }
    VH_GLUE void products() {
        if (nq < 1) return; const int a = g.range(0, nq), b = std::max(0, std::min(nq, nq - a + g.range(-1, 2))); const bool ok = a + b <= nq; const std::string at = str(a, "+", b, " capacity=", nq);
        auto va = p.makeZeroState(static_cast<dd::QubitCount>(a)), vb = p.makeZeroState(static_cast<dd::QubitCount>(b)); auto ma = p.makeIdent(static_cast<dd::QubitCount>(a)), mb = p.makeIdent(static_cast<dd::QubitCount>(b));
        switch (g.range(0, 4)) {
        case 0: request(ok, RT, "state product " + at, [&] { auto e = p.kronecker(va, vb); top(e, a + b, 0); CHK(e == p.makeZeroState(static_cast<dd::QubitCount>(a + b)), "accept:value", "product of zero states"); }); break;
        case 1: request(ok, RT, "matrix product " + at, [&] { auto e = p.kronecker(ma, mb); top(e, a + b, 0); CHK(e == p.makeIdent(static_cast<dd::QubitCount>(a + b)), "accept:value", "product of identities"); }); break;
        case 2: { if (b > 127) break; request(ok, RT, "extension " + at, [&] { auto e = g.chance(0.5) ? p.extend(ma, static_cast<dd::Qubit>(b)) : p.extend(ma, 0, static_cast<dd::Qubit>(b)); top(e, a + b, 0); CHK(e == p.makeIdent(static_cast<dd::QubitCount>(a + b)), "accept:value", "extended identity"); }); break; }
        case 3: { if (a == b || nq > 20) break; auto big = p.makeZeroState(static_cast<dd::QubitCount>(b)); request(false, IA, str("expectation of ", a, " qubits on ", b), [&] { (void)p.expectationValue(ma, big); }); count("mismatched"); break; }
        default: if (nq > 20 || a == 0) break; request(true, RT, "expectation", [&] { auto s = p.makeZeroState(static_cast<dd::QubitCount>(a)); p.incRef(s); p.incRef(ma); const double r = p.expectationValue(ma, s); CHK(std::abs(r - 1) < 1e-12, "accept:value", "expectation ", r); p.decRef(s); p.decRef(ma); }); }
        count("products");
    }
    VH_GLUE void packages() {
        const std::size_t want = g.pick(std::vector<std::size_t>{0, 1, 2, 127, 128, 129, 130, 255, 256, 257, 1000, std::size_t{1} << 32, (std::size_t{1} << 32) + 1, SIZE_MAX}); const std::string how = str("package of ", want);
        request(want <= 128, IA, how, [&] { auto q = std::make_unique<dd::Package<Cfg>>(want); CHK(q->qubits() == want, "accept:value", "number of qubits"); auto e = q->makeZeroState(static_cast<dd::QubitCount>(want)); top(e, static_cast<int>(want), 0); auto I = q->makeIdent(static_cast<dd::QubitCount>(want)); top(I, static_cast<int>(want), 0); });
        const std::size_t re = std::max<std::size_t>(static_cast<std::size_t>(nq), g.pick(std::vector<std::size_t>{0, 1, 127, 128, 129, 200, 256, 1000, SIZE_MAX})); request(re <= 128, IA, str("resize from ", nq, " to ", re), [&] { p.resize(re); nq = static_cast<int>(re); }); intact("resize"); count("packages");
    }
    VH_GLUE void files() {
        char dir[] = "/tmp/vhc22XXXXXX"; if (mkdtemp(dir) == nullptr) { std::cerr << "cannot create a scratch directory\n"; _exit(2); } const std::string d = dir;
        const std::string missing = d + "/missing", nodir = d + "/no/such/dir/file", good = d + "/good"; const bool bin = g.chance(0.5); auto* v = w.pickV(); auto* m = w.pickM();
        request(false, IA, "loading a missing file", [&] { if (g.chance(0.5)) (void)p.template deserialize<dd::vNode>(missing, bin); else (void)p.template deserialize<dd::mNode>(missing, bin); });
        request(false, IA, "loading from a missing directory", [&] { (void)p.template deserialize<dd::vNode>(nodir, bin); });
        if (v) request(false, IA, "saving into a missing directory", [&] { dd::serialize(v->e, nodir, bin); }); if (m) request(false, IA, "saving a matrix into a missing directory", [&] { dd::serialize(m->e, nodir, bin); });
        { std::ofstream(good, std::ios::binary).close(); bool raised = false; try { (void)p.template deserialize<dd::vNode>(good, bin); } catch (const std::exception&) { raised = true; } CHK(raised, "reject:accepted", "an empty file was loaded"); count("empty_files"); }
        if (v) { auto a = *v; dd::serialize(a.e, good, bin); auto e = p.template deserialize<dd::vNode>(good, bin); EQV(evalV(e, a.n), a.d, "accept:value", "loaded state"); std::string s; { std::ifstream f(good, std::ios::binary); std::stringstream o; o << f.rdbuf(); s = o.str(); }
            { std::string t = s; if (bin) t[g.below(8)] ^= 0x10; else t = str(g.pick(std::vector<int>{0, 2, 3, 11, 100})) + t.substr(t.find('\n')); std::ofstream(good, std::ios::binary) << t; request(false, RT, "another format version", [&] { (void)p.template deserialize<dd::vNode>(good, bin); }); } }
        unlink(good.c_str()); rmdir(dir); count("files");
    }
    VH_GLUE void measure() {
        if (w.maxN < 1) return; const int n = g.range(1, w.maxN); Vec d = randVec(g, n, 0); const double nm = norm2(d); if (nm < 1e-3) return; const bool zero = g.chance(0.2), unit = !zero && g.chance(0.4); const double target = zero ? 0 : unit ? 1 : g.pick(std::vector<double>{0.25, 0.81, 0.98, 1.02, 1.2, 4, 9}); for (auto& x: d) x *= std::sqrt(target / nm);
        auto e = p.makeStateFromVector(toCVec(d)); p.incRef(e); held = &e; std::mt19937_64 mt(g.u64()); const int q = g.range(0, n - 1);
        request(unit, RT, str("measuring a qubit of a state of norm ", target), [&] { const char c = p.measureOneCollapsing(e, static_cast<dd::Qubit>(q), true, mt); CHK(c == '0' || c == '1', "accept:value", "outcome"); const auto r = evalV(e, n); CHK(std::abs(norm2(r) - 1) < 1e-9, "accept:value", "norm after a measurement"); for (std::size_t i = 0; i < r.size(); i++) if (((i >> q) & 1U) != static_cast<std::size_t>(c - '0')) CHK(std::abs(r[i]) < 1e-9, "accept:value", "amplitude of the other outcome"); });
        if (!unit) EQV(evalV(e, n), d, "reject:state", "state after a rejected measurement"); RefModel r; for (auto& s: w.vs) r.addRoot(s.e); for (auto& m: w.ms) r.addRoot(m.e); r.addRoot(e); r.compareNodes(p.vUniqueTable, "vector"); held = nullptr; p.decRef(e); count(unit ? "measured" : "unnormalised");
    }
    VH_GLUE void density() { if constexpr (!std::is_same_v<Cfg, Std>) if (nq >= 64) { const int n = g.range(64, nq); auto e = p.makeZeroDensityOperator(static_cast<dd::QubitCount>(n)); p.incRef(e); densityHeld = true; request(false, RT, str("outcome table of ", n, " qubits"), [&] { (void)p.getProbVectorFromDensityMatrix(e, 0.01); }); densityHeld = false; p.decRef(e); count("large_density"); } }
};
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    const int cap = g.chance(0.6) ? g.range(0, 6) : g.pick(std::vector<int>{7, 31, 32, 33, 62, 63, 64, 65, 100, 126, 127, 128, 128}); const bool tiny = std::is_same_v<Cfg, Tiny>;
    Cap<Cfg> c(g, tiny && cap > 20 ? g.range(0, 20) : cap, tiny ? 2 : 3); const int len = g.range(8, 25);
    for (int s = 0; s < len; s++) {
        switch (g.range(0, 15)) { case 0: case 1: c.vector(); break; case 2: case 3: c.matrix(); break; case 4: case 5: c.products(); break; case 6: if (g.chance(0.25)) c.packages(); break; case 7: if (g.chance(0.4)) c.files(); break; case 8: case 9: c.measure(); break; case 10: c.density(); break; default: c.size(); }
        if (g.chance(0.2) && c.w.maxN > 0) { c.w.step(g.pick(std::vector<int>{NEWV, NEWM, GATE, MULV, ADDV, MULM, KRONV, KRONM, IDENT, GC})); }
    }
    c.intact("at the end"); auditPackage(c.p); if (g.chance(0.2)) conservePackage(c.p);
    c.w.releaseAll(); c.p.clearIdentityTable(); c.p.garbageCollect(true); CHK(c.p.vUniqueTable.getNodeCount() == 0 && c.p.mUniqueTable.getNodeCount() == 0, "reject:reclaim", "nodes left after release"); rec().distinct(c.hh);
    if (i < 8) rec().sample(rec().cur);
}
VH_SPLIT(body)
VH_MAIN("rejected_capacity", "rejected_argument", "accepted", "too_few_bits", "two_qubit_requests", "odd_vectors", "ragged_matrices", "mismatched", "products", "packages", "files", "empty_files", "measured", "unnormalised", "large_density")
