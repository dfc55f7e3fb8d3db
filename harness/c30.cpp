// C30: every pair of shared parts is worked on once
#include "shape.hpp"
using namespace vh;
using P = dd::Package<Std>;
template<class T> double looks(T& t) { std::ostringstream o; t.printStatistics(o); const auto s = o.str(); const auto k = s.find("looks: "); if (k == std::string::npos) fail("figures:missing", "no number of lookups reported"); return std::strtod(s.c_str() + k + 7, nullptr); }
struct PairHash { std::size_t operator()(const std::pair<const void*, const void*>& p) const { return mix(reinterpret_cast<std::uintptr_t>(p.first) * 31 + reinterpret_cast<std::uintptr_t>(p.second)); } };
// pairs of parts that meet in a product: rows/columns of the recursion given by the caller
template<class A, class B, class F> std::size_t pairs(const A& a, const B& b, F each, std::size_t cap = 200000) {
    std::unordered_set<std::pair<const void*, const void*>, PairHash> seen; std::vector<std::pair<A, B>> st{{a, b}};
    while (!st.empty() && seen.size() < cap) { auto [x, y] = st.back(); st.pop_back(); if (x.w.approximatelyZero() || y.w.approximatelyZero() || x.isTerminal() || y.isTerminal() || !seen.insert({x.p, y.p}).second) continue; each(x, y, [&](const A& s, const B& t) { st.emplace_back(s, t); }); }
    return seen.size();
}
template<class E> std::size_t distinctEdges(const E& e) { std::set<std::tuple<const void*, const void*, const void*>> s; std::vector<E> st{e}; while (!st.empty()) { auto x = st.back(); st.pop_back(); if (x.isTerminal() || !s.insert({x.p, x.w.r, x.w.i}).second) continue; for (auto& c: x.p->e) st.push_back(c); } return s.size(); }
template<class E> std::size_t sums(const E& a, const E& b, std::size_t cap = 30000) { // pairs of weighted parts that meet in a sum
    auto key = [](const E& x, C w) { return std::make_tuple(static_cast<const void*>(x.p), std::llround(w.real() * 1e9), std::llround(w.imag() * 1e9)); };
    std::set<std::pair<std::tuple<const void*, long long, long long>, std::tuple<const void*, long long, long long>>> seen; std::vector<std::tuple<E, C, E, C>> st{{a, val(a.w), b, val(b.w)}};
    while (!st.empty() && seen.size() < cap) { auto [x, u, y, v] = st.back(); st.pop_back(); if (std::abs(u) < 1e-13 || std::abs(v) < 1e-13 || x.p == y.p || x.isTerminal() || y.isTerminal() || !seen.insert({key(x, u), key(y, v)}).second) continue; for (std::size_t k = 0; k < x.p->e.size(); k++) st.emplace_back(x.p->e[k], u * val(x.p->e[k].w), y.p->e[k], v * val(y.p->e[k].w)); }
    return seen.size();
}
static double worst[9] = {};
static void body(Rng& g, std::size_t i) {
    const int n = g.chance(0.3) ? g.range(30, 64) : g.range(3, 30), wd = g.range(1, n > 20 ? 3 : 5); P p(static_cast<std::size_t>(n)); const auto N = static_cast<dd::QubitCount>(n); std::uint64_t hh = g.u64(); std::string desc = str("n=", n, " width=", wd);
    auto vec = [&]() { switch (g.range(0, 4)) { case 0: { std::vector<dd::BasisStates> b; for (int q = 0; q < n; q++) b.push_back(static_cast<dd::BasisStates>(g.range(0, 5))); return p.makeBasisState(N, b); } case 1: case 2: { // GHZ or W state
            dd::vEdge zero = dd::vEdge::one, one = dd::vEdge::one, w = dd::vEdge::zero; for (int q = 0; q < n; q++) { const auto Q = static_cast<dd::Qubit>(q); w = p.makeDDNode(Q, std::array<dd::vEdge, 2>{w, zero}); zero = p.makeDDNode(Q, std::array<dd::vEdge, 2>{zero, dd::vEdge::zero}); if (q + 1 < n) one = p.makeDDNode(Q, std::array<dd::vEdge, 2>{dd::vEdge::zero, one}); else { auto z = zero.p->e[0]; return g.chance(0.5) ? w : p.makeDDNode(Q, std::array<dd::vEdge, 2>{z, one}); } } return w; }
        default: return layeredV(p, g, n, wd, hh, g.pick(std::vector<double>{0, 0.1, 0.4})); } };
    auto mat = [&]() { switch (g.range(0, 4)) { case 0: { const int t = g.range(0, n - 1); return p.makeGateDD(unitary1(g).mat, N, toControls(randCtl(g, n, {t}, g.uni())), static_cast<dd::Qubit>(t)); } case 1: { int a = g.range(0, n - 1), b = g.range(0, n - 2); if (b >= a) b++; return p.makeSWAPDD(N, dd::Controls{}, static_cast<dd::Qubit>(a), static_cast<dd::Qubit>(b)); } default: return layeredM(p, g, n, wd, hh, g.pick(std::vector<double>{0, 0.3, 0.6})); } };
    auto perm = [&]() { // one entry per row and column: no sums arise in its products
        if (g.chance(0.3)) { const int t = g.range(0, n - 1); return p.makeGateDD(g.chance(0.5) ? dd::Ymat : dd::Tmat, N, toControls(randCtl(g, n, {t}, g.uni())), static_cast<dd::Qubit>(t)); }
        std::vector<dd::mEdge> lv{dd::mEdge::one};
        for (int q = 0; q < n; q++) { std::vector<dd::mEdge> nx; for (int k = 0; k < wd; k++) { auto a = g.pick(lv), b = g.pick(lv); a.w = p.cn.lookup(layerWeight(g, hh)); b.w = p.cn.lookup(layerWeight(g, hh)); const auto z = dd::mEdge::zero; auto e = p.makeDDNode(static_cast<dd::Qubit>(q), g.chance(0.5) ? std::array<dd::mEdge, 4>{a, z, z, b} : std::array<dd::mEdge, 4>{z, a, b, z}); e.w = dd::Complex::one; nx.push_back(e); } lv = nx; }
        return lv[0];
    };
    auto judge = [&](int k, const char* what, double did, std::size_t size, double per) { const double bound = 1 + per * static_cast<double>(size); if (getenv("VH_DEBUG") && did / bound > worst[k]) { worst[k] = did / bound; fprintf(stderr, "%s %g of %g (%zu)\n", what, did, bound, size); } CHK(did <= 2 * bound + 64, "work", what, " on ", n, " qubits: ", did, " recursive requests for ", size, " distinct parts (at most ", bound, " expected)"); count("judged"); count(what); if (size > 100) count("large"); desc += str(' ', what, ':', size); };
    for (int r = 0; r < 4; r++) {
        p.garbageCollect(true); p.clearComputeTables(); const int k = g.range(0, 7);
        switch (k) {
        // general matrices only on few qubits, as the sums of their products have little structure
        case 0: { const bool few = n <= 8; auto m = few ? mat() : perm(); auto v = vec(); const auto z = pairs(m, v, [](auto& x, auto& y, auto f) { for (std::size_t a = 0; a < 2; a++) for (std::size_t b = 0; b < 2; b++) f(x.p->e[2 * a + b], y.p->e[b]); }); const double b = looks(p.matrixVectorMultiplication); (void)p.multiply(m, v); judge(k, "mv", looks(p.matrixVectorMultiplication) - b, z, 4); break; }
        case 1: { const bool few = n <= 6; auto m = few ? mat() : perm(), o = few ? mat() : perm(); const auto z = pairs(m, o, [](auto& x, auto& y, auto f) { for (std::size_t a = 0; a < 2; a++) for (std::size_t c = 0; c < 2; c++) for (std::size_t b = 0; b < 2; b++) f(x.p->e[2 * a + b], y.p->e[2 * b + c]); }); const double b = looks(p.matrixMatrixMultiplication); (void)p.multiply(m, o); judge(k, "mm", looks(p.matrixMatrixMultiplication) - b, z, 8); break; }
        case 2: { auto x = vec(), y = vec(); const auto z = pairs(x, y, [](auto& s, auto& t, auto f) { for (std::size_t a = 0; a < 2; a++) f(s.p->e[a], t.p->e[a]); }); const double b = looks(p.vectorInnerProduct); (void)p.innerProduct(x, y); judge(k, "inner", looks(p.vectorInnerProduct) - b, z, 2); break; }
        case 3: { auto m = mat(); const double b = looks(p.matrixTranspose); (void)p.transpose(m); judge(k, "transpose", looks(p.matrixTranspose) - b, distinctEdges(m), 4); break; }
        case 4: { auto m = mat(); const double b = looks(p.conjugateMatrixTranspose); (void)p.conjugateTranspose(m); judge(k, "ctranspose", looks(p.conjugateMatrixTranspose) - b, distinctEdges(m), 4); break; }
        case 5: { std::uint64_t h2 = 1; const int top = g.range(1, n - 1); auto x = layeredV(p, g, top, wd, h2), y = layeredV(p, g, n - top, wd, h2); const double b = looks(p.vectorKronecker); (void)p.kronecker(x, y); judge(k, "vkron", looks(p.vectorKronecker) - b, distinctEdges(x), 2); auto s = layeredM(p, g, top, wd, h2), t = layeredM(p, g, n - top, wd, h2); const double b2 = looks(p.matrixKronecker); (void)p.kronecker(s, t); judge(8, "mkron", looks(p.matrixKronecker) - b2, distinctEdges(s), 4); break; }
        case 6: { auto x = vec(), y = vec(); const auto z = sums(x, y); if (z >= 6000) break; const double b = looks(p.vectorAdd); (void)p.add(x, y); judge(k, "vadd", looks(p.vectorAdd) - b, z, 2); break; }
        default: { auto x = mat(), y = mat(); const auto z = sums(x, y); if (z >= 6000) break; const double b = looks(p.matrixAdd); (void)p.add(x, y); judge(k, "madd", looks(p.matrixAdd) - b, z, 4); }
        }
    }
    note(desc); rec().distinct(mix(hh ^ fnv(desc))); if (i < 8) rec().sample(desc);
}
// traversals without a cache of their own visit every part once: with 2^30..2^64 paths anything else does not return
static void traversals(Rng& g, std::size_t i) {
    const int n = g.range(30, 64); auto pp = std::make_unique<P>(static_cast<std::size_t>(n)), qq = std::make_unique<P>(static_cast<std::size_t>(n)); P& p = *pp; P& q = *qq; std::string desc = str("traversals n=", n); std::uint64_t hh = g.u64();
    // every level has two nodes, each with both nodes of the level below as successors
    std::array<dd::vEdge, 2> v{dd::vEdge::one, dd::vEdge::one}; std::array<dd::mEdge, 2> m{dd::mEdge::one, dd::mEdge::one}; const bool near = g.chance(0.5);
    for (int l = 0; l < n; l++) {
        const auto L = static_cast<dd::Qubit>(l); std::array<dd::vEdge, 2> nv; std::array<dd::mEdge, 2> nm; const auto z = dd::mEdge::zero;
        auto w = [&](dd::vEdge e, double r, double f) { e.w = p.cn.lookup(r * std::cos(f), r * std::sin(f)); return e; };
        for (int k = 0; k < 2; k++) {
            const auto a = v[static_cast<std::size_t>(k)], b = v[static_cast<std::size_t>(1 - k)]; const double s = std::sqrt(0.5), c = k ? 0.6 : 0.8;
            nv[static_cast<std::size_t>(k)] = l == 0 ? p.makeDDNode(L, std::array<dd::vEdge, 2>{w(dd::vEdge::one, k ? s : 0.6, 0), w(dd::vEdge::one, k ? s : 0.8, k)}) : p.makeDDNode(L, std::array<dd::vEdge, 2>{w(a, c, 0), w(b, std::sqrt(1 - c * c), 0.1 * g.range(0, 3))});
            nv[static_cast<std::size_t>(k)].w = dd::Complex::one;
            auto x = m[static_cast<std::size_t>(k)], y = m[static_cast<std::size_t>(1 - k)];
            if (l == 0) { y = dd::mEdge::one; if (k) y.w = p.cn.lookup(near ? std::cos(5e-12) : 0.0, near ? std::sin(5e-12) : 1.0); }
            nm[static_cast<std::size_t>(k)] = p.makeDDNode(L, std::array<dd::mEdge, 4>{x, z, z, y}); nm[static_cast<std::size_t>(k)].w = dd::Complex::one;
        }
        v = nv; m = nm;
    }
    auto e = v[0]; auto f = m[0]; const std::size_t want = 2 * static_cast<std::size_t>(n); // one node on top, two below, and the terminal
    note(desc + (near ? " near" : "")); p.incRef(e); p.incRef(f); CHK(p.size(e) == want && p.size(f) == want, "traverse:size", "sizes ", p.size(e), " and ", p.size(f), " want ", want);
    const auto lines = [](const std::string& s) { return static_cast<std::size_t>(std::count(s.begin(), s.end(), '\n')); };
    const int t = g.range(0, 6);
    switch (t) {
    case 0: { const auto idx = static_cast<dd::Qubit>(g.range(0, n - 1)); const auto a = p.determineMeasurementProbabilities(e, idx, true), b = p.determineMeasurementProbabilities(e, idx, false); CHK(std::abs(a.first - b.first) < 1e-9 && std::abs(a.second - b.second) < 1e-9 && std::abs(a.first + a.second - 1) < 1e-9, "traverse:probability", a.first, ",", a.second, " and ", b.first, ",", b.second); count("probabilities"); break; }
    case 1: { auto s = e; p.incRef(s); std::mt19937_64 mt(g.u64()); if (g.chance(0.5)) (void)p.measureOneCollapsing(s, static_cast<dd::Qubit>(g.range(0, n - 1)), g.chance(0.5), mt); const auto r = p.measureAll(s, g.chance(0.5), mt); CHK(r.size() == static_cast<std::size_t>(n), "traverse:measure", "result ", r); p.decRef(s); count("measured"); break; }
    case 2: { const auto idx = static_cast<dd::Qubit>(g.range(0, n - 1)); const auto a = p.deleteEdge(e, idx, static_cast<std::size_t>(g.range(0, 1))); const auto b = p.deleteEdge(f, idx, static_cast<std::size_t>(3 * g.range(0, 1))); CHK(p.size(a) <= want + 1 && p.size(b) <= want + 1, "traverse:cut", "sizes ", p.size(a), " and ", p.size(b)); count("cut"); break; }
    case 3: { std::stringstream a, b; const bool bin = g.chance(0.5); dd::serialize(e, a, bin); dd::serialize(f, b, bin); if (!bin) CHK(lines(a.str()) <= want + 2 && lines(b.str()) <= want + 2, "traverse:records", lines(a.str()), " and ", lines(b.str()), " records for ", want, " nodes"); const auto c = q.deserialize<dd::vNode>(a, bin); const auto d = q.deserialize<dd::mNode>(b, bin); CHK(q.size(c) == want && q.size(d) == want, "traverse:read", "sizes ", q.size(c), " and ", q.size(d)); count("serialized"); break; }
    case 4: { auto e2 = e; auto f2 = f; const auto c = q.transfer(e2); const auto d = q.transfer(f2); CHK(q.size(c) == want && q.size(d) == want, "traverse:transfer", "sizes ", q.size(c), " and ", q.size(d)); count("transferred"); break; }
    case 5: { const bool a = g.chance(0.5), b = g.chance(0.5), c = g.chance(0.5), d = g.chance(0.3); std::ostringstream o, u, w; dd::toDot(e, o, a, b, c, d); dd::toDot(f, u, a, b, c, d); dd::exportEdgeWeights(e, w); CHK(lines(o.str()) < 10 * want + 60 && lines(u.str()) < 10 * want + 60 && lines(w.str()) <= 2 * want, "traverse:drawing", lines(o.str()), ", ", lines(u.str()), " and ", lines(w.str()), " lines for ", want, " nodes"); count("drawn"); break; }
    default: { const bool is = p.isCloseToIdentity(f, 1e-10); CHK(is == near, "traverse:identity", is ? "accepted" : "rejected"); count("identity"); }
    }
    if (g.chance(0.5)) { p.decRef(e); p.decRef(f); p.garbageCollect(true); CHK(p.vUniqueTable.getNodeCount() == 0, "traverse:reclaim", "nodes left after release"); }
    desc += str(" op ", t); rec().distinct(mix(hh ^ fnv(desc))); if (i < 8) rec().sample(desc);
}
static void both(Rng& g, std::size_t i) { if (g.chance(0.25)) traversals(g, i); else body(g, i); }
VH_MAIN_ONE(both, "mv", "mm", "inner", "transpose", "ctranspose", "vkron", "mkron", "vadd", "madd", "large", "probabilities", "measured", "cut", "serialized", "transferred", "drawn", "identity")
