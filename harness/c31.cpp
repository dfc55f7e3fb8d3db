// C31: automatic collection keeps long computations bounded, and is not repeated needlessly
#include "audit.hpp"
#include "shape.hpp"
using namespace vh;
struct Big: public dd::DDPackageConfig { // density matrices and numbers in volume
    static constexpr std::size_t UT_DM_NBUCKET = 32768U, UT_DM_INITIAL_ALLOCATION_SIZE = 2048U, CT_DM_NOISE_NBUCKET = 256U, CT_DM_DM_MULT_NBUCKET = 1024U, CT_DM_ADD_NBUCKET = 1024U;
};
using P = dd::Package<Big>;
template<class> struct LimitOf;
template<class N, std::size_t B, std::size_t A, std::size_t G, std::size_t L> struct LimitOf<dd::UniqueTable<N, B, A, G, L>> { static constexpr std::size_t value = L; };
template<std::size_t B, std::size_t A, std::size_t G, std::size_t L> struct LimitOf<dd::ComplexTable<B, A, G, L>> { static constexpr std::size_t value = L; };
template<class T> double figure(T& t, const char* name) { std::ostringstream o; t.printStatistics(o); const auto s = o.str(); const auto k = s.find(name); if (k == std::string::npos) fail("figures:missing", str(name, " is not reported")); return std::strtod(s.c_str() + k + std::strlen(name), nullptr); }
// one node table: pool of usable nodes per level, referenced roots, what is known about its limit
template<class E> struct Side {
    using Node = typename NodeOf<E>::type; static constexpr std::size_t K = std::tuple_size<decltype(Node::e)>::value; static constexpr std::size_t L = 131072;
    std::vector<std::vector<E>> pool; std::vector<E> roots; std::vector<std::uint64_t> snaps; std::size_t upper = 0, added = 0, runs = 0, inUse = 0; const char* kind;
    static E align(E e) { if constexpr (std::is_same_v<Node, dd::dNode>) dd::dNode::alignDensityNode(e.p); return e; }
    std::unordered_set<Node*> live() const { std::unordered_set<Node*> s; std::vector<Node*> st; for (auto& r: roots) st.push_back(r.p); while (!st.empty()) { auto* x = st.back(); st.pop_back(); if constexpr (std::is_same_v<Node, dd::dNode>) dd::dNode::alignDensityNode(x); if (Node::isTerminal(x) || !s.insert(x).second) continue; for (auto& c: x->e) st.push_back(c.p); } return s; }
    void refresh() { for (auto& l: pool) l.clear(); for (auto* x: live()) pool[static_cast<std::size_t>(x->v)].push_back(E{x, dd::Complex::one}); }
    VH_GLUE void make(P& p, Rng& g, int q, std::uint64_t& hh) {
        std::array<E, K> es; static const std::vector<C> pal{{1, 0}, {-1, 0}, {0, 1}, {0.5, 0}};
        for (auto& x: es) { auto* below = q > 0 ? &pool[static_cast<std::size_t>(q - 1)] : nullptr; if (g.chance(q == 0 ? 0.3 : 0.1) || (below && below->empty())) { x = E::zero; continue; } x = below ? (*below)[g.below(below->size())] : E::one; x.w = p.cn.lookup(pal[g.below(pal.size())]); }
        E e = p.makeDDNode(static_cast<dd::Qubit>(q), es); if (e.isTerminal()) return; e.w = dd::Complex::one; auto& l = pool[static_cast<std::size_t>(q)]; l.push_back(e); hh = mix(hh + static_cast<std::uint64_t>(q));
    }
};
template<class UT> std::size_t unreferenced(const UT& t) { std::size_t n = 0; for (auto& l: liveNodes(t)) for (auto* p: l) n += p->ref == 0; return n; }
VH_GLUE void body(Rng& g, std::size_t i) {
    static_assert(LimitOf<decltype(P::vUniqueTable)>::value > 0);
    const int n = g.range(6, 9); P p(static_cast<std::size_t>(n)); std::uint64_t hh = g.u64(); const int fill = g.range(0, 4); // which tables grow: states, matrices, density matrices, numbers, all
    const double keep = g.pick(std::vector<double>{0, 0.001, 0.05, 0.5, 1}); const int rounds = g.range(7, 12); std::string desc = str("grow=", fill, " keep=", keep, " n=", n); note(desc);
    if (g.chance(0.3)) { // a first life of the package, in which live items raise the limits, ended by a reset
        auto life = [&](auto side, auto& t) {
            side.pool.resize(static_cast<std::size_t>(n)); const std::size_t goal = LimitOf<std::decay_t<decltype(t)>>::value * 97 / 100; for (int q = 0; q < n; q++) for (int j = 0; j < 12; j++) side.make(p, g, q, hh);
            for (std::size_t tries = 0; t.getNodeCount() < goal && tries < 4 * goal; tries++) { const auto q = 2 + g.below(static_cast<std::size_t>(n - 2)); side.make(p, g, static_cast<int>(q), hh); if (!side.pool[q].empty()) p.incRef(side.pool[q].back()); }
            for (std::size_t tries = 0; t.getNodeCount() < goal * 100 / 97 + 50 && tries < goal; tries++) side.make(p, g, n - 1, hh);
            p.garbageCollect(); count("former_life"); };
        switch (fill) { case 1: life(Side<dd::mEdge>{}, p.mUniqueTable); break; case 2: life(Side<dd::dEdge>{}, p.dUniqueTable); break; case 3: while (p.cn.complexTable.getCount() < 70000) p.cn.incRef(p.cn.lookup(g.uni(), g.uni())); p.garbageCollect(); break; default: life(Side<dd::vEdge>{}, p.vUniqueTable); }
        p.reset(); count("after_reset"); desc += " after a reset"; note(desc);
    }
    Side<dd::vEdge> V; Side<dd::mEdge> M; Side<dd::dEdge> D; V.kind = "state"; M.kind = "matrix"; D.kind = "density"; auto each = [&](auto f) { f(V, p.vUniqueTable); f(M, p.mUniqueTable); f(D, p.dUniqueTable); };
    each([&](auto& s, auto& t) { using T = std::decay_t<decltype(t)>; s.pool.resize(static_cast<std::size_t>(n)); s.upper = LimitOf<T>::value; s.runs = static_cast<std::size_t>(figure(t, "gc runs: ")); });
    constexpr std::size_t CL = LimitOf<dd::ComplexTable<>>::value; std::size_t cUpper = CL, cLower = CL; auto cRuns = figure(p.cn.complexTable, "gc runs: ");
    // referenced operands with dense twins
    const int k = g.range(1, 4); std::vector<std::pair<dd::vEdge, Vec>> vs; std::vector<std::pair<dd::mEdge, Mat>> ms;
    for (int j = 0; j < 2; j++) { Vec v = randVec(g, k, g.range(0, 6)); auto e = p.makeStateFromVector(toCVec(v)); p.incRef(e); vs.emplace_back(e, v); Mat m = randMat(g, k, g.range(0, 5)); auto f = p.makeDDFromMatrix(toCMat(m)); p.incRef(f); ms.emplace_back(f, m); }
    for (auto& v: vs) V.roots.push_back(v.first); for (auto& m: ms) M.roots.push_back(m.first);
    auto probe = [&](const char* when) {
        auto& a = vs[0]; auto& b = vs[1]; auto& x = ms[0]; auto& y = ms[1]; const std::string w = str(desc, " ", when);
        EQV(evalV(a.first, k), a.second, "changed:state", w); EQV(evalM(x.first, k), x.second, "changed:matrix", w);
        EQV(evalV(p.add(a.first, b.first), k), a.second + b.second, "result:add", w); EQV(evalV(p.multiply(x.first, b.first), k), x.second * b.second, "result:multiply", w); EQV(evalM(p.multiply(x.first, y.first), k), x.second * y.second, "result:product", w);
        EQV(evalM(p.transpose(y.first), k), transpose(y.second), "result:transpose", w); EQV(evalM(p.conjugateTranspose(x.first), k), dagger(x.second), "result:adjoint", w); EQV(evalV(p.kronecker(a.first, b.first), 2 * k), kron(a.second, b.second), "result:kronecker", w);
        if (2 * k <= n && k <= 3) EQV(evalM(p.kronecker(x.first, y.first), 2 * k), kron(x.second, y.second), "result:kronecker", w);
        const auto ip = p.innerProduct(a.first, b.first); const C want = dot(a.second, b.second); CHK(std::abs(val(ip) - want) <= 1e-9 * (1 + std::sqrt(norm2(a.second) * norm2(b.second))), "result:inner", w);
        Mat had(2); const double h = std::sqrt(0.5); had.a = {h, h, h, -h}; const int t = g.range(0, k - 1); EQV(evalM(p.makeGateDD(dd::Hmat, static_cast<dd::QubitCount>(k), static_cast<dd::Qubit>(t)), k), embed(had, k, {t}), "result:gate", w); EQV(evalM(p.makeIdent(static_cast<dd::QubitCount>(k)), k), Mat::id(std::size_t{1} << k), "result:identity", w);
        count("probes");
    };
    if (2 * k > n) p.resize(static_cast<std::size_t>(2 * k)), each([&](auto& s, auto&) { s.pool.resize(static_cast<std::size_t>(2 * k)); });
    probe("at first");
    const bool sat = fill < 3 && g.chance(0.3); const double satShare = g.chance(0.5) ? g.uni(0.9, 1) : g.uni(0.5, 1); if (sat) desc += str(" live share ", satShare), note(desc); // live nodes take most of the limit at once, then only unused ones are added in small steps
    auto grow = [&](auto& s, auto& t, std::size_t amount) {
        if (sat) {
            const std::size_t lim = LimitOf<std::decay_t<decltype(t)>>::value, target = static_cast<std::size_t>(satShare * double(lim)); const int top = static_cast<int>(s.pool.size()) - 1; const bool first = s.roots.size() < 100; const std::size_t goal = first ? lim + 50 : t.getNodeCount() + 2000 + amount / 5;
            if (first) for (int q = 0; q <= top; q++) for (int j = 0; j < 12; j++) s.make(p, g, q, hh);
            for (std::size_t tries = 0; t.getNodeCount() < goal && tries < 4 * lim; tries++) { const auto q = 2 + g.below(static_cast<std::size_t>(top - 1)); const auto was = t.getNodeCount(); s.make(p, g, static_cast<int>(q), hh); if (first && t.getNodeCount() > was && t.getActiveNodeCount() < target) { auto& e = s.pool[q].back(); p.incRef(e); s.roots.push_back(e); } }
            count("saturated"); return;
        }
        const std::size_t goal = t.getNodeCount() + amount; const int top = static_cast<int>(s.pool.size()) - 1; std::size_t tries = 0;
        for (int q = 0; q <= top; q++) for (int j = 0; j < 12; j++) s.make(p, g, q, hh);
        while (t.getNodeCount() < goal && tries++ < 3 * amount) s.make(p, g, 2 + static_cast<int>(g.below(static_cast<std::size_t>(top - 1))), hh);
        std::size_t added = 0; const int lv = g.range(1, top); auto& l = s.pool[static_cast<std::size_t>(lv)]; for (auto& e: l) if (g.chance(keep)) { p.incRef(e); s.roots.push_back(e); added++; } count("referenced", added);
    };
    auto numbers = [&](std::size_t amount) { // many numbers, some of them held by states
        const std::size_t goal = p.cn.complexTable.getCount() + amount; while (p.cn.complexTable.getCount() < goal) { if (g.chance(0.02)) { auto e = p.makeStateFromVector(toCVec(randVec(g, 4, 0))); if (g.chance(keep)) { p.incRef(e); V.roots.push_back(e); } } else (void)p.cn.lookup(g.uni(), g.uni()); }
    };
    int collections = 0;
    for (int r = 0; r < rounds; r++) {
        const std::size_t amount = static_cast<std::size_t>(g.range(20000, 60000)); std::array<std::size_t, 3> b4{p.vUniqueTable.getNodeCount(), p.mUniqueTable.getNodeCount(), p.dUniqueTable.getNodeCount()};
        switch (fill) { case 0: grow(V, p.vUniqueTable, amount); break; case 1: grow(M, p.mUniqueTable, amount); break; case 2: grow(D, p.dUniqueTable, amount); break; case 3: numbers(amount / 2); break; default: grow(V, p.vUniqueTable, amount); grow(M, p.mUniqueTable, amount / 2); numbers(amount / 3); }
        if (g.chance(0.5)) probe("while growing"); // leaves results in the caches
        each([&](auto& s, auto& t) { s.added += t.getNodeCount(); }); V.added -= b4[0]; M.added -= b4[1]; D.added -= b4[2];
        if (!sat && g.chance(0.3)) each([&](auto& s, auto&) { for (std::size_t j = s.roots.size(); j-- > 4;) if (g.chance(0.5)) { p.decRef(s.roots[j]); s.roots[j] = s.roots.back(); s.roots.pop_back(); } });
        each([&](auto& s, auto& t) { s.snaps.clear(); for (std::size_t j = 0; j < s.roots.size() && j < 12; j++) s.snaps.push_back(snapshot(s.roots[j])); s.inUse = t.getActiveNodeCount(); });
        const std::size_t cPre = p.cn.complexTable.getCount(); std::array<std::size_t, 3> pre{p.vUniqueTable.getNodeCount(), p.mUniqueTable.getNodeCount(), p.dUniqueTable.getNodeCount()};
        const bool idle = pre[0] < LimitOf<decltype(p.vUniqueTable)>::value && pre[1] < LimitOf<decltype(p.mUniqueTable)>::value && pre[2] < LimitOf<decltype(p.dUniqueTable)>::value && cPre < cLower;
        const bool did = p.garbageCollect(); const std::size_t cPost = p.cn.complexTable.getCount(); bool dropped = cPost < cPre; const std::string w = str(desc, " round ", r, " with ", pre[0], "/", pre[1], "/", pre[2], " nodes and ", cPre, " numbers"); std::size_t x = 0;
        const bool numbersRan = figure(p.cn.complexTable, "gc runs: ") > cRuns; cRuns = figure(p.cn.complexTable, "gc runs: "); if (numbersRan) { cLower = std::min(cLower / 2, CL); cUpper = std::max(cUpper, cPost + CL); }
        each([&](auto& s, auto& t) {
            using T = std::decay_t<decltype(t)>; constexpr std::size_t L = LimitOf<T>::value; const std::size_t was = pre[x++], now = t.getNodeCount(), rn = static_cast<std::size_t>(figure(t, "gc runs: ")); if (now < was) dropped = true;
            CHK(now <= was, "bound:grew", w, ": ", s.kind, " nodes grew to ", now); CHK(now == was || now == s.inUse, "bound:partial", w, ": ", s.kind, " table left with ", now, " nodes although ", s.inUse, " are in use");
            CHK(was < s.upper || now == s.inUse, "bound:skipped", w, ": ", was, " ", s.kind, " nodes, only ", s.inUse, " in use, and nothing is collected"); // memory bound
            if (cPost < cPre) CHK(now == s.inUse, "bound:numbers-only", w, ": numbers were collected but the ", s.kind, " table was not"); // stored nodes would keep numbers that are gone
            if (rn > s.runs && cPost == cPre) { CHK(was >= L, "work:early", w, ": ", s.kind, " table of ", was, " nodes is searched below its limit"); CHK(s.added + 1 >= L / 10, "work:repeated", w, ": ", s.kind, " table is searched again after ", s.added, " new nodes"); }
            if (rn > s.runs) { s.runs = rn; s.added = 0; s.upper = std::max(s.upper, now + L); }
            CHK(t.getAllocations() <= 2 * t.getPeakNodeCount() + 8192, "bound:memory", w, ": ", t.getAllocations(), " ", s.kind, " nodes allocated although at most ", t.getPeakNodeCount(), " were stored at once");
            if (now < was) CHK(unreferenced(t) <= (s.kind[0] == 'm' ? static_cast<std::size_t>(2 * n + 4 * k) : 0U), "bound:partial", w, ": unreferenced ", s.kind, " nodes are left");
        });
        CHK(cPre < cUpper || cPost < cPre || numbersRan, "bound:skipped", w, ": numbers are not collected");
        CHK(did == dropped, "work:verdict", w, ": reported ", did ? "a" : "no", " collection"); if (idle) CHK(!did, "work:early", w, ": collected below all limits"); count(did ? "collections" : idle ? "below_limits" : "nothing_to_collect");
        // asking again at once is free
        std::array<std::size_t, 3> again{p.vUniqueTable.getNodeCount(), p.mUniqueTable.getNodeCount(), p.dUniqueTable.getNodeCount()}; const auto runs = figure(p.vUniqueTable, "gc runs: ") + figure(p.mUniqueTable, "gc runs: ") + figure(p.dUniqueTable, "gc runs: ") + cRuns;
        CHK(!p.garbageCollect(), "work:repeated", w, ": a second collection right away"); CHK(runs == figure(p.vUniqueTable, "gc runs: ") + figure(p.mUniqueTable, "gc runs: ") + figure(p.dUniqueTable, "gc runs: ") + figure(p.cn.complexTable, "gc runs: "), "work:repeated", w, ": tables are searched again right away");
        CHK(again[0] == p.vUniqueTable.getNodeCount() && again[1] == p.mUniqueTable.getNodeCount() && again[2] == p.dUniqueTable.getNodeCount(), "work:repeated", w);
        each([&](auto& s, auto&) { for (std::size_t j = 0; j < s.snaps.size(); j++) CHK(snapshot(s.roots[j]) == s.snaps[j], "changed:referenced", w, ": referenced ", s.kind, " diagram changed"); if (did) s.refresh(); });
        if (did) collections++;
        if (did || g.chance(0.3)) probe("after the collection");
        note(str(pre[0], "/", pre[1], "/", pre[2], "/", cPre, did ? "->" : "=", again[0], "/", again[1], "/", again[2], "/", cPost));
    }
    each([&](auto& s, auto&) { for (std::size_t j = 0; j < s.roots.size(); j++) p.decRef(s.roots[j]); }); p.garbageCollect(true);
    CHK(p.vUniqueTable.getNodeCount() == 0 && p.dUniqueTable.getNodeCount() == 0, "bound:final", desc, ": nodes are left after everything was released");
    rec().distinct(hh); count(str("grow", fill).c_str()); if (collections > 1) count("several_collections"); if (i < 24) rec().sample(rec().cur);
}
VH_MAIN_ONE(body, "collections", "below_limits", "nothing_to_collect", "grow0", "grow1", "grow2", "grow3", "grow4", "several_collections", "probes", "saturated", "former_life", "after_reset")
