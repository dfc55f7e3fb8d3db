// C28: the figures a package reports about itself are true
#include "hist.hpp"
using namespace vh;
using Fig = std::map<std::string, double>;
static Fig figures(const std::string& s) { // "name: value, name: value"
    Fig f; std::string t = s; for (auto& c: t) if (c == '\n') c = ',';
    std::stringstream ss(t); std::string part;
    while (std::getline(ss, part, ',')) { const auto k = part.rfind(": "); if (k == std::string::npos) continue; std::string name = part.substr(0, k); while (!name.empty() && name[0] == ' ') name.erase(0, 1); f[name] = std::strtod(part.c_str() + k + 2, nullptr); }
    return f;
}
template<class T> Fig figs(T& t) { std::ostringstream o; o.precision(17); t.printStatistics(o); return figures(o.str()); }
static double at(const Fig& f, const char* k, const char* who) { auto it = f.find(k); if (it == f.end()) fail("figures:missing", str(who, " does not report '", k, "'")); return it->second; }
static bool ratioOk(double r, double a, double b) { return b == 0 ? !(r > 0) : std::abs(r - a / b) <= 1e-5 * (1 + a / b); }
template<class F> std::string captured(F f) { std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); try { f(); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); return o.str(); }
#define SAME(got, want, key, ...) CHK(static_cast<double>(got) == static_cast<double>(want), key, __VA_ARGS__, ": reported ", got, ", expected ", want)

// ---- a node table of its own against a model
template<class Node, std::size_t NB> void nodeTable(Rng& g, const char* kind) {
    using UT = dd::UniqueTable<Node, NB, 4, 2, 24>; using E = dd::Edge<Node>; constexpr std::size_t K = std::tuple_size<decltype(Node::e)>::value;
    int n = g.range(1, 5); auto tp = std::make_unique<UT>(static_cast<std::size_t>(n)); auto& t = *tp; dd::ComplexNumbers cn; std::vector<dd::Complex> ws{dd::Complex::one, dd::Complex::zero};
    for (int k = 0; k < g.range(1, 4); k++) { auto w = cn.lookup(g.uni(-1, 1), g.uni(-1, 1)); dd::ComplexNumbers::incRef(w); ws.push_back(w); }
    std::map<std::vector<const void*>, Node*> known; std::vector<std::vector<Node*>> lv(static_cast<std::size_t>(n)); std::vector<E> roots; std::unordered_map<Node*, std::uint64_t> ref;
    std::size_t lookups = 0, hits = 0, cnt = 0, peak = 0, active = 0, maxA = 0, calls = 0, runs = 0, limit = 24; std::vector<std::size_t> act(static_cast<std::size_t>(n), 0); std::uint64_t hh = 3;
    auto term = [&](bool z) { return z ? E::zero : E::one; };
    std::function<void(Node*, int)> mark = [&](Node* p, int d) { if (Node::isTerminal(p)) return; auto& r = ref[p]; if (d > 0) { if (++r > 1) return; act[static_cast<std::size_t>(p->v)]++; active++; } else { if (--r > 0) return; act[static_cast<std::size_t>(p->v)]--; active--; } for (auto& e: p->e) mark(e.p, d); };
    auto check = [&](const char* after) {
        const std::string w = str(kind, " table of ", NB, " buckets after ", after);
        SAME(t.getNodeCount(), cnt, "nodes:count", w); SAME(t.getPeakNodeCount(), peak, "nodes:peak", w); SAME(t.getActiveNodeCount(), active, "nodes:active", w); SAME(t.getMaxActiveNodes(), maxA, "nodes:max-active", w);
        for (int q = 0; q < n; q++) SAME(t.getActiveNodeCount(static_cast<dd::Qubit>(q)), act[static_cast<std::size_t>(q)], "nodes:active-level", w, " level ", q);
        auto f = figs(t); SAME(at(f, "looks", kind), lookups, "nodes:lookups", w); SAME(at(f, "hits", kind), hits, "nodes:hits", w); SAME(at(f, "gc calls", kind), calls, "nodes:gc-calls", w); SAME(at(f, "gc runs", kind), runs, "nodes:gc-runs", w);
        CHK(ratioOk(at(f, "hitRatio", kind), at(f, "hits", kind), at(f, "looks", kind)), "nodes:ratio", w, ": hit ratio ", at(f, "hitRatio", kind)); CHK(ratioOk(at(f, "colRatio", kind), at(f, "collisions", kind), at(f, "looks", kind)), "nodes:ratio", w, ": collision ratio ", at(f, "colRatio", kind));
        SAME(t.possiblyNeedsCollection(), cnt >= limit, "nodes:needs-collection", w); count("node_tables_compared");
        CHK(t.getAllocations() >= cnt, "nodes:allocations", w, ": fewer allocated than stored");
    };
    const int steps = g.range(20, 150); check("construction");
    for (int s = 0; s < steps; s++) {
        const int k = g.range(0, 19); hh = mix(hh + static_cast<std::uint64_t>(k));
        if (k <= 10) { // request a node
            const int q = g.range(0, n - 1); if (q > 0 && lv[static_cast<std::size_t>(q - 1)].empty() && g.chance(0.7)) continue; Node* p = t.getNode(); std::vector<const void*> key{reinterpret_cast<const void*>(static_cast<std::uintptr_t>(q))};
            if constexpr (std::is_same_v<Node, dd::dNode>) p->flags = 0;
            p->v = static_cast<dd::Qubit>(q);
            for (std::size_t c = 0; c < K; c++) { E e = term(g.chance(0.5)); if (q > 0 && !lv[static_cast<std::size_t>(q - 1)].empty() && g.chance(0.7)) e = E{g.pick(lv[static_cast<std::size_t>(q - 1)]), dd::Complex::one}; if (!(e == E::zero)) e.w = ws[g.below(ws.size())]; if (e.w == dd::Complex::zero) e = E::zero; p->e[c] = e; key.push_back(e.p); key.push_back(e.w.r); key.push_back(e.w.i); }
            auto r = t.lookup(E{p, dd::Complex::one}); lookups++; auto it = known.find(key);
            if (it != known.end()) { hits++; CHK(r.p == it->second, "nodes:unique", "another node returned for known content"); } else { CHK(r.p == p, "nodes:unique", "stored node returned for new content"); known[key] = p; lv[static_cast<std::size_t>(q)].push_back(p); ref[p] = 0; cnt++; peak = std::max(peak, cnt); }
            check("lookup"); count("node_lookups");
        } else if (k <= 13) { int q = g.range(0, n - 1); if (lv[static_cast<std::size_t>(q)].empty()) continue; E e{g.pick(lv[static_cast<std::size_t>(q)]), ws[g.below(ws.size())]}; t.incRef(e); roots.push_back(e); mark(e.p, 1); maxA = std::max(maxA, active); check("incRef"); count("references"); }
        else if (k <= 16) { if (roots.empty()) continue; std::size_t j = g.below(roots.size()); E e = roots[j]; roots.erase(roots.begin() + static_cast<std::ptrdiff_t>(j)); t.decRef(e); mark(e.p, -1); check("decRef"); }
        else if (k <= 18) {
            const bool force = g.chance(0.5); const std::size_t got = t.garbageCollect(force); calls++;
            if ((!force && cnt < limit) || cnt == 0) SAME(got, 0, "nodes:collected", "nothing to collect");
            else {
                runs++; std::size_t left = 0; for (auto& l: lv) { std::vector<Node*> keep; for (auto* p: l) if (ref[p] > 0) keep.push_back(p); l = keep; left += keep.size(); } SAME(got, cnt - left, "nodes:collected", kind, " nodes collected"); cnt = left; if (left > limit / 10 * 9) limit = left + 24;
                for (auto it = known.begin(); it != known.end();) it = ref[it->second] > 0 ? std::next(it) : known.erase(it);
                count("node_collections");
            }
            check("collection");
        } else if (g.chance(0.3)) {
            if (g.chance(0.5) && n < 8) { n++; t.resize(static_cast<std::size_t>(n)); lv.emplace_back(); act.push_back(0); check("resize"); }
            else { for (auto& r: roots) t.decRef(r); t.clear(); lookups = hits = cnt = peak = active = maxA = calls = runs = 0; limit = 24; known.clear(); ref.clear(); roots.clear(); for (auto& l: lv) l.clear(); std::fill(act.begin(), act.end(), 0); check("clear"); count("clears"); }
        }
    }
    auto a = captured([&]() { t.printActive(); }); std::string want = str("#printActive: ", active, ", "); for (auto x: act) want += str(x, " "); want += "\n"; CHK(a == want, "nodes:print-active", "reported '", a, "', expected '", want, "'");
    auto l = captured([&]() { t.print(); }); std::size_t lines = 0, where = 0; while ((where = l.find("\t\t", where)) != std::string::npos) { lines++; where += 2; } SAME(lines, cnt, "nodes:print", "nodes printed");
    for (auto& r: roots) t.decRef(r); rec().distinct(hh); count(std::is_same_v<Node, dd::vNode> ? "vector_tables" : "matrix_tables");
}
// ---- a number table of its own
template<class T> void numberTable(Rng& g) {
    auto tp = std::make_unique<T>(); auto& t = *tp; std::unordered_set<const void*> stored; for (auto* b: t.getTable()) for (auto* e = b; e; e = e->next) stored.insert(e);
    auto st = t.getStatistics(); std::size_t lookups = st["lookups"], hits = st["hits"], inserts = st["inserts"], peak = stored.size(), calls = 0, runs = 0; std::uint64_t hh = 5; std::vector<typename T::Entry*> held; bool fresh = true;
    SAME(t.getCount(), stored.size(), "numbers:count", "new table");
    auto check = [&](const char* after) {
        auto m = t.getStatistics(); const std::string w = str("number table of ", T::MASK + 1, " buckets after ", after);
        SAME(t.getCount(), stored.size(), "numbers:count", w); SAME(t.getPeakCount(), peak, "numbers:peak", w); SAME(m["lookups"], lookups, "numbers:lookups", w); SAME(m["hits"], hits, "numbers:hits", w); SAME(m["inserts"], inserts, "numbers:inserts", w); SAME(m["gcCalls"], calls, "numbers:gc-calls", w); SAME(m["gcRuns"], runs, "numbers:gc-runs", w);
        auto f = figs(t); for (auto [a, b]: std::initializer_list<std::pair<const char*, const char*>>{{"hits", "hits"}, {"collisions", "collisions"}, {"looks", "lookups"}, {"inserts", "inserts"}, {"insertCollisions", "insertCollisions"}, {"findOrInserts", "findOrInserts"}, {"upperNeighbors", "upperNeighbors"}, {"lowerNeighbors", "lowerNeighbors"}, {"gc calls", "gcCalls"}, {"gc runs", "gcRuns"}}) SAME(at(f, a, "number table"), m[b], "numbers:printed", w, ", printed ", a);
        CHK(ratioOk(f["hitRatio"], f["hits"], f["looks"]) && ratioOk(f["colRatio"], f["collisions"], f["looks"]), "numbers:ratio", w, ": ratios ", f["hitRatio"], " ", f["colRatio"]);
        CHK(m["findOrInserts"] + m["upperNeighbors"] + m["lowerNeighbors"] <= lookups, "numbers:kinds", w, ": more lookups by kind than lookups"); count("number_tables_compared"); (void)fresh;
    };
    check("construction");
    for (int s = 0, len = g.range(20, 150); s < len; s++) {
        const int k = g.range(0, 19); hh = mix(hh + static_cast<std::uint64_t>(k));
        if (k <= 13) { double v = g.chance(0.2) ? g.pick(std::vector<double>{0, 1, 0.70710678118654752440, 0.5}) : g.chance(0.6) ? g.range(0, 30) * 0.0371 : g.chance(0.5) ? (static_cast<double>(g.below(static_cast<std::size_t>(T::MASK) + 1)) + 0.5) / static_cast<double>(T::MASK) + T::tolerance() * g.uni(-2, 2) : g.uni(0, 2); v = std::abs(v); auto* e = t.lookup(v); lookups++; if (e == &T::zero || e == &T::one || e == &T::sqrt2_2 || !stored.insert(e).second) hits++; else { inserts++; peak = std::max(peak, stored.size()); } if (g.chance(0.3)) { T::incRef(e); held.push_back(e); } check("lookup"); }
        else if (k <= 15) { if (held.empty()) continue; auto j = static_cast<std::ptrdiff_t>(g.below(held.size())); T::decRef(held[static_cast<std::size_t>(j)]); held.erase(held.begin() + j); }
        else if (k <= 18) { const bool force = g.chance(0.7); const std::size_t before = stored.size(); const bool need = t.possiblyNeedsCollection(); const std::size_t got = t.garbageCollect(force); calls++; if ((force || need) && before > 1) { runs++; std::unordered_set<const void*> left; for (auto* b: t.getTable()) for (auto* e = b; e; e = e->next) left.insert(e); SAME(got, before - left.size(), "numbers:collected", "numbers collected"); stored = left; count("number_collections"); } else SAME(got, 0, "numbers:collected", "nothing to collect"); check("collection"); }
        else if (g.chance(0.2)) { held.clear(); stored.clear(); t.clear(); lookups = hits = inserts = calls = runs = peak = 0; check("clear"); count("clears"); }
    }
    std::ostringstream o; t.printBucketDistribution(o); std::istringstream is(o.str()); std::size_t sum = 0, lines = 0; std::string line; bool same = true; while (std::getline(is, line)) { if (line.empty()) continue; std::size_t c = 0; for (auto* e = lines < t.getTable().size() ? t.getTable()[lines] : nullptr; e; e = e->next) c++; same &= std::to_string(c) == line; lines++; sum += std::strtoul(line.c_str(), nullptr, 10); } SAME(lines, t.getTable().size(), "numbers:buckets", "lines of the bucket distribution"); SAME(sum, stored.size(), "numbers:buckets", "numbers in the bucket distribution"); CHK(same, "numbers:buckets", "bucket distribution differs from the buckets");
    auto l = captured([&]() { t.print(); }); std::size_t pr = 0, where = 0; while ((where = l.find("\t\t", where)) != std::string::npos) { pr++; where += 2; } SAME(pr, stored.size(), "numbers:print", "numbers printed");
    rec().distinct(hh); count("number_tables");
}
// ---- loans of temporary numbers
static void loans(Rng& g) {
    dd::ComplexCache<4, 2> c; std::vector<dd::Complex> out; std::size_t peak = 0; std::uint64_t hh = 9;
    for (int s = 0, len = g.range(10, 200); s < len; s++) {
        const int k = g.range(0, 40); hh = mix(hh + static_cast<std::uint64_t>(k));
        if (k == 0) { c.clear(); out.clear(); peak = 0; }
        else if (k < 22) { auto x = c.getCachedComplex(); x.r->refCount = 0; x.i->refCount = 0; out.push_back(x); peak = std::max(peak, 2 * out.size()); }
        else if (!out.empty()) { auto j = static_cast<std::ptrdiff_t>(g.below(out.size())); c.returnToCache(out[static_cast<std::size_t>(j)]); out.erase(out.begin() + j); }
        SAME(c.getCount(), 2 * out.size(), "loans:count", "temporary numbers on loan"); SAME(c.getPeakCount(), peak, "loans:peak", "most temporary numbers on loan"); CHK(c.getAllocations() >= c.getCount(), "loans:allocations", "fewer temporaries allocated than on loan"); count("loans_compared");
    }
    rec().distinct(hh);
}
// ---- cache tables of their own: a hit is counted exactly when a result is handed out
template<class T, class Key, class Ins, class Look, class KeyOf> void cacheModel(Rng& g, T& t, bool clearResets, const char* kind, Key key, Ins ins, Look look, KeyOf) {
    std::size_t lookups = 0, hits = 0;
    for (int s = 0, len = g.range(10, 120); s < len; s++) {
        const int k = g.range(0, 24);
        if (k < 10) ins(key());
        else if (k < 24) { const bool hit = look(key()); lookups++; hits += hit; }
        else { t.clear(); if (clearResets) lookups = hits = 0; }
        auto f = figs(t);
        if (k == 24) { const double l = at(f, "looks", kind), h = at(f, "hits", kind); CHK(h <= l, "caches:hits", kind, ": more hits than lookups"); lookups = static_cast<std::size_t>(l); hits = static_cast<std::size_t>(h); }
        SAME(at(f, "looks", kind), lookups, "caches:lookups", kind); SAME(at(f, "hits", kind), hits, "caches:hits", kind); CHK(ratioOk(at(f, "ratio", kind), static_cast<double>(hits), static_cast<double>(lookups)), "caches:ratio", kind, ": ratio ", at(f, "ratio", kind), " of ", hits, "/", lookups); count("cache_tables_compared");
    }
}
static void caches(Rng& g) {
    dd::ComplexNumbers cn; std::vector<dd::Complex> ws{dd::Complex::one}; for (int k = 0; k < 3; k++) ws.push_back(cn.lookup(g.uni(-1, 1), g.uni(-1, 1)));
    std::vector<dd::mNode> nodes(6); for (auto& x: nodes) x.v = 0; auto edge = [&]() { return dd::mEdge{&nodes[g.below(nodes.size())], ws[g.below(ws.size())]}; }; int d = 0;
    switch (g.range(0, 4)) {
    case 0: { auto t = std::make_unique<dd::ComputeTable<dd::mEdge, dd::mEdge, dd::mEdge, 8>>(); cacheModel(g, *t, false, "binary cache", [&]() { return std::make_pair(edge(), edge()); }, [&](auto k) { t->insert(k.first, k.second, edge()); }, [&](auto k) { return t->lookup(k.first, k.second).p != nullptr; }, d); break; }
    case 1: { auto t = std::make_unique<dd::UnaryComputeTable<dd::mEdge, dd::mEdge, 4>>(); cacheModel(g, *t, true, "unary cache", edge, [&](auto k) { t->insert(k, edge()); }, [&](auto k) { return t->lookup(k).p != nullptr; }, d); break; }
    case 2: { auto t = std::make_unique<dd::ToffoliTable<dd::mEdge, 4>>(); cacheModel(g, *t, true, "Toffoli cache", [&]() { dd::Controls c; for (int q = 1; q < 4; q++) if (g.chance(0.5)) c.insert(dd::Control{static_cast<dd::Qubit>(q), g.chance(0.5) ? dd::Control::Type::pos : dd::Control::Type::neg}); return c; }, [&](const dd::Controls& c) { t->insert(4, c, 0, edge()); }, [&](const dd::Controls& c) { return t->lookup(4, c, 0).p != nullptr; }, d); break; }
    case 3: { auto t = std::make_unique<dd::DensityNoiseTable<dd::mEdge, dd::mEdge, 8>>(); cacheModel(g, *t, false, "noise cache", [&]() { std::vector<dd::Qubit> q; for (int k = 0; k < 3; k++) if (g.chance(0.5)) q.push_back(static_cast<dd::Qubit>(k)); return std::make_pair(edge(), q); }, [&](auto k) { t->insert(k.first, edge(), k.second); }, [&](auto k) { return t->lookup(k.first, k.second).p != nullptr; }, d); break; }
    default: { auto t = std::make_unique<dd::StochasticNoiseOperationTable<dd::mEdge, 4>>(3); cacheModel(g, *t, false, "stochastic cache", [&]() { return std::make_pair(g.range(0, 3), g.range(0, 2)); }, [&](auto k) { t->insert(static_cast<std::uint8_t>(k.first), static_cast<dd::Qubit>(k.second), edge()); }, [&](auto k) { return t->lookup(static_cast<std::uint8_t>(k.first), static_cast<dd::Qubit>(k.second)).p != nullptr; }, d); }
    }
    rec().distinct(g.u64()); count("caches");
}
// ---- the figures of a package over a history
struct Snap { std::size_t cnt[3], peak[3], act[3], maxA[3]; Fig ut[3], num; std::size_t ncnt, npeak; std::vector<Fig> ct; };
template<class P> std::vector<std::pair<const char*, std::string>> sections(P& p) {
    std::vector<std::pair<const char*, std::string>> r; auto add = [&](const char* n, auto& t) { std::ostringstream o; t.printStatistics(o); r.emplace_back(n, o.str()); };
    add("vUniqueTable", p.vUniqueTable); add("mUniqueTable", p.mUniqueTable); add("CT Vector Add", p.vectorAdd); add("CT Matrix Add", p.matrixAdd); add("CT Matrix Transpose", p.matrixTranspose); add("CT Conjugate Matrix Transpose", p.conjugateMatrixTranspose); add("CT Matrix Multiplication", p.matrixMatrixMultiplication); add("CT Matrix Vector Multiplication", p.matrixVectorMultiplication);
    add("CT Inner Product", p.vectorInnerProduct); add("CT Vector Kronecker", p.vectorKronecker); add("CT Matrix Kronecker", p.matrixKronecker); add("Toffoli Table", p.toffoliTable); add("Stochastic Noise Table", p.stochasticNoiseOperationCache); add("CT Density Add", p.densityAdd); add("CT Density Mul", p.densityDensityMultiplication); add("CT Density Noise", p.densityNoise); add("ComplexTable", p.cn.complexTable);
    return r;
}
template<class P> Snap snapOf(P& p) {
    Snap s; auto one = [&](int k, auto& t) { s.cnt[k] = t.getNodeCount(); s.peak[k] = t.getPeakNodeCount(); s.act[k] = t.getActiveNodeCount(); s.maxA[k] = t.getMaxActiveNodes(); s.ut[k] = figs(t); }; one(0, p.vUniqueTable); one(1, p.mUniqueTable); one(2, p.dUniqueTable); s.num = figs(p.cn.complexTable); s.ncnt = p.cn.complexTable.getCount(); s.npeak = p.cn.complexTable.getPeakCount();
    for (auto& x: sections(p)) s.ct.push_back(figures(x.second));
    return s;
}
template<class Cfg> VH_GLUE void history(Rng& g, std::size_t i) {
    auto h = makeHist<Cfg>(g, 2, 1); auto& p = *h.w.p; const char* kinds[3] = {"vector", "matrix", "density"}; const int len = g.range(15, 40); Snap a = snapOf(p);
    for (int k = 0; k < 3; k++) { SAME(a.cnt[k], 0, "package:new", kinds[k], " nodes"); SAME(a.peak[k], 0, "package:new", kinds[k], " peak"); SAME(a.maxA[k], 0, "package:new", kinds[k], " max active"); SAME(a.ut[k]["looks"], 0, "package:new", kinds[k], " lookups"); }
    for (int s = 0; s < len; s++) {
        std::string what; const int o = g.range(0, 9);
        if (o <= 5) { const int op = h.step(); what = op == NOPS ? "density operation" : opName(op); }
        else if (o == 6 && !h.w.vs.empty()) { auto e = h.w.vs[g.below(h.w.vs.size())].e; const auto before = p.vUniqueTable.getMaxActiveNodes(); p.incRef(e); SAME(p.vUniqueTable.getMaxActiveNodes(), std::max(before, p.vUniqueTable.getActiveNodeCount()), "package:max-active", "vector nodes"); p.decRef(e); what = "reference"; }
        else if (o == 7) { std::unordered_set<const void*> before; auto fill = [&](std::unordered_set<const void*>& st) { for (auto& l: liveNodes(p.vUniqueTable)) st.insert(l.begin(), l.end()); for (auto& l: liveNodes(p.mUniqueTable)) st.insert(l.begin(), l.end()); for (auto& l: liveNodes(p.dUniqueTable)) st.insert(l.begin(), l.end()); for (auto* b: p.cn.complexTable.getTable()) for (auto* e = b; e; e = e->next) st.insert(e); }; fill(before); const bool r = p.garbageCollect(true); std::unordered_set<const void*> after; fill(after); CHK(r == (after.size() < before.size()), "package:collected", "garbageCollect returned ", r, " with ", before.size(), " items before and ", after.size(), " after"); what = "collection"; count("collections_compared"); }
        else if (o == 8) { if (!g.chance(0.1)) continue; h.releaseAll(); p.reset(); h.w.vs.clear(); h.w.ms.clear(); what = "reset"; Snap b = snapOf(p); for (int k = 0; k < 3; k++) { SAME(b.cnt[k], 0, "package:reset", kinds[k], " nodes"); SAME(b.peak[k], 0, "package:reset", kinds[k], " peak"); SAME(b.act[k], 0, "package:reset", kinds[k], " active"); SAME(b.maxA[k], 0, "package:reset", kinds[k], " max active"); SAME(b.ut[k]["looks"], 0, "package:reset", kinds[k], " lookups"); SAME(b.ut[k]["gc runs"], 0, "package:reset", kinds[k], " collections"); } SAME(p.cn.complexCache.getPeakCount(), 0, "package:reset", "peak of temporaries"); a = b; count("resets"); continue; }
        else { // the report shows the figures of all tables
            auto t = captured([&]() { p.statistics(); }); std::size_t pos = 0; for (auto& x: sections(p)) { const std::string want = str("[", x.first, "] ", x.second); auto k = t.find(want); CHK(k != std::string::npos, "package:report", "the report does not show the figures of ", x.first, ": ", x.second); CHK(k >= pos, "package:report", "order"); pos = k; } count("reports"); continue;
        }
        Snap b = snapOf(p);
        for (int k = 0; k < 3; k++) {
            const std::string w = str(kinds[k], " nodes after ", what); const bool gc = b.ut[k]["gc runs"] != a.ut[k]["gc runs"];
            CHK(b.peak[k] >= b.cnt[k] && b.peak[k] >= a.peak[k], "package:peak", w, ": peak ", b.peak[k], " of ", b.cnt[k]); if (!gc) SAME(b.peak[k], std::max(a.peak[k], b.cnt[k]), "package:peak", w);
            CHK(b.maxA[k] >= b.act[k] && b.maxA[k] >= a.maxA[k], "package:max-active", w, ": ", b.maxA[k], " of ", b.act[k]); CHK(b.act[k] <= b.cnt[k], "package:active", w, ": more active than stored");
            const double dl = b.ut[k]["looks"] - a.ut[k]["looks"], dh = b.ut[k]["hits"] - a.ut[k]["hits"]; CHK(dl >= dh && dh >= 0, "package:lookups", w, ": ", dl, " lookups, ", dh, " hits"); if (!gc) SAME(b.cnt[k], static_cast<double>(a.cnt[k]) + dl - dh, "package:lookups", w, " (lookups without hit)"); CHK(b.ut[k]["gc runs"] <= b.ut[k]["gc calls"], "package:gc", w);
        }
        { const std::string w = str("numbers after ", what); const bool gc = b.num["gc runs"] != a.num["gc runs"]; SAME(b.num["looks"] - a.num["looks"], b.num["hits"] - a.num["hits"] + b.num["inserts"] - a.num["inserts"], "package:number-lookups", w); if (!gc) { SAME(b.ncnt, static_cast<double>(a.ncnt) + b.num["inserts"] - a.num["inserts"], "package:number-inserts", w); SAME(b.npeak, std::max(a.npeak, b.ncnt), "package:number-peak", w); } CHK(b.npeak >= b.ncnt, "package:number-peak", w); }
        for (std::size_t k = 2; k + 1 < b.ct.size(); k++) { auto& f = b.ct[k]; CHK(f["hits"] <= f["looks"] && ratioOk(f["ratio"], f["hits"], f["looks"]), "package:cache", "cache ", k, " after ", what, ": hits ", f["hits"], " looks ", f["looks"], " ratio ", f["ratio"]); }
        CHK(p.cn.complexCache.getPeakCount() >= p.cn.complexCache.getCount(), "package:temporaries", "peak of temporaries below their number"); a = b; count("steps_compared");
    }
    rec().distinct(h.w.hist ^ h.dw.hist); if (i < 8) rec().sample(rec().cur); h.releaseAll();
}
// ---- a repeated request is answered from the cache
template<class Cfg> VH_GLUE void repeat(Rng& g, std::size_t i) {
    using W = World<Cfg, ops({NEWV, NEWM, GATE})>; const int n = g.range(1, std::is_same_v<Cfg, Tiny> ? 3 : 5); W w(g, n); auto& p = *w.p; std::string desc = str("repeat n=", n); std::mt19937_64 mt(1);
    for (int k = 0; k < 3; k++) { w.newV(n); w.newM(n); w.gate(n); }
    auto ask = [&](const char* what, auto& table, auto f) {
        auto b0 = figs(table); auto r1 = f(); auto b1 = figs(table); auto r2 = f(); auto b2 = figs(table); const double l1 = b1["looks"] - b0["looks"], l2 = b2["looks"] - b1["looks"], h2 = b2["hits"] - b1["hits"];
        if (getenv("VH_DEBUG")) fprintf(stderr, "%s first %g/%g second %g/%g\n", what, l1, b1["hits"] - b0["hits"], l2, h2);
        CHK(h2 == l2 && l2 <= 1 && l2 == std::min(l1, 1.0), "repeat:miss", what, " on ", n, " qubits: ", l1, " lookups at first, then ", l2, " lookups with ", h2, " hits"); CHK(r1 == r2, "repeat:result", what, " repeated gives another result"); count("repeats"); if (l1 > 0) count("cached_repeats"); desc += str(' ', what);
    };
    for (int s = 0; s < 12; s++) {
        auto& a = *w.pickV(n); auto& b = *w.pickV(n); auto& m = *w.pickM(n); auto& k = *w.pickM(n); const bool inc = g.chance(0.5); (void)inc;
        switch (g.range(0, 8)) {
        case 0: ask("vector sum", p.vectorAdd, [&]() { return p.add(a.e, b.e); }); break;
        case 1: ask("matrix sum", p.matrixAdd, [&]() { return p.add(m.e, k.e); }); break;
        case 2: ask("matrix times vector", p.matrixVectorMultiplication, [&]() { return p.multiply(m.e, a.e); }); break;
        case 3: ask("matrix product", p.matrixMatrixMultiplication, [&]() { return p.multiply(m.e, k.e); }); break;
        case 4: ask("transpose", p.matrixTranspose, [&]() { return p.transpose(m.e); }); break;
        case 5: ask("conjugate transpose", p.conjugateMatrixTranspose, [&]() { return p.conjugateTranspose(m.e); }); break;
        case 6: ask("inner product", p.vectorInnerProduct, [&]() { auto r = p.innerProduct(a.e, b.e); return C(r.r, r.i); }); break;
        case 7: { const int q = g.range(0, n - 1); dd::Controls c; for (int x = 0; x < n; x++) if (x != q) c.insert(dd::Control{static_cast<dd::Qubit>(x), g.chance(0.5) ? dd::Control::Type::pos : dd::Control::Type::neg}); ask("Toffoli gate", p.toffoliTable, [&]() { return p.makeGateDD(dd::Xmat, static_cast<dd::QubitCount>(n), c, static_cast<dd::Qubit>(q)); }); break; }
        default: { if (n < 2) break; auto x = p.makeStateFromVector(toCVec(randVec(g, 1))), y = p.makeStateFromVector(toCVec(randVec(g, n - 1))); ask("Kronecker product", p.vectorKronecker, [&]() { return p.kronecker(x, y); }); auto c = p.makeDDFromMatrix(toCMat(randMat(g, 1))), d = p.makeDDFromMatrix(toCMat(randMat(g, n - 1))); ask("matrix Kronecker product", p.matrixKronecker, [&]() { return p.kronecker(c, d); }); }
        }
    }
    note(desc); rec().distinct(fnv(desc)); if (i < 8) rec().sample(desc);
}
template<class Cfg> void both(Rng& g, std::size_t i) {
    switch (g.range(0, 9)) {
    case 0: nodeTable<dd::vNode, 4>(g, "vector"); break;
    case 1: nodeTable<dd::mNode, 8>(g, "matrix"); break;
    case 2: if (g.chance(0.5)) numberTable<dd::ComplexTable<16, 4, 2, 30>>(g); else numberTable<dd::ComplexTable<256, 8, 2, 50>>(g); break;
    case 3: loans(g); break;
    case 4: caches(g); break;
    case 5: case 6: repeat<Cfg>(g, i); break;
    default: history<Cfg>(g, i); }
}
VH_SPLIT(both)
VH_MAIN("node_tables_compared", "number_tables_compared", "loans_compared", "cache_tables_compared", "steps_compared", "reports", "resets", "clears", "node_collections", "number_collections", "collections_compared", "cached_repeats", "vector_tables", "matrix_tables", "number_tables")
