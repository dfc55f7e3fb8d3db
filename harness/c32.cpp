// C32: tables and caches spread their contents evenly
#include "audit.hpp"
#include "shape.hpp"
#include "dd/DensityNoiseTable.hpp"
using namespace vh;
using P = dd::Package<>;
struct Dm: public dd::DDPackageConfig { static constexpr std::size_t UT_DM_NBUCKET = 32768U, UT_DM_INITIAL_ALLOCATION_SIZE = 2048U; };
// occupied places against random placement of n items on b places
VH_GLUE void spread(std::size_t n, std::size_t b, std::size_t occupied, std::size_t longest, const char* key, const std::string& what) {
    const double want = double(b) * -std::expm1(double(n) * std::log1p(-1.0 / double(b))), shared = double(n) - want, allowed = 2 * shared + 6 * std::sqrt(shared + 1) + 8;
    CHK(double(n - occupied) <= allowed, key, what, ": ", n, " items occupy only ", occupied, " of ", b, " places, random placement about ", static_cast<long>(want));
    if (longest > 0) { const double load = double(n) / double(b); std::size_t lim = 14; if (load > 1) lim = static_cast<std::size_t>(6 * load) + 14; CHK(longest <= lim, key, what, ": ", n, " items on ", b, " places, but ", longest, " of them share one place"); }
    count("items", static_cast<long>(n));
}
template<class E> using NodeT = typename NodeOf<E>::type;
template<class E> constexpr std::size_t K = std::tuple_size<decltype(NodeT<E>::e)>::value;
inline C randomWeight(Rng& g, int kind) { static const std::vector<C> pal{{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {0.5, 0}, {-0.5, 0}}; switch (kind) { case 0: return 1; case 1: return g.pick(pal); case 2: return {g.uni(0.01, 1), 0}; case 3: return {0.25 + static_cast<double>(g.range(1, 4000)) / 8192., 0}; case 4: return {0, g.uni(0.01, 1)}; default: return std::polar(g.uni(0.05, 1), g.uni(-3.14, 3.14)); } }
// a pool of different nodes of one level, and families of nodes above them
template<class E, class PP> std::vector<E> lowerPool(PP& p, Rng& g, int level, std::size_t amount) {
    std::vector<E> below{E::one}; std::vector<E> out;
    for (int q = 0; q <= level; q++) {
        out.clear(); std::unordered_set<NodeT<E>*> seen; const std::size_t goal = q == level ? amount : std::min<std::size_t>(amount, 64);
        for (std::size_t t = 0; seen.size() < goal && t < 20 * goal; t++) { std::array<E, K<E>> es; for (auto& x: es) { if (g.chance(0.2)) { x = E::zero; continue; } x = g.pick(below); x.w = p.cn.lookup(randomWeight(g, 5)); if (x.w.approximatelyZero()) x = E::zero; } E e = p.makeDDNode(static_cast<dd::Qubit>(q), es); if (e.isTerminal()) continue; e.w = dd::Complex::one; if (seen.insert(e.p).second) out.push_back(e); }
        below = out; p.incRef(out[0]);
    }
    return out;
}
template<class E, class PP, class T> VH_GLUE void nodes(Rng& g, PP& p, T& t, const char* kind, std::uint64_t& hh) {
    const int level = g.range(1, 3), fam = g.range(0, 6), wk = g.range(0, 5); const std::size_t goal = static_cast<std::size_t>(g.pick(std::vector<int>{200, 1000, 4000, 12000, 30000}));
    auto pool = lowerPool<E>(p, g, level - 1, fam <= 1 ? 400 : goal / 2 + 2); const auto q = static_cast<std::size_t>(level); const auto mark = t.getNodeCount(); std::size_t i = 0; const auto before = liveNodes(t)[q].size();
    for (std::size_t tries = 0; t.getNodeCount() < mark + goal && tries < 3 * goal; tries++, i++) {
        std::array<E, K<E>> es; auto w = [&](E x, int k) { x.w = p.cn.lookup(randomWeight(g, k)); return x.w.approximatelyZero() ? E::zero : x; }; for (auto& x: es) x = E::zero;
        switch (fam) {
        case 0: for (auto& x: es) x = w(g.pick(pool), 1); break;                                                          // pairs of few successors
        case 1: { auto s = g.pick(pool); for (auto& x: es) x = w(s, std::max(wk, 2)); break; }                              // one successor, many weights
        case 2: es[g.below(K<E>)] = w(pool[i % pool.size()], 0); break;                                                    // a single successor at one place
        case 3: { auto s = pool[i % pool.size()]; for (auto& x: es) x = w(s, 1); break; }                                   // equal successors
        case 4: es[0] = w(pool[i % pool.size()], 0); es[K<E> - 1] = w(pool[(i + 1) % pool.size()], wk); break;             // neighbours (diagonal matrices)
        case 5: es[g.below(2)] = w(pool[0], 0); for (std::size_t k = 0; k < K<E>; k++) if (es[k].isTerminal()) es[k] = w(pool[i % pool.size()], wk); break; // one common successor
        default: for (auto& x: es) if (g.chance(0.7)) x = w(g.pick(pool), wk); } 
        (void)p.makeDDNode(static_cast<dd::Qubit>(level), es);
    }
    const auto& buckets = t.getTables()[q]; std::size_t n = 0, occ = 0, longest = 0; for (auto* b: buckets) { std::size_t l = 0; for (auto* x = b; x != nullptr; x = x->next) l++; n += l; occ += l > 0; longest = std::max(longest, l); }
    (void)before; const auto what = str(kind, " nodes, family ", fam, ", weights ", wk); spread(n, buckets.size(), occ, longest, "spread:nodes", what); hh = mix(hh ^ (n * 7 + static_cast<std::size_t>(fam))); count(str("nodes_", kind).c_str()); note(str(what, ": ", n, " in ", occ, " longest ", longest));
}
// caches: what is inserted stays until its place is taken
template<class L> L key(const dd::Edge<typename std::remove_pointer<decltype(L::p)>::type>& e) { if constexpr (std::is_constructible_v<L, decltype(e.p), const dd::Complex&>) return L(e.p, e.w); else return L{e.p, e.w}; }
template<class T, class LE, class RE, class LK, class RK, class Res> VH_GLUE void cache2(Rng& g, P& p, const std::vector<LE>& ls, const std::vector<RE>& rs, const Res& res, const char* kind, std::uint64_t& hh) {
    auto t = std::make_unique<T>(); const std::size_t B = t->getTable().size(); const std::size_t goal = std::max<std::size_t>(20, static_cast<std::size_t>(double(B) * g.pick(std::vector<double>{0.02, 0.1, 0.3, 0.7}))); const int fam = g.range(0, 4), wk = g.range(1, 5); constexpr bool weighted = std::is_same_v<LK, dd::CachedEdge<NodeT<LE>>>;
    std::vector<std::pair<LK, RK>> keys; std::set<std::tuple<const void*, const void*, const void*, const void*, const void*, const void*>> seen; std::size_t i = 0;
    for (std::size_t tries = 0; keys.size() < goal && tries < 4 * goal; tries++, i++) {
        LE l = g.pick(ls); RE r = g.pick(rs); l.w = dd::Complex::one; r.w = dd::Complex::one;
        switch (fam) { case 0: l.p = ls[0].p; r.p = rs[i % rs.size()].p; break; case 1: r.p = rs[0].p; l.p = ls[i % ls.size()].p; break; case 2: if constexpr (std::is_same_v<LE, RE>) { l.p = ls[i % ls.size()].p; r.p = l.p; } break; case 3: if constexpr (std::is_same_v<LE, RE>) if (!keys.empty() && i % 2) { l.p = keys.back().second.p; r.p = keys.back().first.p; } break; default:; }
        if (weighted || fam < 3) { if (weighted || g.chance(0.7)) l.w = p.cn.lookup(randomWeight(g, wk)); if (weighted || g.chance(0.7)) r.w = p.cn.lookup(randomWeight(g, wk)); }
        if (!seen.insert({l.p, l.w.r, l.w.i, r.p, r.w.r, r.w.i}).second) continue;
        keys.emplace_back(key<LK>(l), key<RK>(r)); t->insert(keys.back().first, keys.back().second, res);
    }
    std::size_t found = 0; for (auto& k: keys) if (t->lookup(k.first, k.second).p != nullptr) found++;
    const auto what = str(kind, ", family ", fam, ", weights ", wk); spread(keys.size(), B, found, 0, "spread:cache", what); hh = mix(hh ^ (found * 13 + static_cast<std::size_t>(fam))); count("caches"); note(str(what, ": ", keys.size(), " inserted ", found, " kept"));
}
template<class T, class E, class Res> VH_GLUE void cache1(Rng& g, P& p, const std::vector<E>& ls, const Res& res, const char* kind, std::uint64_t& hh, const std::vector<dd::Qubit>* used = nullptr) {
    auto t = std::make_unique<T>(); const std::size_t B = t->getTable().size(); const std::size_t goal = std::max<std::size_t>(20, static_cast<std::size_t>(double(B) * g.pick(std::vector<double>{0.02, 0.1, 0.3, 0.7}))); const int wk = g.range(1, 5), fam = g.range(0, 2);
    std::vector<E> keys; std::set<std::tuple<const void*, const void*, const void*>> seen; std::size_t i = 0; (void)used;
    for (std::size_t tries = 0; keys.size() < goal && tries < 4 * goal; tries++, i++) { E l = fam == 0 ? ls[0] : ls[i % ls.size()]; l.w = fam == 1 ? dd::Complex::one : p.cn.lookup(randomWeight(g, wk)); if (!seen.insert({l.p, l.w.r, l.w.i}).second) continue; keys.push_back(l); if constexpr (std::is_same_v<E, dd::dEdge>) t->insert(l, res, *used); else t->insert(l, res); }
    std::size_t found = 0; for (auto& k: keys) { if constexpr (std::is_same_v<E, dd::dEdge>) found += t->lookup(k, *used).p != nullptr; else found += t->lookup(k).p != nullptr; }
    const auto what = str(kind, ", family ", fam, ", weights ", wk); spread(keys.size(), B, found, 0, "spread:cache", what); hh = mix(hh ^ (found * 17 + static_cast<std::size_t>(fam))); count("caches"); note(str(what, ": ", keys.size(), " inserted ", found, " kept"));
}
template<class T> using Bare = std::decay_t<T>;
VH_GLUE void caches(Rng& g, P& p, std::uint64_t& hh) {
    auto vs = lowerPool<dd::vEdge>(p, g, 1, 3000); auto ms = lowerPool<dd::mEdge>(p, g, 1, 3000); const dd::vCachedEdge vr(vs[0].p, dd::ComplexValue{1, 0}); const dd::mCachedEdge mr(ms[0].p, dd::ComplexValue{1, 0});
    for (int r = 0; r < 4; r++) switch (g.range(0, 9)) {
        case 0: cache2<Bare<decltype(p.vectorAdd)>, dd::vEdge, dd::vEdge, dd::vCachedEdge, dd::vCachedEdge>(g, p, vs, vs, vr, "state sums", hh); break;
        case 1: cache2<Bare<decltype(p.matrixAdd)>, dd::mEdge, dd::mEdge, dd::mCachedEdge, dd::mCachedEdge>(g, p, ms, ms, mr, "matrix sums", hh); break;
        case 2: cache2<Bare<decltype(p.matrixVectorMultiplication)>, dd::mEdge, dd::vEdge, dd::mEdge, dd::vEdge>(g, p, ms, vs, vr, "matrix-state products", hh); break;
        case 3: cache2<Bare<decltype(p.matrixMatrixMultiplication)>, dd::mEdge, dd::mEdge, dd::mEdge, dd::mEdge>(g, p, ms, ms, mr, "matrix products", hh); break;
        case 4: cache2<Bare<decltype(p.vectorInnerProduct)>, dd::vEdge, dd::vEdge, dd::vEdge, dd::vEdge>(g, p, vs, vs, vr, "inner products", hh); break;
        case 5: cache2<Bare<decltype(p.vectorKronecker)>, dd::vEdge, dd::vEdge, dd::vEdge, dd::vEdge>(g, p, vs, vs, vr, "state Kronecker products", hh); break;
        case 6: cache2<Bare<decltype(p.matrixKronecker)>, dd::mEdge, dd::mEdge, dd::mEdge, dd::mEdge>(g, p, ms, ms, mr, "matrix Kronecker products", hh); break;
        case 7: cache1<Bare<decltype(p.matrixTranspose)>>(g, p, ms, ms[1], "transposes", hh); break;
        case 8: cache1<Bare<decltype(p.conjugateMatrixTranspose)>>(g, p, ms, ms[1], "conjugate transposes", hh); break;
        default: { auto ds = lowerPool<dd::dEdge>(p, g, 1, 2000); std::vector<dd::Qubit> used; for (int k = 0; k < 4; k++) if (g.chance(0.5)) used.push_back(static_cast<dd::Qubit>(k)); cache1<dd::DensityNoiseTable<dd::dEdge, dd::dEdge, 32768>>(g, p, ds, ds[1], "noise results", hh, &used); } }
}
VH_GLUE void numbers(Rng& g, std::uint64_t& hh) {
    auto t = std::make_unique<dd::ComplexTable<>>(); const std::size_t B = t->getTable().size(); const auto goal = static_cast<std::size_t>(double(B) * g.pick(std::vector<double>{0.02, 0.1, 0.5, 0.9})); const int fam = g.range(0, 1);
    for (std::size_t i = 0; i < goal; i++) (void)t->lookup(fam == 0 ? g.uni() : g.uni(0.25, 0.75)); // the second family lives on half of the range
    std::size_t n = 0, occ = 0, longest = 0; for (auto* b: t->getTable()) { std::size_t l = 0; for (auto* x = b; x != nullptr; x = x->next) l++; n += l; occ += l > 0; longest = std::max(longest, l); }
    if (fam == 0) spread(n, B, occ, longest, "spread:numbers", "evenly distributed numbers"); else CHK(double(n - occ) <= 0.75 * double(n) && longest <= 24, "spread:numbers", n, " numbers between 0.25 and 0.75 occupy only ", occ, " places, up to ", longest, " share one");
    hh = mix(hh ^ occ); count("numbers"); count("items", static_cast<long>(n)); note(str("numbers ", n, " in ", occ, " longest ", longest));
}
VH_GLUE void body(Rng& g, std::size_t i) {
    const auto own = std::make_unique<P>(4); auto& p = *own; std::uint64_t hh = 1;
    switch (g.range(0, 5)) { case 0: nodes<dd::vEdge>(g, p, p.vUniqueTable, "state", hh); break; case 1: nodes<dd::mEdge>(g, p, p.mUniqueTable, "matrix", hh); break; case 2: { auto q = std::make_unique<dd::Package<Dm>>(4); nodes<dd::dEdge>(g, *q, q->dUniqueTable, "density", hh); break; } case 3: numbers(g, hh); break; default: caches(g, p, hh); }
    rec().distinct(hh); if (i < 24) rec().sample(rec().cur);
}
VH_MAIN_ONE(body, "nodes_state", "nodes_matrix", "nodes_density", "caches", "numbers", "items")
