// C16: density-matrix evolution against dense matrices, full and compact representation
#include "dens.hpp"
#include "large.hpp"
using namespace vh;
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    if (large::sometimes<Cfg>(g, 0.02, [](auto& r) { r.density(); })) return;
    const int n = std::is_same_v<Cfg, Std> ? g.range(1, 2) : g.range(1, 4), slack = g.chance(0.3) ? 1 : 0;
    auto p = makePkg<Cfg>(static_cast<std::size_t>(n + slack));
    DWorld<Cfg> w(*p, g, n); w.nice = g.chance(0.3); w.pooled = g.chance(0.4); if (w.pooled) w.nice = g.chance(0.7);
    note(str("n=", n)); const int style = w.pooled ? g.range(1, 3) : g.range(0, 3); // full only, compact only, fixed per state, mixed within a state
    const int states = g.chance(0.6) ? 1 : g.range(2, 3); std::vector<int> fixed;
    for (int k = 0; k < states; k++) { w.create(); fixed.push_back(g.range(0, 1)); }
    const int len = g.range(3, n <= 2 ? 30 : 15);
    for (int s = 0; s < len; s++) {
        const std::size_t k = g.below(w.ds.size()); const int mode = style == 0 ? 0 : style == 1 ? 1 : style == 2 ? fixed[k] : g.range(0, 1);
        w.apply(w.ds[k], mode);
        if (g.chance(0.4)) w.read(w.ds[k]);
        if (g.chance(0.1)) { p->garbageCollect(true); w.checkAll(); count("gc"); }
        CHK(p->cn.cacheCount() == 0, "cache", "temporary numbers lost");
    }
    for (auto& x: w.ds) w.read(x);
    w.checkAll(); auditPackage(*p);
    // the same operation sequence gives the same diagram as in the other representation: covered by the dense twin
    rec().distinct(w.hist); if (i < 8) rec().sample(rec().cur);
    while (!w.ds.empty()) w.release(0);
    for (auto& o: w.pool) p->decRef(o.e);
    p->garbageCollect(true); CHK(p->dUniqueTable.getNodeCount() == 0, "density:reclaim", "density nodes left after release: ", p->dUniqueTable.getNodeCount());
}
VH_SPLIT(body)
VH_MAIN("large", "full_steps", "compact_steps", "density_reads", "density_probs", "gc", "repeated")
