// C23: large registers against closed forms
#include "large.hpp"
using namespace vh;
using namespace vh::large;
template<class Cfg> VH_GLUE void scenario(Rng& g) {
    Reg<Cfg> r(g, Reg<Cfg>::pickN(g));
    switch (g.range(0, 14)) { case 12: case 13: case 14: r.factorOps(); break; case 0: case 1: r.products(); break; case 2: r.ghz(); break; case 3: r.wstate(); break; case 4: r.graph(); break; case 5: case 6: case 7: r.blocks(); break; case 8: case 9: r.controls(); break; case 10: r.permutations(); break; default: if constexpr (std::is_same_v<Cfg, Std>) r.blocks(); else r.density(); }
}
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    scenario<std::conditional_t<std::is_same_v<Cfg, Tiny>, Big, Cfg>>(g);
    if (i < 8) rec().sample(rec().cur);
}
VH_SPLIT(body)
VH_MAIN("products", "ghz", "w_states", "graphs", "blocks", "matrix_blocks", "inverses", "controls", "offsets", "permutations", "density", "by_index", "entries", "round_trips", "measurements", "gc", "factors", "factor_entries", "large_traces", "large_partial_traces", "expectations", "large_garbage")
