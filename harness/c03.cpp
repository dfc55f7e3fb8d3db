// C03: gate construction = textbook unitary on exactly the addressed qubits
#include "vh.hpp"
#include "gates2.hpp"
#include "large.hpp"
using namespace vh;
template<class Cfg> void body(Rng& g, std::size_t idx) {
    if (large::sometimes<Cfg>(g, 0.01, [](auto& r) { r.controls(); })) return;
    const int n = g.range(1, 6), start = g.chance(0.6) ? 0 : g.range(1, 3);
    auto p = makePkg<Cfg>(static_cast<std::size_t>(n + start) + g.below(3));
    const auto N = static_cast<dd::QubitCount>(n); const auto S = static_cast<std::size_t>(start);
    const int rounds = g.range(1, 6);
    for (int k = 0; k < rounds; k++) {
        std::string what; dd::mEdge e; Mat want;
        if (n == 1 || g.chance(0.45)) {
            int t = g.range(0, n - 1); auto G = gate1(g); auto ctl = randCtl(g, n, {t}, g.pick(std::vector<double>{0, 0.3, 0.6, 1}));
            what = G.name + str(" n=", n, " start=", start, " t=", t, " c=") + showCtl(ctl); note(what);
            auto ca = toControls(ctl, start); auto T = static_cast<dd::Qubit>(t + start);
            if (ctl.empty() && g.chance(0.5)) e = p->makeGateDD(G.mat, N, T, S);
            else if (ctl.size() == 1 && g.chance(0.5)) e = p->makeGateDD(G.mat, N, *ca.begin(), T, S);
            else e = p->makeGateDD(G.mat, N, ca, T, S);
            want = embed(G.dense, n, {t}, ctl);
            count("single_target"); count("controls", ctl.size()); for (auto& c: ctl) { count(c.pos ? "ctl_pos" : "ctl_neg"); count(c.q < t ? "ctl_below" : "ctl_above"); }
        } else {
            int a = g.range(0, n - 1), b = g.range(0, n - 2); if (b >= a) b++;
            auto ctl = g.chance(0.5) ? std::vector<Ctl>{} : randCtl(g, n, {a, b}, 0.4);
            auto r = gate2(*p, g, n, a, b, ctl, start);
            what = r.name + str(" n=", n, " start=", start, " t=", a, ",", b, " c=") + showCtl(ctl); note(what);
            e = r.e; want = embed(r.dense, n, {a, b}, ctl); count("two_target"); count(("g2:" + r.family).c_str());
            if (!ctl.empty()) count("two_target_controlled");
        }
        rec().distinct(fnv(what)); if (idx < 8) rec().sample(what);
        EQV(evalM(e, n, start), want, "gate", what);
        if (start == 0) { std::size_t r = g.below(want.d), c = g.below(want.d); CHK(std::abs(val(p->getValueByPath(e, r, c)) - want(r, c)) < 1e-9, "gate:read", what); }
        if (g.chance(0.1)) p->garbageCollect(true);
        if (g.chance(0.3)) p->incRef(e);
    }
    CHK(p->cn.cacheCount() == 0, "cache", "temporary numbers lost: ", p->cn.cacheCount());
}
VH_SPLIT(body)
VH_MAIN("large", "single_target", "two_target", "two_target_controlled", "ctl_pos", "ctl_neg", "ctl_below", "ctl_above")
