// C15: measurement: probabilities, sampling statistics, collapse, references, rejected states; driven by real and by crafted random numbers
#include "world.hpp"
#include "wide.hpp"
#include "large.hpp"
using namespace vh;
inline std::uint64_t untemper(std::uint64_t y) {
    y ^= y >> 43; y ^= (y << 37) & 0xFFF7EEE000000000ULL;
    std::uint64_t x = y; for (int k = 0; k < 6; k++) x = y ^ ((x << 17) & 0x71D67FFFEDA60000ULL);
    y = x; for (int k = 0; k < 6; k++) x = y ^ ((x >> 29) & 0x5555555555555555ULL);
    return x;
}
// a generator whose next outputs are the given ones (then some fixed others)
inline std::mt19937_64 crafted(const std::vector<std::uint64_t>& out) {
    std::stringstream ss; for (std::size_t k = 0; k < 312; k++) ss << untemper(out[k % out.size()]) << ' '; ss << 0; std::mt19937_64 mt; ss >> mt;
    auto c = mt; for (std::size_t k = 0; k < out.size() && k < 312; k++) if (c() != out[k]) fail("harness", "crafted generator");
    return mt;
}
inline std::uint64_t uniformBits(double u) { return u >= 1 ? ~std::uint64_t{0} : static_cast<std::uint64_t>(u * 18446744073709551616.0); }
template<class Cfg> struct Meas {
    using P = dd::Package<Cfg>; std::unique_ptr<P> p; Rng& g; int n; std::mt19937_64 mt; std::string desc; std::uint64_t hh = 3;
    std::vector<std::pair<dd::vEdge, Vec>> held; // referenced bystanders, sharing nodes with the measured states
    Meas(Rng& r, int nq): p(makePkg<Cfg>(static_cast<std::size_t>(nq) + r.below(2))), g(r), n(nq), mt(r.u64()) {}
    dd::QubitCount N() const { return static_cast<dd::QubitCount>(n); }
    dd::vEdge state(Vec& d) { // a referenced normalised state and its dense twin
        const std::size_t D = std::size_t{1} << n; dd::vEdge e;
        switch (g.range(0, 5)) {
        case 0: case 1: d = normalized(randVec(g, n)); e = p->makeStateFromVector(toCVec(d)); break;
        case 2: { // circuit
            e = p->makeZeroState(N()); d.assign(D, 0); d[0] = 1; p->incRef(e); const int len = g.range(1, 12); const bool ct = g.chance(0.5);
            for (int k = 0; k < len; k++) { const int t = g.range(0, n - 1); auto G = ct ? cliffordT(g) : unitary1(g); auto c = randCtl(g, n, {t}, 0.3); auto f = p->multiply(p->makeGateDD(G.mat, N(), toControls(c), static_cast<dd::Qubit>(t)), e); p->incRef(f); p->decRef(e); e = f; d = embed(G.dense, n, {t}, c) * d; }
            p->decRef(e); break; }
        case 3: d.assign(D, 0); if (g.chance(0.5)) { d[0] = d[D - 1] = std::sqrt(0.5); if (n == 1) d = {std::sqrt(0.5), std::sqrt(0.5)}; } else for (int q = 0; q < n; q++) d[std::size_t{1} << q] = 1 / std::sqrt(double(n)); e = p->makeStateFromVector(toCVec(d)); break; // GHZ, W
        case 4: { d.assign(D, 0); const double eps = std::pow(10.0, g.uni(-6, -2)); for (std::size_t i = 0; i < D; i++) if (g.chance(0.5)) d[i] = eps * C(g.gauss(), g.gauss()); d[g.below(D)] = 1; d = normalized(d); e = p->makeStateFromVector(toCVec(d)); break; } // nearly a basis state
        default: { d = normalized(randVec(g, n, 2)); e = p->makeStateFromVector(toCVec(d)); }
        }
        const Vec got = evalV(e, n); EQV(got, d, "harness:state", "constructed state"); d = got; hh = mix(hh ^ hashOf(d)); p->incRef(e); return e;
    }
    double prob(const Vec& d, int q, int o) { double s = 0; for (std::size_t i = 0; i < d.size(); i++) if (static_cast<int>((i >> q) & 1U) == o) s += std::norm(d[i]); return s; }
    void refs(const std::vector<dd::vEdge>& roots, const char* when) {
        RefModel r; for (auto& x: roots) r.addRoot(x); for (auto& x: held) r.addRoot(x.first);
        try { r.compareNodes(p->vUniqueTable, "vector"); r.compareNumbers(p->cn.complexTable, true); } catch (const Fail& f) { fail("measure-" + f.key, std::string(when) + ": " + f.msg); }
        CHK(p->mUniqueTable.getActiveNodeCount() == 0, "measure-refs:gate", when, ": matrix nodes referenced"); count("ref_audits");
    }
    void bystanders() { for (auto& x: held) EQV(evalV(x.first, n), x.second, "measure:bystander", "another state changed"); }
    VH_GLUE void probabilities(const dd::vEdge& e, const Vec& d) {
        for (int q = 0; q < n; q++) for (const bool as: {false, true}) {
            auto [a, b] = p->determineMeasurementProbabilities(e, static_cast<dd::Qubit>(q), as); const double w0 = prob(d, q, 0), w1 = prob(d, q, 1);
            CHK(std::abs(a - w0) <= 1e-10 && std::abs(b - w1) <= 1e-10, "probabilities", "qubit ", q, " of ", n, ": ", a, " ", b, " want ", w0, " ", w1, " ", show(d)); CHK(std::abs(a + b - 1) <= 1e-9, "probabilities:sum", a + b); CHK(a >= 0 && b >= 0, "probabilities:negative", a, " ", b); count("probabilities");
        }
    }
    std::size_t index(const std::string& s) { CHK(s.size() == static_cast<std::size_t>(n), "bits:length", "bit string '", s, "' for ", n, " qubits"); std::size_t i = 0; for (char c: s) { CHK(c == '0' || c == '1', "bits:char", s); i = 2 * i + static_cast<std::size_t>(c - '0'); } return i; }
    static bool rare(double k, double N, double pr) { return std::abs(k - N * pr) > 8 * std::sqrt(N * pr * (1 - pr)) + 14; }
    VH_GLUE void sample(dd::vEdge& e, const Vec& d) {
        const int N = g.chance(0.15) ? 4000 : g.range(50, 600); std::vector<int> cnt(d.size()); const auto r = e; const auto snap = snapshot(e);
        for (int k = 0; k < N; k++) { const auto s = p->measureAll(e, false, mt); const auto i = index(s); CHK(std::norm(d[i]) > 0, "sample:impossible", "bit string ", s, " has probability 0 in ", show(d)); cnt[i]++; }
        CHK(e == r && snapshot(e) == snap, "sample:changed", "sampling changed the state");
        for (std::size_t i = 0; i < d.size(); i++) CHK(!rare(cnt[i], N, std::norm(d[i])), "sample:frequency", "outcome ", i, " occurred ", cnt[i], " times in ", N, " samples, probability ", std::norm(d[i]), " of ", show(d));
        count("samples", static_cast<std::uint64_t>(N)); count("sampled_states");
    }
    VH_GLUE void extremes(dd::vEdge& e, const Vec& d) { // outcomes of probability zero do not occur for any random numbers
        for (int k = 0; k < 12; k++) {
            std::vector<std::uint64_t> o; const int style = g.range(0, 3); for (int q = 0; q < n + 1; q++) o.push_back(style == 0 ? 0 : style == 1 ? ~std::uint64_t{0} : g.chance(0.5) ? (g.chance(0.5) ? 0 : ~std::uint64_t{0}) : style == 2 ? uniformBits(g.pick(std::vector<double>{0.25, 0.5, 0.75, 1.0 / 3, 2.0 / 3})) + static_cast<std::uint64_t>(g.range(-1, 1)) * 2048 : g.u64());
            auto m = crafted(o); const auto s = p->measureAll(e, false, m); const auto i = index(s); CHK(std::norm(d[i]) > 0, "sample:impossible", "bit string ", s, " has probability 0 in ", show(d), " (crafted random numbers)"); count("crafted");
        }
    }
    // the outcome of one decision as a function of the one random number it draws: where it switches is the probability it uses
    template<class F> VH_GLUE void boundary(const F& f, double p0, const char* what, const Vec& d) { // p0: Born probability of outcome 0
        const double top = 1 - 0x1p-53; const bool a = f(0.0), b = f(top);
        if (a == b) { count("probe_constant"); return; } // (practically) certain, or the decision does not use this random number
        double lo = 0, hi = top; for (int k = 0; k < 44; k++) { const double m = (lo + hi) / 2; (f(m) == a ? lo : hi) = m; }
        for (int k = 0; k < 6; k++) { const double u = g.uni(0, top); if (std::abs(u - hi) > 1e-9 && (f(u) == a) != (u < hi)) { count("probe_not_monotone"); return; } }
        const double q0 = a ? 1 - hi : hi; CHK(std::abs(q0 - p0) <= 1e-8, "sample:threshold", what, " gives outcome 0 for a fraction of ", q0, " of the random numbers, Born probability ", p0, " of ", show(d)); count("probed_thresholds");
    }
    VH_GLUE void probe(dd::vEdge& e, const Vec& d) {
        std::vector<std::uint64_t> o; for (int q = 0; q < n + 1; q++) o.push_back(g.u64());
        for (int k = 0; k < n; k++) {
            const int q = n - 1 - k; std::string pre; bool same = true;
            auto f = [&](double u) { auto x = o; x[static_cast<std::size_t>(k)] = uniformBits(u); auto m = crafted(x); const auto s = p->measureAll(e, false, m); const auto h = s.substr(0, static_cast<std::size_t>(k)); if (pre.empty()) pre = h; same = same && h == pre; return s[static_cast<std::size_t>(k)] == '1'; };
            f(0.5); double c0 = 0, c1 = 0; for (std::size_t i = 0; i < d.size(); i++) { bool in = true; for (int j = 0; j < k; j++) in = in && ((i >> (n - 1 - j)) & 1U) == static_cast<std::size_t>(pre[static_cast<std::size_t>(j)] - '0'); if (in) ((i >> q) & 1U ? c1 : c0) += std::norm(d[i]); }
            if (c0 + c1 < 1e-6) break; // too unlikely a prefix: cancellation dominates
            f(0.0); f(1 - 0x1p-53); if (!same) { count("probe_prefix_moves"); break; }
            boundary(f, c0 / (c0 + c1), "sampling", d);
        }
        const int q = g.range(0, n - 1); const bool as = g.chance(0.5);
        boundary([&](double u) { auto c = e; p->incRef(c); auto m = crafted({uniformBits(u)}); const bool one = p->measureOneCollapsing(c, static_cast<dd::Qubit>(q), as, m) == '1'; p->decRef(c); return one; }, prob(d, q, 0), "collapsing measurement", d);
    }
    VH_GLUE void collapseAll(dd::vEdge e, const Vec& d) { // takes the reference of e
        const bool keep = g.chance(0.4); const auto old = e; if (keep) { p->incRef(e); held.emplace_back(e, d); }
        std::mt19937_64 m = g.chance(0.3) ? crafted({g.chance(0.5) ? 0 : ~std::uint64_t{0}}) : mt; mt.discard(7);
        const auto s = p->measureAll(e, true, m); const auto i = index(s); CHK(std::norm(d[i]) > 0, "sample:impossible", "bit string ", s, " has probability 0"); Vec w(d.size()); w[i] = 1; EQV(evalV(e, n), w, "collapse-all", "state after measuring ", s);
        { std::vector<bool> b; for (int q = 0; q < n; q++) b.push_back((i >> q) & 1U); CHK(e == p->makeBasisState(N(), b), "collapse-all:basis", "not the basis state"); }
        refs({e}, "after collapsing all"); bystanders(); for (int k = 0; k < 3; k++) CHK(p->measureAll(e, g.chance(0.5), mt) == s, "collapse-all:repeat", "repeated measurement differs"); refs({e}, "after repeated measurement"); probabilities(e, w); p->decRef(e); refs({}, "after release"); count("collapse_all"); (void)old;
    }
    VH_GLUE void collapseOne(dd::vEdge e, Vec d) { // measures qubits one after another; takes the reference of e
        const int len = g.range(1, 2 * n); std::vector<int> fixed(static_cast<std::size_t>(n), -1);
        for (int k = 0; k < len; k++) {
            const int q = g.range(0, n - 1); const bool as = g.chance(0.5); if (g.chance(0.2)) { p->incRef(e); held.emplace_back(e, d); }
            std::mt19937_64 m = g.chance(0.3) ? crafted({g.chance(0.5) ? 0 : ~std::uint64_t{0}}) : mt; mt.discard(3);
            const auto loan = p->cn.cacheCount(); const char r = p->measureOneCollapsing(e, static_cast<dd::Qubit>(q), as, m); CHK(r == '0' || r == '1', "collapse:char", r); const int o = r - '0'; const double pr = prob(d, q, o);
            CHK(pr > 0, "collapse:impossible", "outcome ", o, " of qubit ", q, " has probability 0 in ", show(d)); CHK(p->cn.cacheCount() == loan, "collapse:loan", "temporary numbers lost");
            Vec w = d; for (std::size_t i = 0; i < w.size(); i++) { if (static_cast<int>((i >> q) & 1U) != o) w[i] = 0; else w[i] /= std::sqrt(pr); }
            if (pr < 1e-14) { desc += "tiny "; count("tiny_outcomes"); p->decRef(e); refs({}, "after a tiny outcome"); return; }
            const Vec got = evalV(e, n); const double dv = diff(got, w); CHK(dv <= 1e-10 + 1e-11 / std::sqrt(pr), "collapse:state", "state after outcome ", o, " of qubit ", q, " (n=", n, ", probability ", pr, ") deviates by ", dv, ": ", show(got), " want ", show(w), " from ", show(d));
            CHK(std::abs(norm2(got) - 1) <= 1e-9 + 1e-10 / pr * 1e-2 + 1e-10 / std::sqrt(pr), "collapse:norm", "norm ", norm2(got)); if (fixed[static_cast<std::size_t>(q)] >= 0) CHK(fixed[static_cast<std::size_t>(q)] == o, "collapse:repeat", "qubit ", q, " measured again gives another outcome"); fixed[static_cast<std::size_t>(q)] = o;
            refs({e}, "after collapsing one qubit"); bystanders(); if (pr < 1e-5) { count("small_outcomes"); break; } d = got; probabilities(e, d); count("collapse_one"); if (g.chance(0.2)) { p->garbageCollect(true); EQV(evalV(e, n), d, "collapse:gc", "state after a collection"); }
        }
        p->decRef(e); refs({}, "after release");
    }
    VH_GLUE void conditional() { // statistics of successive collapsing measurements
        Vec d; auto e0 = state(d); const int N = g.range(150, 400); std::vector<int> cnt(d.size()); auto order = g.perm(n); const bool as = g.chance(0.5); std::vector<int> first(2);
        for (int k = 0; k < N; k++) { auto e = e0; p->incRef(e); std::size_t i = 0; for (int t = 0; t < n; t++) { const int q = order[static_cast<std::size_t>(t)]; const bool one = p->measureOneCollapsing(e, static_cast<dd::Qubit>(q), as, mt) == '1'; if (one) i |= std::size_t{1} << q; if (t == 0) first[one]++; } cnt[i]++; p->decRef(e); CHK(std::norm(d[i]) > 1e-20, "collapse:impossible", "outcomes ", i, " have probability ", std::norm(d[i])); }
        for (std::size_t i = 0; i < d.size(); i++) CHK(!rare(cnt[i], N, std::norm(d[i])), "collapse:frequency", "outcome ", i, " occurred ", cnt[i], " times in ", N, " collapsing runs, probability ", std::norm(d[i])); CHK(!rare(first[0], N, prob(d, order[0], 0)), "collapse:frequency", "single outcome");
        refs({e0}, "after collapsing runs"); EQV(evalV(e0, n), d, "measure:bystander", "measured copy changed the original"); p->decRef(e0); count("collapse_runs", static_cast<std::uint64_t>(N));
    }
    VH_GLUE void reject() {
        Vec d; auto e = state(d); auto f = e; const double sc = g.pick(std::vector<double>{0.5, 1.1, 2, 0.99, 1.01, 1e3, 1e-3, 0.0}); f.w = p->cn.lookup(val(e.w) * sc); if (sc == 0) f = dd::vEdge::zero; p->incRef(f); const auto snap = snapshot(f); auto h = f;
        for (int k = 0; k < 3; k++) { bool th = false; try { p->measureOneCollapsing(h, static_cast<dd::Qubit>(g.range(0, n - 1)), g.chance(0.5), mt); } catch (const std::runtime_error&) { th = true; } CHK(th, "reject", "measured a state of norm ", sc); CHK(h == f && snapshot(h) == snap, "reject:changed", "rejected state changed"); }
        if (sc == 0) { bool th = false; try { p->measureAll(h, g.chance(0.5), mt); } catch (const std::runtime_error&) { th = true; } CHK(th, "reject", "measured the zero vector"); CHK(h == f, "reject:changed", "rejected state changed"); }
        refs({e, f}, "after rejected measurements"); CHK(p->cn.cacheCount() == 0, "reject:loan", "temporary numbers lost"); p->decRef(f); p->decRef(e); count("rejected");
    }
    VH_GLUE void run() {
        const int k = g.range(1, 3);
        for (int j = 0; j < k; j++) switch (g.range(0, 6)) {
            case 0: { Vec d; auto e = state(d); note("probabilities"); probabilities(e, d); p->decRef(e); break; }
            case 1: { Vec d; auto e = state(d); note("sample"); sample(e, d); extremes(e, d); if (g.chance(0.12)) { note("probe"); probe(e, d); } p->decRef(e); break; }
            case 2: { Vec d; auto e = state(d); note("collapse-all"); collapseAll(e, d); break; }
            case 3: case 4: { Vec d; auto e = state(d); note("collapse-one"); probabilities(e, d); collapseOne(e, d); break; }
            case 5: if (g.chance(0.3)) { note("conditional"); conditional(); } else { Vec d; auto e = state(d); extremes(e, d); p->decRef(e); } break;
            default: note("reject"); reject();
            }
        bystanders(); for (auto& x: held) p->decRef(x.first); held.clear(); refs({}, "at the end"); auditPackage(*p); p->garbageCollect(true); CHK(p->vUniqueTable.getNodeCount() == 0, "measure-refs:left", "state nodes left after release");
    }
};
// states with many nodes, measured qubit by qubit and as a whole
template<class Cfg> VH_GLUE void wide(Rng& g) {
    const int n = g.range(8, SLOW ? 9 : 13); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); note(str("wide n=", n)); std::mt19937_64 mt(g.u64()); WideSim<dd::Package<Cfg>> s(*p, g, n); s.evolve(g.range(0, 4));
    for (int q = 0; q < n; q++) { double p0 = 0, p1 = 0; for (std::size_t i = 0; i < s.d.size(); i++) (((i >> q) & 1U) ? p1 : p0) += std::norm(s.d[i]); const auto [a, b] = p->determineMeasurementProbabilities(s.e, static_cast<dd::Qubit>(q), true); const auto [x, y] = p->determineMeasurementProbabilities(s.e, static_cast<dd::Qubit>(q), false); CHK(std::abs(a - p0) < 1e-8 && std::abs(b - p1) < 1e-8 && std::abs(x - p0) < 1e-8 && std::abs(y - p1) < 1e-8, "wide:probability", "qubit ", q, ": ", a, " ", b, " ", x, " ", y, " want ", p0, " ", p1); }
    for (int k = 0; k < 20; k++) { const auto r = p->measureAll(s.e, false, mt); CHK(r.size() == static_cast<std::size_t>(n), "wide:sample", "outcome ", r); std::size_t i = 0; for (int q = 0; q < n; q++) if (r[static_cast<std::size_t>(n - 1 - q)] == '1') i |= std::size_t{1} << q; CHK(std::norm(s.d[i]) > 1e-16, "wide:sample", "impossible outcome ", r); }
    s.check("after sampling");
    for (int k = g.range(1, n); k > 0; k--) { const int q = g.range(0, n - 1); const char o = p->measureOneCollapsing(s.e, static_cast<dd::Qubit>(q), true, mt); Vec w = s.d; double pr = 0; for (std::size_t i = 0; i < w.size(); i++) { if (((i >> q) & 1U) != static_cast<unsigned>(o - '0')) w[i] = 0; else pr += std::norm(w[i]); } CHK(pr > 1e-12, "wide:collapse", "impossible outcome"); s.d = scaled(w, 1 / std::sqrt(pr)); { const C ph = [&] { const Vec got = evalV(s.e, n); std::size_t m = 0; for (std::size_t i = 0; i < w.size(); i++) if (std::abs(w[i]) > std::abs(w[m])) m = i; return got[m] / s.d[m]; }(); CHK(std::abs(std::abs(ph) - 1) < 1e-8, "wide:collapse", "norm after collapse"); s.d = scaled(s.d, ph); } const double df = diff(evalV(s.e, n), s.d); CHK(df < 1e-8, "wide:collapse", "state after collapse deviates by ", df); p->garbageCollect(g.chance(0.2)); if (g.chance(0.4)) { s.d = evalV(s.e, n); s.evolve(1); } s.d = evalV(s.e, n); }
    { const auto r = p->measureAll(s.e, true, mt); std::size_t i = 0; for (int q = 0; q < n; q++) if (r[static_cast<std::size_t>(n - 1 - q)] == '1') i |= std::size_t{1} << q; CHK(std::norm(s.d[i]) > 1e-16, "wide:sample", "impossible outcome ", r); const Vec got = evalV(s.e, n); for (std::size_t k = 0; k < got.size(); k++) CHK(std::abs(std::abs(got[k]) - (k == i ? 1 : 0)) < 1e-8, "wide:collapse-all", "amplitude ", k, " after outcome ", r); }
    s.release(); CHK(p->cn.cacheCount() == 0, "cache", "temporary numbers lost"); p->garbageCollect(true); CHK(p->vUniqueTable.getNodeCount() == 0, "measure-refs:left", "state nodes left after release"); rec().distinct(hashOf(s.d)); count("wide");
}
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    if (large::sometimes<Cfg>(g, 0.01, [&](auto& r) { switch (g.range(0, 2)) { case 0: r.products(); break; case 1: r.ghz(); break; default: r.wstate(); } })) return;
    if (wideCase<Cfg>(g)) { if constexpr (std::is_same_v<Cfg, Std>) wide<Cfg>(g); return; }
    const int n = g.range(1, std::is_same_v<Cfg, Tiny> ? 4 : 5); Meas<Cfg> m(g, n); note(str("n=", n)); m.run(); rec().distinct(m.hh); if (i < 8) rec().sample(rec().cur);
}
VH_SPLIT(body)
VH_MAIN("large", "wide", "probabilities", "samples", "crafted", "collapse_all", "collapse_one", "collapse_runs", "rejected", "ref_audits", "small_outcomes", "probed_thresholds")
