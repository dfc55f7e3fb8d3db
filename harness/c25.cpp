// C25: packages used by different threads at the same time
#define VH_THREADS
#include "dens.hpp"
#include "world.hpp"
#include <atomic>
#include <locale>
#include <regex>
#include <thread>
using namespace vh;
constexpr std::uint64_t OPS25 = ops({NEWV, NEWM, GATE, MULV, MULM, ADDV, ADDM, TRANS, CTRANS, KRONV, KRONM, INNER, FID, TRACE, PTRACE, GC, DROP, MEAS1, MEASALL, SERIAL, DELEDGE, READ, SIZE, IDENT, ANC, EXTEND, PROBS, DUP});
inline std::atomic<std::uint32_t>& ticket() { static std::atomic<std::uint32_t> t{0}; return t; }
struct Out { std::vector<Vec> res; std::string key, msg; Recorder rec; std::vector<std::uint32_t> tickets; };
struct Prog { std::uint64_t seed; int cfg, n, steps; bool unitary, dens; };
// numbers of the thread's own table, text and binary forms, rejected requests
VH_GLUE inline void numbers(Rng& g, Vec& res) {
    dd::ComplexNumbers cn; std::vector<dd::Complex> keep; const double tol = dd::ComplexTable<>::tolerance();
    for (int k = 0; k < 40; k++) {
        const double r = g.chance(0.4) ? static_cast<double>(g.range(-65000, 65000)) / 65536.0 + (g.range(-3, 3)) * tol * 0.7 : g.uni(-1, 1), i = g.chance(0.4) ? r + g.range(-2, 2) * tol * 0.7 : g.uni(-1, 1);
        auto c = cn.lookup(r, i); if (g.chance(0.5)) dd::ComplexNumbers::incRef(c); keep.push_back(c);
        const auto& o = keep[g.below(keep.size())]; const C a{dd::CTEntry::val(c.r), dd::CTEntry::val(c.i)}, b{dd::CTEntry::val(o.r), dd::CTEntry::val(o.i)};
        auto x = cn.addCached(c, o), y = cn.subCached(c, o), z = cn.mulCached(c, o); for (auto* q: {&x, &y, &z}) { res.emplace_back(dd::CTEntry::val(q->r), dd::CTEntry::val(q->i)); cn.returnToCache(*q); }
        const C sm = a + b, df = a - b, pm = a * b; const std::size_t e = res.size(); CHK(std::abs(res[e - 3] - sm) < 1e-9 && std::abs(res[e - 2] - df) < 1e-9 && std::abs(res[e - 1] - pm) < 1e-9, "threads:numbers", "arithmetic on ", a.real(), " ", a.imag(), " and ", b.real(), " ", b.imag());
        const dd::ComplexValue v{g.chance(0.3) ? dd::PI * g.range(-9, 9) / g.range(1, 9) : a.real(), g.chance(0.3) ? dd::SQRT2_2 * g.range(-9, 9) / g.range(1, 9) : a.imag()}; std::ostringstream t; t << v << " " << dd::ComplexValue::toString(v.r, v.i, g.chance(0.5), g.range(-1, 16)) << c; std::uint64_t h = 1469598103934665603ULL; for (char ch: t.str()) h = (h ^ static_cast<unsigned char>(ch)) * 1099511628211ULL; res.emplace_back(static_cast<double>(h % 1000003), 0.);
        std::stringstream io; v.writeBinary(io); dd::ComplexValue u{}; u.readBinary(io); res.emplace_back(u.r, u.i); CHK(u == v, "threads:numbers", "binary form");
        if (g.chance(0.05)) cn.garbageCollect(true), keep.clear();
    }
    rec().events["number_tables"]++;
}
template<class P> VH_GLUE void rejects(Rng& g, P& p, Vec& res) {
    const auto n = p.qubits(); int thrown = 0; auto t = [&](auto&& f) { try { f(); } catch (const std::exception& e) { thrown++; for (const char* c = e.what(); *c != 0; c++) thrown = (thrown * 31 + *c) % 1000003; } };
    if (n + 1 < 128) { t([&]() { p.makeZeroState(static_cast<dd::QubitCount>(n + 1)); }); t([&]() { p.makeGateDD(dd::Hmat, static_cast<dd::QubitCount>(n + 1), 0); }); }
    t([&]() { p.makeStateFromVector({{1, 0}, {0, 0}, {0, 0}}); }); t([&]() { std::stringstream s("0.2\n1\n"); p.template deserialize<dd::vNode>(s, g.chance(0.5)); }); t([&]() { p.makeBasisState(static_cast<dd::QubitCount>(n), std::vector<bool>(n - 1)); });
    res.emplace_back(static_cast<double>(thrown), 0.); rec().events["rejected"]++;
}
template<class Cfg> VH_GLUE void program(const Prog& pr, Out& out, std::uint64_t delays) {
    ownRec() = &out.rec; Rng g(pr.seed), y(delays | 1U); auto pause = [&]() { if (delays == 0) return; out.tickets.push_back(ticket().fetch_add(1, std::memory_order_relaxed)); const int k = y.range(0, 9); if (k == 0) usleep(static_cast<useconds_t>(y.range(1, 200))); else if (k < 4) std::this_thread::yield(); };
    try {
        World<Cfg, OPS25> w(g, pr.n); DWorld<Cfg> dw(*w.p, g, std::min(pr.n, std::is_same_v<Cfg, Std> ? 2 : 3)); dw.nice = g.chance(0.5); w.unitaryOnly = w.nice = pr.unitary; std::vector<std::pair<int, int>> wt{{NEWV, 4}, {NEWM, 3}, {GATE, 4}, {MULV, 6}, {MULM, 4}, {ADDV, 3}, {ADDM, 3}, {TRANS, 2}, {CTRANS, 2}, {KRONV, 2}, {KRONM, 2}, {INNER, 2}, {FID, 2}, {TRACE, 1}, {PTRACE, 1}, {GC, 2}, {DROP, 5}, {MEAS1, 2}, {MEASALL, 2}, {SERIAL, 3}, {DELEDGE, 1}, {READ, 2}, {SIZE, 3}, {IDENT, 2}, {ANC, 1}, {EXTEND, 2}, {PROBS, 1}, {DUP, 1}};
        for (int s = 0; s < pr.steps; s++) {
            pause(); w.step(w.pickOp(wt));
            if (g.chance(0.1)) { std::ostringstream o; const bool a = g.chance(0.5), b = g.chance(0.5), c = g.chance(0.5); if (auto* v = w.pickV()) { dd::toDot(v->e, o, a, b, c); dd::exportEdgeWeights(v->e, o); } if (auto* m = w.pickM()) { dd::toDot(m->e, o, a, b, c, false, false); } out.rec.events["exports"]++; }
            if (g.chance(0.05)) { auto* m = w.pickM(); if (m && !(m->e == dd::mEdge::zero)) out.res.push_back(Vec{C(w.p->isCloseToIdentity(m->e, 1e-6))}); }
            if (g.chance(0.08)) { auto o = makePkg<Cfg>(static_cast<std::size_t>(pr.n)); if (auto* v = w.pickV()) { auto e = v->e; auto t = o->transfer(e); out.res.push_back(evalV(t, v->n)); } out.rec.events["transfers"]++; }
            if (g.chance(0.03)) { Vec r; numbers(g, r); out.res.push_back(std::move(r)); }
            if (g.chance(0.05)) { Vec r; rejects(g, *w.p, r); out.res.push_back(std::move(r)); }
            if (g.chance(0.05)) { std::ostringstream o; if (auto* v = w.pickV()) dd::toDot(v->e, o, false, true, false, true); if (auto* m = w.pickM()) dd::toDot(m->e, o, false, true, false, true); }
            if (g.chance(0.02)) { w.p->reset(); w.vs.clear(); w.ms.clear(); dw.ds.clear(); out.rec.events["resets"]++; }
            if (pr.dens && g.chance(0.3)) { if (dw.ds.empty() || (dw.ds.size() < 2 && g.chance(0.3))) dw.create(); else { const std::size_t k = g.below(dw.ds.size()); const int o = g.range(0, 9); if (o < 6) { dw.apply(dw.ds[k], g.range(0, 1)); out.res.push_back(dw.ev(dw.ds[k]).a); } else if (o < 9) { dw.read(dw.ds[k]); out.res.push_back(fromCMat(w.p->getDensityMatrix(dw.ds[k].e)).a); } else dw.release(k); } out.rec.events["density_ops"]++; }
            if (s % 5 == 4) { for (auto& v: w.vs) out.res.push_back(evalV(v.e, v.n)); for (auto& m: w.ms) out.res.push_back(evalM(m.e, m.n).a); }
        }
        dw.checkAll(); while (!dw.ds.empty()) dw.release(0); w.checkAll(); w.checkRefs(false); auditPackage(*w.p);
    } catch (const Fail& f) { out.key = f.key; out.msg = f.msg; } catch (const std::exception& e) { out.key = std::string("exception:") + typeid(e).name(); out.msg = e.what(); }
    ownRec() = nullptr;
}
void prog0(const Prog&, Out&, std::uint64_t); void prog1(const Prog&, Out&, std::uint64_t); void prog2(const Prog&, Out&, std::uint64_t);
#if VH_CFG == 0
void prog0(const Prog& p, Out& o, std::uint64_t d) { program<Tiny>(p, o, d); }
inline void start(const Prog& p, Out& o, std::uint64_t d) { (p.cfg == 0 ? prog0 : p.cfg == 1 ? prog1 : prog2)(p, o, d); }
static void body(Rng& g, std::size_t i) {
    const int T = g.range(2, 6); std::vector<Prog> ps; const bool same = g.chance(0.3); const std::uint64_t s0 = g.u64(); const int cfg = g.range(0, 3); for (int t = 0; t < T; t++) { Prog p{same ? s0 : g.u64(), g.chance(0.7) ? cfg % 3 : g.range(0, 2), 0, g.range(15, 60), g.chance(0.4), g.chance(0.5)}; p.n = p.cfg == 0 ? g.range(1, 4) : g.range(2, 4); if (same && t > 0) p = ps[0]; ps.push_back(p); }
    note(str(T, " threads", same ? ", same program" : "")); for (auto& p: ps) note(str("cfg", p.cfg, " n=", p.n, " steps=", p.steps));
    std::vector<Out> par(ps.size()), alone(ps.size()); std::vector<std::uint64_t> dl; for (int t = 0; t < T; t++) dl.push_back(g.u64() | 1U); std::atomic<int> ready{0}; ticket().store(0, std::memory_order_relaxed); std::vector<std::thread> th;
    for (std::size_t t = 0; t < ps.size(); t++) th.emplace_back([&, t]() { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield(); start(ps[t], par[t], dl[t]); });
    for (auto& x: th) x.join();
    for (std::size_t t = 0; t < ps.size(); t++) { if (!par[t].key.empty()) fail(par[t].key, str("thread ", t, ": ", par[t].msg, " | ", par[t].rec.cur)); start(ps[t], alone[t], 0); if (!alone[t].key.empty()) fail(alone[t].key, str("alone ", t, ": ", alone[t].msg)); }
    for (std::size_t t = 0; t < ps.size(); t++) { auto& a = par[t].res; auto& b = alone[t].res; CHK(a.size() == b.size(), "threads:results", "thread ", t, " gave ", a.size(), " results, alone ", b.size()); for (std::size_t k = 0; k < a.size(); k++) CHK(diff(a[k], b[k]) <= 1e-8 * (1 + maxAbs(b[k])), "threads:results", "result ", k, " of thread ", t, " deviates by ", diff(a[k], b[k])); count("results_compared", a.size()); for (auto& x: par[t].rec.events) count(x.first.c_str(), x.second); }
    std::vector<std::uint8_t> order; for (std::size_t t = 0; t < ps.size(); t++) for (auto k: par[t].tickets) { if (order.size() <= k) order.resize(k + 1U); order[k] = static_cast<std::uint8_t>(t); } std::uint64_t h = 1, sw = 0; for (std::size_t k = 0; k < order.size(); k++) { h = mix(h ^ order[k]); if (k > 0 && order[k] != order[k - 1]) sw++; } rec().distinct(h); count("thread_switches", sw); count("steps", order.size()); count("threads", ps.size()); if (same) count("same_program");
    if (i < 8) rec().sample(rec().cur + str(", ", sw, " switches in ", order.size(), " steps"));
}
// libstdc++ fills the narrowing table of the classic locale lazily and unsynchronised (std::regex uses it); not part of the library under test
extern "C" const char* __tsan_default_suppressions() { return "race:std::ctype<char>::narrow\nrace:std::ctype<char>::widen\n"; }
namespace { struct WarmLocale { WarmLocale() { const auto& f = std::use_facet<std::ctype<char>>(std::locale()); for (int c = 0; c < 256; c++) { f.narrow(static_cast<char>(c), '\0'); f.widen(static_cast<char>(c)); } std::regex r("[+-]?(\\d+)(?:\\.\\d+)?[a-z]*"); (void)std::regex_match("12.5e", r); } } warmLocale; }
VH_MAIN_ONE(body, "threads", "thread_switches", "results_compared", "exports", "transfers", "resets", "density_ops", "same_program", "serial", "measall", "gc_forced", "mulv", "number_tables", "rejected")
#elif VH_CFG == 1
void prog1(const Prog& p, Out& o, std::uint64_t d) { program<Mid>(p, o, d); }
#else
void prog2(const Prog& p, Out& o, std::uint64_t d) { program<Std>(p, o, d); }
#endif
// compiled once per configuration: VH_SPLIT(body)
