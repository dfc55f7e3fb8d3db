// C14: the number table against a model; complex numbers against complex arithmetic; the cache of temporaries
#include "audit.hpp"
using namespace vh;
template<class T> struct TableModel {
    std::unique_ptr<T> t{std::make_unique<T>()}; Rng& g; double tol; std::string desc; std::uint64_t hh = 7;
    struct Ent { typename T::Entry* p; std::uint64_t refs; };
    std::map<double, Ent> m; // stored values
    std::vector<typename T::Entry*> held; // one reference each
    std::vector<double> centers;
    explicit TableModel(Rng& r): g(r), tol(T::tolerance()) {
        auto* h = const_cast<typename T::Entry*>(findStored(0.5)); CHK(h != nullptr, "table:half", "0.5 is not stored initially"); m[0.5] = {h, 1};
        const double mask = static_cast<double>(T::MASK);
        for (int k = 0; k < 8; k++) { // clusters around bucket borders, bucket centres, constants, powers of two, tiny and huge values
            double c = 0;
            switch (g.range(0, 7)) {
            case 0: c = (static_cast<double>(g.below(static_cast<std::size_t>(mask) + 1)) + 0.5) / mask; break;
            case 1: c = static_cast<double>(g.below(static_cast<std::size_t>(mask) + 1)) / mask; break;
            case 2: { static const std::vector<double> cs{0, 1, 0.70710678118654752440, 0.5, 0.25, 0.125, 2, 1.0 / 3}; c = g.pick(cs); break; }
            case 3: c = std::pow(10.0, g.uni(-13, -6)); break;
            case 4: c = std::pow(10.0, g.uni(0, 15)); break;
            case 5: c = tol * g.uni(0.5, 20); break;
            case 6: c = 1 + g.uni(-4, 4) / mask; break;
            default: c = g.uni(); }
            centers.push_back(c);
        }
    }
    const typename T::Entry* findStored(double v) { for (auto* b: t->getTable()) for (auto* e = b; e; e = e->next) if (e->value == v) return e; return nullptr; }
    double value() {
        double c = g.pick(centers); double v = c;
        switch (g.range(0, 6)) {
        case 0: break;
        case 1: v = c + tol * g.uni(-3, 3); break;
        case 2: v = c + tol * g.range(-3, 3); break;
        case 3: v = c + tol * g.uni(-0.2, 0.2); break;
        case 4: v = c * (1 + g.uni(-4, 4) * 2.3e-16); break;
        case 5: if (!m.empty()) { auto it = m.begin(); std::advance(it, static_cast<std::ptrdiff_t>(g.below(m.size()))); v = it->first; if (g.chance(0.5)) v += tol * g.uni(-2.5, 2.5); } break;
        default: v = g.uni(0, 1.5); }
        return std::abs(v);
    }
    void lookup(double v) {
        const std::size_t before = t->getCount(); auto* e = t->lookup(v); const std::size_t after = t->getCount(); rec().events["comparisons"]++;
        auto bad = [&](const char* key, const std::string& s) { fail(std::string("table:") + key, str("lookup of ", v, " (buckets ", T::MASK + 1, ", tolerance ", tol, "): ", s, " ", desc.size() > 200 ? desc.substr(desc.size() - 200) : desc)); };
        { std::uint64_t u; std::memcpy(&u, &v, 8); hh = mix(hh ^ u); }
        if (e == nullptr) bad("null", "no entry");
        if (!(std::abs(e->value - v) <= tol * 1.000001)) bad("far", str("returned ", e->value));
        static const double s2 = 0.70710678118654752440; const double in = 0.999 * tol, out = 1.001 * tol;
        for (auto [c, p]: std::initializer_list<std::pair<double, typename T::Entry*>>{{0.0, &T::zero}, {1.0, &T::one}, {s2, &T::sqrt2_2}}) {
            if (std::abs(v - c) <= in) { if (e != p) bad("constant", str("did not return the constant ", c)); count("constants_found"); }
            if (e == p) { if (std::abs(v - c) > out) bad("constant", "returned a constant that is too far away"); if (after != before) bad("count", "count changed for a constant"); return; }
        }
        auto it = m.lower_bound(v - out); bool near = false, known = false; const double ulp = std::abs(v) * 4.5e-16;
        for (; it != m.end() && it->first <= v + out + ulp; ++it) { if (std::abs(it->first - v) + ulp <= in) near = true; if (it->second.p == e) known = true; if (it->first == v && e != it->second.p) bad("exact", "another entry than the exactly stored one returned"); }
        if (near && !known) bad("duplicate", str("inserted ", e->value, " although a stored value is within the tolerance"));
        if (known) { if (after != before) bad("count", "count changed although the value was found"); count("found"); return; }
        if (after != before + 1) bad("count", str("count ", before, " -> ", after, " for an insertion")); if (e->value != v) bad("value", str("inserted ", e->value));
        if (e->refCount != 0) bad("refcount", str("new entry has reference count ", e->refCount));
        for (auto& x: m) if (x.second.p == e) bad("reuse", str("entry of the live value ", x.first, " reused"));
        m[v] = {e, 0}; count("inserted");
    }
    void collect(bool force) {
        const bool need = t->possiblyNeedsCollection(); const std::size_t n = m.size(); std::size_t dead = 0; for (auto& x: m) dead += x.second.refs == 0;
        const auto r = t->garbageCollect(force); const bool runs = (force || need) && n > 1;
        if (runs) { for (auto it = m.begin(); it != m.end();) it = it->second.refs == 0 ? m.erase(it) : std::next(it); CHK(r == dead, "table:gc-return", "collected ", r, " of ", dead); }
        else CHK(r == 0, "table:gc-return", "collected ", r, " without need");
        CHK(t->getCount() == m.size(), "table:gc-count", "count ", t->getCount(), " want ", m.size());
        auto live = auditNumbers(*t); for (auto& x: m) { CHK(live.count(x.second.p) == 1, "table:gc-lost", "referenced value ", x.first, " was removed"); CHK(x.second.p->value == x.first, "table:gc-value", "value changed"); CHK(x.second.p->refCount == x.second.refs, "table:gc-ref", "reference count changed"); }
        count(runs ? "collections" : "refused_collections"); desc += force ? "gc " : "gc? ";
        CHK(T::zero.value == 0 && T::one.value == 1 && T::sqrt2_2.value == dd::SQRT2_2, "table:constants", "a built-in constant changed");
    }
    VH_GLUE void run() {
        const int len = g.range(50, 400);
        for (int s = 0; s < len; s++) {
            const double c = g.uni();
            if (c < 0.8 || m.empty()) lookup(value());
            else if (c < 0.88) { auto it = m.begin(); std::advance(it, static_cast<std::ptrdiff_t>(g.below(m.size()))); auto* p = it->second.p; T::incRef(g.chance(0.5) ? p : T::Entry::getNegativePointer(p)); it->second.refs++; held.push_back(p); CHK(p->refCount == it->second.refs, "table:ref", "after an increment ", p->refCount, " want ", it->second.refs); }
            else if (c < 0.93) { if (held.empty()) continue; const std::size_t k = g.below(held.size()); auto* p = held[k]; held.erase(held.begin() + static_cast<std::ptrdiff_t>(k)); T::decRef(g.chance(0.5) ? p : T::Entry::getNegativePointer(p)); for (auto& x: m) if (x.second.p == p) { x.second.refs--; CHK(p->refCount == x.second.refs, "table:ref", "after a decrement ", p->refCount, " want ", x.second.refs); } }
            else if (c < 0.95) { for (auto* p: {&T::zero, &T::one, &T::sqrt2_2}) { const auto r = p->refCount; T::incRef(p); T::decRef(p); T::decRef(p); CHK(p->refCount == r, "table:constant-ref", "reference count of a constant changed"); } }
            else if (c < 0.97) { auto it = m.begin(); std::advance(it, static_cast<std::ptrdiff_t>(g.below(m.size()))); if (it->second.refs == 0) { bool th = false; try { T::decRef(it->second.p); } catch (const std::runtime_error&) { th = true; } CHK(th, "table:underflow", "decrement of an unreferenced number accepted"); count("underflows"); } }
            else if (c < 0.995) collect(g.chance(0.8));
            else { t->clear(); m.clear(); held.clear(); CHK(t->getCount() == 0, "table:clear", "count after clear"); for (auto* b: t->getTable()) CHK(b == nullptr, "table:clear", "stored entries after clear"); desc += "clear "; count("clears"); }
        }
        auditNumbers(*t); for (auto& x: m) CHK(x.second.p->value == x.first && x.second.p->refCount == x.second.refs, "table:final", "value or reference count of ", x.first);
        conserveNumbers(*t); count("table_histories");
    }
};
template<class T> VH_GLUE void table(Rng& g, double tolr) {
    const double old = T::tolerance(); if (tolr > 0) T::setTolerance(tolr);
    struct Restore { double o; ~Restore() { T::setTolerance(o); } } rs{old};
    TableModel<T> m(g); m.run(); rec().distinct(m.hh); note(m.desc);
}
VH_GLUE void limit(Rng& g) { // automatic collection at the limit, and the limit after it
    auto t = std::make_unique<dd::ComplexTable<>>(); std::size_t keep = 0; std::vector<dd::CTEntry*> kept; const double part = g.chance(0.5) ? 0.01 : g.chance(0.5) ? 0.3 : 0.95;
    for (int r = 0; r < 3; r++) {
        std::size_t steps = 0; while (!t->possiblyNeedsCollection() && steps < 400000) { auto* e = t->lookup(g.uni(0, 1.2)); steps++; if (e->refCount == 0 && !isConst(e) && g.chance(part)) { dd::ComplexTable<>::incRef(e); kept.push_back(e); keep++; } if (!t->possiblyNeedsCollection() && steps % 20000 == 0) CHK(t->garbageCollect(false) == 0, "table:early", "collected before the limit"); }
        CHK(t->possiblyNeedsCollection(), "table:limit", "no collection requested with ", t->getCount(), " numbers"); const std::size_t n = t->getCount(); const std::size_t c = t->garbageCollect(false);
        CHK(c + t->getCount() == n && t->getCount() == keep + 1, "table:limit", "after an automatic collection ", t->getCount(), " numbers, want ", keep + 1); auditNumbers(*t); CHK(!t->possiblyNeedsCollection() || keep + 1 >= 50000, "table:limit", "still wants a collection"); count("limit_collections");
        if (part > 0.5) break;
    }
    for (auto* e: kept) dd::ComplexTable<>::decRef(e); CHK(t->garbageCollect(true) == keep, "table:limit", "final collection"); CHK(t->getCount() == 1, "table:limit", "numbers left"); rec().distinct(g.u64()); note("limit");
}
VH_GLUE void arithmetic(Rng& g) {
    auto cn = std::make_unique<dd::ComplexNumbers>(); const double tol = dd::ComplexTable<>::tolerance(); std::uint64_t hh = 5;
    auto rv = [&]() { C v = g.chance(0.5) ? niceValue(g) : C(g.gauss(), g.gauss()); switch (g.range(0, 9)) { case 0: v = {v.real(), 0}; break; case 1: v = {0, v.imag()}; break; case 2: v *= std::pow(10.0, g.uni(-10, 5)); break; case 3: v = {1, 0}; break; case 4: v = 0; break; case 5: v = {-v.real(), -0.0}; break; case 6: v += C(tol * g.uni(-2, 2), tol * g.uni(-2, 2)); break; default: break; } return v; };
    auto close = [&](C a, C b, double e) { return std::abs(a - b) <= e; };
    for (int s = 0; s < 200; s++) {
        C x = rv(), y = rv(); hh = mix(hh ^ hashOf(Vec{x, y})); auto a = cn->lookup(x), b = g.chance(0.5) ? cn->lookup(y.real(), y.imag()) : cn->lookup(dd::ComplexValue{y.real(), y.imag()});
        C va = val(a), vb = val(b); CHK(std::abs(va.real() - x.real()) <= tol * 1.000001 && std::abs(va.imag() - x.imag()) <= tol * 1.000001, "lookup", "lookup of ", x, " gave ", va); CHK(!std::signbit(va.real()) || va.real() != 0, "lookup:negative-zero", "negative zero"); CHK(!std::signbit(va.imag()) || va.imag() != 0, "lookup:negative-zero", "negative zero");
        auto a2 = cn->lookup(x); CHK(std::abs(val(a2).real() - x.real()) <= tol * 1.000001 && std::abs(val(a2).imag() - x.imag()) <= tol * 1.000001, "lookup:same", "second lookup of ", x, " gave ", val(a2)); { auto a4 = cn->lookup(x); CHK(a4 == a2, "lookup:same", "third lookup of ", x, " differs"); } auto a3 = cn->lookup(va); CHK(a3 == a, "lookup:stored", "lookup of the stored value ", va, " differs"); auto tmp = cn->getTemporary(va.real(), va.imag()); CHK(cn->lookup(tmp) == a, "lookup:temporary", "lookup of a temporary");
        auto n = dd::ComplexNumbers::neg(a), c = dd::ComplexNumbers::conj(a); CHK(val(n) == -va, "neg", "negation of ", va, " gave ", val(n)); CHK(val(c) == std::conj(va), "conj", "conjugate of ", va, " gave ", val(c)); CHK(dd::ComplexNumbers::neg(n) == a && dd::ComplexNumbers::conj(c) == a, "neg:involution", "applying it twice"); CHK(n == cn->lookup(-va), "neg:lookup", "negation is not the stored number of the negative"); CHK(c == cn->lookup(std::conj(va)), "conj:lookup", "conjugate is not the stored number");
        CHK(std::abs(dd::ComplexNumbers::mag2(a) - std::norm(va)) <= 1e-12 * (1 + std::norm(va)), "mag2", dd::ComplexNumbers::mag2(a)); CHK(std::abs(dd::ComplexNumbers::mag(a) - std::abs(va)) <= 1e-12 * (1 + std::abs(va)), "mag", dd::ComplexNumbers::mag(a)); if (va != C(0)) CHK(std::abs(std::remainder(dd::ComplexNumbers::arg(a) - std::arg(va), 6.283185307179586)) < 1e-12, "arg", dd::ComplexNumbers::arg(a));
        CHK(a.approximatelyZero() == (std::abs(va.real()) <= tol && std::abs(va.imag()) <= tol), "pred", "approximatelyZero"); CHK(a.approximatelyOne() == (std::abs(va.real() - 1) <= tol && std::abs(va.imag()) <= tol), "pred", "approximatelyOne"); CHK(a.exactlyZero() == (va == C(0)), "pred", "exactlyZero"); CHK(a.exactlyOne() == (va == C(1)), "pred", "exactlyOne"); CHK(a.approximatelyEquals(b) == (std::abs(va.real() - vb.real()) <= tol && std::abs(va.imag() - vb.imag()) <= tol), "pred", "approximatelyEquals");
        const double e = 4 * tol * (1 + std::abs(va) + std::abs(vb)); const std::size_t loan = cn->cacheCount();
        auto r = cn->addCached(a, b); CHK(close(val(r), va + vb, 1e-12 * (1 + std::abs(va) + std::abs(vb))), "add", va, "+", vb, " gave ", val(r)); cn->returnToCache(r);
        r = cn->subCached(a, b); CHK(close(val(r), va - vb, 1e-12 * (1 + std::abs(va) + std::abs(vb))), "sub", va, "-", vb, " gave ", val(r)); cn->returnToCache(r);
        r = cn->mulCached(a, b); CHK(close(val(r), va * vb, e + 1e-12 * std::abs(va * vb)), "mul", va, "*", vb, " gave ", val(r)); cn->returnToCache(r);
        if (std::abs(vb) > 1e-9) { r = cn->divCached(a, b); CHK(close(val(r) * vb, va, e + 1e-10 * std::abs(va)), "div", va, "/", vb, " gave ", val(r)); cn->returnToCache(r); }
        { auto q = cn->getCached(va); dd::ComplexNumbers::mul(q, q, b); CHK(close(val(q), va * vb, e + 1e-12 * std::abs(va * vb)), "mul:inplace", "in place ", val(q)); dd::ComplexNumbers::add(q, q, a); CHK(close(val(q), va * vb + va, 2 * e + 1e-12 * (std::abs(va * vb) + std::abs(va))), "add:inplace", "in place ", val(q)); if (std::abs(vb) > 1e-6) { const C o = val(q); dd::ComplexNumbers::div(q, q, b); CHK(close(val(q) * vb, o, e + 1e-9 * (1 + std::abs(o))), "div:inplace", "in place ", val(q), " for ", o, "/", vb); } const C o = val(q); dd::ComplexNumbers::mul(q, a, q); CHK(close(val(q), va * o, 4 * tol * (1 + std::abs(va) + std::abs(o)) + 1e-12 * std::abs(va * o)), "mul:inplace", "in place right"); cn->returnToCache(q); }
        CHK(cn->cacheCount() == loan, "cache:count", "temporaries lost");
        { dd::ComplexValue cv{va.real(), va.imag()}, dv{vb.real(), vb.imag()}; auto sum = cv + dv; CHK(close({sum.r, sum.i}, va + vb, 1e-12 * (1 + std::abs(va) + std::abs(vb))), "value:add", "sum of values"); CHK(cv.approximatelyEquals(dv) == a.approximatelyEquals(b), "value:eq", "approximatelyEquals"); CHK(std::hash<dd::ComplexValue>{}(cv) == std::hash<dd::ComplexValue>{}(dd::ComplexValue{va.real(), va.imag()}), "value:hash", "hash"); CHK(cv.approximatelyZero() == a.approximatelyZero() && cv.approximatelyOne() == a.approximatelyOne(), "value:pred", "predicates"); }
        if (g.chance(0.02)) { cn->garbageCollect(true); auditNumbers(cn->complexTable); count("collections"); }
        count("arithmetic");
    }
    auditNumbers(cn->complexTable); conserveCache(cn->complexCache); rec().distinct(hh); note("arithmetic");
}
VH_GLUE void cache(Rng& g) { // numbers on loan are distinct, keep their values and are never handed out twice
    auto cn = std::make_unique<dd::ComplexNumbers>(); struct L { dd::Complex c; C v; }; std::vector<L> loan; const int len = g.range(100, 3000); const double pr = g.uni(0.3, 0.8); std::unordered_set<const void*> out;
    for (int s = 0; s < len; s++) {
        if (g.chance(pr)) { C v(g.gauss(), g.gauss()); auto c = g.chance(0.5) ? cn->getCached(v.real(), v.imag()) : cn->getCached(v); CHK(out.insert(c.r).second && out.insert(c.i).second, "cache:twice", "temporary number handed out twice"); loan.push_back({c, v}); }
        else if (!loan.empty()) { const std::size_t k = g.below(loan.size()); CHK(val(loan[k].c) == loan[k].v, "cache:value", "temporary number changed from ", loan[k].v, " to ", val(loan[k].c)); out.erase(loan[k].c.r); out.erase(loan[k].c.i); cn->returnToCache(loan[k].c); loan.erase(loan.begin() + static_cast<std::ptrdiff_t>(k)); }
        if (g.chance(0.1)) { auto t = cn->getTemporary(1.5, -2.5); CHK(out.count(t.r) == 0 && out.count(t.i) == 0, "cache:temporary", "temporary is on loan"); CHK(val(t) == C(1.5, -2.5), "cache:temporary", "value"); }
        CHK(cn->cacheCount() == 2 * loan.size(), "cache:count", "count ", cn->cacheCount(), " want ", 2 * loan.size());
    }
    for (auto& l: loan) CHK(val(l.c) == l.v, "cache:value", "temporary number changed"); conserveCache(cn->complexCache);
    if (g.chance(0.3)) { cn->clear(); CHK(cn->cacheCount() == 0, "cache:clear", "count after clear"); auto c = cn->getCached(1, 2); CHK(val(c) == C(1, 2), "cache:clear", "value after clear"); cn->returnToCache(c); conserveCache(cn->complexCache); }
    count("cache_histories"); rec().distinct(g.u64()); note("cache");
}
VH_GLUE void body(Rng& g, std::size_t i) {
    switch (g.range(0, 11)) {
    case 0: case 1: table<dd::ComplexTable<>>(g, 0); break;
    case 2: table<dd::ComplexTable<3, 1>>(g, g.chance(0.3) ? std::pow(10.0, g.uni(-12, -3)) : 0); break;
    case 3: table<dd::ComplexTable<2, 2, 2, 8>>(g, g.chance(0.3) ? std::pow(10.0, g.uni(-12, -3)) : 0); break;
    case 4: table<dd::ComplexTable<17, 4, 2, 8>>(g, g.chance(0.3) ? std::pow(10.0, g.uni(-12, -3)) : 0); break;
    case 5: table<dd::ComplexTable<1025, 16, 3, 64>>(g, g.chance(0.3) ? std::pow(10.0, g.uni(-12, -4)) : 0); break;
    case 6: table<dd::ComplexTable<4096, 7>>(g, 0); break;
    case 7: case 8: arithmetic(g); break;
    case 9: cache(g); break;
    case 10: if (g.chance(0.05)) { limit(g); break; } [[fallthrough]];
    default: table<dd::ComplexTable<257, 3>>(g, g.chance(0.3) ? std::pow(10.0, g.uni(-12, -4)) : 0); }
    if (i < 8) rec().sample(rec().cur.empty() ? "table history" : rec().cur);
}
VH_MAIN_ONE(body, "table_histories", "found", "inserted", "constants_found", "collections", "refused_collections", "underflows", "clears", "arithmetic", "cache_histories", "limit_collections")
