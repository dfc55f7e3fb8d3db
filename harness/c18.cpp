// C18: loading damaged or hostile serialised data
#include "world.hpp"
using namespace vh;
template<class E> void wellFormed(const E& root, std::size_t nq, const std::string& how) {
    using Node = std::remove_pointer_t<decltype(E::p)>; std::unordered_set<const Node*> seen; std::vector<const Node*> st;
    auto edge = [&](const E& e, int lvl) {
        if (e.p == nullptr || e.w.r == nullptr || e.w.i == nullptr) fail("hostile:null", how + ": null in a loaded diagram");
        const C w = val(e.w); if (!std::isfinite(w.real()) || !std::isfinite(w.imag())) fail("hostile:nonfinite", str(how, ": weight ", w, " in a loaded diagram"));
        if (Node::isTerminal(e.p)) return; if (w == C(0)) fail("hostile:zero-weight", how + ": zero weight on an edge to a node");
        if (lvl >= 0 && e.p->v != lvl) fail("hostile:level", str(how, ": level ", int(e.p->v), " below ", lvl + 1)); if (e.p->v < 0 || static_cast<std::size_t>(e.p->v) >= nq) fail("hostile:level", how + ": level out of range");
        if (seen.insert(e.p).second) st.push_back(e.p); };
    edge(root, -1); while (!st.empty()) { auto* p = st.back(); st.pop_back(); for (auto& x: p->e) edge(x, p->v - 1); }
}
struct Gen { // mutations of valid files and files built from the grammar
    Rng& g; explicit Gen(Rng& r): g(r) {}
    std::string number() {
        static const std::vector<std::string> ws{"0", "1", "-1", "0.5", "0.70710678118654757", "1e300", "1e-300", "-1e308", "1e999", "1e-999", ".5", "5.", "+1", "1e5", "-0", "0.1e1", "123456789012345678901234567890", "1e", "e5", "nan", "inf", "-inf", "0x10", "1e150", "1e-160", "2e-13", "1e-12", ""};
        if (g.chance(0.6)) return g.pick(ws); return str(g.gauss() * std::pow(10.0, g.uni(-14, 14)));
    }
    std::string weight() { switch (g.range(0, 5)) { case 0: return number(); case 1: return number() + "i"; case 2: return number() + "+" + number() + "i"; case 3: return number() + "-" + number() + "i"; case 4: return g.pick(std::vector<std::string>{"i", "-i", "1+i", "1-i", "+i", "1 + 2 i", "1 +2i", "ii", "1i1", "", " "}); default: return number() + " " + number(); } }
    std::string integer() { return g.pick(std::vector<std::string>{"0", "1", "2", "3", "-1", "-2", "-3", "5", "127", "128", "255", "256", "32767", "2147483647", "2147483648", "-2147483649", "99999999999999999999", "00", "007", "+1", "", "1.5", "x"}); }
    std::string grammar(int N, int levels) {
        std::string s = g.chance(0.9) ? "1\n" : integer() + "\n"; s += (g.chance(0.7) ? std::string("1") : weight()) + "\n"; const int len = g.range(0, 8); const bool tame = g.chance(0.6);
        for (int k = 0; k < len; k++) {
            s += (tame || g.chance(0.7) ? std::to_string(g.chance(0.9) ? k : g.range(0, 3)) : integer()) + " " + (tame ? std::to_string(g.chance(0.9) ? std::min(k, levels - 1) : g.range(0, levels)) : integer());
            for (int j = 0; j < N; j++) { s += " ("; if (g.chance(0.75)) s += (tame ? std::to_string(g.chance(0.8) ? k - 1 : g.range(-2, k + 1)) : integer()) + " " + (g.chance(0.5) ? std::string("0.5") : weight()); s += ")"; }
            if (g.chance(0.1)) s += g.pick(std::vector<std::string>{" ", " # c", "#", " (", ")", "\r", "  # (0 1)"}); s += "\n"; if (g.chance(0.1)) s += g.pick(std::vector<std::string>{"\n", "x\n", " \n", "#\n", "ab\n"});
        }
        return s;
    }
    template<class T> void put(std::string& s, T v) { s.append(reinterpret_cast<const char*>(&v), sizeof v); }
    double dbl() { switch (g.range(0, 5)) { case 0: return g.pick(std::vector<double>{0, -0.0, 1, -1, 0.5, 1e300, -1e308, 1e-300, 5e-324, INFINITY, -INFINITY, NAN, 2e-13, 2.3e-13, 1e154, 1e-160}); case 1: { std::uint64_t u = g.u64(); double d; std::memcpy(&d, &u, 8); return d; } default: return g.gauss(); } }
    std::string binary(int N, int levels) {
        std::string s; put<std::uint64_t>(s, g.chance(0.95) ? 1 : g.u64()); put(s, g.chance(0.7) ? 1.0 : dbl()); put(s, g.chance(0.7) ? 0.0 : dbl()); const int len = g.range(0, 8); const bool tame = g.chance(0.6);
        auto idx = [&](int k) -> std::int64_t { return tame || g.chance(0.8) ? (g.chance(0.8) ? k : g.range(-3, k + 2)) : static_cast<std::int64_t>(g.chance(0.5) ? g.u64() : static_cast<std::uint64_t>(g.range(-5, 5))); };
        for (int k = 0; k < len; k++) { put<std::int64_t>(s, idx(k)); put<dd::Qubit>(s, static_cast<dd::Qubit>(tame ? (g.chance(0.9) ? std::min(k, levels - 1) : g.range(-1, levels + 1)) : static_cast<int>(g.below(256)))); for (int j = 0; j < N; j++) { put<std::int64_t>(s, g.chance(0.2) ? -1 : idx(k - 1)); put(s, g.chance(0.6) ? 0.5 : dbl()); put(s, g.chance(0.6) ? 0.0 : dbl()); } }
        return s;
    }
    std::string mutate(std::string s, bool text) {
        const int k = g.range(1, g.chance(0.7) ? 2 : 10);
        for (int j = 0; j < k; j++) {
            if (s.empty()) { s += static_cast<char>(g.below(256)); continue; }
            const std::size_t a = g.below(s.size()); std::size_t b = std::min(s.size(), a + 1 + g.below(g.chance(0.5) ? 4 : 40));
            switch (g.range(0, 9)) {
            case 0: s[a] = static_cast<char>(s[a] ^ (1 << g.below(8))); break;
            case 1: s[a] = static_cast<char>(text && g.chance(0.7) ? "0123456789-+.ei() #\n"[g.below(20)] : static_cast<char>(g.below(256))); break;
            case 2: s.erase(a, b - a); break;
            case 3: s.insert(a, s.substr(a, b - a)); break;
            case 4: s.insert(a, 1, static_cast<char>(text && g.chance(0.7) ? "0123456789-+.ei() #\n"[g.below(20)] : static_cast<char>(g.below(256)))); break;
            case 5: { const std::size_t c = g.below(s.size()); const auto part = s.substr(a, b - a); for (std::size_t i = 0; i < part.size() && c + i < s.size(); i++) s[c + i] = part[i]; break; }
            case 6: if (!text && s.size() >= 8) { const std::size_t c = g.below(s.size() - 7); const double d = dbl(); std::memcpy(&s[c], &d, 8); } else s.insert(a, number()); break;
            case 7: if (!text && s.size() >= 8) { const std::size_t c = g.below(s.size() - 7); const std::int64_t d = g.chance(0.5) ? g.range(-3, 10) : static_cast<std::int64_t>(g.u64()); std::memcpy(&s[c], &d, 8); } else s.insert(a, integer()); break;
            case 8: if (text) { std::vector<std::string> ls; std::istringstream is(s); std::string l; while (std::getline(is, l)) ls.push_back(l); if (ls.size() > 1) { std::size_t x = g.below(ls.size()), y = g.below(ls.size()); if (g.chance(0.5)) std::swap(ls[x], ls[y]); else if (g.chance(0.5)) ls.erase(ls.begin() + static_cast<std::ptrdiff_t>(x)); else ls.insert(ls.begin() + static_cast<std::ptrdiff_t>(y), ls[x]); } s.clear(); for (auto& q: ls) s += q + "\n"; } else if (s.size() > 24) { s.erase(24 + g.below(s.size() - 24)); } break;
            default: s.resize(g.below(s.size() + 1)); break; }
        }
        return s;
    }
};
// lines are bounded: the regular expressions of the standard library recurse once per character
inline std::string bound(const std::string& s) { std::string o; std::size_t len = 0; for (char c: s) { if (c == '\n') len = 0; else if (++len > 1000) continue; o += c; } return o.substr(0, 4096); }
template<class Cfg> struct Host {
    std::unique_ptr<dd::Package<Cfg>> p; Rng& g; int n; dd::vEdge hv; Vec dv; dd::mEdge hm; Mat dm; std::uint64_t hh = 1;
    Host(Rng& r, int nq): p(makePkg<Cfg>(static_cast<std::size_t>(nq))), g(r), n(nq) { dv = normalized(randVec(g, n)); hv = p->makeStateFromVector(toCVec(dv)); p->incRef(hv); dm = randMat(g, n); hm = p->makeDDFromMatrix(toCMat(dm)); p->incRef(hm); dv = evalV(hv, n); dm = evalM(hm, n); }
    std::string valid(bool vec, bool bin) { std::ostringstream os(std::ios::out | std::ios::binary); if (vec) { dd::vEdge e = g.chance(0.5) ? hv : p->makeStateFromVector(toCVec(randVec(g, g.range(1, n)))); dd::serialize(e, os, bin); } else { dd::mEdge e = g.chance(0.5) ? hm : p->makeDDFromMatrix(toCMat(randMat(g, g.range(1, n)))); dd::serialize(e, os, bin); } return os.str(); }
    static std::string hex(const std::string& s, bool bin) { if (!bin) return s.substr(0, 600); std::string o; char b[4]; for (unsigned char c: s.substr(0, 300)) { std::snprintf(b, sizeof b, "%02x", c); o += b; } return o; }
    VH_GLUE bool load(const std::string& s, bool vec, bool bin) { // true if accepted
        const std::string how = str(vec ? "vector " : "matrix ", bin ? "binary " : "text ", hex(s, bin)); note(how); rec().cur.clear(); hh = mix(hh ^ fnv(s)); bool ok = false;
        std::istringstream is(s, std::ios::in | std::ios::binary);
        try { if (vec) { auto e = p->template deserialize<dd::vNode>(is, bin); wellFormed(e, static_cast<std::size_t>(n), how); } else { auto e = p->template deserialize<dd::mNode>(is, bin); wellFormed(e, static_cast<std::size_t>(n), how); } ok = true; }
        catch (const std::exception& x) { count("rejected"); CHK(dynamic_cast<const std::runtime_error*>(&x) != nullptr || dynamic_cast<const std::logic_error*>(&x) != nullptr, "hostile:exception", typeid(x).name(), " ", how); }
        if (ok) count("accepted"); CHK(p->cn.cacheCount() == 0, "hostile:loan", "temporary numbers lost: ", how); return ok;
    }
    VH_GLUE void works(const char* when) { // the package still works
        try { normTol = bestLimit = 1e300; auditPackage(*p); } catch (const Fail& f) { fail("hostile-" + f.key, std::string(when) + ": " + f.msg); }
        EQV(evalV(hv, n), dv, "hostile:state", "referenced state changed"); EQV(evalM(hm, n), dm, "hostile:matrix", "referenced matrix changed");
        auto G = unitary1(g); const int t = g.range(0, n - 1); auto e = p->multiply(p->makeGateDD(G.mat, static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(t)), hv); EQV(evalV(e, n), embed(G.dense, n, {t}) * dv, "hostile:operation", "operation after damaged loads"); EQV(evalM(p->multiply(hm, hm), n), dm * dm, "hostile:operation", "product after damaged loads");
        const bool vec = g.chance(0.5), bin = g.chance(0.5); std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); if (vec) { dd::serialize(hv, ss, bin); EQV(evalV(p->template deserialize<dd::vNode>(ss, bin), n), dv, "hostile:load", "loading a valid state after damaged loads"); } else { dd::serialize(hm, ss, bin); EQV(evalM(p->template deserialize<dd::mNode>(ss, bin), n), dm, "hostile:load", "loading a valid matrix after damaged loads"); }
        if (g.chance(0.5)) { p->garbageCollect(true); RefModel r; r.addRoot(hv); r.addRoot(hm); r.compareNodes(p->vUniqueTable, "vector"); r.compareNodes(p->mUniqueTable, "matrix"); std::size_t nn = p->vUniqueTable.getNodeCount() + p->mUniqueTable.getNodeCount(); CHK(nn == r.node.size(), "hostile:reclaim", nn, " nodes after a collection, ", r.node.size(), " referenced"); EQV(evalV(hv, n), dv, "hostile:state", "referenced state changed"); }
        count("works");
    }
    VH_GLUE void truncations(bool vec, bool bin) { // every prefix
        const auto s = valid(vec, bin); if (s.size() > 1500) throw Skip{}; std::size_t recLen = 9 + (vec ? 2u : 4u) * 24u; bool term = false;
        for (std::size_t k = 0; k < s.size(); k += bin ? 1 : static_cast<std::size_t>(g.range(1, 4))) {
            const bool ok = load(s.substr(0, k), vec, bin); bool inside;
            if (bin) inside = k < 24 || (k - 24) % recLen != 0;
            else { const auto l2 = s.find('\n', s.find('\n') + 1); std::size_t ls = k; while (ls > 0 && s[ls - 1] != '\n') ls--; inside = k > l2 + 1 && k - ls > 1 && k < s.size() && s[k] != '\n'; }
            if (inside) { CHK(!ok, "hostile:truncated", vec ? "vector" : "matrix", bin ? " binary" : " text", " file of ", s.size(), " bytes cut off after ", k, " was accepted"); count("truncations"); } term |= ok;
        }
    }
    VH_GLUE void defects(bool vec, bool bin) { // one defect that can never be meant
        auto s = valid(vec, bin); const std::size_t N = vec ? 2 : 4, rec = 9 + N * 24; std::string what; const int kind = g.range(0, bin ? 2 : 5); const auto nq = static_cast<int>(p->qubits());
        if (bin) {
            if (s.size() < 24 + rec) throw Skip{}; const std::size_t k = g.below((s.size() - 24) / rec), at = 24 + k * rec; auto put = [&](std::size_t pos, auto v) { std::memcpy(&s[pos], &v, sizeof v); }; auto get = [&](std::size_t pos) { std::int64_t v; std::memcpy(&v, &s[pos], 8); return v; };
            if (kind == 0) { what = "version"; put(0, g.chance(0.5) ? g.u64() | 2U : g.pick(std::vector<std::uint64_t>{0, 2, 256, 257, std::uint64_t{1} << 32U, (std::uint64_t{1} << 32U) + 1})); }
            else if (kind == 1) { what = "level"; put(at + 8, static_cast<dd::Qubit>(g.chance(0.5) ? g.range(nq, 127) : g.range(-128, -1))); }
            else { what = "successor"; const std::size_t j = g.below(N); put(at + 9 + j * 24, g.chance(0.5) ? get(at) : g.chance(0.5) ? std::int64_t{1000} : g.chance(0.5) ? std::int64_t{-3} : (get(at) + (std::int64_t{1} << 32U))); }
        } else {
            std::vector<std::string> ls; { std::istringstream is(s); std::string l; while (std::getline(is, l)) ls.push_back(l); } if (ls.size() < 3) throw Skip{}; auto& l = ls[2 + g.below(ls.size() - 2)]; if (l.size() < 2) throw Skip{}; const auto sp = l.find(' '), sp2 = l.find(' ', sp + 1);
            if (kind == 0) { what = "version"; ls[0] = g.pick(std::vector<std::string>{"0", "2", "10", "11", "-1", "x", "", "v1"}); }
            else if (kind == 1) { what = "level"; l = l.substr(0, sp + 1) + std::to_string(g.chance(0.5) ? g.range(nq, 127) : g.chance(0.5) ? g.range(128, 400) : 256 * g.range(1, 4)) + l.substr(sp2); }
            else if (kind == 2) { what = "successor"; const auto b = l.find('('); auto e = l.find(' ', b); if (e == std::string::npos || b + 1 >= l.size() || l[b + 1] == ')') throw Skip{}; l = l.substr(0, b + 1) + (g.chance(0.5) ? l.substr(0, sp) : g.pick(std::vector<std::string>{"1000", "-3", "77777"})) + l.substr(e); }
            else if (kind == 3) { what = "number of successors"; if (g.chance(0.5)) { while (!l.empty() && l.back() == ' ') l.pop_back(); if (l.back() != ')') throw Skip{}; l += g.chance(0.5) ? " ()" : " (-1 0.5)"; } else { const auto b = l.rfind('('); l = l.substr(0, b); } }
            else if (kind == 4) { what = "shape"; const auto b = l.rfind(')'), a = l.find('('); switch (g.range(0, 5)) { case 0: l.erase(b, 1); break; case 1: l.erase(a, 1); break; case 2: l += " x"; break; case 3: l += " 7"; break; case 4: l = "n" + l; break; default: l.insert(b, " 0.5"); } }
            else { what = "root weight"; ls[1] = g.pick(std::vector<std::string>{"abc", "1,0", "(1)", "1+2", "1 0.5", "--1", "1e", "0x1", "1i2", "i1"}); }
            s.clear(); for (auto& x: ls) s += x + "\n";
        }
        CHK(!load(s, vec, bin), "hostile:defect", vec ? "vector" : "matrix", bin ? " binary" : " text", " file with a wrong ", what, " was accepted: ", hex(s, bin)); count("defects");
    }
};
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    const int n = g.range(1, 3); Host<Cfg> h(g, n); Gen m(g); const bool san = i % 2 == 0; (void)san; const int loads = g.range(5, 25); const int kind = g.range(0, 9);
    if (kind < 2) h.truncations(g.chance(0.5), g.chance(0.7)); else if (kind < 4) { for (int k = 0; k < loads; k++) { try { h.defects(g.chance(0.5), g.chance(0.5)); } catch (const Skip&) {} } }
    else for (int k = 0; k < loads; k++) {
        const bool vec = g.chance(0.5), bin = g.chance(0.6); std::string s;
        switch (g.range(0, 9)) { case 0: case 1: case 2: case 3: s = m.mutate(h.valid(vec, bin), !bin); break; case 4: case 5: case 6: s = bin ? m.binary(vec ? 2 : 4, n) : m.grammar(vec ? 2 : 4, n); break; case 7: s = m.mutate(bin ? m.binary(vec ? 2 : 4, n) : m.grammar(vec ? 2 : 4, n), !bin); break; case 8: s = h.valid(!vec, bin); count("wrong_kind"); break; default: { const std::size_t L = g.below(200); for (std::size_t j = 0; j < L; j++) s += static_cast<char>(g.below(256)); if (g.chance(0.5)) s.insert(0, bin ? std::string("\x01\0\0\0\0\0\0\0", 8) : "1\n"); } }
        s = bin ? s.substr(0, 4096) : bound(s); h.load(s, vec, bin); count("loads"); if (g.chance(0.1)) h.works("between loads");
    }
    h.works("after damaged loads"); rec().distinct(h.hh); note(str("n=", n, " kind ", kind)); if (i < 8) rec().sample(rec().cur);
}
VH_SPLIT(body)
VH_MAIN("defects", "loads", "accepted", "rejected", "truncations", "works", "wrong_kind")
