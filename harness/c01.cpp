// C01: state construction and every read path agree with the dense vector
#include "io.hpp"
#include "wide.hpp"
using namespace vh;
template<class Pkg> void readAll(Pkg& p, const dd::vEdge& e, const Vec& want, int n, int start, Rng& g) {
    const double tol = tolFor(maxAbs(want));
    EQV(evalV(e, n, start), want, "state:function", "represented vector differs (n=", n, " start=", start, ")");
    if (n > 0 && !e.isTerminal()) CHK(e.p->v == n - 1 + start, "state:top-level", "top qubit ", int(e.p->v));
    if (start != 0) { // indices of qubits below start do not matter for reading by path
        for (int t = 0; t < 4; t++) {
            std::size_t i = g.below(want.size());
            std::string path(static_cast<std::size_t>(start), '0');
            for (int q = 0; q < n; q++) path += ((i >> q) & 1U) ? '1' : '0';
            C got = val(p.getValueByPath(e, path));
            CHK(std::abs(got - want[i]) <= tol, "read:path", "start ", start, " path ", path, " got ", got, " want ", want[i]);
        }
        return;
    }
    Vec byIdx(want.size()), byPath(want.size());
    for (std::size_t i = 0; i < want.size(); i++) {
        byIdx[i] = val(p.getValueByPath(e, i));
        std::string path; for (int q = 0; q < n; q++) path += ((i >> q) & 1U) ? '1' : '0';
        byPath[i] = val(p.getValueByPath(e, path));
    }
    const bool term = e.isTerminal();
    if (term) { // only the zero vector (or n=0)
        CHK(std::abs(byIdx[0] - want[0]) <= tol, "read:terminal", "terminal value");
        auto v = p.getVector(e); CHK(v.size() == 1 && std::abs(v[0] - want[0]) <= tol, "read:terminal-vector", "terminal vector");
        return;
    }
    EQV(byIdx, want, "read:index", "getValueByPath(index)");
    EQV(byPath, want, "read:path", "getValueByPath(path)");
    auto cv = p.getVector(e); EQV(Vec(cv.begin(), cv.end()), want, "read:vector", "getVector");
    const auto nq = static_cast<dd::QubitCount>(n);
    dd::CVec ex(want.size(), {7, 7}); p.exportAmplitudes(e, ex, nq); EQV(Vec(ex.begin(), ex.end()), want, "read:export-vector", "exportAmplitudes(vector)");
    Vec base = randVec(g, n, 0); dd::CVec acc = toCVec(base); p.addAmplitudes(e, acc, nq);
    EQV(Vec(acc.begin(), acc.end()), base + want, "read:accumulate", "addAmplitudes");
    std::ostringstream ts; p.exportAmplitudes(e, static_cast<std::ostream&>(ts), nq, false);
    { std::istringstream is(ts.str()); std::string l; Vec got; while (std::getline(is, l)) got.push_back(parsePlain(l)); EQV(got, want, "read:export-text", "text export"); }
    std::ostringstream bs; p.exportAmplitudes(e, static_cast<std::ostream&>(bs), nq, true);
    { std::string b = bs.str(); CHK(b.size() == 16 * want.size(), "read:export-binary-size", "size ", b.size()); Vec got(want.size()); std::memcpy(got.data(), b.data(), b.size()); EQV(got, want, "read:export-binary", "binary export"); }
    if (g.chance(0.15)) {
        const bool bin = g.chance(0.5); char name[] = "/tmp/ddv-exp-XXXXXX"; int fd = mkstemp(name); if (fd >= 0) close(fd);
        p.exportAmplitudes(e, std::string(name), nq, bin);
        std::ifstream f(name, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); f.close(); unlink(name);
        CHK(ss.str() == (bin ? bs.str() : ts.str()), "read:export-file", "file export differs from stream export"); count("file_exports");
    }
    { // printed vector
        CoutCapture cap; p.printVector(e); std::istringstream is(cap.text()); std::string l; std::size_t i = 0;
        while (std::getline(is, l)) {
            auto c = l.find(": "); CHK(c == static_cast<std::size_t>(n), "print:format", "line '", l, "'");
            std::string bits; for (int q = n - 1; q >= 0; q--) bits += ((i >> q) & 1U) ? '1' : '0';
            CHK(l.substr(0, c) == bits, "print:order", "label ", l.substr(0, c), " want ", bits);
            C got = parsePlain(l.substr(c + 2));
            CHK(std::abs(got.real() - want[i].real()) <= 6e-3 * std::abs(want[i].real()) + 1e-9 && std::abs(got.imag() - want[i].imag()) <= 6e-3 * std::abs(want[i].imag()) + 1e-9, "print:value", "printed ", l, " want ", want[i]);
            i++;
        }
        CHK(i == want.size(), "print:lines", "lines ", i);
    }
    CHK(p.cn.cacheCount() == 0, "cache", "temporary numbers lost: ", p.cn.cacheCount());
}
// many different amplitudes
template<class Cfg> VH_GLUE void wide(Rng& g) {
    const int n = g.range(9, SLOW ? 11 : 17); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); const auto N = static_cast<dd::QubitCount>(n); const Vec v = wideVec(g, n); note(str("wide n=", n));
    auto e = p->makeStateFromVector(toCVec(v)); WEQ(evalV(e, n), v, "wide:function", "represented vector of ", n, " qubits"); { auto w = p->getVector(e); WEQ(Vec(w.begin(), w.end()), v, "wide:vector", "vector read back"); }
    Vec a(v.size()), b(v.size(), C(0.25, -0.5)); { std::vector<std::complex<dd::fp>> x(v.size()), y(b.begin(), b.end()); p->exportAmplitudes(e, x, N); p->addAmplitudes(e, y, N); WEQ(Vec(x.begin(), x.end()), v, "wide:export", "exported amplitudes"); for (std::size_t i = 0; i < v.size(); i++) y[i] -= b[i]; WEQ(Vec(y.begin(), y.end()), v, "wide:accumulate", "accumulated amplitudes"); }
    { std::stringstream s; p->exportAmplitudes(e, s, N, true); const auto t = s.str(); CHK(t.size() == 16 * v.size(), "wide:binary", "size ", t.size()); std::memcpy(a.data(), t.data(), t.size()); WEQ(a, v, "wide:binary", "binary export"); }
    { std::stringstream s; p->exportAmplitudes(e, s, N, false); std::string l; std::size_t k = 0; while (std::getline(s, l)) { CHK(k < v.size() && std::abs(parsePlain(l) - v[k]) < 1e-9, "wide:text", "line ", k, ": ", l); k++; } CHK(k == v.size(), "wide:text", "lines ", k); }
    for (int t = 0; t < 300; t++) { const std::size_t i = g.below(v.size()); CHK(std::abs(val(p->getValueByPath(e, i)) - v[i]) < 1e-9, "wide:index", "amplitude ", i); std::string path; for (int q = 0; q < n; q++) path += ((i >> q) & 1U) ? '1' : '0'; CHK(std::abs(val(p->getValueByPath(e, path)) - v[i]) < 1e-9, "wide:path", "amplitude ", path); }
    CHK(p->makeStateFromVector(toCVec(v)) == e, "wide:again", "the same vector gives another diagram"); CHK(p->cn.cacheCount() == 0, "cache", "temporary numbers lost"); count("wide"); rec().distinct(hashOf(v));
}
template<class Cfg> void body(Rng& g, std::size_t idx) {
    if (wideCase<Cfg>(g)) { if constexpr (std::is_same_v<Cfg, Std>) wide<Cfg>(g); return; }
    const int n = g.chance(0.05) ? g.range(7, 10) : g.range(1, 6);
    const int kind = g.range(0, 5);
    auto p = makePkg<Cfg>(static_cast<std::size_t>(n) + 6);
    if (g.chance(0.3)) { // some history
        for (int k = 0; k < 3; k++) { auto e = p->makeStateFromVector(toCVec(randVec(g, std::min(n, 4)))); if (g.chance(0.3)) p->incRef(e); }
        if (g.chance(0.3)) p->garbageCollect(true);
    }
    if (kind <= 2) {
        Vec v = randVec(g, n); if (g.chance(0.5)) v = normalized(v);
        note("vec n=" + std::to_string(n) + " " + show(v));
        if (nontrivial(v)) rec().distinct(hashOf(v));
        if (idx < 24) rec().sample("state from vector n=" + std::to_string(n) + " " + show(v));
        readAll(*p, p->makeStateFromVector(toCVec(v)), v, n, 0, g); count("from_vector");
    } else if (kind == 3) {
        const int start = g.chance(0.5) ? 0 : g.range(0, 5); std::vector<bool> b(static_cast<std::size_t>(start)); // entries are addressed by qubit
        for (int q = 0; q < start; q++) b[q] = g.chance(0.5);
        std::size_t k = 0; for (int q = 0; q < n; q++) { bool x = g.chance(0.5); b.push_back(x); if (x) k |= std::size_t{1} << q; }
        for (int t = g.range(0, 2); t > 0; t--) b.push_back(g.chance(0.5));
        Vec v(std::size_t{1} << n); v[k] = 1; note(str("basis n=", n, " start=", start, " k=", k));
        rec().distinct(k * 64 + n * 8 + start + 1000000);
        readAll(*p, p->makeBasisState(static_cast<dd::QubitCount>(n), b, static_cast<std::size_t>(start)), v, n, start, g); count("basis_bits");
    } else if (kind == 4) {
        const int start = g.chance(0.5) ? 0 : g.range(0, 5); std::vector<dd::BasisStates> b(static_cast<std::size_t>(start), dd::BasisStates::minus);
        Vec v{C(1)}; std::string s; const double h = std::sqrt(0.5);
        for (int q = 0; q < n; q++) {
            int t = g.range(0, 5); b.push_back(static_cast<dd::BasisStates>(t)); s += "01+-rl"[t];
            const Vec f = t == 0 ? Vec{1, 0} : t == 1 ? Vec{0, 1} : t == 2 ? Vec{h, h} : t == 3 ? Vec{h, -h} : t == 4 ? Vec{h, C(0, h)} : Vec{h, C(0, -h)};
            v = kron(f, v);
        }
        note("basis states " + s + str(" start=", start)); rec().distinct(fnv(s) + start);
        if (idx < 24) rec().sample("product state " + s + str(" start=", start));
        readAll(*p, p->makeBasisState(static_cast<dd::QubitCount>(n), b, static_cast<std::size_t>(start)), v, n, start, g); count("basis_product");
    } else {
        const int start = g.chance(0.5) ? 0 : g.range(0, 5); Vec v(std::size_t{1} << n); v[0] = 1; note(str("zero state n=", n, " start=", start));
        readAll(*p, p->makeZeroState(static_cast<dd::QubitCount>(n), static_cast<std::size_t>(start)), v, n, start, g); count("zero_state");
        // exhaustively the special vectors
        Vec z(std::size_t{1} << n); readAll(*p, p->makeStateFromVector(toCVec(z)), z, n, 0, g);
        Vec one{niceValue(g)}; auto e = p->makeStateFromVector(toCVec(one)); CHK(e.isTerminal() && std::abs(val(e.w) - one[0]) < 1e-12, "state:scalar", "vector of length one");
        auto em = p->makeStateFromVector({}); CHK(em.isTerminal(), "state:empty", "empty vector"); count("special");
    }
}
VH_SPLIT(body)
VH_MAIN("wide", "from_vector", "basis_bits", "basis_product", "zero_state", "file_exports")
