// C02: matrix construction and every read path agree with the dense matrix
#include "io.hpp"
#include "wide.hpp"
using namespace vh;
// many different entries
template<class Cfg> VH_GLUE void wide(Rng& g) {
    const int n = g.range(5, SLOW ? 6 : 8); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); const std::size_t D = std::size_t{1} << n; Mat m(D); const bool sparse = g.chance(0.3); for (auto& x: m.a) if (!sparse || g.chance(0.1)) x = {g.uni(-1, 1), g.uni(-1, 1)}; note(str("wide n=", n));
    auto e = p->makeDDFromMatrix(toCMat(m)); WEQ(evalM(e, n), m, "wide:function", "represented matrix of ", n, " qubits"); WEQ(fromCMat(p->getMatrix(e)), m, "wide:matrix", "matrix read back");
    for (int t = 0; t < 300; t++) { const std::size_t r = g.below(D), c = g.below(D); CHK(std::abs(val(p->getValueByPath(e, r, c)) - m(r, c)) < 1e-9, "wide:index", "entry ", r, ",", c); std::string path; for (int q = 0; q < n; q++) path += static_cast<char>('0' + 2 * ((r >> q) & 1U) + ((c >> q) & 1U)); CHK(std::abs(val(p->getValueByPath(e, path)) - m(r, c)) < 1e-9, "wide:path", "entry ", path); }
    CHK(p->makeDDFromMatrix(toCMat(m)) == e, "wide:again", "the same matrix gives another diagram"); CHK(p->cn.cacheCount() == 0, "cache", "temporary numbers lost"); count("wide"); rec().distinct(hashOf(m));
}
template<class Cfg> void body(Rng& g, std::size_t idx) {
    if (wideCase<Cfg>(g)) { if constexpr (std::is_same_v<Cfg, Std>) wide<Cfg>(g); return; }
    const int n = g.chance(0.04) ? 0 : g.chance(0.1) ? g.range(5, 6) : g.range(1, 4);
    auto p = makePkg<Cfg>(static_cast<std::size_t>(n) + g.below(3));
    if (n > 0 && g.chance(0.3)) { for (int k = 0; k < 3; k++) { auto e = p->makeDDFromMatrix(toCMat(randMat(g, std::min(n, 3)))); if (g.chance(0.3)) p->incRef(e); } if (g.chance(0.3)) p->garbageCollect(true); }
    Mat m = randMat(g, n); const double tol = tolFor(maxAbs(m));
    note(str("matrix n=", n, " ") + show(m)); if (nontrivial(m)) rec().distinct(hashOf(m));
    if (idx < 24) rec().sample(str("matrix n=", n, " ") + show(m));
    auto e = p->makeDDFromMatrix(toCMat(m));
    EQV(evalM(e, n), m, "matrix:function", "represented matrix differs n=", n);
    if (e.isTerminal()) {
        auto c = p->getMatrix(e); CHK(c.size() == 1 && std::abs(c[0][0] - m(0, 0)) <= tol, "read:terminal", "terminal matrix");
        CHK(std::abs(val(p->getValueByPath(e, 0, 0)) - m(0, 0)) <= tol, "read:terminal", "terminal entry"); return;
    }
    CHK(e.p->v == n - 1, "matrix:top-level", "top level ", int(e.p->v));
    Mat a(m.d), b(m.d);
    for (std::size_t r = 0; r < m.d; r++) for (std::size_t c = 0; c < m.d; c++) {
        a(r, c) = val(p->getValueByPath(e, r, c));
        std::string path; for (int q = 0; q < n; q++) path += static_cast<char>('0' + 2 * ((r >> q) & 1U) + ((c >> q) & 1U));
        b(r, c) = val(p->getValueByPath(e, path));
    }
    EQV(a, m, "read:index", "entry by row and column"); EQV(b, m, "read:path", "entry by path");
    EQV(fromCMat(p->getMatrix(e)), m, "read:matrix", "getMatrix");
    if (n <= 4) {
        CoutCapture cap; p->printMatrix(e); std::istringstream is(cap.text()); std::string l; std::size_t r = 0;
        while (std::getline(is, l)) {
            std::istringstream ls(l); std::string tok; std::size_t c = 0;
            while (ls >> tok) {
                CHK(c < m.d && r < m.d, "print:shape", "too many printed entries");
                C got = parsePlain(tok), w = m(r, c);
                CHK(std::abs(got.real() - w.real()) <= 6e-3 * std::abs(w.real()) + 1e-9 && std::abs(got.imag() - w.imag()) <= 6e-3 * std::abs(w.imag()) + 1e-9, "print:value", "printed '", tok, "' want ", w);
                c++;
            }
            CHK(c == m.d, "print:shape", "row with ", c, " entries"); r++;
        }
        CHK(r == m.d, "print:shape", r, " rows"); count("printed");
    }
    CHK(p->cn.cacheCount() == 0, "cache", "temporary numbers lost: ", p->cn.cacheCount());
    count("matrices");
}
VH_SPLIT(body)
VH_MAIN("wide", "matrices", "printed")
