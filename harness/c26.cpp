// C26: text rendering of numbers and diagrams
#include "io.hpp"
#include "shape.hpp"
using namespace vh;
static const double PIv = 3.14159265358979323846;
// ---- reading what the library writes for people
struct Reader { std::string s; std::size_t k = 0; bool frac = false; int nums = 0;
    [[noreturn]] void bad() const { fail("text:unparsable", "text '" + s + "' at " + std::to_string(k)); }
    bool at(const char* t) const { return s.compare(k, std::strlen(t), t) == 0; }
    bool eat(const char* t) { if (!at(t)) return false; k += std::strlen(t); return true; }
    bool end() const { return k >= s.size(); }
    bool digit() const { return k < s.size() && std::isdigit(static_cast<unsigned char>(s[k])); }
    // one signed product of a number with i, pi, 1/sqrt2 and a denominator; gives value and whether it is imaginary
    std::pair<double, bool> term() {
        double v = 1; bool im = false, any = false; double sg = 1; if (eat("-")) sg = -1; else eat("+");
        if (digit() || at(".") || at("inf") || at("nan")) { const char* b = s.c_str() + k; char* e = nullptr; v = std::strtod(b, &e); for (const char* c = b; c < e; c++) if (std::isalpha(static_cast<unsigned char>(*c)) && *c != 'e') bad(); k += static_cast<std::size_t>(e - b); any = true; nums++; }
        for (;;) { if (eat("π")) { v *= PIv; any = true; frac = true; } else if (!im && at("i") && !at("iπ")) { k++; im = true; any = true; } else break; }
        if (!any) bad();
        if (eat("/")) { frac = true; const bool par = eat("("); double d = 0; bool has = false; if (digit()) { char* e = nullptr; d = std::strtod(s.c_str() + k, &e); k = static_cast<std::size_t>(e - s.c_str()); has = true; } if (eat("√2")) { d = (has ? d : 1) * std::sqrt(2.0); has = true; } if (!has || (par && !eat(")")) || d == 0) bad(); v /= d; }
        if (!im && at("i") && !at("iπ")) bad();
        return {sg * v, im};
    }
    C cartesian() { // a, bi, a+bi, a(1+i), a(1-i)
        C r = 0; bool re = false, im = false;
        while (!end() && !at(" ")) {
            if (at("(1+i)") || at("(1-i)")) { if (!re || im) bad(); const bool p = at("(1+i)"); k += 5; r *= p ? C(1, 1) : C(1, -1); if (!end()) bad(); return r; }
            if ((re || im) && !at("+") && !at("-")) bad();
            auto [v, i] = term(); if (i ? im : re || im) bad(); (i ? im : re) = true; r += i ? C(0, v) : C(v);
        }
        if (!re && !im) bad();
        return r;
    }
    C polar() { // number, phase factor, or magnitude and phase factor
        C r = 1; if (!at("ℯ")) { r = cartesian(); if (end()) return r; if (!eat(" ")) bad(); }
        if (!eat("ℯ(")) bad(); double sg = 1; if (eat("-")) sg = -1; if (!eat("iπ")) bad(); double v = 1;
        if (eat(" ")) { auto [x, i] = term(); if (i) bad(); v = x; } else if (at("/")) { k++; const bool par = eat("("); double d = 1; bool has = false; if (digit()) { char* e = nullptr; d = std::strtod(s.c_str() + k, &e); k = static_cast<std::size_t>(e - s.c_str()); has = true; } if (eat("√2")) { d *= std::sqrt(2.0); has = true; } if (!has || (par && !eat(")"))) bad(); v /= d; frac = true; }
        if (!eat(")") || !end()) bad();
        return r * C(std::cos(sg * v * PIv), std::sin(sg * v * PIv));
    }
};
inline double slack(double mag, bool frac, int prec) { const double t = dd::ComplexTable<>::tolerance(); return frac ? 8 * t * (1 + mag) + 1e-15 * mag : std::max(8 * t * (1 + mag), 0.6 * std::pow(10.0, 1 - std::max(prec, 1)) * mag); }
inline double number(Rng& g, bool big = false) {
    const double t = dd::ComplexTable<>::tolerance(); double v = 0;
    switch (g.range(0, 9)) {
    case 0: if (g.chance(0.15)) { v = std::pow(10.0, g.uni(3, g.chance(0.5) ? 20 : big ? 300 : 150)); break; } v = double(g.range(0, 40)) / g.range(1, 24); break;
    case 1: v = double(g.range(0, 3000)) / g.range(1, 1100); break;
    case 2: v = double(g.range(1, 40)) / (g.range(1, 24) * std::sqrt(2.0)); break;
    case 3: v = g.range(1, 40) * PIv / g.range(1, 24); break;
    case 4: v = double(g.range(1, 1100)) / g.range(1000, 1050) / (g.chance(0.5) ? std::sqrt(2.0) : 1 / PIv); break;
    case 5: v = g.uni(0, 2); break;
    case 6: v = std::pow(10.0, g.uni(-14, big ? 5 : 3)); break;
    case 7: v = g.range(0, big ? 100000 : 2000); break;
    case 8: v = t * g.pick(std::vector<double>{0, 0.3, 0.99, 1, 1.01, 1.5, 2, 3, 10}); break;
    default: { static const std::vector<double> w{0, 1, 0.5, std::sqrt(0.5), std::sqrt(2.0), PIv, PIv / 2, 1.0 / 1024, 1.0 / 1025, 1.0 / 1023, 1023.0 / 1024, 0.5 * std::sqrt(0.5), 2, 1 / PIv}; v = g.pick(w); }
    }
    if (g.chance(0.4)) v += t * g.pick(std::vector<double>{-100, -3, -1.5, -1.01, -0.99, -0.5, 0.5, 0.99, 1.01, 1.5, 3, 100, 1e4, 1e6});
    v = std::abs(v); return g.chance(0.4) ? -v : v;
}
VH_GLUE inline void numberText(Rng& g) {
    const double x = number(g, true); const bool im = g.chance(0.5); std::ostringstream o; dd::ComplexValue::printFormatted(o, x, im); Reader r{o.str()}; const double t = dd::ComplexTable<>::tolerance();
    auto [v, i] = r.term(); CHK(r.end() && i == im, "text:form", "'", o.str(), "' for ", x, im ? " i" : "", ": imaginary unit or rest"); CHK(std::abs(v - x) <= slack(std::abs(x), r.frac, 6), "text:formatted", "'", o.str(), "' for ", x, im ? " i" : "", " denotes ", v);
    if (im) CHK(o.str()[0] == '+' || o.str()[0] == '-', "text:sign", "imaginary part '", o.str(), "' without sign"); if (r.frac) count("fractions"); count("formatted_reals"); rec().distinct(fnv(o.str()));
    { const double y = std::abs(number(g, true)); const auto f = dd::ComplexValue::getLowestFraction(y); CHK(f.second <= 1024 || f.first <= 1, "text:fraction", f.first, "/", f.second, " for ", y); (void)t; }
}
VH_GLUE inline void complexText(Rng& g) {
    double a = number(g), b = number(g); const int k = g.range(0, 7); if (k == 0) b = a; if (k == 1) b = -a; if (k == 2) a = 0; if (k == 3) b = 0; if (k == 4) b = (g.chance(0.5) ? a : -a) + dd::ComplexTable<>::tolerance() * g.uni(-3, 3);
    const C z(a, b); const double m = std::max(std::abs(a), std::abs(b)); 
    { const auto s = dd::ComplexValue::toString(a, b); Reader r{s}; const C v = r.cartesian(); CHK(r.end(), "text:form", "'", s, "'"); CHK(std::abs(v.real() - a) <= slack(std::abs(a), false, 6) + 8 * dd::ComplexTable<>::tolerance() && std::abs(v.imag() - b) <= slack(std::abs(b), false, 6) + 8 * dd::ComplexTable<>::tolerance(), "text:complex", "'", s, "' for ", z, " denotes ", v); if (r.frac && r.nums == 0) CHK(std::abs(v - z) <= 16 * slack(m, true, 6), "text:complex", "'", s, "' for ", z, " denotes ", v); std::ostringstream o; o << dd::ComplexValue{a, b}; CHK(o.str() == s, "text:stream", "'", o.str(), "' and '", s, "'"); count("formatted_complex"); rec().distinct(fnv(s)); }
    { const int p = g.chance(0.3) ? -1 : g.range(1, 17); const auto s = dd::ComplexValue::toString(a, b, false, p); const C v = parsePlain(s); const int q = p < 0 ? 6 : p; CHK(std::abs(v.real() - a) <= slack(std::abs(a), false, q) && std::abs(v.imag() - b) <= slack(std::abs(b), false, q), "text:plain", "'", s, "' for ", z, " with precision ", p, " denotes ", v); count("plain_complex"); }
    { // reading
        std::ostringstream o, u; o.precision(17); u.precision(17); o << a; u << (std::signbit(b) ? "-" : "+"); const bool sp = g.chance(0.3); if (sp) u << ' '; u << std::abs(b); if (sp && g.chance(0.5)) u << ' '; u << 'i'; dd::ComplexValue c{7, 7}; const int w = g.range(0, 5);
        if (w == 0) { c.fromString("", u.str()); CHK(c.r == 0 && c.i == b, "text:read", "'", u.str(), "' read as ", val(c)); }
        else if (w == 1) { c.fromString(o.str(), ""); CHK(c.r == a && c.i == 0, "text:read", "'", o.str(), "' read as ", val(c)); }
        else if (w == 2) { const std::string t = g.pick(std::vector<std::string>{"+i", "-i", "i", " + i", "- i"}); c.fromString(g.chance(0.5) ? o.str() : "", t); CHK(c.i == (t.find('-') == std::string::npos ? 1 : -1), "text:read-unit", "'", t, "' read as ", val(c)); }
        else { c.fromString(o.str(), u.str()); CHK(c.r == a && c.i == b, "text:read", "'", o.str(), "' '", u.str(), "' read as ", val(c)); } count("numbers_read"); }
}
template<class P> VH_GLUE void tableText(Rng& g, P& p) { // numbers as they are stored in edges
    C z(number(g), number(g)); const double tl = dd::ComplexTable<>::tolerance();
    if (g.chance(0.2)) z = {(g.chance(0.5) ? -1 : 1) * std::pow(10.0, g.uni(-2, 4)), tl * g.uni(-4, 4)}; // phases just below pi and just above -pi
    else if (g.chance(0.3)) { const double q = double(g.range(-60, 60)) / g.range(60, 64), f = g.pick(std::vector<double>{1, std::sqrt(0.5), 0.99 / PIv, PIv / 4, PIv}), a = std::max(-1.0, std::min(1.0, q * f)) * PIv, m = g.chance(0.5) ? 1 : std::abs(number(g)); z = {m * std::cos(a), m * std::sin(a)}; }
    else if (g.chance(0.2)) { const int d = g.range(1, 9); const double a = PIv * PIv * g.range(-d, d) / d / g.range(4, 9), m = g.chance(0.5) ? 1 : 0.5; z = {m * std::cos(a), m * std::sin(a)}; } // fractions of pi squared
    auto c = p.cn.lookup(z.real(), z.imag()); const C w = val(c);
    { const auto s = c.toString(); Reader r{s}; const C v = r.cartesian(); CHK(r.end() && std::abs(v.real() - w.real()) <= slack(std::abs(w.real()), false, 6) + 1e-12 && std::abs(v.imag() - w.imag()) <= slack(std::abs(w.imag()), false, 6) + 1e-12, "text:edge-weight", "'", s, "' for ", w); std::ostringstream o; o << c; CHK(o.str() == s, "text:stream", o.str()); }
    { const auto s = c.toString(false, 17); CHK(std::abs(parsePlain(s) - w) <= 4e-16 * std::abs(w) + 2 * dd::ComplexTable<>::tolerance(), "text:edge-weight-plain", "'", s, "' for ", w); }
    { const auto s = dd::conditionalFormat(c, true); if (s == "0") CHK(std::abs(w) <= 2 * dd::ComplexTable<>::tolerance(), "text:polar", "'0' for ", w); else { Reader r{s}; const C v = r.polar(); const double tt = dd::ComplexTable<>::tolerance(); CHK(std::abs(v - w) <= slack(std::abs(w), false, 6) * 8 + 8 * tt, "text:polar", "'", s, "' for ", w, " denotes ", v); } CHK(dd::conditionalFormat(c, false) == c.toString(), "text:polar-off", s); rec().distinct(fnv(s)); }
    { // unit numbers with a phase that is a fraction of pi
        const int d = g.range(1, 64), nn = g.range(-2 * d, 2 * d); const double a = PIv * nn / d; auto u = p.cn.lookup(std::cos(a), std::sin(a)); const auto s = dd::conditionalFormat(u, true); Reader r{s}; const C v = r.polar(); CHK(std::abs(v - val(u)) <= 1e-5, "text:phase", "'", s, "' for ", val(u), " denotes ", v); if (s.find("π/") != std::string::npos || s.find('/') != std::string::npos) CHK(std::abs(v - val(u)) <= 1e-11, "text:phase", "'", s, "' for ", val(u), " denotes ", v); }
    count("edge_weights");
}
// ---- DOT
struct Tok { int kind; std::string s; }; // 0 id, 1 quoted, 2 html, 3 punctuation
struct Html { std::string tag; std::map<std::string, std::string> at; std::string text; std::vector<Html> kids; };
struct Dot {
    std::vector<Tok> t; std::size_t k = 0;
    struct Stmt { std::vector<std::array<std::string, 3>> ids; std::map<std::string, Tok> at; };
    std::vector<Stmt> st; std::string dflt;
    [[noreturn]] static void bad(const std::string& m) { fail("dot:syntax", m); }
    VH_GLUE explicit Dot(const std::string& s) { lex(s); parse(); }
    void lex(const std::string& s) {
        std::size_t i = 0;
        while (i < s.size()) {
            const char c = s[i]; if (std::isspace(static_cast<unsigned char>(c))) { i++; continue; }
            if (c == '"') { std::string r; i++; while (i < s.size() && s[i] != '"') { if (s[i] == '\n') bad("newline in a string"); r += s[i++]; } if (i >= s.size()) bad("unterminated string"); i++; t.push_back({1, r}); continue; }
            if (c == '<') { int d = 0; std::string r; std::size_t b = i; for (; i < s.size(); i++) { if (s[i] == '<') d++; if (s[i] == '>') { d--; if (d == 0) break; } } if (i >= s.size()) bad("unterminated HTML string"); r = s.substr(b + 1, i - b - 1); i++; t.push_back({2, r}); continue; }
            if (s.compare(i, 2, "->") == 0) { t.push_back({3, "->"}); i += 2; continue; }
            if (std::strchr("{}[];,=:", c)) { t.push_back({3, std::string(1, c)}); i++; continue; }
            const bool num = std::isdigit(static_cast<unsigned char>(c)) || c == '.' || c == '-'; std::string r; 
            if (num) { if (c == '-') { r += '-'; i++; } bool dot = false; while (i < s.size() && (std::isdigit(static_cast<unsigned char>(s[i])) || (s[i] == '.' && !dot))) { dot = dot || s[i] == '.'; r += s[i++]; } if (i < s.size() && (std::isalpha(static_cast<unsigned char>(s[i])) || s[i] == '_')) bad("number '" + r + "' followed by a letter"); }
            else while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_')) r += s[i++];
            if (r.empty() || r == "-") bad(std::string("character '") + c + "'"); t.push_back({0, r});
        }
    }
    bool is(const char* p) const { return k < t.size() && t[k].kind == 3 && t[k].s == p; }
    bool eat(const char* p) { if (!is(p)) return false; k++; return true; }
    std::string id() { if (k >= t.size() || t[k].kind == 3) bad("identifier expected"); return t[k++].s; }
    void attrs(std::map<std::string, Tok>& m) { while (eat("[")) { while (!is("]")) { const auto n = id(); if (!eat("=")) bad("'=' expected after " + n); if (k >= t.size() || t[k].kind == 3) bad("value expected"); if (m.count(n)) bad("attribute " + n + " twice"); m[n] = t[k++]; if (!eat(",")) eat(";"); } k++; } }
    void parse() {
        if (id() != "digraph") bad("digraph expected"); if (!is("{")) id(); if (!eat("{")) bad("'{' expected");
        while (!is("}")) { if (k >= t.size()) bad("unexpected end"); Stmt s; const bool kw = t[k].kind == 0 && (t[k].s == "graph" || t[k].s == "node" || t[k].s == "edge"); const auto a = id(); if (kw) { attrs(s.at); dflt += a; } else { auto nid = [&](const std::string& n) { std::array<std::string, 3> r{n, "", ""}; for (std::size_t j = 1; j < 3 && eat(":"); j++) r[j] = id(); s.ids.push_back(r); }; nid(a); while (eat("->")) nid(id()); attrs(s.at); st.push_back(s); } eat(";"); }
        k++; if (k != t.size()) bad("text after the graph");
    }
};
struct HtmlReader { const std::string& s; std::size_t k = 0; [[noreturn]] static void bad(const std::string& m) { fail("dot:html", m); }
    Html elem(const std::string& tag, std::map<std::string, std::string> at, int depth) {
        Html h; h.tag = tag; h.at = std::move(at); if (depth > 20) bad("nesting");
        while (k < s.size()) {
            if (s[k] != '<') { if (s[k] == '&') { const auto e = s.find(';', k); if (e == std::string::npos || s.substr(k, e - k + 1) != "&nbsp;") bad("entity"); k = e + 1; h.text += ' '; continue; } if (s[k] == '>') bad("stray '>'"); h.text += s[k++]; continue; }
            if (s.compare(k, 2, "</") == 0) { const auto e = s.find('>', k); const auto n = s.substr(k + 2, e - k - 2); if (n != tag) bad("</" + n + "> closes <" + tag + ">"); k = e + 1; return h; }
            k++; std::string n; while (k < s.size() && std::isalpha(static_cast<unsigned char>(s[k]))) n += s[k++]; static const std::set<std::string> known{"font", "table", "tr", "td", "sub"}; if (!known.count(n)) bad("tag '" + n + "'"); std::map<std::string, std::string> a2;
            while (k < s.size() && s[k] != '>') { if (s[k] == ' ') { k++; continue; } std::string an; while (k < s.size() && (std::isalnum(static_cast<unsigned char>(s[k])) || s[k] == '-')) an += s[k++]; if (an.empty() || s.compare(k, 2, "=\"") != 0) bad("attribute of " + n); k += 2; std::string v; while (k < s.size() && s[k] != '"') { if (s[k] == '<' || s[k] == '>') bad("value of " + an); v += s[k++]; } k++; if (a2.count(an)) bad("attribute twice"); a2[an] = v; } k++;
            h.kids.push_back(elem(n, a2, depth + 1));
        }
        if (!tag.empty()) bad("<" + tag + "> not closed"); return h;
    }
};
inline void cells(const Html& h, std::vector<const Html*>& out) { if (h.tag == "td") out.push_back(&h); for (auto& x: h.kids) cells(x, out); }
inline std::string allText(const Html& h) { std::string r = h.text; for (auto& x: h.kids) r += allText(x); return r; }
inline bool hasWhite(const Html& h) { auto it = h.at.find("color"); if (it != h.at.end() && it->second == "white") return true; for (auto& x: h.kids) if (hasWhite(x)) return true; return false; }
inline std::string hexOf(const void* p) { char b[32]; std::snprintf(b, sizeof b, "%lx", static_cast<unsigned long>(reinterpret_cast<std::uintptr_t>(p))); return b; }
struct Opt { bool colored, labels, classic, memory, polar; };
inline void weightText(const std::string& s, C w, const Opt& o, const char* what) {
    if (o.memory) { if (s == "0") CHK(std::abs(w) < 1e-11, "dot:weight", what, " '0' for ", w); else CHK(std::abs(parsePlain(s) - w) <= 6e-4 * std::abs(w) + 1e-12, "dot:weight", what, " '", s, "' for ", w); return; }
    if (s == "0") { CHK(std::abs(w) < 1e-11, "dot:weight", what, " '0' for ", w); return; }
    Reader r{s}; const C v = o.polar ? r.polar() : r.cartesian(); CHK((o.polar || r.end()) && std::abs(v - w) <= 5e-5 * std::abs(w) + 1e-11, "dot:weight", what, " '", s, "' for ", w, " denotes ", v); rec().events["weights_read"]++;
}
template<class E> VH_GLUE void edgeAttrs(const E& e, const Dot::Stmt& s, const Opt& o, bool root) {
    const C w = val(e.w); auto get = [&](const char* n) -> const std::string& { auto it = s.at.find(n); if (it == s.at.end()) fail("dot:attribute", std::string("no ") + n); return it->second.s; };
    weightText(get("tooltip"), w, o, "tooltip"); const double pw = std::strtod(get("penwidth").c_str(), nullptr); CHK(std::abs(pw - 3 * std::max(std::abs(w), 0.1)) < 1e-4 * (1 + std::abs(w)), "dot:width", "width ", pw, " for ", w);
    if (o.memory || o.colored) { double h = 0, a = 0, b = 0; CHK(std::sscanf(get("color").c_str(), "%lf %lf %lf", &h, &a, &b) == 3 && h >= 0 && h <= 1, "dot:color", get("color")); double ph = std::arg(w) / (2 * PIv); double d = std::abs(h - ph); d = std::min({d, std::abs(d - 1), std::abs(d - 2)}); CHK(d < 0.0011, "dot:color", get("color"), " for ", w); CHK(s.at.count("style") == 0, "dot:style", "dashed coloured edge"); }
    else { const bool dashed = s.at.count("style") && get("style") == "dashed"; const double d1 = std::abs(w - C(1)); CHK(dashed ? d1 > 1e-14 : d1 < 1e-11, "dot:style", dashed ? "dashed" : "solid", " edge of weight ", w); }
    CHK((s.at.count("label") == 1) == o.labels, "dot:label", o.labels ? "label missing" : "label not asked for");
    if (o.labels) { auto& L = s.at.at("label"); CHK(L.kind == 2, "dot:label", "no HTML"); HtmlReader h{L.s}; auto x = h.elem("", {}, 0); auto txt = allText(x); CHK(!txt.empty() && txt[0] == ' ', "dot:label", txt); txt = txt.substr(1);
        if (!o.memory) weightText(txt, w, o, "label"); else { auto part = [](const dd::CTEntry* r) -> std::string { return r == &dd::ComplexTable<>::zero ? "0" : r == &dd::ComplexTable<>::sqrt2_2 ? "\xe2\x88\x9a\xc2\xbd" : r == &dd::ComplexTable<>::one ? "1" : hexOf(r); }; const std::string want = e.w == dd::Complex::one ? "[1]" : root && e.w == dd::Complex::zero ? "[0]" : "[" + part(e.w.r) + " " + part(e.w.i) + "]"; CHK(txt == want, "dot:memory-label", txt, " want ", want); } rec().events["labels"]++; }
}
template<class E> VH_GLUE void checkDot(const std::string& text, const E& e, const Opt& o) {
    using Node = typename NodeOf<E>::type; constexpr std::size_t R = std::tuple_size_v<decltype(e.p->e)>; Dot d(text); CHK(d.dflt == "graphnodeedge", "dot:defaults", d.dflt);
    std::map<std::string, const Dot::Stmt*> node; std::map<std::pair<std::string, std::string>, const Dot::Stmt*> edge;
    for (auto& s: d.st) { if (s.ids.size() == 1) { CHK(s.ids[0][1].empty() && node.emplace(s.ids[0][0], &s).second, "dot:node-twice", "node ", s.ids[0][0], " declared twice"); } else { CHK(s.ids.size() == 2 && s.ids[1][1].empty(), "dot:edge-form", "edge"); CHK(edge.emplace(std::make_pair(s.ids[0][0], s.ids[0][1]), &s).second, "dot:edge-twice", "edge ", s.ids[0][0], ":", s.ids[0][1], " twice"); static const std::set<std::string> compass{"", "s", "sw", "se"}; CHK(compass.count(s.ids[0][2]), "dot:compass", s.ids[0][2]); } }
    CHK(node.count("root") && node.count("t"), "dot:root", "root or terminal not declared"); std::map<const Node*, std::string> id; std::map<std::string, const Node*> inv; std::size_t edges = 1; std::vector<const Node*> st;
    auto visit = [&](const E& x, const Dot::Stmt& s, bool root) { const auto& to = s.ids[1][0]; edgeAttrs(x, s, o, root); if (x.isTerminal()) { CHK(to == "t", "dot:target", "edge to the terminal goes to ", to); return; } CHK(to != "t" && to != "root", "dot:target", "edge to a node goes to ", to); auto it = id.find(x.p); if (it != id.end()) { CHK(it->second == to, "dot:identity", "one node with two names ", it->second, " ", to); return; } CHK(inv.emplace(to, x.p).second, "dot:identity", "two nodes with the name ", to); id[x.p] = to; st.push_back(x.p); };
    auto r = edge.find({"root", ""}); CHK(r != edge.end(), "dot:root", "no root edge"); visit(e, *r->second, true);
    while (!st.empty()) {
        const Node* x = st.back(); st.pop_back(); const auto& name = id[x]; auto it = node.find(name); CHK(it != node.end(), "dot:node-missing", "node ", name); auto& s = *it->second; auto L = s.at.find("label"); CHK(L != s.at.end() && L->second.kind == 2 && s.at.count("tooltip"), "dot:node-label", "node ", name); HtmlReader hr{L->second.s}; auto h = hr.elem("", {}, 0); std::vector<const Html*> tds; cells(h, tds); const auto q = std::to_string(int(x->v)); std::map<std::string, const Html*> port; bool var = false;
        for (auto* c: tds) { auto p2 = c->at.find("port"); if (p2 == c->at.end()) { var = var || allText(*c) == (o.memory ? hexOf(x) + " ref: " + std::to_string(x->ref) : "q" + q); continue; } CHK(port.emplace(p2->second, c).second, "dot:port-twice", p2->second); }
        CHK(s.at.at("tooltip").s == (o.memory ? hexOf(x) : "q" + q) && var, "dot:variable", "node of qubit ", q, " labelled ", s.at.at("tooltip").s, " ", allText(h)); CHK(port.size() == R, "dot:ports", port.size(), " ports");
        for (std::size_t k = 0; k < R; k++) { const auto ks = std::to_string(k); auto c = port.find(ks); CHK(c != port.end(), "dot:ports", "no port ", k); const bool zero = x->e[k].w == dd::Complex::zero; CHK(hasWhite(*c->second) != zero, "dot:stub", "successor ", k, zero ? " is zero but not marked" : " is marked as zero"); auto tt = c->second->at.find("tooltip"); CHK(tt != c->second->at.end(), "dot:tooltip", "port ", k); weightText(tt->second, val(x->e[k].w), o, "port"); auto ed = edge.find({name, ks}); CHK((ed != edge.end()) == !zero, "dot:edge-missing", "successor ", k, " of weight ", val(x->e[k].w), ed != edge.end() ? " drawn" : " not drawn"); if (ed != edge.end()) { edges++; visit(x->e[k], *ed->second, false); } }
    }
    CHK(edges == edge.size(), "dot:edges", edge.size(), " edges drawn of ", edges); CHK(node.size() == id.size() + 2, "dot:nodes", node.size() - 2, " nodes drawn of ", id.size()); count("graphs"); rec().events["graph_edges"] += edges;
}
template<class E> VH_GLUE void weightsText(const E& e) {
    std::stringstream ss; ss.precision(17); dd::exportEdgeWeights(e, ss); CHK(!(ss.flags() & std::ios::showpos), "weights:flags", "stream left with showpos"); std::string l; std::multiset<std::pair<double, double>> got, want; bool first = true; 
    while (std::getline(ss, l)) { const C v = parsePlain(l); if (first) { CHK(v == val(e.w), "weights:root", l, " for ", val(e.w)); first = false; continue; } got.insert({v.real(), v.imag()}); }
    CHK(!first, "weights:root", "no root weight"); std::set<const void*> seen; std::vector<decltype(e.p)> st{e.p}; while (!st.empty()) { auto p = st.back(); st.pop_back(); if (NodeOf<E>::type::isTerminal(p) || !seen.insert(p).second) continue; for (auto& x: p->e) if (!(x.w == dd::Complex::zero)) { want.insert({val(x.w).real() + 0.0, val(x.w).imag() + 0.0}); st.push_back(x.p); } } std::multiset<std::pair<double, double>> g2; for (auto& x: got) g2.insert({x.first + 0.0, x.second + 0.0}); CHK(g2 == want, "weights:edges", got.size(), " weights written, ", want.size(), " edges"); count("weight_lists");
}
template<class E> VH_GLUE void exportAll(Rng& g, const E& e, std::size_t id) {
    for (int r = 0; r < 3; r++) { const Opt o{g.chance(0.5), g.chance(0.5), g.chance(0.5), g.chance(0.3), g.chance(0.7)}; std::ostringstream os; dd::toDot(e, os, o.colored, o.labels, o.classic, o.memory, o.polar); note(str("opt", o.colored, o.labels, o.classic, o.memory, o.polar)); checkDot(os.str(), e, o);
        if (r == 0 && g.chance(0.2)) { const std::string f = str("/tmp/vh26_", getpid(), "_", id, ".dot"); dd::export2Dot(e, f, o.colored, o.labels, o.classic, o.memory, false, o.polar); std::ifstream in(f, std::ios::binary); std::stringstream b; b << in.rdbuf(); in.close(); std::remove(f.c_str()); CHK(b.str() == os.str(), "dot:file", "file differs from the stream"); count("files"); } rec().distinct(fnv(os.str().substr(0, 20000))); }
    weightsText(e);
}
template<class Cfg> VH_GLUE void body(Rng& g, std::size_t i) {
    const int kind = g.range(0, 9); note(str("kind", kind));
    if (kind < 4) { const bool wide = g.chance(0.15); const double old = dd::ComplexTable<>::tolerance(); if (wide) dd::ComplexTable<>::setTolerance(g.pick(std::vector<double>{1e-10, 1e-8, 1e-6})); struct R { double o; ~R() { dd::ComplexTable<>::setTolerance(o); } } rs{old}; for (int k = 0; k < 25; k++) { numberText(g); complexText(g); } if (i < 8) rec().sample(rec().cur); return; }
    if (kind < 6) { auto p = makePkg<Cfg>(1); for (int k = 0; k < 25; k++) tableText(g, *p); return; }
    const bool deep = g.chance(0.15) && !std::is_same_v<Cfg, Tiny>; const int n = deep ? g.pick(std::vector<int>{64, 126, 127, 128}) : g.range(1, std::is_same_v<Cfg, Tiny> ? 4 : 5); auto p = makePkg<Cfg>(static_cast<std::size_t>(n)); note(str("n=", n));
    if constexpr (std::is_same_v<Cfg, Std>) if (g.chance(0.01)) { // many nodes spread over several blocks of memory
        auto q = makePkg<Cfg>(15); dd::vEdge keep = dd::vEdge::zero; for (int k = 0; k < 3; k++) { Vec v(std::size_t{1} << 15); for (auto& x: v) x = g.gauss(); keep = q->makeStateFromVector(toCVec(v)); } const Opt o{true, false, true, false, true}; std::ostringstream os; dd::toDot(keep, os, o.colored, o.labels, o.classic, o.memory, o.polar); checkDot(os.str(), keep, o); count("large_graphs"); return; }
    std::uint64_t hh = 0; std::vector<dd::vEdge> vs; std::vector<dd::mEdge> ms;
    if (deep) { if (g.chance(0.5)) vs.push_back(layeredV(*p, g, n, g.range(1, 3), hh)); else ms.push_back(layeredM(*p, g, n, g.range(1, 2), hh)); }
    else { for (int k = 0; k < 2; k++) { if (g.chance(0.5)) vs.push_back(p->makeStateFromVector(toCVec(randVec(g, n)))); else if (g.chance(0.5)) ms.push_back(p->makeDDFromMatrix(toCMat(randMat(g, n)))); else { const int t = g.range(0, n - 1); ms.push_back(p->makeGateDD(gate1(g).mat, static_cast<dd::QubitCount>(n), toControls(randCtl(g, n, {t})), static_cast<dd::Qubit>(t))); } if (!vs.empty() && g.chance(0.5)) p->incRef(vs.back()); if (!ms.empty() && g.chance(0.5)) p->incRef(ms.back()); } if (g.chance(0.1)) vs.push_back(g.chance(0.5) ? dd::vEdge::zero : dd::vEdge::one); if (g.chance(0.1)) ms.push_back(g.chance(0.5) ? dd::mEdge::zero : dd::mEdge::one); }
    for (auto& e: vs) exportAll(g, e, i); for (auto& e: ms) exportAll(g, e, i);
    if (deep) count("deep_graphs");
}
VH_SPLIT(body)
VH_MAIN("fractions", "formatted_complex", "plain_complex", "numbers_read", "edge_weights", "graphs", "labels", "weight_lists", "files", "deep_graphs", "large_graphs", "weights_read")
