// parsing of numbers written by the library (independent of its own parser)
#pragma once
#include "vh.hpp"
namespace vh {
inline bool endsWithI(const std::string& s) { return !s.empty() && s.back() == 'i'; }
// plain decimal rendering: "a", "bi", "a+bi", "a-bi"
inline C parsePlain(std::string s) {
    std::string t; for (char c: s) if (c != ' ') t += c;
    if (t.empty()) fail("text:empty", "empty number text");
    const char* p = t.c_str(); char* e = nullptr;
    double a = std::strtod(p, &e);
    if (e == p) fail("text:unparsable", "number text '" + t + "'");
    if (*e == 0) return {a, 0};
    if (*e == 'i' && e[1] == 0) return {0, a};
    char* f = nullptr; double b = std::strtod(e, &f);
    if (f == e || *f != 'i' || f[1] != 0 || (*e != '+' && *e != '-')) fail("text:unparsable", "number text '" + t + "'");
    return {a, b};
}
struct CoutCapture {
    std::ostringstream o; std::streambuf* old;
    CoutCapture(): old(std::cout.rdbuf(o.rdbuf())) {}
    ~CoutCapture() { std::cout.rdbuf(old); }
    std::string text() const { return o.str(); }
};
} // namespace vh
