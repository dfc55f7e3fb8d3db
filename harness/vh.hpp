// Shared parts of all harnesses: seeded case runner, recorder, dense oracle, independent
// evaluators of decision diagrams, generators.
#pragma once
#include "dd/Export.hpp"
#include "dd/GateMatrixDefinitions.hpp"
#include "dd/Package.hpp"

#include <array>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

// harness glue is not optimised and not instrumented (only the library under test is): builds stay short
#if defined(__clang__)
#define VH_GLUE __attribute__((optnone, noinline, no_sanitize("address", "undefined")))
#else
#define VH_GLUE __attribute__((noinline))
#endif
namespace vh {
using C = std::complex<double>;
using Vec = std::vector<C>;

// ---------------------------------------------------------------- random numbers
inline std::uint64_t mix(std::uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed): s(mix(seed)) {}
    std::uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    std::size_t below(std::size_t n) { return n == 0 ? 0 : static_cast<std::size_t>(u64() % n); }
    int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<std::size_t>(hi - lo + 1))); }
    double uni() { return static_cast<double>(u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    bool chance(double p) { return uni() < p; }
    double gauss() { // Box-Muller
        double u = 1.0 - uni(), v = uni();
        return std::sqrt(-2 * std::log(u)) * std::cos(2 * 3.14159265358979323846 * v);
    }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template<class T> T& pick(std::vector<T>& v) { return v[below(v.size())]; }
    std::vector<int> perm(int n) {
        std::vector<int> p(n);
        for (int i = 0; i < n; i++) p[i] = i;
        for (int i = n - 1; i > 0; i--) std::swap(p[i], p[below(i + 1)]);
        return p;
    }
};

// ---------------------------------------------------------------- recorder
inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c: s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}
template<class... A> [[gnu::noinline, gnu::cold]] std::string str(const A&... a) {
    std::ostringstream o; o.precision(17);
    (void)std::initializer_list<int>{((o << a), 0)...};
    return o.str();
}
struct Fail {
    std::string key, msg;
};
struct Skip {};
[[noreturn, gnu::noinline, gnu::cold]] inline void fail(const std::string& key, const std::string& msg) { throw Fail{key, msg}; }
#define CHK(cond, key, ...) do { vh::rec().events["comparisons"]++; if (!(cond)) vh::fail(key, vh::str(__VA_ARGS__)); } while (0)

struct Progress { std::uint64_t idx; std::uint64_t running; char note[8000]; };
struct Recorder {
    std::map<std::string, std::uint64_t> events;
    std::set<std::string> required;
    std::unordered_set<std::uint64_t> hashes;
    std::vector<std::string> samples;
    struct V { std::uint64_t idx; std::string key, msg, note; };
    std::vector<V> violations;
    std::uint64_t evaluations = 0;
    Progress* prog = nullptr;
    bool verbose = false;
    std::string cur;
    void note(const std::string& s) { // appended to the description of the running case
        cur += s; cur += ' ';
        if (verbose) std::cerr << s << std::endl;
        if (prog) {
            std::size_t len = std::min(cur.size(), sizeof(prog->note) - 1);
            std::memcpy(prog->note, cur.data() + (cur.size() - len), len); prog->note[len] = 0;
        }
    }
    void distinct(std::uint64_t h) { hashes.insert(mix(h)); }
    void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s.substr(0, 1500)); }
    void count(const std::string& k, std::uint64_t n = 1) { events[k] += n; }
};
#ifdef VH_THREADS // a thread may have its own recorder
inline Recorder*& ownRec() { static thread_local Recorder* r = nullptr; return r; }
inline Recorder& rec() { static Recorder r; return ownRec() ? *ownRec() : r; }
#else
inline Recorder& rec() { static Recorder r; return r; }
#endif
inline void note(const std::string& s) { rec().note(s); }
inline void count(const char* k, std::uint64_t n = 1) { rec().events[k] += n; }
inline std::uint64_t fnv(const std::string& s) { std::uint64_t h = 1469598103934665603ULL; for (unsigned char c: s) h = (h ^ c) * 1099511628211ULL; return h; }

inline void onAlarm(int) { static const char m[] = "CASE-CPU-TIMEOUT\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }

struct Args { std::uint64_t seed = 1; std::size_t shard = 0, shards = 1, cases = 100; long only = -1; std::string out, prog; int cpu = 30; bool verbose = false; std::size_t maxViol = 3; };
inline Args& args() { static Args a; return a; }

// runs cases; every case has its own generator and its own package(s)
inline int run(int argc, char** argv, const std::function<void(Rng&, std::size_t)>& body) {
    Args& a = args();
    for (int i = 1; i < argc; i++) {
        std::string k = argv[i];
        auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (k == "--seed") a.seed = std::stoull(nx());
        else if (k == "--shard") a.shard = std::stoull(nx());
        else if (k == "--shards") a.shards = std::stoull(nx());
        else if (k == "--cases") a.cases = std::stoull(nx());
        else if (k == "--only") a.only = std::stol(nx());
        else if (k == "--out") a.out = nx();
        else if (k == "--prog") a.prog = nx();
        else if (k == "--cpu") a.cpu = std::stoi(nx());
        else if (k == "-v") a.verbose = true;
        else { std::fprintf(stderr, "unknown option %s\n", k.c_str()); return 3; }
    }
    Recorder& r = rec(); r.verbose = a.verbose;
    if (!a.prog.empty()) {
        int fd = open(a.prog.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) { std::perror("prog"); return 3; }
        void* m = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) { std::perror("mmap"); return 3; }
        close(fd); r.prog = static_cast<Progress*>(m);
    }
    std::signal(SIGPROF, onAlarm);
    for (std::size_t i = a.shard; i < a.cases; i += a.shards) {
        if (a.only >= 0 && i != static_cast<std::size_t>(a.only)) continue;
        r.cur.clear();
        if (r.prog) { r.prog->note[0] = 0; r.prog->idx = i; r.prog->running = 1; }
        itimerval tv{}; tv.it_value.tv_sec = a.cpu; setitimer(ITIMER_PROF, &tv, nullptr);
        Rng rng(mix(a.seed) ^ mix(i * 0x9e3779b97f4a7c15ULL + 12345));
        try {
            r.evaluations++;
            body(rng, i);
        } catch (const Fail& f) {
            r.violations.push_back({i, f.key, f.msg, r.cur});
        } catch (const Skip&) {
            r.events["skipped"]++;
        } catch (const std::exception& e) {
            r.violations.push_back({i, std::string("exception:") + typeid(e).name(), e.what(), r.cur});
        }
        if (r.prog) r.prog->running = 0;
        if (r.violations.size() >= a.maxViol) break;
    }
    itimerval tv{}; setitimer(ITIMER_PROF, &tv, nullptr);
    std::ostringstream o;
    o << "{\"evaluations\":" << r.evaluations << ",\"events\":{";
    bool f = true;
    for (auto& [k, v]: r.events) { o << (f ? "" : ",") << '"' << jesc(k) << "\":" << v; f = false; }
    o << "},\"required\":["; f = true;
    for (auto& k: r.required) { o << (f ? "" : ",") << '"' << jesc(k) << '"'; f = false; }
    o << "],\"samples\":["; f = true;
    for (auto& k: r.samples) { o << (f ? "" : ",") << '"' << jesc(k) << '"'; f = false; }
    o << "],\"violations\":["; f = true;
    for (auto& v: r.violations) {
        std::string nt = v.note.size() > 6000 ? v.note.substr(v.note.size() - 6000) : v.note;
        o << (f ? "" : ",") << "{\"idx\":" << v.idx << ",\"key\":\"" << jesc(v.key) << "\",\"msg\":\"" << jesc(v.msg.substr(0, 4000)) << "\",\"note\":\"" << jesc(nt) << "\"}";
        f = false;
    }
    o << "]}\n";
    if (a.out.empty()) std::cout << o.str();
    else {
        std::ofstream(a.out) << o.str();
        std::ofstream h(a.out + ".hash", std::ios::binary);
        for (auto x: r.hashes) h.write(reinterpret_cast<const char*>(&x), 8);
    }
    return 0;
}

// ---------------------------------------------------------------- dense linear algebra (the oracle)
struct Mat {
    std::size_t d = 0;
    std::vector<C> a;
    Mat() = default;
    explicit Mat(std::size_t dim): d(dim), a(dim * dim) {}
    C& operator()(std::size_t r, std::size_t c) { return a[r * d + c]; }
    const C& operator()(std::size_t r, std::size_t c) const { return a[r * d + c]; }
    static Mat id(std::size_t dim) { Mat m(dim); for (std::size_t i = 0; i < dim; i++) m(i, i) = 1; return m; }
};
inline Mat operator*(const Mat& x, const Mat& y) {
    Mat r(x.d);
    for (std::size_t i = 0; i < x.d; i++)
        for (std::size_t k = 0; k < x.d; k++) {
            const C v = x(i, k);
            if (v == C(0)) continue;
            for (std::size_t j = 0; j < x.d; j++) r(i, j) += v * y(k, j);
        }
    return r;
}
inline Vec operator*(const Mat& x, const Vec& y) {
    Vec r(x.d);
    for (std::size_t i = 0; i < x.d; i++) for (std::size_t k = 0; k < x.d; k++) r[i] += x(i, k) * y[k];
    return r;
}
inline Mat operator+(const Mat& x, const Mat& y) { Mat r = x; for (std::size_t i = 0; i < r.a.size(); i++) r.a[i] += y.a[i]; return r; }
inline Vec operator+(const Vec& x, const Vec& y) { Vec r = x; for (std::size_t i = 0; i < r.size(); i++) r[i] += y[i]; return r; }
inline Mat scaled(const Mat& x, C s) { Mat r = x; for (auto& v: r.a) v *= s; return r; }
inline Vec scaled(const Vec& x, C s) { Vec r = x; for (auto& v: r) v *= s; return r; }
inline Mat transpose(const Mat& x) { Mat r(x.d); for (std::size_t i = 0; i < x.d; i++) for (std::size_t j = 0; j < x.d; j++) r(j, i) = x(i, j); return r; }
inline Mat dagger(const Mat& x) { Mat r(x.d); for (std::size_t i = 0; i < x.d; i++) for (std::size_t j = 0; j < x.d; j++) r(j, i) = std::conj(x(i, j)); return r; }
inline Mat kron(const Mat& x, const Mat& y) { // x on the upper qubits
    Mat r(x.d * y.d);
    for (std::size_t i = 0; i < x.d; i++) for (std::size_t j = 0; j < x.d; j++)
        for (std::size_t k = 0; k < y.d; k++) for (std::size_t l = 0; l < y.d; l++) r(i * y.d + k, j * y.d + l) = x(i, j) * y(k, l);
    return r;
}
inline Vec kron(const Vec& x, const Vec& y) {
    Vec r(x.size() * y.size());
    for (std::size_t i = 0; i < x.size(); i++) for (std::size_t k = 0; k < y.size(); k++) r[i * y.size() + k] = x[i] * y[k];
    return r;
}
inline double maxAbs(const Vec& v) { double m = 0; for (auto& x: v) m = std::max(m, std::abs(x)); return m; }
inline double maxAbs(const Mat& v) { return maxAbs(v.a); }
inline double norm2(const Vec& v) { double s = 0; for (auto& x: v) s += std::norm(x); return s; }
inline double diff(const Vec& x, const Vec& y) {
    if (x.size() != y.size()) return 1e300;
    double m = 0;
    for (std::size_t i = 0; i < x.size(); i++) { double dlt = std::abs(x[i] - y[i]); if (!(dlt <= m)) m = std::isnan(dlt) ? 1e300 : dlt; }
    return m;
}
inline double diff(const Mat& x, const Mat& y) { return diff(x.a, y.a); }
inline C dot(const Vec& x, const Vec& y) { C s = 0; for (std::size_t i = 0; i < x.size(); i++) s += std::conj(x[i]) * y[i]; return s; }
inline int log2i(std::size_t d) { int n = 0; while ((std::size_t{1} << n) < d) n++; return n; }

struct Ctl { int q; bool pos; };
// the operator acting with `g` on `targets` (row/column index of g: bit of targets[0] most significant) if all controls are satisfied
inline Mat embed(const Mat& g, int n, const std::vector<int>& targets, const std::vector<Ctl>& ctl = {}) {
    const std::size_t D = std::size_t{1} << n;
    Mat r(D);
    const std::size_t k = targets.size();
    for (std::size_t c = 0; c < D; c++) {
        bool on = true;
        for (auto& x: ctl) if (static_cast<bool>((c >> x.q) & 1U) != x.pos) on = false;
        if (!on) { r(c, c) = 1; continue; }
        std::size_t gc = 0;
        for (std::size_t t = 0; t < k; t++) gc = 2 * gc + ((c >> targets[t]) & 1U);
        std::size_t base = c;
        for (int t: targets) base &= ~(std::size_t{1} << t);
        for (std::size_t gr = 0; gr < g.d; gr++) {
            std::size_t row = base;
            for (std::size_t t = 0; t < k; t++) if ((gr >> (k - 1 - t)) & 1U) row |= std::size_t{1} << targets[t];
            r(row, c) += g(gr, gc);
        }
    }
    return r;
}

// ---------------------------------------------------------------- decision diagram access
inline C val(const dd::Complex& w) { return {dd::CTEntry::val(w.r), dd::CTEntry::val(w.i)}; }
inline C val(const dd::ComplexValue& w) { return {w.r, w.i}; }

inline void evalV(const dd::vEdge& e, int lvl, int start, std::size_t off, C w, Vec& out) {
    const C ew = val(e.w);
    if (ew == C(0)) { if (!e.isTerminal()) fail("structure:zero-weight-nonterminal", "zero weight on an edge to a non-terminal node"); return; }
    if (!std::isfinite(ew.real()) || !std::isfinite(ew.imag())) fail("structure:nonfinite", "non-finite weight");
    w *= ew;
    if (lvl < 0) { if (!e.isTerminal()) fail("structure:level", "non-terminal below level 0"); out[off] += w; return; }
    if (e.isTerminal()) fail("structure:skipped-level", str("non-zero terminal edge at level ", lvl));
    if (e.p->v != lvl + start) fail("structure:level", str("node with variable ", int(e.p->v), " at level ", lvl + start));
    evalV(e.p->e[0], lvl - 1, start, off, w, out);
    evalV(e.p->e[1], lvl - 1, start, off | (std::size_t{1} << lvl), w, out);
}
// the vector represented by an n-qubit diagram whose lowest qubit is `start`
inline Vec evalV(const dd::vEdge& e, int n, int start = 0) { Vec out(std::size_t{1} << n); evalV(e, n - 1, start, 0, 1, out); return out; }
inline void evalM(const dd::mEdge& e, int lvl, int start, std::size_t r, std::size_t c, C w, Mat& out) {
    const C ew = val(e.w);
    if (ew == C(0)) { if (!e.isTerminal()) fail("structure:zero-weight-nonterminal", "zero weight on an edge to a non-terminal node"); return; }
    if (!std::isfinite(ew.real()) || !std::isfinite(ew.imag())) fail("structure:nonfinite", "non-finite weight");
    w *= ew;
    if (lvl < 0) { if (!e.isTerminal()) fail("structure:level", "non-terminal below level 0"); out(r, c) += w; return; }
    if (e.isTerminal()) fail("structure:skipped-level", str("non-zero terminal edge at level ", lvl));
    if (e.p->v != lvl + start) fail("structure:level", str("node with variable ", int(e.p->v), " at level ", lvl + start));
    const std::size_t b = std::size_t{1} << lvl;
    evalM(e.p->e[0], lvl - 1, start, r, c, w, out);
    evalM(e.p->e[1], lvl - 1, start, r, c | b, w, out);
    evalM(e.p->e[2], lvl - 1, start, r | b, c, w, out);
    evalM(e.p->e[3], lvl - 1, start, r | b, c | b, w, out);
}
inline Mat evalM(const dd::mEdge& e, int n, int start = 0) { Mat out(std::size_t{1} << n); evalM(e, n - 1, start, 0, 0, 1, out); return out; }

template<class E> std::size_t countNodes(const E& e) { // distinct reachable nodes including the terminal
    std::unordered_set<const void*> seen;
    std::vector<decltype(e.p)> st{e.p};
    seen.insert(e.p);
    while (!st.empty()) {
        auto p = st.back(); st.pop_back();
        if (std::remove_pointer_t<decltype(e.p)>::isTerminal(p)) continue;
        for (auto& x: p->e) if (seen.insert(x.p).second) st.push_back(x.p);
    }
    return seen.size();
}

inline dd::CVec toCVec(const Vec& v) { return dd::CVec(v.begin(), v.end()); }
inline dd::CMat toCMat(const Mat& m) {
    dd::CMat r(m.d, dd::CVec(m.d));
    for (std::size_t i = 0; i < m.d; i++) for (std::size_t j = 0; j < m.d; j++) r[i][j] = m(i, j);
    return r;
}
inline Mat fromCMat(const dd::CMat& m) {
    Mat r(m.size());
    for (std::size_t i = 0; i < m.size(); i++) { if (m[i].size() != m.size()) fail("shape", "ragged matrix returned"); for (std::size_t j = 0; j < m.size(); j++) r(i, j) = m[i][j]; }
    return r;
}
inline double tolFor(double scale) { return 1e-10 * (1 + scale); }

#define EQV(got, want, key, ...) do { const auto& g_ = (got); const auto& w_ = (want); double dd_ = vh::diff(g_, w_); \
    vh::rec().events["comparisons"]++; if (!(dd_ <= vh::tolFor(vh::maxAbs(w_)))) vh::fail(key, vh::str(__VA_ARGS__, ": max deviation ", dd_)); } while (0)

// ---------------------------------------------------------------- configurations
struct Tiny: public dd::DDPackageConfig {
    static constexpr std::size_t UT_VEC_NBUCKET = 4U, UT_VEC_INITIAL_ALLOCATION_SIZE = 2U, UT_MAT_NBUCKET = 4U, UT_MAT_INITIAL_ALLOCATION_SIZE = 3U,
        CT_VEC_ADD_NBUCKET = 8U, CT_MAT_ADD_NBUCKET = 8U, CT_MAT_TRANS_NBUCKET = 4U, CT_MAT_CONJ_TRANS_NBUCKET = 4U, CT_MAT_VEC_MULT_NBUCKET = 8U,
        CT_MAT_MAT_MULT_NBUCKET = 8U, CT_VEC_KRON_NBUCKET = 4U, CT_MAT_KRON_NBUCKET = 4U, CT_VEC_INNER_PROD_NBUCKET = 4U,
        CT_DM_NOISE_NBUCKET = 4U, UT_DM_NBUCKET = 4U, UT_DM_INITIAL_ALLOCATION_SIZE = 2U, CT_DM_DM_MULT_NBUCKET = 8U, CT_DM_ADD_NBUCKET = 8U, STOCHASTIC_CACHE_OPS = 3U;
};
struct Mid: public dd::DDPackageConfig { // as the tests configure density matrices, moderately sized
    static constexpr std::size_t UT_VEC_NBUCKET = 1024U, UT_VEC_INITIAL_ALLOCATION_SIZE = 16U, UT_MAT_NBUCKET = 1024U, UT_MAT_INITIAL_ALLOCATION_SIZE = 16U,
        CT_VEC_ADD_NBUCKET = 1024U, CT_MAT_ADD_NBUCKET = 1024U, CT_MAT_TRANS_NBUCKET = 1024U, CT_MAT_CONJ_TRANS_NBUCKET = 1024U, CT_MAT_VEC_MULT_NBUCKET = 1024U,
        CT_MAT_MAT_MULT_NBUCKET = 1024U, CT_VEC_KRON_NBUCKET = 256U, CT_MAT_KRON_NBUCKET = 256U, CT_VEC_INNER_PROD_NBUCKET = 256U,
        CT_DM_NOISE_NBUCKET = 256U, UT_DM_NBUCKET = 1024U, UT_DM_INITIAL_ALLOCATION_SIZE = 16U, CT_DM_DM_MULT_NBUCKET = 1024U, CT_DM_ADD_NBUCKET = 1024U, STOCHASTIC_CACHE_OPS = 5U;
};
using Std = dd::DDPackageConfig;
// a split harness is compiled once per configuration (VH_CFG) and the objects are linked together
void vhCase0(Rng&, std::size_t); // Tiny
void vhCase1(Rng&, std::size_t); // Mid
void vhCase2(Rng&, std::size_t); // Std
#ifndef VH_CFG
#define VH_CFG 0
#endif
#if VH_CFG == 0
#define VH_SPLIT(body) void vh::vhCase0(Rng& g, std::size_t i) { body<Tiny>(g, i); }
#define VH_MAIN(...) int main(int c, char** v) { for (const char* k: std::initializer_list<const char*>{__VA_ARGS__}) vh::rec().required.insert(k); \
    return vh::run(c, v, [](vh::Rng& g, std::size_t i) { switch (g.range(0, 3)) { case 0: vh::vhCase2(g, i); break; case 1: vh::vhCase1(g, i); break; default: vh::vhCase0(g, i); } }); }
#elif VH_CFG == 1
#define VH_SPLIT(body) void vh::vhCase1(Rng& g, std::size_t i) { body<Mid>(g, i); }
#define VH_MAIN(...)
#else
#define VH_SPLIT(body) void vh::vhCase2(Rng& g, std::size_t i) { body<Std>(g, i); }
#define VH_MAIN(...)
#endif
template<class Cfg> auto makePkg(std::size_t n) { return std::make_unique<dd::Package<Cfg>>(n); }

// ---------------------------------------------------------------- generators
inline C randPhaseUnit(Rng& g) { double t = g.uni(0, 6.283185307179586); return {std::cos(t), std::sin(t)}; }
inline C niceValue(Rng& g) { // values with well-separated magnitudes as they occur in circuits
    static const double s2 = 0.70710678118654752440;
    static const std::vector<double> mags{1, 0.5, s2, 0.25, s2 / 2, 0.75, 0.125, 1.0 / 3, 0.8660254037844386, 2, 3, 0.1};
    static const std::vector<C> ph{{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {s2, s2}, {s2, -s2}, {-s2, s2}, {-s2, -s2}};
    return g.pick(mags) * g.pick(ph);
}
inline Vec randVec(Rng& g, int n, int kind = -1) {
    const std::size_t D = std::size_t{1} << n;
    Vec v(D);
    if (kind < 0) kind = g.range(0, 9);
    switch (kind) {
    case 0: for (auto& x: v) x = {g.gauss(), g.gauss()}; break;
    case 1: for (auto& x: v) if (g.chance(0.3)) x = {g.gauss(), g.gauss()}; break; // sparse
    case 2: { Vec pal; for (int i = 0; i < 3; i++) pal.push_back(niceValue(g)); pal.push_back(0); for (auto& x: v) x = g.pick(pal); break; }
    case 3: { v.assign(1, C(1)); for (int q = 0; q < n; q++) { Vec f{niceValue(g), g.chance(0.2) ? C(0) : niceValue(g)}; v = kron(f, v); } break; } // product
    case 4: v[g.below(D)] = niceValue(g); break; // basis
    case 5: for (auto& x: v) x = g.gauss(); break; // real
    case 6: { Vec h = n > 0 ? randVec(g, n - 1, g.range(0, 5)) : Vec{C(1)}; if (n == 0) { v = h; break; } C f = g.chance(0.5) ? niceValue(g) : C(-1); for (std::size_t i = 0; i < D / 2; i++) { v[i] = h[i]; v[D / 2 + i] = f * h[i]; } break; } // proportional halves
    case 7: for (auto& x: v) x = std::pow(10.0, g.uni(-6, 0)) * randPhaseUnit(g); break; // wide range of magnitudes
    case 8: { double s = std::pow(10.0, g.uni(-3, 4)); for (auto& x: v) x = s * C{g.gauss(), g.gauss()}; break; } // scaled
    default: { bool lo = g.chance(0.5); for (std::size_t i = 0; i < D; i++) if (((i < D / 2) == lo) || D == 1) v[i] = {g.gauss(), g.chance(0.5) ? 0.0 : g.gauss()}; break; } // one half zero
    }
    return v;
}
inline Vec normalized(Vec v) { double s = std::sqrt(norm2(v)); if (s < 1e-12) { v.assign(v.size(), C(0)); v[0] = 1; return v; } for (auto& x: v) x /= s; return v; }
inline Mat randMat(Rng& g, int n, int kind = -1) {
    const std::size_t D = std::size_t{1} << n;
    Mat m(D);
    if (kind < 0) kind = g.range(0, 11);
    switch (kind) {
    case 0: for (auto& x: m.a) x = {g.gauss(), g.gauss()}; break;
    case 1: for (auto& x: m.a) if (g.chance(0.25)) x = {g.gauss(), g.gauss()}; break;
    case 2: { Vec pal; for (int i = 0; i < 3; i++) pal.push_back(niceValue(g)); pal.push_back(0); for (auto& x: m.a) x = g.pick(pal); break; }
    case 3: { m = Mat(1); m(0, 0) = 1; for (int q = 0; q < n; q++) { Mat f(2); for (auto& x: f.a) x = g.chance(0.3) ? C(0) : niceValue(g); m = kron(f, m); } break; }
    case 4: { // permutation (with phases)
        std::vector<int> p = g.perm(static_cast<int>(D));
        bool ph = g.chance(0.3);
        for (std::size_t i = 0; i < D; i++) m(static_cast<std::size_t>(p[i]), i) = ph ? niceValue(g) : C(1);
        break; }
    case 5: for (std::size_t i = 0; i < D; i++) m(i, i) = g.chance(0.5) ? niceValue(g) : C(1); break; // diagonal
    case 6: m = scaled(Mat::id(D), niceValue(g)); break;
    case 7: for (std::size_t i = 0; i < D; i++) for (std::size_t j = 0; j <= i; j++) m(i, j) = m(j, i) = C{g.gauss(), g.gauss()}; break; // symmetric
    case 8: for (std::size_t i = 0; i < D; i++) { m(i, i) = g.gauss(); for (std::size_t j = 0; j < i; j++) { m(i, j) = C{g.gauss(), g.gauss()}; m(j, i) = std::conj(m(i, j)); } } break; // Hermitian
    case 9: { Vec x = randVec(g, n), y = randVec(g, n, g.range(0, 5)); for (std::size_t i = 0; i < D; i++) for (std::size_t j = 0; j < D; j++) m(i, j) = x[i] * y[j]; break; } // rank one
    case 10: { double s = std::pow(10.0, g.uni(-3, 3)); for (auto& x: m.a) x = s * C{g.gauss(), g.gauss()}; break; }
    default: m(g.below(D), g.below(D)) = niceValue(g); break;
    }
    return m;
}
inline std::string show(const Vec& v) {
    std::ostringstream o; o.precision(12); o << '[';
    for (std::size_t i = 0; i < v.size() && i < 16; i++) o << (i ? " " : "") << v[i];
    if (v.size() > 16) o << " ...";
    o << ']'; return o.str();
}
inline std::string show(const Mat& m) { return "dim" + std::to_string(m.d) + show(m.a); }
inline std::uint64_t hashOf(const Vec& v) { std::uint64_t h = v.size(); for (auto& x: v) { double a[2] = {x.real(), x.imag()}; std::uint64_t u[2]; std::memcpy(u, a, 16); h = mix(h ^ u[0]); h = mix(h ^ u[1]); } return h; }
inline std::uint64_t hashOf(const Mat& m) { return hashOf(m.a); }
inline bool nontrivial(const Vec& v) { int nz = 0; for (auto& x: v) nz += std::abs(x) > 1e-12; return nz >= 2; }
inline bool nontrivial(const Mat& m) { return nontrivial(m.a); }

// textbook gate matrices (written from the definitions, not from the library)
inline Mat m2(C a, C b, C c, C d) { Mat m(2); m.a = {a, b, c, d}; return m; }
struct Gate1 { std::string name; dd::GateMatrix mat; Mat dense; };
inline C ex(double t) { return {std::cos(t), std::sin(t)}; }
inline dd::GateMatrix gm(const Mat& m) {
    dd::GateMatrix r{};
    for (std::size_t i = 0; i < 4; i++) r[i] = {m.a[i].real(), m.a[i].imag()};
    return r;
}
inline const std::vector<double>& niceAngles() {
    static const double PI_ = 3.14159265358979323846;
    static const std::vector<double> a{0, PI_, PI_ / 2, PI_ / 4, PI_ / 8, -PI_ / 2, -PI_ / 4, 3 * PI_ / 4, PI_ / 3, 2 * PI_ / 3, -PI_, 2 * PI_, PI_ / 16, 5 * PI_ / 8};
    return a;
}
inline double angle(Rng& g) { return g.chance(0.5) ? g.pick(niceAngles()) : g.uni(-7, 7); }
constexpr int NGATE1 = 21;
inline Gate1 gate1(Rng& g, int k = -1) {
    const C i1(0, 1); const double h = std::sqrt(0.5);
    if (k < 0) k = g.range(0, NGATE1 - 1);
    const double a = angle(g), b = angle(g), c = angle(g);
    switch (k) {
    case 0: return {"I", dd::Imat, m2(1, 0, 0, 1)};
    case 1: return {"H", dd::Hmat, m2(h, h, h, -h)};
    case 2: return {"X", dd::Xmat, m2(0, 1, 1, 0)};
    case 3: return {"Y", dd::Ymat, m2(0, -i1, i1, 0)};
    case 4: return {"Z", dd::Zmat, m2(1, 0, 0, -1)};
    case 5: return {"S", dd::Smat, m2(1, 0, 0, i1)};
    case 6: return {"Sdg", dd::Sdagmat, m2(1, 0, 0, -i1)};
    case 7: return {"T", dd::Tmat, m2(1, 0, 0, C(h, h))};
    case 8: return {"Tdg", dd::Tdagmat, m2(1, 0, 0, C(h, -h))};
    case 9: return {"SX", dd::SXmat, m2(C(.5, .5), C(.5, -.5), C(.5, -.5), C(.5, .5))};
    case 10: return {"SXdg", dd::SXdagmat, m2(C(.5, -.5), C(.5, .5), C(.5, .5), C(.5, -.5))};
    case 11: return {"V", dd::Vmat, m2(h, C(0, -h), C(0, -h), h)};
    case 12: return {"Vdg", dd::Vdagmat, m2(h, C(0, h), C(0, h), h)};
    case 13: return {str("U3(", a, ",", b, ",", c, ")"), dd::U3mat(a, b, c), m2(std::cos(c / 2), -ex(a) * std::sin(c / 2), ex(b) * std::sin(c / 2), ex(a + b) * std::cos(c / 2))};
    case 14: return {str("U2(", a, ",", b, ")"), dd::U2mat(a, b), m2(h, -ex(a) * h, ex(b) * h, ex(a + b) * h)};
    case 15: return {str("P(", a, ")"), dd::Phasemat(a), m2(1, 0, 0, ex(a))};
    case 16: return {str("RX(", a, ")"), dd::RXmat(a), m2(std::cos(a / 2), -i1 * std::sin(a / 2), -i1 * std::sin(a / 2), std::cos(a / 2))};
    case 17: return {str("RY(", a, ")"), dd::RYmat(a), m2(std::cos(a / 2), -std::sin(a / 2), std::sin(a / 2), std::cos(a / 2))};
    case 18: return {str("RZ(", a, ")"), dd::RZmat(a), m2(ex(-a / 2), 0, 0, ex(a / 2))};
    case 19: { // arbitrary unitary
        Mat u = m2(std::cos(a), -ex(b) * std::sin(a), ex(c) * std::sin(a), ex(b + c) * std::cos(a));
        return {str("U(", a, ",", b, ",", c, ")"), gm(u), u}; }
    default: { // arbitrary matrix
        Mat m(2); for (auto& x: m.a) x = g.chance(0.25) ? C(0) : C(g.gauss(), g.chance(0.3) ? 0 : g.gauss());
        return {"M" + show(m.a), gm(m), m}; }
    }
}
inline Gate1 unitary1(Rng& g) { return gate1(g, g.range(0, 19)); }
inline Gate1 cliffordT(Rng& g) { return gate1(g, g.range(1, 12)); }
// controls on a subset of the free qubits
inline std::vector<Ctl> randCtl(Rng& g, int n, const std::vector<int>& targets, double p = 0.4) {
    std::vector<Ctl> r;
    for (int q = 0; q < n; q++) {
        bool t = false; for (int x: targets) t |= x == q;
        if (!t && g.chance(p)) r.push_back({q, g.chance(0.5)});
    }
    return r;
}
inline dd::Controls toControls(const std::vector<Ctl>& c, int start = 0) {
    dd::Controls r;
    for (auto& x: c) r.insert(dd::Control{static_cast<dd::Qubit>(x.q + start), x.pos ? dd::Control::Type::pos : dd::Control::Type::neg});
    return r;
}
inline std::string showCtl(const std::vector<Ctl>& c) { std::string s = "{"; for (auto& x: c) s += (x.pos ? "+" : "-") + std::to_string(x.q) + " "; return s + "}"; }
inline Mat m4(std::initializer_list<C> l) { Mat m(4); m.a = l; return m; }
} // namespace vh
// harness without package configurations
#define VH_MAIN_ONE(body, ...) int main(int c, char** v) { for (const char* k: std::initializer_list<const char*>{__VA_ARGS__}) vh::rec().required.insert(k); return vh::run(c, v, [](vh::Rng& g, std::size_t i) { body(g, i); }); }
