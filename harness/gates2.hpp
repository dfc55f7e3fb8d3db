// two-qubit gates of the library with their textbook matrices (index = 2*bit(target0)+bit(target1))
#pragma once
#include "vh.hpp"
namespace vh {
struct Gate2 { std::string name, family; dd::mEdge e; Mat dense; };
inline Mat paulis(char a, char b) {
    const C i1(0, 1);
    auto P = [&](char c) { return c == 'X' ? m2(0, 1, 1, 0) : c == 'Y' ? m2(0, -i1, i1, 0) : c == 'Z' ? m2(1, 0, 0, -1) : m2(1, 0, 0, 1); };
    return kron(P(a), P(b));
}
inline Mat rot(double t, const Mat& P) { return scaled(Mat::id(P.d), std::cos(t / 2)) + scaled(P, C(0, -std::sin(t / 2))); }
constexpr int NGATE2 = 15;
template<class Pkg> Gate2 gate2(Pkg& p, Rng& g, int n, int a, int b, const std::vector<Ctl>& ctl, int start = 0, int k = -1) {
    const C i1(0, 1); const double h = std::sqrt(0.5);
    const auto N = static_cast<dd::QubitCount>(n); const auto S = static_cast<std::size_t>(start);
    const auto A = static_cast<dd::Qubit>(a + start), B = static_cast<dd::Qubit>(b + start);
    const double t = angle(g), be = angle(g);
    const auto c = toControls(ctl, start);
    const bool plain = ctl.empty() && g.chance(0.7);
    if (k < 0) k = g.range(0, NGATE2 - 1);
    const Mat cx = m4({1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0}); // control target0
    const Mat xc = m4({1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0}); // control target1
    auto nm = [&](const char* f, bool par = false, bool par2 = false) { std::string s = f; if (par) s += str("(", t, par2 ? str(",", be) : std::string(), ")"); return s; };
    switch (k) {
    case 0: return {nm("SWAP"), "SWAP", plain ? p.makeSWAPDD(N, A, B, S) : p.makeSWAPDD(N, c, A, B, S), m4({1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1})};
    case 1: return {nm("Peres"), "Peres", p.makePeresDD(N, c, A, B, S), kron(m2(1, 0, 0, 1), m2(0, 1, 1, 0)) * xc};
    case 2: return {nm("Peresdag"), "Peresdag", p.makePeresdagDD(N, c, A, B, S), xc * kron(m2(1, 0, 0, 1), m2(0, 1, 1, 0))};
    case 3: return {nm("iSWAP"), "iSWAP", plain ? p.makeiSWAPDD(N, A, B, S) : p.makeiSWAPDD(N, c, A, B, S), m4({1, 0, 0, 0, 0, 0, i1, 0, 0, i1, 0, 0, 0, 0, 0, 1})};
    case 4: return {nm("iSWAPinv"), "iSWAPinv", plain ? p.makeiSWAPinvDD(N, A, B, S) : p.makeiSWAPinvDD(N, c, A, B, S), m4({1, 0, 0, 0, 0, 0, -i1, 0, 0, -i1, 0, 0, 0, 0, 0, 1})};
    case 5: return {nm("DCX"), "DCX", plain ? p.makeDCXDD(N, A, B, S) : p.makeDCXDD(N, c, A, B, S), cx * xc};
    case 6: return {nm("RZZ", true), "RZZ", plain ? p.makeRZZDD(N, A, B, t, S) : p.makeRZZDD(N, c, A, B, t, S), rot(t, paulis('Z', 'Z'))};
    case 7: return {nm("RYY", true), "RYY", plain ? p.makeRYYDD(N, A, B, t, S) : p.makeRYYDD(N, c, A, B, t, S), rot(t, paulis('Y', 'Y'))};
    case 8: return {nm("RXX", true), "RXX", plain ? p.makeRXXDD(N, A, B, t, S) : p.makeRXXDD(N, c, A, B, t, S), rot(t, paulis('X', 'X'))};
    case 9: return {nm("RZX", true), "RZX", plain ? p.makeRZXDD(N, A, B, t, S) : p.makeRZXDD(N, c, A, B, t, S), rot(t, paulis('Z', 'X'))};
    case 10: return {nm("ECR"), "ECR", plain ? p.makeECRDD(N, A, B, S) : p.makeECRDD(N, c, A, B, S), scaled(m4({0, 0, 1, i1, 0, 0, i1, 1, 1, -i1, 0, 0, -i1, 1, 0, 0}), h)};
    case 11: return {nm("XX-YY", true, true), "XXMinusYY", plain ? p.makeXXMinusYYDD(N, A, B, t, be, S) : p.makeXXMinusYYDD(N, c, A, B, t, be, S),
        m4({std::cos(t / 2), 0, 0, -i1 * std::sin(t / 2) * ex(be), 0, 1, 0, 0, 0, 0, 1, 0, -i1 * std::sin(t / 2) * ex(-be), 0, 0, std::cos(t / 2)})};
    case 12: return {nm("XX+YY", true, true), "XXPlusYY", plain ? p.makeXXPlusYYDD(N, A, B, t, be, S) : p.makeXXPlusYYDD(N, c, A, B, t, be, S),
        m4({1, 0, 0, 0, 0, std::cos(t / 2), -i1 * std::sin(t / 2) * ex(be), 0, 0, -i1 * std::sin(t / 2) * ex(-be), std::cos(t / 2), 0, 0, 0, 0, 1})};
    case 13: { // CX / CZ as plain two-qubit matrices
        if (!ctl.empty()) return gate2(p, g, n, a, b, ctl, start, 0);
        if (g.chance(0.5)) return {nm("CXmat"), "CXmat", p.makeTwoQubitGateDD(dd::CXmat, N, A, B, S), cx};
        return {nm("CZmat"), "CZmat", p.makeTwoQubitGateDD(dd::CZmat, N, A, B, S), m4({1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, -1})}; }
    default: { // arbitrary 4x4 matrix
        if (!ctl.empty()) return gate2(p, g, n, a, b, ctl, start, g.range(6, 9));
        Mat m = g.chance(0.5) ? randMat(g, 2) : randMat(g, 2, 0);
        dd::TwoQubitGateMatrix x{};
        for (std::size_t r = 0; r < 4; r++) for (std::size_t cc = 0; cc < 4; cc++) x[r][cc] = {m(r, cc).real(), m(r, cc).imag()};
        return {"M4" + show(m), "arbitrary", p.makeTwoQubitGateDD(x, N, A, B, S), m}; }
    }
}
} // namespace vh
