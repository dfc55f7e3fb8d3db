// comparing the shape of diagrams; random layered diagrams with few nodes per level
#pragma once
#include "vh.hpp"
namespace vh {
template<class E> struct NodeOf { using type = std::remove_pointer_t<decltype(E::p)>; };
template<class E> bool sameShape(const E& a, const E& b) { // isomorphic with close weights
    using Node = typename NodeOf<E>::type; std::unordered_map<const Node*, const Node*> m; std::vector<std::pair<const Node*, const Node*>> st;
    auto edge = [&](const E& x, const E& y) { if (std::abs(val(x.w) - val(y.w)) > 1e-9 * (1 + std::abs(val(x.w)))) return false; if (x.isTerminal() != y.isTerminal()) return false; if (x.isTerminal()) return true; auto it = m.find(x.p); if (it != m.end()) return it->second == y.p; m[x.p] = y.p; st.emplace_back(x.p, y.p); return true; };
    if (!edge(a, b)) return false;
    while (!st.empty()) { auto [x, y] = st.back(); st.pop_back(); if (x->v != y->v) return false; for (std::size_t k = 0; k < x->e.size(); k++) if (!edge(x->e[k], y->e[k])) return false; }
    return true;
}
inline C layerWeight(Rng& g, std::uint64_t& hh) { static const std::vector<C> pal{{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {0.5, 0}, {0, -0.5}}; const C f = g.pick(pal); hh = mix(hh ^ static_cast<std::uint64_t>(f.real() * 4 + 8) ^ static_cast<std::uint64_t>((f.imag() * 4 + 8) * 64)); return f; }
template<class P> VH_GLUE dd::vEdge layeredV(P& p, Rng& g, int n, int width, std::uint64_t& hh, double zero = 0.2) {
    std::vector<dd::vEdge> lv{dd::vEdge::one};
    for (int q = 0; q < n; q++) {
        std::vector<dd::vEdge> nx;
        for (int k = 0; k < width; k++) { std::array<dd::vEdge, 2> es; bool any = false; for (auto& x: es) { x = g.chance(zero) ? dd::vEdge::zero : g.pick(lv); if (!(x == dd::vEdge::zero)) { any = true; x.w = p.cn.lookup(layerWeight(g, hh)); } } if (!any) es[0] = dd::vEdge{lv[0].p, dd::Complex::one}; auto e = p.makeDDNode(static_cast<dd::Qubit>(q), es); e.w = dd::Complex::one; nx.push_back(e); }
        lv = nx;
    }
    return lv[0];
}
template<class P> VH_GLUE dd::mEdge layeredM(P& p, Rng& g, int n, int width, std::uint64_t& hh, double zero = 0.3) {
    std::vector<dd::mEdge> lv{dd::mEdge::one};
    for (int q = 0; q < n; q++) {
        std::vector<dd::mEdge> nx;
        for (int k = 0; k < width; k++) { std::array<dd::mEdge, 4> es; bool any = false; for (auto& x: es) { x = g.chance(zero) ? dd::mEdge::zero : g.pick(lv); if (!(x == dd::mEdge::zero)) { any = true; x.w = p.cn.lookup(layerWeight(g, hh)); } } if (!any) es[3] = dd::mEdge{lv[0].p, dd::Complex::one}; auto e = p.makeDDNode(static_cast<dd::Qubit>(q), es); e.w = dd::Complex::one; nx.push_back(e); }
        lv = nx;
    }
    return lv[0];
}
} // namespace vh
