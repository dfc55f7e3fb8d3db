// auditors of node tables, number table and reference counts (models recomputed from the tables themselves)
#pragma once
#include "vh.hpp"
#include <tuple>
namespace vh {
using CT = dd::ComplexTable<>;
inline const dd::CTEntry* aligned(const dd::CTEntry* e) { return dd::CTEntry::getAlignedPointer(e); }
inline bool isConst(const dd::CTEntry* e) { return e == &CT::zero || e == &CT::one || e == &CT::sqrt2_2; }

// the number table: sorted buckets, values >= 0, no two stored values of a bucket equal, count correct
template<class T> std::unordered_set<const void*> auditNumbers(const T& t) {
    std::unordered_set<const void*> live; std::size_t cnt = 0;
    for (auto* b: t.getTable()) {
        double last = -1;
        for (auto* e = b; e != nullptr; e = e->next) {
            if (!live.insert(e).second) fail("numbers:cycle", "number stored twice or cyclic bucket");
            if (!(e->value >= 0) || !std::isfinite(e->value)) fail("numbers:value", str("stored value ", e->value));
            if (e->value < last) fail("numbers:unsorted", str("bucket not sorted: ", last, " before ", e->value));
            if (e->value == last) fail("numbers:duplicate", str("value stored twice: ", last));
            last = e->value; cnt++;
        }
    }
    if (cnt != t.getCount()) fail("numbers:count", str("count ", t.getCount(), " but ", cnt, " stored"));
    count("numbers_audited", cnt);
    return live;
}
template<class Node> void auditUnique(const std::vector<const Node*>& lv, int level) {
    std::set<std::vector<const void*>> seen;
    for (auto* p: lv) {
        std::vector<const void*> k;
        for (auto& e: p->e) { k.push_back(e.p); k.push_back(e.w.r); k.push_back(e.w.i); }
        if constexpr (std::is_same_v<Node, dd::dNode>) k.push_back(reinterpret_cast<const void*>(static_cast<std::uintptr_t>(p->flags & 8U)));
        if (!seen.insert(k).second) fail("nodes:duplicate", str("two identical nodes at level ", level));
    }
}
template<class UT> auto liveNodes(const UT& ut) {
    using Node = std::remove_pointer_t<std::decay_t<decltype(ut.getTables()[0][0])>>;
    std::vector<std::vector<const Node*>> r;
    std::unordered_set<const void*> seen;
    for (auto& tab: ut.getTables()) {
        r.emplace_back();
        for (auto* b: tab) for (const Node* p = b; p != nullptr; p = p->next) {
            if (!seen.insert(p).second) fail("nodes:cycle", "node stored twice or cyclic bucket");
            r.back().push_back(p);
        }
    }
    return r;
}
inline double bestLimit = 1.5; // entries below the tolerance may be normalised by a smaller one; strict for moderate values
inline double normTol = 1e-9; // relative error of stored weights; meaningless for weights near the tolerance
template<class UT> void auditNodes(const UT& ut, const std::unordered_set<const void*>& nums, const char* kind) {
    auto lv = liveNodes(ut);
    using Node = std::remove_const_t<std::remove_pointer_t<typename decltype(lv)::value_type::value_type>>;
    std::size_t cnt = 0; std::unordered_set<const void*> below, cur;
    for (std::size_t v = 0; v < lv.size(); v++) {
        cur.clear();
        for (auto* p: lv[v]) {
            cnt++; cur.insert(p);
            if (p->v != static_cast<int>(v)) fail("nodes:level", str(kind, " node of variable ", int(p->v), " stored at level ", v));
            double mag = 0, best = 0; int nonzero = 0; bool one = false;
            for (auto& e: p->e) {
                Node* c = e.p;
                if constexpr (std::is_same_v<Node, dd::dNode>) dd::dNode::alignDensityNode(c);
                for (auto* x: {e.w.r, e.w.i}) if (!isConst(aligned(x)) && nums.find(aligned(x)) == nums.end()) fail("nodes:weight-not-stored", str(kind, " node at level ", v, " uses a number that is not in the table (value ", dd::CTEntry::val(x), ")"));
                const C w = val(e.w);
                if (!std::isfinite(w.real()) || !std::isfinite(w.imag())) fail("nodes:nonfinite", "weight");
                if (e.w.approximatelyZero()) {
                    if (!Node::isTerminal(c)) fail("nodes:zero-stub", str(kind, " zero weight to a non-terminal at level ", v));
                    if (!(e.w == dd::Complex::zero)) fail("nodes:inexact-zero", str(kind, " weight ", w, " within tolerance of zero but not the zero constant"));
                } else {
                    nonzero++;
                    if (Node::isTerminal(c)) { }
                    else { if (c->v != static_cast<int>(v) - 1) fail("nodes:successor-level", str(kind, " level ", v, " -> ", int(c->v))); if (below.find(c) == below.end()) fail("nodes:dangling", str(kind, " node at level ", v, " refers to a node that is not stored")); }
                }
                mag += std::norm(w); best = std::max(best, std::abs(w)); one |= e.w == dd::Complex::one;
            }
            if (nonzero == 0) fail("nodes:all-zero", str(kind, " node with only zero successors at level ", v));
            if constexpr (std::is_same_v<Node, dd::vNode>) {
                if (std::abs(mag - 1) > normTol) fail("nodes:norm", str("vector node with squared norm ", mag));
                const C a = val(p->e[0].w), b = val(p->e[1].w);
                const C m = (std::norm(a) + 1e-9 >= std::norm(b)) ? a : b;
                const bool either = (std::abs(a.imag()) < 1e-9 && a.real() > 0) || (std::abs(b.imag()) < 1e-9 && b.real() > 0); // amplitudes below the tolerance may be led by the smaller one
                const bool ok = bestLimit > 1.1 ? either : (std::abs(m.imag()) < 1e-9 && m.real() > 0) || (std::abs(std::norm(a) - std::norm(b)) < 1e-8 && std::abs(b.imag()) < 1e-9 && b.real() > 0);
                if (!ok) fail("nodes:phase", str("leading weight is not positive real: ", a, " ", b));
            } else {
                if (!one) fail("nodes:norm", str(kind, " node without unit weight at level ", v));
                if (best > bestLimit) fail("nodes:norm", str(kind, " node with weight of magnitude ", best));
            }
        }
        // density nodes may be stored twice (a stored node is modified while an operation visits it)
        if constexpr (!std::is_same_v<Node, dd::dNode>) auditUnique(lv[v], static_cast<int>(v));
        below = cur;
    }
    if (cnt != ut.getNodeCount()) fail("nodes:count", str(kind, " node count ", ut.getNodeCount(), " but ", cnt, " stored"));
    count("nodes_audited", cnt);
}
template<class P> void auditPackage(P& p) {
    auto nums = auditNumbers(p.cn.complexTable);
    auditNodes(p.vUniqueTable, nums, "vector"); auditNodes(p.mUniqueTable, nums, "matrix"); auditNodes(p.dUniqueTable, nums, "density");
    count("package_audits");
}

// ---- reference counts recomputed from the referenced roots
struct RefModel {
    std::unordered_map<const void*, std::uint64_t> node, num;
    std::vector<std::pair<const void*, int>> dummy;
    void addNum(const dd::Complex& w) {
        if (w == dd::Complex::zero || w == dd::Complex::one) return;
        for (auto* x: {w.r, w.i}) { auto* a = aligned(x); if (!isConst(a)) num[a]++; }
    }
    template<class E> void addRoot(E e) {
        addNum(e.w);
        using Node = std::remove_pointer_t<decltype(e.p)>;
        Node* p = e.p;
        if constexpr (std::is_same_v<Node, dd::dNode>) dd::dNode::alignDensityNode(p);
        visit(p);
    }
    template<class Node> void visit(Node* p) {
        if (p == nullptr || Node::isTerminal(p)) return;
        if (++node[p] > 1) return;
        for (auto& e: p->e) {
            addNum(e.w); Node* c = e.p;
            if constexpr (std::is_same_v<Node, dd::dNode>) dd::dNode::alignDensityNode(c);
            visit(c);
        }
    }
    template<class UT> void compareNodes(const UT& ut, const char* kind) {
        auto lv = liveNodes(ut); std::size_t active = 0, level = 0;
        for (auto& l: lv) { std::size_t here = 0; for (auto* p: l) {
            auto it = node.find(p); std::uint64_t want = it == node.end() ? 0 : it->second;
            if (p->ref != want) fail("refs:node", str(kind, " node at level ", int(p->v), " has reference count ", p->ref, ", expected ", want));
            if (want) { active++; here++; }
        }
            const auto counted = const_cast<UT&>(ut).getActiveNodeCount(static_cast<dd::Qubit>(level)); // the getter is not const
            if (counted != here) fail("refs:active", str(kind, " active nodes ", counted, " at level ", level, ", expected ", here));
            level++;
        }
        if (ut.getActiveNodeCount() != active) fail("refs:active", str(kind, " active nodes ", ut.getActiveNodeCount(), ", expected ", active));
        count("refcounts_compared", active);
    }
    // half: whether the built-in 0.5 is expected to carry its own reference
    template<class T> void compareNumbers(const T& t, bool half) {
        for (auto* b: t.getTable()) for (auto* e = b; e != nullptr; e = e->next) {
            auto it = num.find(e); std::uint64_t want = it == num.end() ? 0 : it->second;
            if (std::abs(e->value - 0.5) < 1e-12 && (half || e->refCount == want + 1)) want++; // 0.5 is held by a new table, not necessarily after a reset
            if (e->refCount != want) fail("refs:number", str("number ", e->value, " has reference count ", e->refCount, ", expected ", want));
        }
    }
};
// ---- structural snapshot of a diagram (nodes, successors, weight entries and their values)
template<class E> std::uint64_t snapshot(const E& root) {
    std::uint64_t h = 17; std::unordered_set<const void*> seen;
    using Node = std::remove_pointer_t<decltype(root.p)>;
    std::vector<Node*> st;
    auto al = [](Node* p) { if constexpr (std::is_same_v<Node, dd::dNode>) dd::dNode::alignDensityNode(p); return p; };
    auto num = [&](const dd::Complex& w) { for (auto* x: {w.r, w.i}) { double d = dd::CTEntry::val(x); std::uint64_t u; std::memcpy(&u, &d, 8); h = mix(h ^ u) + reinterpret_cast<std::uintptr_t>(x); } };
    num(root.w); h = mix(h + reinterpret_cast<std::uintptr_t>(root.p));
    st.push_back(al(root.p)); seen.insert(st.back());
    while (!st.empty()) {
        Node* p = st.back(); st.pop_back();
        if (Node::isTerminal(p)) continue;
        h = mix(h + static_cast<std::uint64_t>(p->v));
        for (auto& e: p->e) { num(e.w); h = mix(h + reinterpret_cast<std::uintptr_t>(e.p)); if (seen.insert(al(e.p)).second) st.push_back(al(e.p)); }
    }
    return h;
}
} // namespace vh
namespace vh {
// conservation: everything that was allocated is either in the table or can be handed out again, exactly once
template<class UT> void conserveNodes(UT& ut, const char* kind) {
    std::unordered_set<const void*> seen; const std::size_t before = ut.getAllocations();
    for (auto& l: liveNodes(ut)) for (auto* p: l) seen.insert(p);
    const std::size_t in = seen.size(); using Node = std::remove_const_t<std::remove_pointer_t<std::decay_t<decltype(liveNodes(ut)[0][0])>>>;
    std::vector<Node*> got; Node* extra = nullptr;
    while (true) {
        Node* p = ut.getNode();
        if (ut.getAllocations() != before) { extra = p; break; }
        if (!seen.insert(p).second) fail("conservation:twice", str(kind, " node available twice or while stored"));
        got.push_back(p);
        if (got.size() > before) fail("conservation:more", str("more ", kind, " nodes available than allocated"));
    }
    if (in + got.size() != before) fail("conservation:lost", str(kind, " nodes: ", before, " allocated, ", in, " stored, ", got.size(), " available"));
    ut.returnNode(extra); for (std::size_t k = got.size(); k-- > 0;) ut.returnNode(got[k]);
    count("conserved_nodes", before);
}
template<class T> void conserveNumbers(T& t) {
    std::unordered_set<const void*> seen; const std::size_t before = t.getAllocations();
    for (auto* b: t.getTable()) for (auto* e = b; e != nullptr; e = e->next) seen.insert(e);
    const std::size_t in = seen.size(); std::vector<typename T::Entry*> got; typename T::Entry* extra = nullptr;
    while (true) {
        auto* p = t.getEntry();
        if (t.getAllocations() != before) { extra = p; break; }
        if (!seen.insert(p).second) fail("conservation:twice", "number available twice or while stored");
        got.push_back(p);
        if (got.size() > before) fail("conservation:more", "more numbers available than allocated");
    }
    if (in + got.size() != before) fail("conservation:lost", str("numbers: ", before, " allocated, ", in, " stored, ", got.size(), " available"));
    t.returnEntry(extra); for (std::size_t k = got.size(); k-- > 0;) t.returnEntry(got[k]);
    count("conserved_numbers", before);
}
template<class CacheT> void conserveCache(CacheT& c) {
    std::unordered_set<const void*> seen; const std::size_t before = c.getAllocations(), out = c.getCount(); std::vector<dd::Complex> got; dd::Complex extra{};
    while (true) {
        auto x = c.getCachedComplex();
        if (c.getAllocations() != before) { extra = x; break; }
        if (!seen.insert(x.r).second || !seen.insert(x.i).second) fail("conservation:twice", "temporary number available twice");
        got.push_back(x);
        if (2 * got.size() > before) fail("conservation:more", "more temporary numbers available than allocated");
    }
    if (out + 2 * got.size() != before) fail("conservation:lost", str("temporary numbers: ", before, " allocated, ", out, " on loan, ", 2 * got.size(), " available"));
    for (auto* x: {&extra}) { x->r->refCount = 0; x->i->refCount = 0; c.returnToCache(*x); }
    for (std::size_t k = got.size(); k-- > 0;) { got[k].r->refCount = 0; got[k].i->refCount = 0; c.returnToCache(got[k]); }
    count("conserved_temporaries", before);
}
template<class P> void conservePackage(P& p) {
    conserveNodes(p.vUniqueTable, "vector"); conserveNodes(p.mUniqueTable, "matrix"); conserveNodes(p.dUniqueTable, "density");
    conserveNumbers(p.cn.complexTable); conserveCache(p.cn.complexCache); count("conservation_audits");
}
} // namespace vh
