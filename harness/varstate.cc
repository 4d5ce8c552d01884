// P12: the order-literal store is a faithful map and bounds stack.
#include "vf.h"
#include <clingcon/solver.hh>
#include <string>
#include <vector>
using namespace Clingcon;

namespace {
struct Ref {
    val_t lo;               // value of the first slot
    std::vector<lit_t> lit; // 0: unused; literals are symbolic but non-zero
    std::vector<bool> used;
    std::vector<std::pair<level_t, val_t>> ls, us;
    val_t lb, ub;
};
using L = std::vector<std::pair<lit_t, val_t>>;
template <class S> L walk(S const &vs, int kind, val_t v) {
    L r;
    auto f = [&](auto ib, auto ie, auto get_lit, auto get_val, auto inc) {
        for (; ib != ie; inc(ib)) { r.emplace_back(get_lit(ib), get_val(ib)); }
        return 0;
    };
    int x = kind == 0 ? vs.with(f) : kind == 1 ? vs.with_lt(v, f) : kind == 2 ? vs.with_le(v, f) : kind == 3 ? vs.with_gt(v, f) : vs.with_ge(v, f);
    static_cast<void>(x);
    return r;
}
void compare(VarState &vs, Ref const &ref) {
    VarState const &cs = vs;
    int n = static_cast<int>(ref.lit.size());
    vf_check((vs.lower_bound() == ref.lb) & (vs.upper_bound() == ref.ub), "bounds");
    vf_check(vs.is_assigned() == (ref.lb == ref.ub), "assigned iff bounds meet");
    vf_check(vs.min_bound() == (ref.ls.empty() ? ref.lb : ref.ls.front().second), "min bound");
    vf_check(vs.max_bound() == (ref.us.empty() ? ref.ub : ref.us.front().second), "max bound");
    // traversal
    L all;
    for (int i = 0; i < n; ++i) {
        if (ref.used[i]) { all.emplace_back(ref.lit[i], ref.lo + i); }
    }
    auto same = [](L const &a, L const &b) {
        if (a.size() != b.size()) { return false; }
        bool r = true;
        for (size_t i = 0; i < a.size(); ++i) { r = r & (a[i].first == b[i].first) & (a[i].second == b[i].second); }
        return r;
    };
    vf_check(same(walk(cs, 0, 0), all), "traversal visits exactly the stored literals in order");
    // a probe possibly outside of the domain
    for (int p = -2; p <= n + 1; ++p) {
    val_t v = ref.lo + p;
    if (p >= 0 && p < n && (ref.used[p] || ((v >= vs.min_bound()) & (v < vs.max_bound())))) {
        vf_check(vs.has_literal(v) == ref.used[p], "has_literal");
        auto g = vs.get_literal(v);
        vf_check(g.has_value() == ref.used[p], "get_literal finds stored values");
        if (ref.used[p] && g.has_value()) { vf_check(*g == ref.lit[p], "get_literal returns what was stored"); }
    }
    L lt, le, gt, ge;
    for (auto &x : all) {
        int k = static_cast<int>(x.second - ref.lo);
        if (k < p) { lt.insert(lt.begin(), x); }
        if (k <= p) { le.insert(le.begin(), x); }
        if (k > p) { gt.push_back(x); }
        if (k >= p) { ge.push_back(x); }
    }
    vf_check(same(walk(cs, 1, v), lt), "values below, descending");
    vf_check(same(walk(cs, 2, v), le), "values up to, descending");
    vf_check(same(walk(cs, 3, v), gt), "values above, ascending");
    vf_check(same(walk(cs, 4, v), ge), "values from, ascending");
    auto lit = [](L const &l) { return l.empty() ? 0 : l[0].first; };
    vf_check((cs.lit_lt(v) == lit(lt)) & (cs.lit_le(v) == lit(le)) & (cs.lit_gt(v) == lit(gt)) & (cs.lit_ge(v) == lit(ge)), "neighbour literals");
    vf_check(cs.lit_prev(v) == (lt.empty() ? -TRUE_LIT : lt[0].first), "preceding literal");
    vf_check(cs.lit_succ(v) == (gt.empty() ? TRUE_LIT : gt[0].first), "succeeding literal");
    auto ol = [](VarState::OrderLiteralOpt const &o, L const &l) {
        if (o.has_value() != !l.empty()) { return false; }
        return l.empty() || ((o->first == l[0].first) & (o->second == l[0].second));
    };
    vf_check(ol(cs.order_lit_lt(v), lt), "order_lit_lt");
    vf_check(ol(cs.order_lit_le(v), le), "order_lit_le");
    vf_check(ol(cs.order_lit_gt(v), gt), "order_lit_gt");
    vf_check(ol(cs.order_lit_ge(v), ge), "order_lit_ge");
    }
}
void store(VarState &vs, Ref &ref, int op, int k, lit_t l) {
    val_t v = ref.lo + k;
    switch (op) {
    case 0: vs.set_literal(v, l); ref.lit[k] = l; ref.used[k] = true; break;
    case 1: {
        auto &r = vs.get_or_add_literal(v);
        vf_check(r == (ref.used[k] ? ref.lit[k] : 0), "get_or_add returns the stored literal or a fresh slot");
        r = l;
        ref.lit[k] = l;
        ref.used[k] = true;
        break;
    }
    default: vs.unset_literal(v); ref.lit[k] = 0; ref.used[k] = false; break;
    }
}
} // namespace

//! Arbitrary operation sequences over a domain of `size`+1 values at an arbitrary position.
//! Values are only stored within the initial domain (as guaranteed by the solver).
VF_ENTRY(ops) {
    int n = vf_param("n", 3), size = vf_param("size", 4), pre = vf_param("pre", 0), lim = vf_param("lim", 1000000), kinds = vf_param("kinds", 7), copies = vf_param("copy", 1);
    auto lo = static_cast<val_t>(vf_sym("lo", -lim, lim));
    VarState vs{3, lo, lo + size};
    Ref ref{lo, std::vector<lit_t>(size, 0), std::vector<bool>(size, false), {}, {}, lo, lo + size};
    level_t level = 0;
    int fresh = 0;
    auto lit = [&]() {
        auto l = static_cast<lit_t>(vf_sym(("lit" + std::to_string(fresh++)).c_str(), -lim, lim));
        vf_assume(l != 0);
        return l;
    };
    for (int i = 0; i < pre; ++i) { store(vs, ref, 0, (i * 7 + 3) % size, lit()); } // some content first
    for (int i = 0; i < n; ++i) {
        int op = static_cast<int>(pick("op", 0, kinds - 1));
        if (op < 3) {
            int k = static_cast<int>(pick("key", 0, size - 1));
            // the solver only stores values within the initial bounds
            if (!(op == 2 && ref.used[k])) { vf_assume((ref.lo + k >= vs.min_bound()) & (ref.lo + k < vs.max_bound())); }
            store(vs, ref, op, k, op == 2 ? 0 : lit());
        } else if (op == 3 || op == 4) { // tighten a bound as the solver does
            if (pick("deeper", 0, 1) != 0) { ++level; }
            if (op == 3) {
                auto b = static_cast<val_t>(vf_sym("bound", -2 * lim, 2 * lim));
                vf_assume((b > ref.lb) & (b <= ref.ub));
                if (level > 0 && !vs.pushed_lower(level)) { vs.push_lower(level); ref.ls.emplace_back(level, ref.lb); }
                vs.lower_bound(b);
                ref.lb = b;
            } else {
                auto b = static_cast<val_t>(vf_sym("bound", -2 * lim, 2 * lim));
                vf_assume((b < ref.ub) & (b >= ref.lb));
                if (level > 0 && !vs.pushed_upper(level)) { vs.push_upper(level); ref.us.emplace_back(level, ref.ub); }
                vs.upper_bound(b);
                ref.ub = b;
            }
        } else if (op == 5) { // backtrack one level
            if (level == 0) { vf_skip(); }
            vf_check(vs.pushed_lower(level) == (!ref.ls.empty() && ref.ls.back().first == level), "pushed_lower");
            vf_check(vs.pushed_upper(level) == (!ref.us.empty() && ref.us.back().first == level), "pushed_upper");
            if (!ref.ls.empty() && ref.ls.back().first == level) { vs.pop_lower(); ref.lb = ref.ls.back().second; ref.ls.pop_back(); }
            if (!ref.us.empty() && ref.us.back().first == level) { vs.pop_upper(); ref.ub = ref.us.back().second; ref.us.pop_back(); }
            --level;
            vf_reach("undone");
        } else { // copies and moves carry the complete state
            VarState a{vs};
            VarState b{7, 0, 1};
            if (pick("other", 0, 1) != 0) { b.set_literal(0, 5); static_cast<void>(b.get_or_add_literal(0)); } // already converted
            b = a;
            VarState c{std::move(b)};
            VarState d{8, 0, 1};
            if (pick("other", 0, 1) != 0) { d.set_literal(0, 5); static_cast<void>(d.get_or_add_literal(0)); }
            d = std::move(c);
            vf_check(d.var() == 3, "copies keep the variable");
            vs = d;
            if (copies > 1) { compare(a, ref); }
            vf_reach("copied");
        }
    }
    vf_check(vs.var() == 3, "variable");
    compare(vs, ref);
    vf_reach("end");
}
