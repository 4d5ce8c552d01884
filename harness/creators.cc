// The clause creators between clingcon and the solver: arbitrary sequences of requests against their meaning.
#include "world.hh"

namespace {

struct Idle : Client {
    void propagate(World &, std::vector<lit_t> const &) override {}
    void check(World &) override {}
    void undo(World &, std::vector<lit_t> const &) override {}
};

std::string nm(char const *p, int i) { return p + std::to_string(i); }

//! A literal chosen among all of the solver.
//!
//! Variables not involved before are interchangeable and introduced in order.
lit_t some(World &w, std::string const &name, int &used) {
    int n = std::min(static_cast<int>(w.nvars()), used + 1);
    auto i = pick(name.c_str(), -n, n - 1);
    auto lit = static_cast<lit_t>(i >= 0 ? i + 1 : i);
    used = std::max(used, static_cast<int>(lit > 0 ? lit : -lit));
    return lit;
}

//! The kind of the i-th request.
int64_t kind(int i, int64_t max) {
    auto fixed = vf_param(nm("op", i).c_str(), -1);
    return fixed >= 0 ? fixed : pick(nm("op", i).c_str(), 0, max);
}

struct Weighted {
    lit_t lit;
    std::vector<Clingo::WeightedLiteral> lits;
    int64_t bound;
    int type;
};

} // namespace

//! Requests during initialisation are passed on with the same meaning when committed.
VF_ENTRY(init) {
    World w;
    Idle idle;
    w.client = &idle;
    if (vf_param("quiet", 0) == 0) { vf_need("committed"); }
    int vars = static_cast<int>(vf_param("vars", 3)), ops = static_cast<int>(vf_param("ops", 3)), width = static_cast<int>(vf_param("width", 2));
    for (int i = 0; i < vars; ++i) { w.new_lit(); }
    for (int i = 0, n = static_cast<int>(vf_param("fixed", 1)); i < n; ++i) {
        auto f = pick(nm("fixed", i).c_str(), -1, 1);
        if (f != 0) { w.assign(static_cast<lit_t>(f * (i + 2))); }
    }
    int used = 1 + static_cast<int>(vf_param("fixed", 1));
    Statistics stats;
    Clingo::PropagateInit init{to_c_<clingo_propagate_init_t>(w)};
    InitClauseCreator cc{init, stats};
    std::vector<std::vector<lit_t>> clauses;
    std::vector<Weighted> weighted;
    std::vector<MinimizeL> minimize;
    std::vector<lit_t> watches;
    bool ok = true;
    size_t literals = 0, requested = 0;
    for (int i = 0; i < ops && ok; ++i) {
        auto op = kind(i, 6);
        if (op == 0) {
            // a clause
            auto n = pick(nm("n", i).c_str(), 0, width);
            std::vector<lit_t> c;
            for (int j = 0; j < n; ++j) { c.push_back(some(w, nm("c", i) + nm("_", j), used)); }
            clauses.push_back(c);
            ++requested;
            ok = cc.add_clause(Clingo::LiteralSpan{c.data(), c.size()});
        } else if (op == 1) {
            // a weight constraint
            auto lit = some(w, nm("lit", i), used);
            auto n = pick(nm("n", i).c_str(), 1, width);
            Weighted x{lit, {}, 0, 0};
            for (int j = 0; j < n; ++j) {
                auto l = some(w, nm("w", i) + nm("_", j), used);
                x.lits.emplace_back(l, static_cast<val_t>(vf_sym((nm("wt", i) + nm("_", j)).c_str(), vf_param("wmin", 1), 3)));
            }
            x.bound = vf_sym(nm("bound", i).c_str(), -2, 7);
            auto type = pick(nm("type", i).c_str(), -1, 1);
            x.type = static_cast<int>(type);
            weighted.push_back(x);
            ok = cc.add_weight_constraint(lit, Clingo::WeightedLiteralSpan{x.lits.data(), x.lits.size()}, static_cast<val_t>(x.bound), static_cast<Clingo::WeightConstraintType>(x.type));
        } else if (op == 2) {
            auto lit = some(w, nm("lit", i), used);
            MinimizeL m{lit, static_cast<val_t>(vf_sym(nm("weight", i).c_str(), -1000, 1000)), 0};
            m.level = static_cast<int>(pick(nm("level", i).c_str(), -1, 1));
            minimize.push_back(m);
            cc.add_minimize(m.lit, m.weight, m.level);
        } else if (op == 3) {
            auto n = w.nvars();
            auto l = cc.add_literal();
            ++literals;
            vf_check(w.nvars() == n + 1 && l == static_cast<lit_t>(n + 1), "a fresh literal is created");
        } else if (op == 4) {
            auto l = some(w, nm("lit", i), used);
            watches.push_back(l);
            cc.add_watch(l);
        } else if (op == 5) {
            ok = cc.propagate();
        } else {
            ok = cc.commit();
        }
    }
    if (ok) { ok = cc.commit(); }
    // an arbitrary assignment
    std::vector<char> sigma{0, 1};
    for (size_t v = 2; v <= w.nvars(); ++v) { sigma.push_back(static_cast<char>(vf_bool(nm("s", static_cast<int>(v)).c_str()))); }
    auto truth = [&](lit_t l) { return (sigma[static_cast<size_t>(l > 0 ? l : -l)] != 0) == (l > 0); };
    bool want = true;
    for (auto const &c : clauses) {
        bool sat = false;
        for (auto l : c) { sat = sat | truth(l); }
        want = want & sat;
    }
    for (auto const &x : weighted) {
        int64_t sum = 0;
        for (auto const &l : x.lits) { sum += vf_ite(truth(l.literal()), l.weight(), 0); }
        bool holds = sum <= x.bound, lit = truth(x.lit);
        want = want & (x.type == 0 ? holds == lit : x.type > 0 ? !lit | holds : !holds | lit);
    }
    for (int i = 0, n = static_cast<int>(vf_param("fixed", 1)); i < n; ++i) {
        // (the values at the beginning are part of the problem)
        auto v = static_cast<lit_t>(i + 2);
        if (w.value(v) != 0 && w.trail.size() > 1) {
            bool early = false;
            for (size_t k = 1; k < w.trail.size() && k <= static_cast<size_t>(n); ++k) { early = early || w.trail[k] == v || w.trail[k] == -v; }
            if (early) { want = want & (truth(v) == w.is_true(v)); }
        }
    }
    if (!ok) {
        vf_reach("conflict");
        vf_check(w.conflict, "a failed request comes with a conflict");
        vf_check(!want, "a conflict is only reported if the requests have no solution");
        return;
    }
    vf_reach("committed");
    bool have = true;
    for (size_t i = 1; i < w.trail.size(); ++i) { have = have & truth(w.trail[i]); }
    for (auto const &c : w.clauses) {
        bool sat = false;
        for (auto l : c) { sat = sat | truth(l); }
        have = have & sat;
    }
    for (auto const &x : w.wcs) {
        int64_t sum = 0;
        for (auto const &l : x.lits) { sum += vf_ite(truth(l.literal()), l.weight(), 0); }
        bool holds = sum >= x.bound, lit = truth(x.lit);
        have = have & (x.type == 0 ? holds == lit : x.type > 0 ? !lit | holds : !holds | lit);
    }
    vf_check(have == want, "the solver has exactly the solutions of the requests");
    for (int level = -1; level <= 1; ++level) {
        int64_t a = 0, b = 0;
        for (auto const &m : minimize) { if (m.level == level) { a += vf_ite(truth(m.lit), m.weight, 0); } }
        for (auto const &m : w.minimize) { if (m.level == level) { b += vf_ite(truth(m.lit), m.weight, 0); } }
        vf_check(a == b, "the objective is passed on");
    }
    for (auto l : watches) { vf_check(w.watched(l), "watches are passed on"); }
    vf_check(stats.num_literals == literals && stats.num_clauses == requested, "literals and clauses are counted");
}

//! Clauses added during search reach the solver unchanged and failure is reported exactly if there is a conflict.
VF_ENTRY(control) {
    World w;
    Idle idle;
    w.client = &idle;
    if (vf_param("quiet", 0) == 0) { vf_need("added"); }
    if (vf_param("quiet", 0) == 0) { vf_need("refused"); }
    int vars = static_cast<int>(vf_param("vars", 3)), ops = static_cast<int>(vf_param("ops", 2)), width = static_cast<int>(vf_param("width", 2));
    for (int i = 0; i < vars; ++i) { w.new_lit(); }
    int used = 1;
    // a clause of the problem and decisions
    if (vf_param("problem", 1) != 0) {
        auto a = some(w, "pa", used);
        auto b = some(w, "pb", used);
        if (a == TRUE_LIT || b == TRUE_LIT || a == -b) { vf_skip(); }
        if (a == -TRUE_LIT || b == -TRUE_LIT) { vf_skip(); }
        std::vector<lit_t> c{a, b};
        w.init_clause(c.data(), c.size());
        w.up();
    }
    w.initializing = false;
    for (int i = 0, n = static_cast<int>(vf_param("decisions", 2)); i < n; ++i) {
        auto l = some(w, nm("d", i), used);
        if (w.value(l) != 0) { vf_skip(); }
        w.decide(l);
        if (!w.up()) { vf_skip(); }
    }
    if (vf_param("step", 0) != 0) { w.step = w.new_lit(); }
    SolverStatistics stats;
    Clingo::PropagateControl ctl{to_c_<clingo_propagate_control_t>(w)};
    ControlClauseCreator cc{ctl, stats};
    std::vector<lit_t> got;
    int type = -1, calls = 0;
    w.on_clause = [&](lit_t const *c, size_t n, int t) { got.assign(c, c + n); type = t; ++calls; };
    size_t literals = 0;
    for (int i = 0; i < ops; ++i) {
        auto op = kind(i, 3);
        if (op == 0) {
            auto n = pick(nm("n", i).c_str(), 1, width);
            std::vector<lit_t> c;
            for (int j = 0; j < n; ++j) { c.push_back(some(w, nm("c", i) + nm("_", j), used)); }
            auto t = pick(nm("type", i).c_str(), 0, 3);
            calls = 0;
            bool ok = cc.add_clause(Clingo::LiteralSpan{c.data(), c.size()}, static_cast<Clingo::ClauseType>(t));
            vf_check(calls == 1 && got == c && type == t, "the clause reaches the solver unchanged");
            vf_check(ok == !(w.conflict || w.has_pending), "failure is reported exactly if there is a conflict");
            if (!ok) { vf_reach("refused"); return; }
            vf_reach("added");
            auto size = w.trail.size();
            vf_check(w.up() && w.trail.size() == size, "the solver has propagated the clause");
        } else if (op == 1) {
            auto n = w.nvars();
            auto l = cc.add_literal();
            ++literals;
            vf_check(w.nvars() == n + 1 && l == static_cast<lit_t>(n + 1), "a fresh literal is created");
        } else if (op == 2) {
            auto l = some(w, nm("lit", i), used);
            auto pos = w.watch_pos, neg = w.watch_neg;
            (l > 0 ? pos[l] : neg[-l]) = true;
            cc.add_watch(l);
            vf_check(pos == w.watch_pos && neg == w.watch_neg, "exactly the literal is watched");
        } else {
            bool ok = cc.propagate();
            vf_check(ok == !(w.conflict || w.has_pending), "failure is reported exactly if there is a conflict");
            auto size = w.trail.size();
            vf_check(w.up() && w.trail.size() == size, "the solver has propagated");
        }
    }
    vf_check(stats.literals == literals, "literals are counted");
}
