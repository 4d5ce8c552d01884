// P13-P16, P22: order literals, domain and single-variable constraints, bounds, backtracking, decisions.
#include "world.hh"
#include <clingcon/constraints.hh>
#include <clingcon/solver.hh>
#include <map>

namespace {
std::string nm(char const *p, int i) { return p + std::to_string(i); }

enum Which { Chain = 1, Exact = 2, Bounds = 4, Undo = 8, Decide = 16 };

struct Domain {
    lit_t lit;
    bool truth;
    var_t var;
    std::vector<std::pair<int64_t, int64_t>> ranges; // inclusive, exclusive
    bool in(int64_t x) const {
        bool r = false;
        for (auto &p : ranges) { r = r | ((p.first <= x) & (x < p.second)); }
        return r;
    }
};
struct Simple {
    lit_t lit;
    bool truth, strict;
    int64_t co;
    var_t var;
    int64_t rhs;
    bool holds(int64_t x) const { return co * x <= rhs; }
};

struct Snap { // what the propagator exposes about the integer variables
    std::vector<std::pair<val_t, val_t>> bounds;
};

struct Orders : SolverClient {
    int which, lits;
    int64_t lo, size;
    World &w;
    Meaning m;
    std::vector<Domain> doms;
    std::vector<Simple> simples;
    std::map<std::pair<var_t, int64_t>, lit_t> names; // literal given out for a value (relative to lo)
    std::vector<std::vector<std::pair<val_t, val_t>>> snaps; // bounds before each decision
    Orders(Solver &s, SolverStatistics &st, World &w) : SolverClient{s, st}, w{w} {}

    size_t n() const { return m.sigma.size(); }
    template <class F> void each(var_t v, F f) {
        auto &vs = solver.var_state(v);
        std::vector<std::pair<lit_t, val_t>> ls;
        int r = vs.with([&](auto ib, auto ie, auto get_lit, auto get_val, auto inc) {
            for (; ib != ie; inc(ib)) { ls.emplace_back(get_lit(ib), get_val(ib)); }
            return 0;
        });
        static_cast<void>(r);
        for (auto &x : ls) { f(x.first, x.second); }
    }
    //! Requests a literal from inside a callback.
    void request(AbstractClauseCreator &cc, var_t v, int k) {
        auto &vs = solver.var_state(v);
        val_t value = static_cast<val_t>(lo + k);
        lit_t l = solver.get_literal(cc, vs, value);
        if (which & Chain) {
            vf_check(l == solver.get_literal(cc, vs, value), "the same value gives the same literal");
            if (k < 0) { vf_check(l == -TRUE_LIT, "false below the domain"); }
            if (k >= size) { vf_check(l == TRUE_LIT, "true above the domain"); }
            if (l != TRUE_LIT && l != -TRUE_LIT) {
                vf_check(w.watched(l) && w.watched(-l), "order literals are watched");
                vf_reach("literal");
            }
            m.learn();
            vf_check((m.eval(l) == (m.sigma[v] <= value)) | !m.holds(), "the literal means x <= v");
        }
    }
    void check(World &w) override {
        SolverClient::check(w);
        if (w.conflict || w.has_pending) { return; }
        if (lits > 0 && pick("request", 0, 1) != 0) {
            --lits;
            Clingo::PropagateControl ctl{to_c_<clingo_propagate_control_t>(w)};
            ControlClauseCreator cc{ctl, stats};
            var_t v = n() > 1 ? static_cast<var_t>(pick("rvar", 0, static_cast<int64_t>(n()) - 1)) : 0;
            // as for reasons and splitting, values within the current bounds
            auto &vs = solver.var_state(v);
            int k = static_cast<int>(pick("rval", 0, size - 1));
            vf_assume((lo + k >= vs.lower_bound()) & (lo + k < vs.upper_bound()));
            request(cc, v, k);
        }
    }
    void undo(World &w, std::vector<lit_t> const &c) override {
        SolverClient::undo(w, c);
    }
    void fixpoint() {
        for (var_t v = 0; v < n(); ++v) {
            auto &vs = solver.var_state(v);
            if (which & Chain) {
                // the true literals form an upper part of the chain
                bool seen = false;
                val_t prev = 0;
                bool first = true;
                each(v, [&](lit_t l, val_t value) {
                    if (!first) { vf_check(prev < value, "values are ordered"); }
                    first = false;
                    prev = value;
                    bool t = w.is_true(l);
                    vf_check(!(seen && !t), "x<=v implies x<=v' for larger v'");
                    seen = seen || t;
                });
                if (seen) { vf_reach("chain"); }
            }
            if (which & Bounds) {
                int64_t lb = lo, ub = lo + size;
                each(v, [&](lit_t l, val_t value) {
                    if (w.is_true(l)) { ub = vf_ite(value < ub, value, ub); }
                    if (w.is_false(l)) { lb = vf_ite(value + 1 > lb, value + 1, lb); }
                });
                // facts may have been integrated and their literals dropped
                vf_check((vs.lower_bound() >= lb) & (vs.upper_bound() <= ub), "bounds include what the order literals say");
                vf_check(((vs.lower_bound() == lb) | (vs.lower_bound() == vs.min_bound())) & ((vs.upper_bound() == ub) | (vs.upper_bound() == vs.max_bound())), "bounds are given by order literals or facts");
                vf_check(vs.lower_bound() <= vs.upper_bound(), "bounds are consistent");
                // facts are justified
                vf_check((m.sigma[v] >= vs.min_bound()) & (m.sigma[v] <= vs.max_bound()) | !m.holds(), "bounds on the top level hold in every solution");
                // a decision or implied literal outside of the bounds cannot be undecided
                each(v, [&](lit_t l, val_t value) {
                    if (value >= vs.upper_bound()) { vf_check(w.is_true(l), "values above the bounds are decided"); }
                    if (value < vs.lower_bound()) { vf_check(w.is_false(l), "values below the bounds are decided"); }
                });
                vf_reach("bounds");
            }
        }
    }
};
} // namespace

//! Exhaustive search over order literals, domain statements and single-variable constraints.
VF_ENTRY(search) {
    int nv = vf_param("vars", 1), size = vf_param("size", 3), nd = vf_param("doms", 0), ns = vf_param("simples", 0), lits = vf_param("lits", 0);
    int which = vf_param("which", 31), fork = vf_param("fork", 1), bits = vf_param("cfg", 4), symlo = vf_param("symlo", 0), lo0 = vf_param("lo", -1), co = vf_param("co", 2);
    int sums = vf_param("sums", 0), pre = vf_param("pre", 0), share = vf_param("share", 0), lim = vf_param("lim", 1000);
    if (which & (Exact | Undo)) { vf_need("accepted"); }
    if ((which & Chain) && lits > 0) { vf_need("literal"); }
    SolverConfig cfg;
    cfg.propagate_chain = (bits & 4) != 0;
    cfg.split_all = (bits & 8) != 0;
    cfg.sign_value = (bits & 16) != 0 ? 1 : 0;
    if (bits & 32) { cfg.heuristic = Heuristic::MaxChain; }
    SolverStatistics stats;
    Solver solver{cfg, stats};
    World w;
    Orders c{solver, stats, w};
    c.which = which;
    c.lits = lits;
    c.lo = symlo ? vf_sym("lo", -lim, lim) : lo0;
    c.size = size;
    w.client = &c;
    w.check_mode = 2;
    auto &m = c.m;
    m.attach(w, solver);
    for (int i = 0; i < nv; ++i) {
        static_cast<void>(solver.add_variable(static_cast<val_t>(c.lo), static_cast<val_t>(c.lo + size)));
        int64_t x = vf_sym(nm("x", i).c_str(), -lim - size, lim + size);
        vf_assume((x >= c.lo) & (x <= c.lo + size));
        m.sigma.push_back(x);
    }
    std::vector<UniqueConstraint> cons;
    struct Sum { lit_t lit; bool truth; CoVarVec elems; int64_t rhs; };
    std::vector<Sum> suml;
    std::vector<std::pair<lit_t, bool>> lits_;
    auto lit = [&](char const *name) -> std::pair<lit_t, bool> {
        int k = static_cast<int>(pick(name, 0, share ? 5 : 3));
        if (k == 0) { return {TRUE_LIT, true}; }
        if (k == 4 && !lits_.empty()) { return {-lits_[0].first, !lits_[0].second}; } // the complement of an earlier one
        if (k == 5 && !lits_.empty()) { return lits_[0]; }
        if (k >= 4) { vf_skip(); }
        if (k == 3) { // a literal that is false
            lit_t l = w.new_lit();
            w.assign(-l);
            m.given(l, false);
            return {l, false};
        }
        lit_t l = w.new_lit();
        bool t = vf_bool((std::string{name} + "t").c_str());
        m.given(l, t);
        if (k == 2) { l = -l; t = !t; }
        lits_.emplace_back(l, t);
        return {l, t};
    };
    m.problem = [&]() {
        bool r = true;
        for (auto &d : c.doms) { r = r & (!d.truth | d.in(m.sigma[d.var])); }
        for (auto &s : c.simples) {
            bool h = s.holds(m.sigma[s.var]);
            r = r & (s.strict ? h == s.truth : (!s.truth | h));
        }
        for (auto &s : suml) {
            int64_t x = 0;
            for (auto [a, v] : s.elems) { x += static_cast<int64_t>(a) * m.sigma[v]; }
            r = r & (!s.truth | (x <= s.rhs));
        }
        return r;
    };
    if (which & (Exact | Chain | Undo)) {
        w.on_clause = [&](lit_t const *cl, size_t n, int) {
            m.judge(cl, n, "clause follows from the problem");
            vf_reach("clause");
        };
        c.after = [&]() { m.learn(); };
    }
    // initialisation
    {
        Clingo::PropagateInit init{to_c_<clingo_propagate_init_t>(w)};
        Statistics st;
        InitClauseCreator cc{init, st};
        bool ok = true;
        for (int i = 0; i < pre; ++i) { // literals requested during initialisation
            auto pv = nv > 1 ? static_cast<var_t>(pick("pvar", 0, nv - 1)) : 0;
            c.request(cc, pv, static_cast<int>(pick("pval", -1, size)));
        }
        for (int i = 0; ok && i < nd; ++i) {
            auto [l, t] = lit(nm("dlit", i).c_str());
            Domain d{l, t, nv > 1 ? static_cast<var_t>(pick("dvar", 0, nv - 1)) : 0, {}};
            // an ascending union of intervals with gaps, possibly exceeding the variable's domain
            IntervalSet<val_t> set;
            int parts = static_cast<int>(pick("parts", vf_param("minparts", 1), 2));
            for (int p = 0; p < parts; ++p) {
                int64_t a = vf_sym("da", -lim - 2 * size, lim + 2 * size), b = vf_sym("db", -lim - 2 * size, lim + 2 * size);
                vf_assume((a >= c.lo - 1) & (a < b) & (b <= c.lo + size + 2));
                set.add(static_cast<val_t>(a), static_cast<val_t>(b));
                d.ranges.emplace_back(a, b);
            }
            c.doms.push_back(d);
            if (parts == 0) { vf_reach("empty domain"); }
            ok = w.is_false(d.lit) || solver.add_dom(cc, d.lit, d.var, set);
            if (which & (Exact | Chain)) { m.learn(); }
        }
        for (int i = 0; ok && i < ns; ++i) {
            auto [l, t] = lit(nm("slit", i).c_str());
            Simple s{l, t, pick("strict", 0, 1) != 0, pick("sco", -co, co), nv > 1 ? static_cast<var_t>(pick("svar", 0, nv - 1)) : 0, 0};
            if (s.co == 0) { vf_skip(); }
            s.rhs = vf_sym("srhs", -(lim + 2 * size) * co, (lim + 2 * size) * co);
            // right-hand sides around the domain
            vf_assume((s.rhs >= s.co * c.lo - co * (size + 1)) & (s.rhs <= s.co * c.lo + co * (size + 1)));
            c.simples.push_back(s);
            ok = solver.add_simple(cc, s.lit, static_cast<val_t>(s.co), s.var, static_cast<val_t>(s.rhs), s.strict);
            if (which & (Exact | Chain)) { m.learn(); }
        }
        for (int i = 0; ok && i < sums; ++i) {
            auto [l, t] = lit(nm("clit", i).c_str());
            Sum s{l, t, {}, 0};
            for (int v = 0; v < nv; ++v) {
                int a = static_cast<int>(pick("cco", 0, 1)) * 2 - 1;
                s.elems.emplace_back(a, v);
            }
            s.rhs = vf_sym("crhs", -3 * size * nv, 3 * size * nv);
            suml.push_back(s);
            cons.push_back(SumConstraint::create(s.lit, static_cast<val_t>(s.rhs), s.elems, false));
            static_cast<void>(solver.add_constraint(*cons.back()));
        }
        ok = ok && solver.simplify(cc, true);
        if (which & (Exact | Chain)) { m.learn(); }
        for (auto &x : cons) { cc.add_watch(x->literal()); }
        ok = cc.commit() && ok;
        if (ok && (which & Exact)) { // facts are applied at once
            for (auto &d : c.doms) {
                if (w.is_true(d.lit)) {
                    auto &vs = solver.var_state(d.var);
                    vf_check(d.in(vs.lower_bound()) & d.in(vs.upper_bound()), "domain facts are applied to the bounds");
                }
            }
            for (auto &s : c.simples) {
                auto &vs = solver.var_state(s.var);
                if (w.is_true(s.lit)) { vf_check(s.co > 0 ? s.holds(vs.upper_bound()) : s.holds(vs.lower_bound()), "facts are applied to the bounds"); }
                else if (s.strict && w.is_false(s.lit)) { vf_check(s.co > 0 ? !s.holds(vs.lower_bound()) : !s.holds(vs.upper_bound()), "negated facts are applied to the bounds"); }
                else if (s.strict && w.value(s.lit) == 0) {
                    vf_check(!s.holds(s.co > 0 ? vs.upper_bound() : vs.lower_bound()), "a condition that always holds makes the literal true");
                    vf_check(s.holds(s.co > 0 ? vs.lower_bound() : vs.upper_bound()), "a condition that never holds makes the literal false");
                }
            }
        }
        if (!ok) {
            vf_check(w.conflict, "initialisation fails only with a conflict");
            if (which & (Exact | Chain)) { vf_check(!m.holds(), "a problem with a solution is not refuted"); }
            vf_reach("conflict");
            return;
        }
    }
    w.on_fixpoint = [&]() {
        c.fixpoint();
        if (which & Undo) {
            // the tracked sums agree with the bounds: nothing that follows from the current bounds is missing
            for (auto &s : suml) {
                if (w.is_false(s.lit)) { continue; }
                int64_t slack = s.rhs;
                for (auto [a, v] : s.elems) {
                    auto &vs = solver.var_state(v);
                    slack -= a > 0 ? vs.lower_bound() : -static_cast<int64_t>(vs.upper_bound());
                }
                vf_check(slack >= 0, "a violated constraint is never left undetected");
                if (w.is_true(s.lit)) {
                    for (auto [a, v] : s.elems) { vf_check(static_cast<int64_t>(solver.var_state(v).upper_bound()) - solver.var_state(v).lower_bound() <= slack, "implied bounds are propagated"); }
                }
            }
        }
    };
    int forks = 0;
    size_t models = 0;
    auto decide = [&](lit_t fallback) -> lit_t {
        Clingo::Assignment ass{to_c_<clingo_assignment_t>(w)};
        lit_t l = solver.decide(ass, fallback);
        if (which & Decide) {
            vf_check(w.has(l) && w.value(l) == 0, "the decision is an unassigned literal");
            if (cfg.heuristic == Heuristic::None) { vf_check(l == fallback, "without heuristic the fallback is returned"); }
            else if (l != fallback) {
                bool order = false, olit = false;
                for (var_t v = 0; v < m.sigma.size(); ++v) {
                    bool has = false, is = false;
                    c.each(v, [&](lit_t x, val_t value) {
                        has = has || x == l || x == -l;
                        is = is || x == fallback || x == -fallback;
                        if (x == l || x == -l) { vf_check((value >= solver.var_state(v).lower_bound()) & (value < solver.var_state(v).upper_bound()), "the decision splits the domain of the variable"); }
                    });
                    order = order || (has && is);
                    olit = olit || is;
                }
                vf_check(order, "a different decision is an order literal of the same variable");
                vf_reach("chain decision");
            }
        }
        return w.has(l) && w.value(l) == 0 ? l : fallback;
    };
    std::vector<std::vector<std::pair<val_t, val_t>>> stack;
    auto bounds = [&]() {
        std::vector<std::pair<val_t, val_t>> r;
        for (var_t v = 0; v < m.sigma.size(); ++v) { r.emplace_back(solver.var_state(v).lower_bound(), solver.var_state(v).upper_bound()); }
        return r;
    };
    auto choose = [&]() -> lit_t {
        std::vector<lit_t> free;
        for (size_t i = 1; i < w.val.size(); ++i) {
            if (w.val[i] == 0) { free.push_back(static_cast<lit_t>(i)); }
        }
        lit_t f = -free[0];
        if (forks < fork) {
            ++forks;
            int k = static_cast<int>(pick("decision", 0, static_cast<int64_t>(free.size()) * 2 - 1));
            f = (k & 1) != 0 ? -free[k / 2] : free[k / 2];
        }
        f = decide(f);
        if (which & Undo) {
            stack.resize(w.dl());
            stack.push_back(bounds());
        }
        return f;
    };
    // after backtracking the bounds are those seen before the decision (up to facts learned meanwhile)
    if (which & Undo) {
        w.on_undo = [&](uint32_t level) {
            if (level >= stack.size()) { return; }
            auto b = bounds();
            for (var_t v = 0; v < m.sigma.size(); ++v) {
                vf_check((b[v].first == stack[level][v].first) & (b[v].second == stack[level][v].second), "undoing a level restores the bounds");
                vf_reach("undone");
            }
        };
    }
    w.search(choose, [&]() {
        ++models;
        if (which & (Exact | Undo | Bounds)) {
            for (auto &d : c.doms) {
                if (w.is_true(d.lit)) { vf_check(d.in(solver.get_value(d.var)), "accepted assignment is in the domain"); }
            }
            for (auto &s : c.simples) {
                bool h = s.holds(solver.get_value(s.var)), t = w.is_true(s.lit);
                vf_check(s.strict ? h == t : (!t | h), "accepted assignment satisfies the constraint");
            }
            for (auto &s : suml) {
                int64_t x = 0;
                for (auto [a, v] : s.elems) { x += static_cast<int64_t>(a) * solver.get_value(v); }
                if (w.is_true(s.lit)) { vf_check(x <= s.rhs, "accepted assignment satisfies the sum"); }
            }
            vf_reach("accepted");
        }
        for (var_t v = 0; v < m.sigma.size(); ++v) { vf_check(solver.var_state(v).is_assigned(), "accepted assignment is total"); }
        return true;
    });
    if (which & (Exact | Chain)) { vf_check(!m.holds(), "the search found every solution"); }
    vf_observe("models", static_cast<int64_t>(models));
    vf_observe("clauses", static_cast<int64_t>(w.n_clauses));
}
