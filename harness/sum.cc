// P01/P02: propagation of linear constraints, driven through the Solver class.
#include "world.hh"
#include <clingcon/constraints.hh>
#include <clingcon/solver.hh>

namespace {

std::string nm(char const *p, int i) { return p + std::to_string(i); }

struct Lin {
    lit_t clit;
    CoVarVec elems;
    val_t rhs;
    int64_t eval(std::vector<int64_t> const &s) const {
        int64_t r = 0;
        for (auto [co, var] : elems) { r += static_cast<int64_t>(co) * s[var]; }
        return r;
    }
};

struct Setup {
    int n, lo, hi;
    int which; // 1: soundness of clauses, 2: completeness
    SolverConfig cfg;
    SolverStatistics stats;
    World w;
    Meaning m;
    std::vector<Lin> lins;
    std::vector<UniqueConstraint> cons;
    std::vector<std::pair<lit_t, bool>> given;
};

void config(SolverConfig &cfg, int bits) {
    cfg.refine_reasons = (bits & 1) != 0;
    cfg.refine_introduce = (bits & 2) != 0;
    cfg.propagate_chain = (bits & 4) != 0;
    cfg.split_all = (bits & 8) != 0;
    cfg.sign_value = (bits & 16) != 0 ? 1 : 0;
}

} // namespace

//! Depth first search over a problem of linear constraints with symbolic coefficients and right-hand sides.
VF_ENTRY(search) {
    int nv = vf_param("vars", 2), nc = vf_param("cons", 1), dom = vf_param("dom", 2), co = vf_param("co", 2), rhs = vf_param("rhs", 6);
    int which = vf_param("which", 3), fork = vf_param("fork", 2), bits = vf_param("cfg", 7), fact = vf_param("fact", 0), lo0 = vf_param("lo", 0);
    int conc = vf_param("conc", 0);
    if (which & 1) { vf_need("clause"); }
    if (which & 2) { vf_need("accepted"); }
    vf_need("conflict");
    SolverConfig cfg;
    config(cfg, bits);
    SolverStatistics stats;
    Solver solver{cfg, stats};
    SolverClient client{solver, stats};
    World w;
    w.client = &client;
    w.check_mode = 2;
    Meaning m;
    m.attach(w, solver);
    for (int i = 0; i < nv; ++i) {
        int64_t l = lo0, u = lo0 + dom;
        if (vf_param("single", 0) & (1 << i)) { l = u = pick(nm("v", i).c_str(), lo0, lo0 + dom); } // fixed beforehand
        solver.add_variable(static_cast<val_t>(l), static_cast<val_t>(u));
        m.sigma.push_back(vf_sym(nm("x", i).c_str(), l, u));
    }
    std::vector<Lin> lins;
    std::vector<bool> truths;
    std::vector<UniqueConstraint> cons;
    for (int c = 0; c < nc; ++c) {
        Lin l;
        bool t = true;
        if ((fact & (1 << c)) != 0) {
            l.clit = TRUE_LIT;
        } else {
            l.clit = w.new_lit();
            t = vf_bool(nm("b", c).c_str());
            m.given(l.clit, t);
        }
        truths.push_back(t);
        for (int i = 0; i < nv; ++i) {
            auto name = "a" + std::to_string(c) + "_" + std::to_string(i);
            int64_t a = conc ? pick(name.c_str(), -co, co) : vf_sym(name.c_str(), -co, co);
            vf_assume(a != 0);
            l.elems.emplace_back(static_cast<val_t>(a), i);
        }
        l.rhs = static_cast<val_t>(vf_sym(nm("r", c).c_str(), -rhs, rhs));
        lins.push_back(l);
        cons.push_back(SumConstraint::create(l.clit, l.rhs, l.elems, vf_param("sort", 0) != 0));
    }
    m.problem = [&]() {
        bool r = true;
        for (size_t i = 0; i < lins.size(); ++i) { r = r & (!truths[i] | (lins[i].eval(m.sigma) <= lins[i].rhs)); }
        return r;
    };
    if (which & 1) {
        w.on_clause = [&](lit_t const *c, size_t n, int) {
            m.judge(c, n, "clause follows from the constraints");
            vf_reach("clause");
        };
        client.after = [&]() { m.learn(); };
    }
    // initialisation as done by the propagator
    {
        Clingo::PropagateInit init{to_c_<clingo_propagate_init_t>(w)};
        Statistics st;
        InitClauseCreator cc{init, st};
        for (auto &c : cons) { static_cast<void>(solver.add_constraint(*c)); }
        bool ok = solver.simplify(cc, true);
        if (vf_param("ask", 0)) { // order literals of all values exist already
            for (var_t v = 0; ok && v < static_cast<var_t>(nv); ++v) {
                for (val_t x = solver.var_state(v).lower_bound(); x < solver.var_state(v).upper_bound(); ++x) { static_cast<void>(solver.get_literal(cc, solver.var_state(v), x)); }
            }
        }
        if (which & 1) { m.learn(); }
        for (auto &c : cons) { cc.add_watch(c->literal()); }
        ok = cc.commit() && ok;
        if (!ok) {
            vf_check(w.conflict, "initial simplification fails only with a conflict");
            if (which & 1) { vf_check(!m.holds(), "a problem with a solution is not refuted"); }
            vf_reach("conflict");
            return;
        }
    }
    auto fixpoint = [&]() {
        for (auto const &l : lins) {
            if (w.is_false(l.clit)) { continue; }
            int64_t slack = l.rhs;
            for (auto [a, v] : l.elems) {
                auto &vs = solver.var_state(v);
                slack -= a > 0 ? static_cast<int64_t>(a) * vs.lower_bound() : static_cast<int64_t>(a) * vs.upper_bound();
            }
            vf_check(slack >= 0, "a violated constraint is never left undetected");
            if (w.is_true(l.clit)) {
                for (auto [a, v] : l.elems) {
                    auto &vs = solver.var_state(v);
                    int64_t width = vs.upper_bound() - vs.lower_bound();
                    vf_check((a > 0 ? a : -static_cast<int64_t>(a)) * width <= slack, "all implied bounds are propagated");
                }
            }
        }
    };
    if (which & 2) { w.on_fixpoint = fixpoint; }
    int forks = 0;
    int models = 0;
    auto choose = [&]() -> lit_t {
        std::vector<lit_t> free;
        for (size_t i = 1; i < w.val.size(); ++i) {
            if (w.val[i] == 0) { free.push_back(static_cast<lit_t>(i)); }
        }
        if (forks < fork) {
            ++forks;
            int k = static_cast<int>(pick("decision", 0, static_cast<int64_t>(free.size()) * 2 - 1));
            return (k & 1) != 0 ? -free[k / 2] : free[k / 2];
        }
        switch (vf_param("pos", 0)) { // the remaining decisions
            case 1: return free.back();
            case 2: return -free.back();
            case 3: return free[0];
            default: return -free[0];
        }
    };
    w.search(choose, [&]() {
        ++models;
        if (which & 2) {
            for (auto &l : lins) {
                if (!w.is_true(l.clit)) { continue; }
                int64_t sum = 0;
                for (auto [a, v] : l.elems) { sum += static_cast<int64_t>(a) * solver.get_value(v); }
                vf_check(sum <= l.rhs, "accepted assignment satisfies the constraint");
            }
            for (int i = 0; i < nv; ++i) { vf_check(solver.var_state(i).is_assigned(), "accepted assignment is total"); }
            vf_reach("accepted");
        }
        return true;
    });
    if (which & 1) { vf_check(!m.holds(), "every solution is found"); }
    vf_reach("conflict");
    vf_observe("models", models);
    vf_observe("clauses", static_cast<int64_t>(w.n_clauses));
}
