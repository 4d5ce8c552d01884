// P03/P04/P05: propagation of distinct, disjoint and nonlinear constraints, driven through the Solver class.
#include "world.hh"
#include <clingcon/constraints.hh>
#include <clingcon/solver.hh>

namespace {

std::string nm(char const *p, int i) { return p + std::to_string(i); }

//! A constraint together with its meaning.
struct Con {
    lit_t clit = TRUE_LIT;
    bool truth = true;
    int kind = 0;
    DistinctConstraint::Elements elems; // distinct
    CoVarVec items;                     // disjoint: (duration, start)
    int64_t a = 0, b = 0, rhs = 0;      // nonlinear a*x*y + b*z <= rhs
    var_t x = 0, y = 0, z = INVALID_VAR;

    template <class Mul> bool eval(std::vector<int64_t> const &s, Mul mul) const {
        bool r = true;
        if (kind == 0) {
            std::vector<int64_t> v;
            for (auto const &[cv, fixed] : elems) {
                int64_t t = fixed;
                for (auto [co, var] : cv) { t += static_cast<int64_t>(co) * s[var]; }
                v.push_back(t);
            }
            for (size_t i = 0; i < v.size(); ++i) {
                for (size_t j = i + 1; j < v.size(); ++j) { r = r & (v[i] != v[j]); }
            }
        } else if (kind == 1) {
            for (size_t i = 0; i < items.size(); ++i) {
                for (size_t j = i + 1; j < items.size(); ++j) {
                    int64_t si = s[items[i].second], sj = s[items[j].second], di = items[i].first, dj = items[j].first;
                    r = r & ((si + di <= sj) | (sj + dj <= si));
                }
            }
        } else {
            int64_t t = a * mul(s[x], s[y]);
            if (b != 0) { t += b * s[z]; }
            r = t <= rhs;
        }
        return r;
    }
};

UniqueConstraint create(Con const &c, bool sort) {
    if (c.kind == 0) { return DistinctConstraint::create(c.clit, c.elems, sort); }
    if (c.kind == 1) { return DisjointConstraint::create(c.clit, c.items); }
    return UniqueConstraint{new NonlinearConstraint(c.clit, static_cast<val_t>(c.a), c.x, c.y, static_cast<val_t>(c.b), c.z, static_cast<val_t>(c.rhs))};
}

//! Picks a constraint of the given kind over variables 0..nv-1.
//! distinct forms: 0 plain variables with offsets, 1 signed coefficients, 2 first element is a sum of two variables, 3 with a constant element
void make(Con &c, int kind, int nv) {
    int co = vf_param("co", 1), off = vf_param("off", 1), form = vf_param("form", 0);
    c.kind = kind;
    if (kind == 0) {
        int i = 0;
        if (form == 2) {
            CoVarVec cv;
            cv.emplace_back(1, 0);
            val_t s = static_cast<val_t>(pick("co1", -co, co));
            vf_assume(s != 0);
            cv.emplace_back(s, 1);
            c.elems.emplace_back(cv, static_cast<val_t>(pick("o0", 0, off)));
            i = 2;
        }
        for (; i < nv; ++i) {
            val_t s = 1;
            if (form == 1) {
                s = static_cast<val_t>(pick(nm("co", i).c_str(), -co, co));
                vf_assume(s != 0);
            }
            int64_t o = i == 0 ? 0 : vf_sym(nm("o", i).c_str(), -off, off);
            if (vf_param("conc", 0) != 0) { o = vf_concrete(o); }
            c.elems.emplace_back(CoVarVec{{s, static_cast<var_t>(i)}}, static_cast<val_t>(o));
        }
        if (form == 3) { c.elems.emplace_back(CoVarVec{}, static_cast<val_t>(pick("const", -1, 3))); }
    } else if (kind == 1) {
        for (int i = 0; i < nv; ++i) {
            int64_t d = vf_sym(nm("d", i).c_str(), vf_param("dmin", 1), vf_param("dmax", 2));
            if (vf_param("conc", 0) != 0) { d = vf_concrete(d); }
            c.items.emplace_back(static_cast<val_t>(d), static_cast<var_t>(i));
        }
    } else {
        c.a = pick("a", -co, co);
        vf_assume(c.a != 0);
        c.x = 0;
        c.y = vf_param("square", 0) ? 0 : 1;
        if (vf_param("lin", 1) != 0) {
            c.b = pick("b", -co, co);
            if (c.b != 0) { c.z = static_cast<var_t>(vf_param("zvar", nv - 1)); }
        }
        c.rhs = vf_sym("rhs", -vf_param("rhs", 4), vf_param("rhs", 4));
        if (vf_param("conc", 0) != 0) { c.rhs = vf_concrete(c.rhs); }
    }
}

} // namespace

VF_ENTRY(search) {
    int kind = vf_param("kind", 0), nv = vf_param("vars", 2), dom = vf_param("dom", 2), lo0 = vf_param("lo", 0), which = vf_param("which", 3), fork = vf_param("fork", 1);
    int bits = vf_param("cfg", 4), early = vf_param("early", 0);
    if (which & 1) { vf_need("clause"); }
    if (which & 2) { vf_need("accepted"); }
    vf_need("end");
    SolverConfig cfg;
    cfg.propagate_chain = (bits & 4) != 0;
    cfg.split_all = (bits & 8) != 0;
    cfg.sign_value = (bits & 16) != 0 ? 1 : 0;
    SolverStatistics stats;
    Solver solver{cfg, stats};
    SolverClient client{solver, stats};
    World w;
    w.client = &client;
    w.check_mode = 2;
    w.forget = vf_param("forget", 0) != 0;
    Meaning m;
    m.attach(w, solver);
    for (int i = 0; i < nv; ++i) {
        int64_t l = lo0, u = lo0 + dom;
        if (vf_param("single", 0) & (1 << i)) { l = u = pick(nm("v", i).c_str(), lo0, lo0 + dom); } // fixed beforehand
        solver.add_variable(static_cast<val_t>(l), static_cast<val_t>(u));
        m.sigma.push_back(vf_sym(nm("x", i).c_str(), l, u));
    }
    Con c;
    if (!vf_param("fact", 0)) {
        c.clit = w.new_lit();
        c.truth = vf_bool("lit");
        m.given(c.clit, c.truth);
    }
    make(c, kind, nv);
    auto con = create(c, vf_param("sort", 0) != 0);
    auto mul = [&](int64_t x, int64_t y) {
        int64_t r = 0;
        for (int64_t v = lo0; v <= lo0 + dom; ++v) { r = vf_ite(x == v, v * y, r); }
        return r;
    };
    m.problem = [&]() {
        bool r = true;
        for (int i = 0; i < nv; ++i) { r = r & (m.sigma[i] >= lo0) & (m.sigma[i] <= lo0 + dom); }
        return r & (!c.truth | c.eval(m.sigma, mul));
    };
    if (which & 1) {
        w.on_clause = [&](lit_t const *cl, size_t n, int) {
            m.judge(cl, n, "clause follows from the constraint");
            vf_reach("clause");
        };
        client.after = [&]() { m.learn(); };
    }
    {
        Clingo::PropagateInit init{to_c_<clingo_propagate_init_t>(w)};
        Statistics st;
        InitClauseCreator cc{init, st};
        bool ok = true;
        if (early) { ok = solver.simplify(cc, true); }
        static_cast<void>(solver.add_constraint(*con));
        ok = ok && solver.simplify(cc, true);
        if (vf_param("ask", 0)) { // order literals of all values exist already
            for (var_t v = 0; ok && v < static_cast<var_t>(nv); ++v) {
                for (val_t x = solver.var_state(v).lower_bound(); x < solver.var_state(v).upper_bound(); ++x) { static_cast<void>(solver.get_literal(cc, solver.var_state(v), x)); }
            }
        }
        if (which & 1) { m.learn(); }
        cc.add_watch(con->literal());
        ok = cc.commit() && ok;
        if (!ok) {
            vf_check(w.conflict, "initial simplification fails only with a conflict");
            if (which & 1) { vf_check(!m.holds(), "a problem with a solution is not refuted"); }
            vf_reach("end");
            return;
        }
    }
    int forks = 0, models = 0;
    auto choose = [&]() -> lit_t {
        std::vector<lit_t> free;
        for (size_t i = 1; i < w.val.size(); ++i) {
            if (w.val[i] == 0) { free.push_back(static_cast<lit_t>(i)); }
        }
        if (forks < fork) {
            ++forks;
            int k = static_cast<int>(pick("decision", 0, static_cast<int64_t>(free.size()) * 2 - 1));
            return (k & 1) != 0 ? -free[k / 2] : free[k / 2];
        }
        switch (vf_param("pos", 0)) { // the remaining decisions
            case 1: return free.back();
            case 2: return -free.back();
            case 3: return free[0];
            default: return -free[0];
        }
    };
    w.search(choose, [&]() {
        ++models;
        if (which & 2) {
            std::vector<int64_t> val;
            for (int i = 0; i < nv; ++i) {
                vf_check(solver.var_state(i).is_assigned(), "accepted assignment is total");
                val.push_back(solver.get_value(i));
            }
            if (w.is_true(c.clit)) { vf_check(c.eval(val, [](int64_t x, int64_t y) { return x * y; }), "accepted assignment satisfies the constraint"); }
            vf_reach("accepted");
        }
        return true;
    });
    if (which & 1) { vf_check(!m.holds(), "every solution is found"); }
    vf_reach("end");
    vf_observe("models", models);
    vf_observe("clauses", static_cast<int64_t>(w.n_clauses));
}

//! The final check throws if and only if the assignment violates the constraint.
VF_ENTRY(full) {
    int kind = vf_param("kind", 0), nv = vf_param("vars", 2);
    int64_t lim = vf_param("lim", 20);
    vf_need("accept");
    vf_need("reject");
    SolverConfig cfg;
    SolverStatistics stats;
    Solver solver{cfg, stats};
    World w;
    std::vector<int64_t> val;
    for (int i = 0; i < nv; ++i) {
        val.push_back(vf_sym(nm("x", i).c_str(), -lim, lim));
        solver.add_variable(static_cast<val_t>(val[i]), static_cast<val_t>(val[i]));
    }
    Con c;
    make(c, kind, nv);
    auto con = create(c, false);
    auto &cs = solver.add_constraint(*con);
    bool expect = c.eval(val, [](int64_t x, int64_t y) { return x * y; });
    bool threw = false;
    try {
        cs.check_full(solver);
    } catch (std::exception const &) {
        threw = true;
    }
    vf_check(threw == !expect, "the final check rejects exactly the violating assignments");
    if (threw) { vf_reach("reject"); } else { vf_reach("accept"); }
}
