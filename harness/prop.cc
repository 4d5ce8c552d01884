// The complete propagator (theory atoms in, models out) against the reference solver and an independent reading of the atoms.
#include "capi.hh"

namespace {

//! The number of constraints a propagator holds (-1 if there is no way to tell).
template <class P> auto count_constraints(P const &p, int) -> decltype(static_cast<int64_t>(p.constraints_.size())) { return static_cast<int64_t>(p.constraints_.size()); }
template <class P> int64_t count_constraints(P const &, long) { return -1; }

std::string nm(char const *p, int i) { return p + std::to_string(i); }
int par(char const *n, int step, int def) { return static_cast<int>(vf_param((std::string(n) + (step == 0 ? "" : std::to_string(step + 1))).c_str(), def)); }

struct Run {
    Propagator &p;
    World w;
    PropClient direct{p};
    Callbacks through;
    clingcon_theory_t *theory = nullptr; // set if the C interface is used
    std::vector<std::string> names;       // variables of the program
    std::vector<int64_t> sigma;           // an arbitrary assignment of them
    std::vector<lit_t> lits;              // free literals of the program
    std::vector<bool> is_external;
    std::vector<bool> truth;              // an arbitrary assignment of them
    std::vector<std::pair<Theory *, TAtom>> atoms; // all theory atoms so far
    std::vector<Theory *> theories;
    int lo, hi, fork;
    bool not_blocked = true;
    bool has_best = false, shows = false;
    std::vector<std::string> shown;
    int64_t best = 0;
    std::vector<std::vector<int64_t>> models;
    size_t steps = 0;

    explicit Run(Propagator &p, int lo, int hi, int fork) : p{p}, lo{lo}, hi{hi}, fork{fork} {
        w.client = &direct;
        w.on_literal = [this](lit_t) { ++(w.initializing ? init_literals : search_literals[w.thread]); };
        w.on_clause = [this](lit_t const *, size_t, int) { ++(w.initializing ? init_clauses : search_clauses); };
    }
    size_t init_literals = 0, init_clauses = 0, search_clauses = 0; // of the current step
    std::map<uint32_t, size_t> search_literals;
    Stats sums; // of all steps
    size_t known_variables = 0;
    bool init_conflict = false;

    void var(std::string n) {
        for (auto const &m : names) {
            if (m == n) { return; }
        }
        sigma.push_back(vf_sym(("s_" + n).c_str(), lo, hi));
        names.push_back(std::move(n));
    }
    lit_t lit() {
        lit_t l = w.new_lit();
        lits.push_back(l);
        truth.push_back(vf_bool(nm("t", static_cast<int>(lits.size())).c_str()));
        return l;
    }
    int64_t index(std::string const &n) const {
        for (size_t i = 0; i < names.size(); ++i) {
            if (names[i] == n) { return static_cast<int64_t>(i); }
        }
        vf_fail("unexpected variable name");
    }
    bool truth_of(lit_t l) const {
        if (l == TRUE_LIT || l == -TRUE_LIT) { return l > 0; }
        for (size_t i = 0; i < lits.size(); ++i) {
            if (lits[i] == l || lits[i] == -l) { return truth[i] == (l > 0); }
        }
        vf_fail("unexpected literal");
    }
    //! Is the arbitrary assignment a solution?
    bool problem() {
        bool ok = true;
        for (auto &[t, a] : atoms) {
            Oracle o{*t, false, [&](std::string const &n) { return sigma[index(n)]; }};
            ok = ok & o.holds(a, truth_of(a.lit));
        }
        return ok;
    }
    int64_t cost(std::vector<int64_t> const &v, bool &has) {
        int64_t r = 0;
        has = false;
        for (auto *t : theories) {
            Oracle o{*t, false, [&](std::string const &n) { return v[index(n)]; }};
            has = has || o.has_cost();
            r += o.cost();
        }
        return r;
    }

    //! Runs the initialisation with the given atoms; false if it reported an error.
    bool init(Theory &t, int threads = 1) {
        theory_ = &t;
        w.threads = threads;
        if (theory != nullptr) {
            if (!callbacks.init(to_c_<clingo_propagate_init_t>(w), registered)) { return false; }
        } else {
            try {
                Clingo::PropagateInit init{to_c_<clingo_propagate_init_t>(w)};
                p.init(init);
            } catch (std::exception const &) { return false; }
        }
        theories.push_back(&t);
        for (auto const &a : t.atoms) { atoms.emplace_back(&t, a); }
        return true;
    }
    //! Values the propagator reports, in the order of names.
    std::vector<int64_t> values(uint32_t thread) {
        std::vector<int64_t> v(names.size(), 0);
        std::vector<bool> seen(names.size(), false);
        if (theory != nullptr) {
            size_t it = 0;
            clingcon_assignment_begin(theory, thread, &it);
            while (clingcon_assignment_next(theory, thread, &it)) {
                if (!clingcon_assignment_has_value(theory, thread, it)) { vf_fail("the iteration stops at values"); }
                auto sym = clingcon_get_symbol(theory, it);
                auto i = static_cast<size_t>(index(sym_str(sym)));
                vf_check(!seen[i], "each variable is listed once");
                seen[i] = true;
                clingcon_value_t val;
                clingcon_assignment_get_value(theory, thread, it, &val);
                vf_check(val.type == clingcon_value_type_int, "values are integers");
                v[i] = val.int_number;
                size_t at = 0;
                vf_check(clingcon_lookup_symbol(theory, sym, &at) && at == it, "lookup of a variable by its symbol");
                vf_check(p.get_value(static_cast<var_t>(it - 1), thread) == val.int_number, "the value of the variable");
            }
            size_t at = 0;
            vf_check(!clingcon_lookup_symbol(theory, add_sym({clingo_symbol_type_function, 0, "unknown", {}, true}), &at), "only variables are found");
            for (size_t i = 0; i < names.size(); ++i) {
                if (!seen[i]) { vf_fail("a variable is missing from the assignment"); }
            }
            return v;
        }
        for (auto const &[var, sym] : p.var_map()) {
            auto i = static_cast<size_t>(index(sym_str(sym.to_c())));
            vf_check(!seen[i], "each variable is listed once");
            seen[i] = true;
            v[i] = p.get_value(var, thread);
            auto idx = p.get_index(sym);
            vf_check(idx.has_value() && *idx == var, "lookup of a variable by its symbol");
        }
        for (size_t i = 0; i < names.size(); ++i) {
            if (!seen[i]) { vf_fail("a variable of the program is unknown to the propagator"); }
        }
        return v;
    }
    void accept() {
        vf_reach("model");
        Clingo::Model model{to_c_<clingo_model_t>(w)};
        w.extended.clear();
        auto v = values(w.thread);
        bool has_cost = false;
        int64_t c = cost(v, has_cost);
        if (theory != nullptr) {
            if (!clingcon_on_model(theory, to_c_<clingo_model_t>(w))) { vf_fail("a callback reports an error"); }
        } else { p.on_model(model); }
        // reported values
        std::vector<int> reported(names.size(), 0);
        bool cost_seen = false;
        for (auto s : w.extended) {
            auto const &d = symtab()[s];
            if (d.name == "__csp_cost" && d.args.size() == 1) {
                vf_check(!cost_seen && symtab()[d.args[0]].type == clingo_symbol_type_string && symtab()[d.args[0]].name == std::to_string(c), "the reported cost is the objective value");
                cost_seen = true;
                continue;
            }
            if (d.name != "__csp" || d.args.size() != 2) { vf_fail("unexpected symbol in a model"); }
            auto i = index(sym_str(d.args[0]));
            ++reported[i];
            vf_check(symtab()[d.args[1]].type == clingo_symbol_type_number && symtab()[d.args[1]].number == v[i], "the reported value is the value of the variable");
        }
        for (size_t i = 0; i < names.size(); ++i) {
            int want = 1;
            if (shows) {
                want = 0;
                for (auto const &s : shown) { want = want || s == names[i] ? 1 : 0; }
            }
            vf_check(reported[i] == want, "each shown variable is reported exactly once");
        }
        if (!w.minimize.empty()) { cost_seen = true; }
        vf_check(cost_seen == has_cost || !w.minimize.empty(), "an objective value is reported exactly if there is an objective");
        // correctness
        for (auto &[t, a] : atoms) {
            Oracle o{*t, false, [&](std::string const &n) { return v[index(n)]; }};
            vf_check(o.holds(a, w.is_true(a.lit)), "reported values satisfy the constraints");
        }
        for (size_t i = 0; i < names.size(); ++i) { vf_check((lo <= v[i]) & (v[i] <= hi), "reported values lie within the domain"); }
        std::vector<int64_t> key;
        for (auto l : lits) { key.push_back(w.is_true(l) ? 1 : 0); }
        for (auto x : v) { key.push_back(x); }
        if (w.step == 0 || true) {
            for (auto const &k : models) {
                bool same = true;
                for (size_t i = 0; i < k.size(); ++i) { same = same && k[i] == key[i]; }
                vf_check(!same, "each solution is found only once");
            }
        }
        models.push_back(key);
        if (has_cost && w.minimize.empty()) {
            vf_check(!has_best | (c < best), "a further model improves the objective");
            best = c;
            has_best = true;
        }
        if (has_cost && !w.minimize.empty()) {
            // the objective was handed to the solver: weights must rank the models like the objective
            int64_t sum = 0;
            for (auto const &m : w.minimize) { sum += w.is_true(m.lit) ? m.weight : 0; }
            if (!has_best) { best = c - sum; }
            vf_check(c - sum == best, "the objective handed to the solver differs from the objective by a constant only");
            vf_check(best == 0, "the objective handed to the solver has the value of the objective");
            has_best = true;
        }
        bool differs = false;
        for (size_t i = 0; i < lits.size(); ++i) { differs = differs | (truth[i] != w.is_true(lits[i])); }
        for (size_t i = 0; i < names.size(); ++i) { differs = differs | (sigma[i] != v[i]); }
        not_blocked = not_blocked & differs;
    }
    //! Exhaustive search of one solving step.
    void solve(bool with_step) {
        has_best = false;
        not_blocked = true;
        models.clear();
        int decisions = 0;
        w.begin_step(with_step);
        init_conflict = w.conflict;
        bool heu = vf_param("heu", 0) != 0;
        auto choose = [&]() {
            int pos = vf_param("pos", 0);
            lit_t l = (pos & 1) != 0 ? w.last_free() : w.first_free();
            if ((pos & 2) != 0) { l = -l; }
            if (decisions < fork) {
                ++decisions;
                auto which = vf_bool(nm("last", decisions).c_str());
                if (which) { l = w.last_free(); }
                if (vf_bool(nm("sign", decisions).c_str())) { l = -l; }
            }
            if (heu) {
                auto d = w.client->decide(w, l);
                vf_check(d == l || w.value(d) == 0, "the heuristic proposes a free literal");
                l = d;
            }
            return l;
        };
        w.search(choose, [&]() { accept(); return true; });
        if (!models.empty()) { vf_reach("solutions"); }
        bool has_cost = false;
        int64_t c = cost(sigma, has_cost);
        if (has_cost && w.minimize.empty()) {
            vf_check(!(problem() & (!has_best | (c < best))), "the last model found is optimal");
        } else {
            vf_check(!(problem() & not_blocked), "every solution is found");
        }
        vf_observe("models", static_cast<int64_t>(models.size()));
    }
    //! Reports statistics as after a solving step.
    void statistics() {
        if (theory == nullptr || vf_param("stats", 0) == 0) { return; }
        vf_reach("statistics");
        if (!clingcon_on_statistics(theory, stat_map(0), stat_map(1))) { vf_fail("statistics report an error"); }
        Stats step, accu;
        collect(step, "", static_cast<uint64_t>(stat_roots[0]));
        collect(accu, "", static_cast<uint64_t>(stat_roots[1]));
        auto get = [&](Stats const &s, std::string const &k) {
            auto it = s.find(".Clingcon." + k);
            if (it == s.end()) { vf_fail("a statistic is missing"); }
            return static_cast<int64_t>(it->second);
        };
        // counts of this step
        vf_check(get(step, "Problem.Variables") == static_cast<int64_t>(names.size() - known_variables), "the number of variables added");
        known_variables = names.size();
        if (!init_conflict) {
            vf_check(get(step, "Problem.Literals") == static_cast<int64_t>(init_literals), "the number of literals added");
            vf_check(get(step, "Problem.Clauses") == static_cast<int64_t>(init_clauses), "the number of clauses added");
            auto held = count_constraints(p, 0);
            if (held >= 0) {
                vf_check(get(accu, "Problem.Constraints") == held, "the number of constraints");
                vf_check(get(step, "Problem.Constraints") == held - known_constraints, "the number of constraints added");
                known_constraints = held;
            }
            vf_check(get(step, "Translate.Weight constraints") == static_cast<int64_t>(w.wcs.size() - known_wcs), "the number of weight constraints added");
            known_wcs = w.wcs.size();
        }
        vf_check(get(step, "Translate.Literals") <= get(step, "Problem.Literals") && get(step, "Translate.Clauses") <= get(step, "Problem.Clauses"), "translation adds a part of all literals and clauses");
        for (auto const &[t, n] : search_literals) {
            vf_check(get(step, "Thread." + std::to_string(t) + ".Literals introduced") == static_cast<int64_t>(n), "the number of literals introduced in the search");
        }
        if (has_best && w.minimize.empty() && !models.empty()) { vf_check(get(step, "Cost") == best, "the cost is the objective value of the last model"); }
        // accumulated counts
        for (auto const &[k, v] : step) {
            if (k == ".Clingcon.Cost") { continue; }
            bool time = k.find("ime") != std::string::npos; // (times are rounded)
            if (!time && k.find("Constraints") == std::string::npos) { vf_check(v >= 0 && v < 1e9, "a count is not negative"); }
            sums[k] += v;
            vf_check(accu.find(k) != accu.end(), "the same statistics are reported for steps and accumulated");
            auto diff = accu.at(k) - sums[k];
            vf_check(time ? -1e-3 < diff && diff < 1e-3 : diff == 0, "accumulated statistics are sums of those of the steps");
        }
        vf_check(accu.size() == sums.size() + (accu.find(".Clingcon.Cost") != accu.end() ? 1 : 0), "the same statistics are reported for steps and accumulated");
        init_literals = init_clauses = search_clauses = 0;
        search_literals.clear();
        // (the solver starts a new step with fresh step statistics)
        stattab()[static_cast<size_t>(stat_roots[0])].subs.clear();
    }
    size_t known_wcs = 0;
    int64_t known_constraints = 0;
};

std::vector<clingo_id_t> product_co; // coefficients of products

char const *OPS[] = {"<=", ">=", "=", "!=", "<", ">"};

//! How the literal of an atom is chosen.
lit_t atom_lit(Run &r, int mode, std::string const &what) {
    if (mode == 3) { mode = pick(("lit_" + what).c_str(), 0, 2); }
    if (mode == 0) { return r.lit(); }
    if (mode == 4) { return -r.lit(); }
    if (mode == 5 && !r.lits.empty()) { return r.lits.back(); }
    if (mode == 6 && !r.lits.empty()) { return -r.lits.back(); }
    return mode == 1 ? TRUE_LIT : mode == 2 ? -TRUE_LIT : r.lit();
}

int ops_pick(int op, std::string const &what) { return op >= 0 ? op : static_cast<int>(pick(("op_" + what).c_str(), 0, 5)); }

void add_atoms(Run &r, Theory &t, int step) {
    int co = par("co", step, 1), rhs = par("rhs", step, 3), op = par("op", step, 0), vars = par("vars", step, 2), body = par("body", step, 1), mode = par("lit", step, 0);
    int off = par("off", step, 0), lo_v = par("from", step, 0), conc = par("conc", step, 1);
    auto name = [&](int i) { return std::string(1, static_cast<char>('u' + lo_v + i)); };
    auto tag = [&](char const *n) { return std::string(n) + (body == 2 ? (pick(("body" + std::to_string(step) + n).c_str(), 0, 1) ? "_b" : "_h") : body ? "_b" : "_h"); };
    auto num = [&](std::string n, int64_t l, int64_t h) { return static_cast<int>(pick((n + "." + std::to_string(step)).c_str(), l, h)); };
    auto soft = [&](std::string n, int64_t l, int64_t h) { return conc ? num(n, l, h) : static_cast<int>(vf_sym((n + "." + std::to_string(step)).c_str(), l, h)); };
    auto variable = [&](int i) { r.var(name(i)); return t.sym(name(i)); };
    // (the order in which the arguments of a call are evaluated differs between compilers)
    auto mulv = [&](std::string n, int v) {
        int c = num(std::move(n), -co, co);
        auto x = variable(v);
        return t.mul(c, x);
    };
    auto mul2 = [&](std::string n, int v, int u) {
        int c = num(std::move(n), -co, co);
        auto x = variable(v), y = variable(u);
        return t.mul(c, t.fun("*", {x, y}));
    };
    auto add = [&](char const *n, std::vector<clingo_id_t> const &es, std::string const &id) {
        auto g = tag(n);
        auto l = atom_lit(r, mode, id);
        auto const *o = OPS[ops_pick(op, id)];
        auto b = t.num(soft(id + "rhs", -rhs, rhs));
        t.add(g, es, l, o, b);
    };
    auto guarded = [&](char const *n, std::vector<clingo_id_t> const &es, std::string const &id, clingo_id_t b) {
        auto g = tag(n);
        auto l = atom_lit(r, mode, id);
        t.add(g, es, l, OPS[ops_pick(op, id)], b);
    };
    for (int k = 0, n = par("sums", step, 0); k < n; ++k) {
        std::string id = "sum" + std::to_string(k);
        std::vector<clingo_id_t> es;
        for (int i = 0; i < vars; ++i) { es.push_back(mulv(id + "co" + std::to_string(i), i)); }
        if (off > 0) { es.push_back(t.num(num(id + "off", -off, off))); }
        int right = par("right", step, 0); // variables on the right-hand side
        clingo_id_t b = t.num(soft(id + "rhs", -rhs, rhs));
        for (int i = 0; i < right; ++i) { b = t.fun(i % 2 ? "-" : "+", {b, mulv(id + "rco" + std::to_string(i), i)}); }
        guarded("__sum", es, id, b);
    }
    for (int k = 0, n = par("diffs", step, 0); k < n; ++k) {
        std::string id = "diff" + std::to_string(k);
        int form = num(id + "form", 0, 3);
        clingo_id_t a = form == 2 ? t.num(num(id + "c", -1, 1)) : variable(0), b = form == 1 ? t.num(num(id + "c", -1, 1)) : variable(form == 3 ? 0 : 1);
        add("__diff", {t.fun("-", {a, b})}, id);
    }
    for (int k = 0, n = par("nsums", step, 0); k < n; ++k) {
        std::string id = "nsum" + std::to_string(k);
        int form = par("nform", step, 0); // 0: a*x*y, 1: + b*z, 2: a*x*x, 3: + b*x, 4: + second product
        std::vector<clingo_id_t> es{mul2(id + "a", 0, form == 2 ? 0 : 1)};
        if (form == 1) { es.push_back(mulv(id + "b", 2)); }
        if (form == 3) { es.push_back(mulv(id + "b", 0)); }
        if (form == 4) { es.push_back(t.fun("*", {variable(1), mulv(id + "b", 0)})); }
        if (form == 6) { es.insert(es.begin(), mulv(id + "b", 2)); }
        if (form == 5) { es.push_back(t.fun("*", {variable(1), mulv(id + "b", 2)})); }
        if (off > 0) { es.push_back(t.num(num(id + "off", -off, off))); }
        add("__nsum", es, id);
    }
    if (par("nsums", step, 0) > 0 && vf_param("reject", 0)) {
        product_co.clear();
        for (clingo_id_t i = 1; i < t.terms.size(); ++i) {
            auto const &x = t.terms[i];
            if (x.name == "*" && t.terms[x.args[0]].type == clingo_theory_term_type_number) { product_co.push_back(x.args[0]); }
        }
    }
    for (int k = 0, n = par("dists", step, 0); k < n; ++k) {
        std::string id = "dist" + std::to_string(k);
        int form = par("dform", step, 0);
        std::vector<clingo_id_t> es;
        for (int i = 0; i < vars; ++i) {
            auto e = variable(i < par("dvars", step, vars) ? i : 0);
            if (form >= 1) { e = t.mul(num(id + "co" + std::to_string(i), -co, co), e); }
            if (off > 0) { e = t.fun("+", {e, t.num(num(id + "off" + std::to_string(i), -off, off))}); }
            if (form == 2 && i == 0 && vars > 1) { e = t.fun("+", {e, variable(1)}); }
            es.push_back(e);
        }
        if (form == 3) { es.push_back(t.num(num(id + "const", -1, 1))); }
        t.add("distinct", es, atom_lit(r, mode, id));
    }
    for (int k = 0, n = par("disjs", step, 0); k < n; ++k) {
        std::string id = "disj" + std::to_string(k);
        std::vector<clingo_id_t> es;
        for (int i = 0; i < vars; ++i) {
            int d = num(id + "d" + std::to_string(i), par("dmin", step, 0), par("dmax", step, 2)), v = par("djsame", step, 0) && i == 1 ? 0 : i;
            // a task without duration does not introduce its variable
            es.push_back(t.fun("@", {d > 0 ? variable(v) : t.sym(name(v)), t.num(d)}));
        }
        t.add("disjoint", es, atom_lit(r, mode, id));
    }
    for (int k = 0, n = par("doms", step, 0); k < n; ++k) {
        std::string id = "dom" + std::to_string(k);
        int a = num(id + "a", r.lo - 1, r.hi + 1), b = num(id + "b", r.lo - 1, r.hi + 1);
        std::vector<clingo_id_t> es{t.fun("..", {t.num(a), t.num(b)})};
        if (par("domval", step, 0)) { es.push_back(t.num(num(id + "c", r.lo - 1, r.hi + 1))); }
        auto dl = atom_lit(r, mode, id);
        t.add("dom", es, dl, "=", variable(par("domvar", step, 0)));
    }
    for (int k = 0, n = par("mins", step, 0); k < n; ++k) {
        std::string id = "min" + std::to_string(k);
        std::vector<clingo_id_t> es;
        for (int i = 0; i < vars; ++i) { es.push_back(mulv(id + "co" + std::to_string(i), i)); }
        if (off > 0) { es.push_back(t.num(num(id + "off", -off, off))); }
        t.add(par("max", step, 0) ? "maximize" : "minimize", es, TRUE_LIT);
    }
    for (int k = 0, n = par("shows", step, 0) == 2 ? 1 : 0; k < n; ++k) {
        // &show { u; f/1; f(2); u/0; f/2 } chosen among these, u, f(1) and f(2) (and w) being variables
        std::vector<clingo_id_t> es;
        r.shows = true;
        auto f = [&](int i) { r.var("f(" + std::to_string(i) + ",)"); return t.fun("f", {t.num(i)}); };
        auto sig = [&](std::string const &n, int a) { return t.fun("/", {t.sym(n), t.num(a)}); };
        auto show = [&](std::string const &n) { r.shown.push_back(n); };
        auto on = [&](char const *n) { return pick(("show" + std::to_string(step) + n).c_str(), 0, 1) != 0; };
        if (on("u")) { es.push_back(variable(0)); show(name(0)); }
        if (on("f1")) { es.push_back(sig("f", 1)); show("f(1,)"); show("f(2,)"); }
        if (on("f(2)")) { es.push_back(f(2)); show("f(2,)"); }
        if (on("u0")) { es.push_back(sig("u", 0)); show("u"); }
        if (on("f2")) { es.push_back(sig("f", 2)); }
        t.add("show", es, TRUE_LIT);
    }
    for (int k = 0, n = par("fun", step, 0); k < n; ++k) {
        // a constraint between u and f(1), f(2)
        auto f = [&](int i) { r.var("f(" + std::to_string(i) + ",)"); return t.fun("f", {t.num(i)}); };
        auto u = variable(0);
        auto f1 = f(1), f2 = f(2);
        t.add("__sum_h", {u, f1, t.mul(-1, f2)}, TRUE_LIT, "<=", t.num(soft("fun", -rhs, rhs)));
    }
    for (int k = 0, n = par("shows", step, 0) == 1 ? 1 : 0; k < n; ++k) {
        // &show { u; f/1 } chosen from the variables of the program
        std::vector<clingo_id_t> es;
        r.shows = true;
        for (int i = 0; i < vars; ++i) {
            if (pick(("show" + std::to_string(i)).c_str(), 0, 1)) { es.push_back(variable(i)); r.shown.push_back(name(i)); }
        }
        t.add("show", es, TRUE_LIT);
    }
}

void configure(Config &c) {
    int bits = vf_param("cfg", 7);
    c.default_solver_config.refine_reasons = (bits & 1) != 0;
    c.default_solver_config.refine_introduce = (bits & 2) != 0;
    c.default_solver_config.propagate_chain = (bits & 4) != 0;
    c.default_solver_config.split_all = (bits & 8) != 0;
    c.default_solver_config.sign_value = (bits & 16) != 0 ? 1 : 0;
    c.default_solver_config.heuristic = (bits & 32) != 0 ? Heuristic::MaxChain : Heuristic::None;
    c.min_int = static_cast<val_t>(vf_param("lo", 0));
    c.max_int = static_cast<val_t>(vf_param("hi", 2));
    c.clause_limit = static_cast<uint32_t>(vf_param("clauses", 0));
    c.clause_limit_total = static_cast<uint64_t>(vf_param("total", 1000000));
    c.weight_constraint_ratio = static_cast<double>(vf_param("wcr", 0)) / 10;
    c.literals_only = vf_param("lonly", 0) != 0;
    c.distinct_limit = static_cast<uint32_t>(vf_param("dlimit", 0));
    c.translate_minimize = static_cast<uint32_t>(vf_param("tmin", 0));
    c.add_order_clauses = vf_param("order", 0) != 0;
    c.sort_constraints = vf_param("sort", 1) != 0;
    c.check_state = vf_param("state", 1) != 0;
    c.check_solution = vf_param("solution", 1) != 0;
}

} // namespace

//! A program of theory atoms, solved exhaustively in one or more steps.
VF_ENTRY(prog) {
    int steps = vf_param("steps", 1), threads = vf_param("threads", 1);
    int lo = vf_param("lo", 0), hi = vf_param("hi", 2);
    vf_need("model");
    Propagator own;
    clingcon_theory_t *theory = nullptr;
    if (vf_param("capi", 0) != 0) {
        if (!clingcon_create(&theory)) { vf_fail("the theory cannot be created"); }
        // (the configuration is found through the registered object; the heuristic is chosen when registering)
        if ((vf_param("cfg", 7) & 32) != 0 && !clingcon_configure(theory, "order-heuristic", "max-chain")) { vf_fail("the heuristic is available"); }
        if (!clingcon_register(theory, nullptr)) { vf_fail("the theory cannot be registered"); }
    }
    Propagator &p = theory != nullptr ? *registered : own;
    configure(p.config());
    Run r{p, lo, hi, static_cast<int>(vf_param("fork", 0))};
    r.theory = theory;
    if (theory != nullptr) { r.w.client = &r.through; }
    r.w.forget = vf_param("forget", 0) != 0;
    std::vector<std::unique_ptr<Theory>> ts;
    for (int s = 0; s < steps; ++s) {
        ts.push_back(std::make_unique<Theory>());
        add_atoms(r, *ts.back(), s);
        bool accepted = r.init(*ts.back(), threads);
        if (vf_param("reject", 0)) { // two different products cannot be represented
            bool two = true;
            for (size_t i = 0; i < 2; ++i) { two = two && ts.back()->terms[product_co[i]].number != 0; }
            vf_check(accepted != two, "a program is rejected exactly if it cannot be represented");
            if (!accepted) { vf_reach("rejected"); return; }
        }
        if (!accepted) { vf_fail("the program is rejected"); }
        if (threads == 1) {
            r.solve(steps > 1);
            r.w.end_step();
            r.statistics();
        } else {
            World base = r.w;
            World first;
            for (int k = 0; k < threads; ++k) {
                int thr = s % 2 == 0 ? k : threads - 1 - k;
                r.w = base;
                r.w.thread = static_cast<uint32_t>(thr);
                if (p.has_minimize()) { p.update_minimize(std::numeric_limits<sum_t>::max()); }
                r.solve(steps > 1);
                r.w.end_step();
                if (k == 0) { first = r.w; }
            }
            r.w = first;
            r.w.thread = 0;
            r.statistics();
        }
        if (r.w.unsat) { break; }
    }
}

// ---------------------------------------------------------------------------- configuration of the solver
static std::string models_value, other_value = "keep";
extern "C" {
bool clingo_control_configuration(clingo_control_t *, clingo_configuration_t **c) { *c = nullptr; return true; }
bool clingo_configuration_root(clingo_configuration_t const *, clingo_id_t *k) { *k = 1; return true; }
bool clingo_configuration_map_at(clingo_configuration_t const *, clingo_id_t key, char const *name, clingo_id_t *sub) {
    std::string n{name};
    *sub = key == 1 && n == "solve" ? 2 : key == 2 && n == "models" ? 3 : 4;
    return true;
}
static std::string &cfg_value(clingo_id_t key) { return key == 3 ? models_value : other_value; }
bool clingo_configuration_value_get_size(clingo_configuration_t const *, clingo_id_t key, size_t *n) { *n = cfg_value(key).size() + 1; return true; }
bool clingo_configuration_value_get(clingo_configuration_t const *, clingo_id_t key, char *v, size_t n) {
    auto const &s = cfg_value(key);
    for (size_t i = 0; i < n && i <= s.size(); ++i) { v[i] = i < s.size() ? s[i] : '\0'; }
    return true;
}
bool clingo_configuration_value_set(clingo_configuration_t *, clingo_id_t key, char const *v) { cfg_value(key) = v; return true; }
bool clingo_control_theory_atoms(clingo_control_t const *, clingo_theory_atoms_t const **a) { *a = reinterpret_cast<clingo_theory_atoms_t const *>(theory_); return true; }
}

//! Unless the user asks for a number of models, all models are enumerated exactly if there is an objective to optimise.
VF_ENTRY(prepare) {
    vf_need("optimise");
    clingcon_theory_t *theory = nullptr;
    if (!clingcon_create(&theory)) { vf_fail("the theory cannot be created"); }
    static char const *const VALUES[] = {"-1", "0", "1", "7"};
    auto v = pick("models", 0, 3);
    models_value = VALUES[v];
    Theory t;
    theory_ = &t;
    bool has = false;
    for (int i = 0, n = static_cast<int>(vf_param("n", 2)); i < n; ++i) {
        static char const *const NAMES[] = {"minimize", "maximize", "__sum_h", "show", "__minimize_b"};
        auto which = pick(("atom" + std::to_string(i)).c_str(), 0, 4);
        auto elems = pick(("elems" + std::to_string(i)).c_str(), 0, 1);
        std::vector<clingo_id_t> es;
        if (elems != 0) { es.push_back(t.sym("x")); }
        t.add(NAMES[which], es, TRUE_LIT);
        has = has || (which < 2 && elems != 0);
    }
    if (!clingcon_prepare(theory, nullptr)) { vf_fail("preparation reports an error"); }
    if (has && v == 0) { vf_reach("optimise"); }
    vf_check(models_value == (has && v == 0 ? "0" : VALUES[v]), "the number of models is changed exactly if there is an objective and the user left the default");
    vf_check(other_value == "keep", "other settings stay");
}
