// P08/P09: evaluation of theory terms and simplification of linear expressions over full-width integers, observed through
// the calls parse() makes.
#include "theory.hh"
#include <clingcon/parsing.hh>
#include <limits>

namespace {

std::string nm(char const *p, int i) { return p + std::to_string(i); }
constexpr int64_t I_MIN = std::numeric_limits<int32_t>::min(), I_MAX = std::numeric_limits<int32_t>::max();
constexpr int64_t V_MAX = (int64_t{1} << 30) - 1;

struct LinCon { lit_t lit; CoVarVec elems; val_t rhs; bool strict; };

//! Records what parse() asks for.
struct Recorder final : AbstractConstraintBuilder {
    std::vector<Clingo::Symbol> vars;
    std::vector<LinCon> cons;
    std::vector<std::vector<lit_t>> clauses;
    std::vector<std::pair<val_t, var_t>> minimize;
    std::vector<std::vector<std::pair<CoVarVec, val_t>>> distincts;
    std::vector<CoVarVec> disjoints;
    std::vector<std::pair<var_t, std::vector<std::pair<val_t, val_t>>>> doms;
    struct Nl { lit_t lit; val_t ab; var_t a, b; val_t c; var_t vc; val_t rhs; bool strict; };
    std::vector<Nl> nonlinear;
    std::vector<std::pair<std::string, size_t>> sigs;
    std::vector<var_t> shown;
    int shows = 0;
    lit_t next = 100;
    lit_t truth = 0; // literal known to be true

    lit_t solver_literal(lit_t l) override { return l; }
    lit_t add_literal() override { return next++; }
    bool is_true(lit_t l) override { return l == truth; }
    bool add_clause(Clingo::LiteralSpan c) override { clauses.emplace_back(c.begin(), c.end()); return true; }
    void add_show() override { ++shows; }
    void show_signature(char const *n, size_t a) override { sigs.emplace_back(n, a); }
    void show_variable(var_t v) override { shown.push_back(v); }
    var_t add_variable(Clingo::Symbol s) override {
        for (size_t i = 0; i < vars.size(); ++i) { if (vars[i] == s) { return static_cast<var_t>(i); } }
        vars.push_back(s);
        return static_cast<var_t>(vars.size() - 1);
    }
    bool add_constraint(lit_t l, CoVarVec const &e, val_t r, bool s) override { cons.push_back({l, e, r, s}); return true; }
    bool add_nonlinear(lit_t l, val_t ab, var_t a, var_t b, val_t c, var_t vc, val_t r, bool s) override { nonlinear.push_back({l, ab, a, b, c, vc, r, s}); return true; }
    void add_minimize(val_t co, var_t v) override { minimize.emplace_back(co, v); }
    bool add_distinct(lit_t, std::vector<std::pair<CoVarVec, val_t>> const &e) override { distincts.push_back(e); return true; }
    bool add_disjoint(lit_t, CoVarVec const &e) override { disjoints.push_back(e); return true; }
    bool add_dom(lit_t, var_t v, IntervalSet<val_t> const &e) override {
        doms.emplace_back(v, std::vector<std::pair<val_t, val_t>>{});
        for (auto it = e.begin(); it != e.end(); ++it) { doms.back().second.emplace_back(it->first, it->second); }
        return true;
    }
};

//! Values next to the limits.
int64_t edge(std::string const &name) {
    static int64_t const E[] = {0, 1, -1, 2, -6, V_MAX, -V_MAX, V_MAX - 1, V_MAX + 1, -V_MAX - 1, I_MAX, I_MIN, I_MIN + 1};
    return E[pick(name.c_str(), 0, 12)];
}

//! Runs parse(); false if it raised an error.
bool run(Recorder &r, Theory &t) {
    theory_ = &t;
    World w;
    Clingo::PropagateInit init{to_c_<clingo_propagate_init_t>(w)};
    try {
        vf_check(parse(r, init.theory_atoms()), "parsing reports success");
    } catch (std::exception const &) { return false; }
    return true;
}

// ---- ground arithmetic
struct Val { int64_t v = 0; bool err = false, may = false; }; // must be or may be refused
char const *BIN[] = {"+", "-", "*", "/", "\\", "**"};

Val exact(int op, Val a, Val b) {
    Val r;
    r.err = a.err | b.err;
    r.may = a.may | b.may;
    switch (op) {
        case 0: r.v = a.v + b.v; break;
        case 1: r.v = a.v - b.v; break;
        case 2: r.v = a.v * b.v; break;
        case 3: case 4: {
            if (b.v == 0) { return {0, true}; }
            int64_t q = a.v / b.v;
            r.v = op == 3 ? q : a.v - q * b.v;
            if (q < I_MIN || q > I_MAX) { if (op == 3) { r.err = true; } else { r.may = true; } }
            break;
        }
        case 5: {
            if (a.v == 0) { return {b.v == 0 ? 1 : 0, b.v < 0, true}; } // (powers of zero are refused)
            if (b.v < 0) { r.may = a.v != 1 && a.v != -1; r.v = a.v == 1 ? 1 : a.v == -1 ? (b.v % 2 != 0 ? -1 : 1) : 0; break; }
            r.v = 1;
            for (int64_t i = 0; i < b.v; ++i) {
                r.v *= a.v;
                if (r.v < I_MIN || r.v > I_MAX) { return {0, true}; }
            }
            break;
        }
        default: break;
    }
    r.err = r.err | (r.v < I_MIN) | (r.v > I_MAX);
    return r;
}

struct Ground {
    Theory &t;
    int count = 0;
    int full, small;
    //! A number: leaves listed in full range over all integers.
    Val leaf(clingo_id_t &id) {
        int i = count++;
        int64_t v = ((vf_param("edge", 0) >> i) & 1) != 0 ? edge(nm("n", i)) : ((full >> i) & 1) != 0 ? vf_sym(nm("n", i).c_str(), I_MIN, I_MAX) : pick(nm("n", i).c_str(), vf_param("smin", -small), small);
        id = t.num(static_cast<int>(v));
        return {v, false};
    }
    Val term(int depth, int shape, clingo_id_t &id) {
        if (depth == 0) { return leaf(id); }
        int op = static_cast<int>(vf_param(nm("op", depth).c_str(), -1));
        if (op < 0) { op = static_cast<int>(pick(nm("o", depth).c_str(), 0, vf_param("maxop", 1))); }
        clingo_id_t a = 0, b = 0;
        if (op == 6) { // unary minus
            auto x = term(depth - 1, shape, a);
            id = t.fun("-", {a});
            Val r{-x.v, x.err, x.may};
            r.err = r.err | (r.v > I_MAX);
            return r;
        }
        // shape: which operand is nested
        Val x, y;
        if (shape == 0) { x = term(depth - 1, shape, a); y = term(0, shape, b); } else { x = term(0, shape, a); y = term(depth - 1, shape, b); }
        id = t.fun(BIN[op], {a, b});
        return exact(op, x, y);
    }
};

} // namespace

//! A ground term in each of the places where it is evaluated.
VF_ENTRY(ground) {
    int ctx = vf_param("ctx", 0);
    if (vf_param("noval", 0) == 0) { vf_need("value"); }
    if (vf_param("noerr", 0) == 0) { vf_need("error"); }
    Theory t;
    Ground g{t, 0, static_cast<int>(vf_param("full", 1)), static_cast<int>(vf_param("small", 3))};
    clingo_id_t id = 0;
    Val e = g.term(static_cast<int>(vf_param("depth", 1)), static_cast<int>(vf_param("shape", 0)), id);
    bool err = e.err;
    auto x = t.sym("x");
    auto in = [](int64_t v) { return (-V_MAX <= v) & (v <= V_MAX); };
    switch (ctx) {
        case 0: t.add("dom", {id}, 1, "=", x); err = err | !in(e.v); break;
        case 1: t.add("dom", {t.fun("..", {t.num(-5), id})}, 1, "=", x); break;
        case 2: t.add("__diff_h", {t.fun("-", {x, t.sym("y")})}, 1, "<=", id); err = err | !in(e.v); break;
        case 3: t.add("disjoint", {t.fun("@", {x, id})}, 1); break;
        case 4: t.add("__sum_h", {t.fun("f", {id, x})}, 1, "<=", t.num(0)); break;
        case 5: t.add("show", {t.fun("f", {id})}, 1); break;
        case 6: { // also at the place of a constant of a sum
            clingo_id_t one = t.fun("/", {id, t.num(1)});
            t.add("__sum_h", {x, one}, 1, "<=", t.num(0));
            err = err | !in(e.v);
            break;
        }
        case 7: t.add("dom", {t.fun("..", {id, t.num(7)})}, 1, "=", x); break;
        case 8: t.add("dom", {t.num(1)}, 1, "=", t.fun("f", {id})); break;
        default: { // nested in a tuple
            t.add("minimize", {t.tup({id, t.sym("\"a\"")})}, 1);
        }
    }
    if (ctx == 1) { err = err | (e.v == I_MAX) | ((e.v >= -5) & !in(e.v)); }
    if (ctx == 3) { err = err | ((e.v > 0) & !in(e.v)); }
    if (ctx == 7) { err = err | ((e.v <= 7) & !in(e.v)); }
    Recorder r;
    bool ok = run(r, t);
    vf_check((ok == !err) | (e.may & !ok), "a term is evaluated exactly if its value is representable");
    if (!ok) { vf_reach("error"); return; }
    vf_reach("value");
    auto arg = [&](size_t v) {
        auto const &d = symtab()[r.vars[v].to_c()];
        vf_check(d.args.size() > 0 && symtab()[d.args[0]].type == clingo_symbol_type_number, "the argument of a symbol is a number");
        return static_cast<int64_t>(symtab()[d.args[0]].number);
    };
    char const *same = "the value is exact";
    vf_observe("v", e.v);
    switch (ctx) {
        case 0: case 1: case 7: {
            vf_check(r.doms.size() == 1 && r.vars.size() == 1, "one domain");
            auto const &d = r.doms[0].second;
            int64_t lo = ctx == 1 ? -5 : e.v, hi = ctx == 7 ? 7 : e.v;
            if (lo > hi) { vf_check(d.empty(), same); }
            else { vf_check(d.size() == 1 && d[0].first == lo && d[0].second == hi + 1, same); }
            break;
        }
        case 2: vf_check(r.cons.size() == 1 && r.cons[0].rhs == e.v, same); break;
        case 3: {
            if (e.v > 0) { vf_check(r.disjoints.size() == 1 && r.disjoints[0].size() == 1 && r.disjoints[0][0].first == e.v && r.vars.size() == 1, same); }
            else { vf_check(r.disjoints.size() == 1 && r.disjoints[0].empty(), same); }
            break;
        }
        case 4: case 5: case 8: {
            vf_check(r.vars.size() == 1, "one variable");
            vf_check(arg(0) == e.v, same);
            vf_check(symtab()[r.vars[0].to_c()].name == "f", "the name of a variable");
            if (ctx == 5) { vf_check(r.shows == 1 && r.shown.size() == 1 && r.shown[0] == 0, "a variable is shown"); }
            break;
        }
        case 6: {
            vf_check(r.cons.size() == 1 && r.cons[0].elems.size() == 1, "one constraint");
            vf_check(static_cast<int64_t>(r.cons[0].rhs) == -e.v * r.cons[0].elems[0].first, same);
            break;
        }
        default: {
            vf_check(r.vars.size() == 1 && arg(0) == e.v, same);
            auto const &d = symtab()[r.vars[0].to_c()];
            vf_check(d.name.empty() && d.args.size() == 2 && symtab()[d.args[1]].type == clingo_symbol_type_string && symtab()[d.args[1]].name == "a", "the name of a variable");
        }
    }
}

//! Names of variables: the symbol a term stands for.
VF_ENTRY(names) {
    vf_need("variable");
    Theory t;
    int kind = static_cast<int>(pick("kind", 0, 9));
    clingo_id_t id = 0;
    std::string want;
    bool ok = true;
    switch (kind) {
        case 0: id = t.sym("x"); want = "x"; break;
        case 1: id = t.sym("\"a b\""); want = "\"a b\""; break;
        case 2: id = t.sym("\"a\\n\\\"\\\\b\""); want = "\"a\n\"\\b\""; break;
        case 3: id = t.fun("f", {t.sym("x"), t.fun("-", {t.sym("y")})}); want = "f(x,-y,)"; break;
        case 4: id = t.tup({t.num(1), t.num(2)}); want = "(1,2,)"; break;
        case 5: id = t.fun("f", {t.fun("-", {t.fun("g", {t.num(3)})})}); want = "f(-g(3,),)"; break;
        case 6: id = t.fun("f", {t.fun("-", {t.sym("\"a\"")})}); ok = false; break;
        case 7: id = t.fun("f", {t.fun("-", {t.tup({t.num(1)})})}); ok = false; break;
        case 8: id = t.fun("f", {t.fun("..", {t.num(1), t.num(2)})}); ok = false; break;
        case 9: id = t.fun("f", {t.fun("+", {t.sym("x"), t.num(2)})}); ok = false; break;
        default: break;
    }
    int where = static_cast<int>(pick("where", 0, 3));
    if (where == 0) { t.add("dom", {t.num(1)}, 1, "=", id); }
    if (where == 1) { t.add("show", {id}, 1); }
    if (where == 2) { t.add("__diff_h", {t.fun("-", {id, t.sym("z")})}, 1, "<=", t.num(0)); }
    if (where == 3) { t.add("disjoint", {t.fun("@", {id, t.num(2)})}, 1); }
    Recorder r;
    vf_check(run(r, t) == ok, "malformed names are rejected");
    if (!ok) { return; }
    vf_reach("variable");
    vf_check(!r.vars.empty() && sym_str(r.vars[0].to_c()) == want, "the name of a variable");
}

// ---- linear expressions
namespace {

struct Lin {
    Theory &t;
    std::vector<int64_t> sigma;
    int count = 0;
    int64_t size = 0; // sum of the magnitudes of all products
    int64_t mag = 0;
    bool zero_ok = true;

    int64_t coeff() {
        int i = count++;
        int full = static_cast<int>(vf_param("full", 1));
        if (((vf_param("edge", 0) >> i) & 1) != 0) { return edge(nm("c", i)); }
        return ((full >> i) & 1) != 0 ? vf_sym(nm("c", i).c_str(), vf_param("flo", I_MIN), vf_param("fhi", I_MAX)) : pick(nm("c", i).c_str(), -vf_param("small", 2), vf_param("small", 2));
    }
    int64_t by_sigma(int64_t c, int v) {
        int64_t r = 0, lim = vf_param("lim", 2);
        for (int64_t k = -lim; k <= lim; ++k) { r = vf_ite(sigma[v] == k, c * k, r); }
        return r;
    }
    static int64_t abs(int64_t a) { return vf_ite(a < 0, -a, a); }
    clingo_id_t var(int v) { return t.sym(std::string(1, static_cast<char>('x' + v))); }
    //! An element of the given kind; returns its exact value.
    int64_t elem(int kind, int v, clingo_id_t &id) {
        switch (kind) {
            case 0: { auto c = coeff(); auto a = t.num(static_cast<int>(c)); auto b = var(v); id = t.fun("*", {a, b}); size += abs(c); return by_sigma(c, v); }
            case 1: { auto c = coeff(); auto a = t.num(static_cast<int>(c)); auto b = var(v); id = t.fun("*", {b, a}); size += abs(c); return by_sigma(c, v); }
            case 2: { auto c = coeff(); id = t.num(static_cast<int>(c)); size += abs(c); return c; }
            case 3: { auto c = coeff(); auto a = t.num(static_cast<int>(c)); auto b = var(v); id = t.fun("-", {t.fun("*", {a, b})}); size += abs(c); return -by_sigma(c, v); }
            case 4: { auto c = coeff(); auto a = t.num(static_cast<int>(c)); auto b = var(v); id = t.fun("-", {b, a}); size += abs(c) + 1; return sigma[v] - c; }
            case 5: { // c * (x - d)
                auto c = coeff(); auto d = coeff();
                auto a = t.num(static_cast<int>(c)); auto b = var(v); auto e = t.num(static_cast<int>(d));
                id = t.fun("*", {a, t.fun("-", {b, e})});
                size += abs(c) + abs(c * d) + abs(d);
                return by_sigma(c, v) - c * d;
            }
            case 6: { // (x + y) * c
                auto c = coeff();
                auto a = var(v), b = var((v + 1) % static_cast<int>(sigma.size())); auto e = t.num(static_cast<int>(c));
                id = t.fun("*", {t.fun("+", {a, b}), e});
                size += 2 * abs(c);
                return by_sigma(c, v) + by_sigma(c, (v + 1) % static_cast<int>(sigma.size()));
            }
            case 7: { // -(c - x)
                auto c = coeff(); auto a = t.num(static_cast<int>(c)); auto b = var(v);
                id = t.fun("-", {t.fun("-", {a, b})});
                size += abs(c) + 1;
                return sigma[v] - c;
            }
            default: id = var(v); size += 1; return sigma[v];
        }
    }
    int64_t value(CoVarVec const &es) {
        int64_t s = 0;
        for (auto [co, v] : es) {
            if (v == INVALID_VAR) { s += co; } else { s += by_sigma(co, index(v)); }
        }
        return s;
    }
    Recorder *r = nullptr;
    int index(var_t v) { return sym_str(r->vars[v].to_c())[0] - 'x'; }
};

bool lin_holds(Lin &l, LinCon const &c, bool truth) {
    bool cond = l.value(c.elems) <= c.rhs;
    return c.strict ? truth == cond : !truth | cond;
}

} // namespace

//! Linear expressions keep their exact value in sums, distinct constraints, objectives.
VF_ENTRY(linear) {
    int where = vf_param("where", 0), n = vf_param("n", 2), nv = vf_param("vars", 2);
    vf_need("value");
    if (vf_param("noerr", 0) == 0) { vf_need("error"); }
    Theory t;
    Lin l{t, {}};
    for (int i = 0; i < nv; ++i) { l.sigma.push_back(vf_sym(nm("s", i).c_str(), -vf_param("lim", 2), vf_param("lim", 2))); }
    std::vector<clingo_id_t> es;
    std::vector<int64_t> vals;
    for (int i = 0; i < n; ++i) {
        int kind = static_cast<int>(vf_param(nm("k", i).c_str(), -1));
        if (kind < 0) { kind = static_cast<int>(pick(nm("k", i).c_str(), 0, vf_param("kinds", 8))); }
        int v = static_cast<int>(pick(nm("v", i).c_str(), 0, nv - 1));
        clingo_id_t id = 0;
        vals.push_back(l.elem(kind, v, id));
        es.push_back(id);
    }
    char const *OPS[] = {"<=", ">=", "=", "!=", "<", ">"};
    bool truth = vf_bool("truth"), strict = vf_param("strict", 0) != 0;
    int64_t rhs = 0, rval = 0;
    int op = static_cast<int>(vf_param("op", -1));
    if (where == 0) { // sum
        if (op < 0) { op = static_cast<int>(pick("op", 0, 5)); }
        clingo_id_t g = 0;
        rval = l.elem(static_cast<int>(vf_param("rk", 2)), 0, g);
        rhs = rval;
        t.add(strict ? "__sum_b" : "__sum_h", es, 1, OPS[op], g);
        l.size += 1;
    }
    if (where == 1) { t.add("distinct", es, 1); }
    if (where == 2) { t.add("minimize", es, 1); }
    if (where == 3) { t.add("maximize", es, 1); }
    Recorder r;
    l.r = &r;
    bool ok = run(r, t);
    if (!ok) {
        vf_reach("error");
        vf_check(l.size > V_MAX, "small expressions are accepted");
        return;
    }
    vf_reach("value");
    char const *same = "the value of a linear expression is exact";
    int64_t sum = 0;
    for (auto v : vals) { sum += v; }
    if (where == 0) {
        // the recorded constraints, for some values of the auxiliary literals, say the same as the atom
        bool cond = op == 0 ? sum <= rhs : op == 1 ? sum >= rhs : op == 2 ? sum == rhs : op == 3 ? sum != rhs : op == 4 ? sum < rhs : sum > rhs;
        bool want = strict ? truth == cond : !truth | cond;
        int aux = r.next - 100;
        bool some = false;
        for (int m = 0; m < (1 << aux); ++m) {
            auto val = [&](lit_t x) {
                lit_t a = x < 0 ? -x : x;
                bool b = a == TRUE_LIT && a != 1 ? true : a == 1 ? truth : ((m >> (a - 100)) & 1) != 0;
                return x < 0 ? !b : b;
            };
            bool all = true;
            for (auto const &c : r.cons) { all = all & lin_holds(l, c, val(c.lit)); }
            for (auto const &c : r.clauses) {
                bool some_lit = false;
                for (auto x : c) { some_lit = some_lit | val(x); }
                all = all & some_lit;
            }
            some = some | all;
        }
        vf_check(some == want, same);
        for (auto const &c : r.cons) {
            for (auto const &[co, v] : c.elems) { vf_check((co != 0) & (v != INVALID_VAR), "constraints have neither constants nor zero coefficients"); }
            vf_observe("rhs", c.rhs);
        }
    }
    if (where == 1) {
        vf_check(r.distincts.size() == 1 && r.distincts[0].size() == es.size(), "one distinct constraint");
        for (size_t i = 0; i < es.size(); ++i) {
            auto const &[cv, fixed] = r.distincts[0][i];
            vf_check(l.value(cv) + fixed == vals[i], same);
        }
    }
    if (where >= 2) {
        int64_t s = 0;
        for (auto [co, v] : r.minimize) { s += v == INVALID_VAR ? static_cast<int64_t>(co) : l.by_sigma(co, l.index(v)); }
        vf_check(s == (where == 2 ? sum : -sum), same);
        vf_observe("terms", static_cast<int64_t>(r.minimize.size()));
    }
}

//! simplify() of a list of coefficients and variables.
VF_ENTRY(simp) {
    int n = vf_param("n", 3), nv = vf_param("vars", 2);
    bool drop = pick("drop", 0, 1) != 0;
    vf_need("result");
    vf_need("error");
    CoVarVec es;
    std::vector<int64_t> total(nv, 0);
    std::vector<bool> present(nv, false);
    int64_t constant = 0, size = 0;
    for (int i = 0; i < n; ++i) {
        int64_t c = ((vf_param("full", 1) >> i) & 1) != 0 ? vf_sym(nm("c", i).c_str(), I_MIN, I_MAX) : ((vf_param("edge", 0) >> i) & 1) != 0 ? edge(nm("c", i)) : pick(nm("c", i).c_str(), -1, 1);
        int v = static_cast<int>(pick(nm("v", i).c_str(), 0, nv));
        es.emplace_back(static_cast<val_t>(c), v < nv ? static_cast<var_t>(v) : INVALID_VAR);
        if (v < nv) { total[v] += c; present[v] = true; } else { constant += c; }
        size += Lin::abs(c);
    }
    val_t rhs = 0;
    bool err = false;
    try { rhs = simplify(es, drop); } catch (std::exception const &) { err = true; }
    if (err) {
        vf_reach("error");
        vf_check(size > V_MAX, "lists with small coefficients are accepted");
        return;
    }
    vf_reach("result");
    vf_check(rhs == -constant, "the right-hand side is the negated sum of the constants");
    std::vector<int> seen(nv, 0);
    for (auto [co, v] : es) {
        vf_check(v < static_cast<var_t>(nv) && seen[v]++ == 0, "each variable occurs once");
        vf_check(co == total[v], "the coefficient of a variable is the sum of its coefficients");
        if (drop) { vf_check(co != 0, "zero coefficients are dropped"); }
        vf_observe("co", co);
    }
    for (int i = 0; i < nv; ++i) {
        if (seen[i] == 0) { vf_check(!present[i] | (drop & (total[i] == 0)), "only variables with coefficient zero are dropped"); }
    }
    vf_observe("rhs", rhs);
}
