// The program transformation on syntax trees of arbitrary content: theory atoms keep their meaning.
#include <cstring>
#include "ast.hh"
#include <set>

namespace {

std::string nm(char const *p, int i) { return p + std::to_string(i); }
std::string nm(char const *p, int i, int j) { return p + std::to_string(i) + "_" + std::to_string(j); }

// ---------------------------------------------------------------------------- building syntax trees
int next_loc = 0;
AVal num(int n) { AVal v; v.type = clingo_ast_attribute_type_number; v.num = n; return v; }
AVal sym(clingo_symbol_t s) { AVal v; v.type = clingo_ast_attribute_type_symbol; v.sym = s; return v; }
AVal str(char const *s) { AVal v; v.type = clingo_ast_attribute_type_string; v.str = s; return v; }
AVal ast(Ast *a) { AVal v; v.type = clingo_ast_attribute_type_ast; v.node = a; return v; }
AVal opt(Ast *a) { AVal v; v.type = clingo_ast_attribute_type_optional_ast; v.node = a; return v; }
AVal arr(std::vector<Ast *> a) { AVal v; v.type = clingo_ast_attribute_type_ast_array; v.nodes = std::move(a); return v; }
AVal sarr(std::vector<char const *> a) { AVal v; v.type = clingo_ast_attribute_type_string_array; v.strs = std::move(a); return v; }
AVal loc() { AVal v; v.type = clingo_ast_attribute_type_location; v.loc = ++next_loc; return v; }
Ast *node(int type, std::vector<std::pair<int, AVal>> attrs) {
    auto *a = mk(type);
    a->attrs = std::move(attrs);
    return a;
}
#define A(x) clingo_ast_attribute_##x
#define T(x) clingo_ast_type_##x
Ast *variable(char const *n) { return node(T(variable), {{A(location), loc()}, {A(name), str(n)}}); }
Ast *symterm(clingo_symbol_t s) { return node(T(symbolic_term), {{A(location), loc()}, {A(symbol), sym(s)}}); }
Ast *number(int n) {
    clingo_symbol_t s = 0;
    clingo_symbol_create_number(n, &s);
    return symterm(s);
}
Ast *function(char const *n, std::vector<Ast *> args, int external = 0) { return node(T(function), {{A(location), loc()}, {A(name), str(n)}, {A(arguments), arr(std::move(args))}, {A(external), num(external)}}); }
Ast *tfun(char const *n, std::vector<Ast *> args) { return node(T(theory_function), {{A(location), loc()}, {A(name), str(n)}, {A(arguments), arr(std::move(args))}}); }
Ast *unparsed(Ast *a, Ast *b) {
    auto *x = node(T(theory_unparsed_term_element), {{A(operators), sarr({})}, {A(term), ast(a)}});
    auto *y = node(T(theory_unparsed_term_element), {{A(operators), sarr({"-"})}, {A(term), ast(b)}});
    return node(T(theory_unparsed_term), {{A(location), loc()}, {A(elements), arr({x, y})}});
}
Ast *atom(char const *n, std::vector<Ast *> args) { return node(T(symbolic_atom), {{A(symbol), ast(function(n, std::move(args)))}}); }
Ast *boolean(int v) { return node(T(boolean_constant), {{A(value), num(v)}}); }
Ast *literal(int sign, Ast *a) { return node(T(literal), {{A(location), loc()}, {A(sign), num(sign)}, {A(atom), ast(a)}}); }

char const *const NAMES[] = {"sum", "diff", "nsum", "distinct", "disjoint", "minimize", "maximize", "dom", "show", "other", "__sum_h", "su"};
char const *const RELS[] = {"<=", "=", "!=", "<", ">", ">="};
//! Text with arbitrary characters.
char const *text(std::string const &name, int len) {
    auto *s = new char[static_cast<size_t>(len) + 1];
    for (int i = 0; i < len; ++i) { s[i] = static_cast<char>(vf_sym((name + "_" + std::to_string(i)).c_str(), 'a', 'z')); }
    s[len] = '\0';
    return s;
}
char const *var(std::string const &name, bool anonymous) {
    // (anonymous variables would be unsafe in the tuple)
    static char const *const VARS[] = {"X", "Y", "Z", "_"};
    auto n = vf_param("vnames", 2);
    auto v = pick(name.c_str(), 0, n - (anonymous ? 0 : 1));
    return VARS[v == n ? 3 : v];
}

// ---------------------------------------------------------------------------- comparing syntax trees
bool equal(char const *a, char const *b) {
    size_t i = 0;
    for (; a[i] != '\0' && b[i] != '\0'; ++i) {
        if (a[i] != b[i]) { return false; }
    }
    return a[i] == b[i];
}
bool same(Ast *a, Ast *b) {
    if (a == b) { return true; }
    if (a == nullptr || b == nullptr || a->type != b->type || a->attrs.size() != b->attrs.size()) { return false; }
    for (size_t i = 0; i < a->attrs.size(); ++i) {
        auto &x = a->attrs[i];
        auto &y = b->attrs[i];
        auto &u = x.second;
        auto &v = y.second;
        if (x.first != y.first || u.type != v.type || u.num != v.num || u.loc != v.loc || u.nodes.size() != v.nodes.size() || u.strs.size() != v.strs.size()) { return false; }
        if (u.type == clingo_ast_attribute_type_symbol && !sym_eq(u.sym, v.sym)) { return false; }
        if (u.type == clingo_ast_attribute_type_string && !equal(u.str, v.str)) { return false; }
        if (!same(u.node, v.node)) { return false; }
        for (size_t j = 0; j < u.nodes.size(); ++j) {
            if (!same(u.nodes[j], v.nodes[j])) { return false; }
        }
    }
    return true;
}

// ---------------------------------------------------------------------------- ground instances
using Env = std::map<std::string, int64_t>;
void variables(Ast *a, std::set<std::string> &vars) {
    if (a == nullptr) { return; }
    if (a->type == T(variable)) { vars.emplace(a->at(A(name)).str); }
    for (auto &x : a->attrs) {
        variables(x.second.node, vars);
        for (auto *b : x.second.nodes) { variables(b, vars); }
    }
}
//! Whether two terms have the same value under (symbolic) values for their variables.
bool ground_eq(Ast *a, Env const &ea, Ast *b, Env const &eb) {
    if (a == nullptr || b == nullptr) { return a == b; }
    if (a->type == T(variable) && b->type == T(variable)) { return ea.at(a->at(A(name)).str) == eb.at(b->at(A(name)).str); }
    auto value = [](Ast *t, Env const &e, int64_t &v) {
        if (t->type == T(variable)) { v = e.at(t->at(A(name)).str); return true; }
        if (t->type != T(symbolic_term)) { return false; }
        auto s = t->at(A(symbol)).sym;
        if (symtab()[s].type != clingo_symbol_type_number) { return false; }
        v = symtab()[s].number;
        return true;
    };
    int64_t x = 0, y = 0;
    bool na = value(a, ea, x), nb = value(b, eb, y);
    if (na || nb) { return (na && nb) & (x == y); }
    if (a->type != b->type || a->attrs.size() != b->attrs.size()) { return false; }
    bool eq = true;
    for (size_t i = 0; i < a->attrs.size(); ++i) {
        auto &u = a->attrs[i].second;
        auto &v = b->attrs[i].second;
        if (u.type == clingo_ast_attribute_type_symbol && !sym_eq(u.sym, v.sym)) { return false; }
        if (u.type == clingo_ast_attribute_type_string && !equal(u.str, v.str)) { return false; }
        if (u.num != v.num || u.nodes.size() != v.nodes.size() || u.strs.size() != v.strs.size()) { return false; }
        eq = eq & ground_eq(u.node, ea, v.node, eb);
        for (size_t j = 0; j < u.nodes.size(); ++j) { eq = eq & ground_eq(u.nodes[j], ea, v.nodes[j], eb); }
    }
    return eq;
}

// ---------------------------------------------------------------------------- theory atoms
//! Which theory atom this is: 0 none of the library's, 1 tagged, 2 only elements.
int theory_kind(Ast *a, char const *&name) {
    auto *t = a->at(A(term)).node;
    if (t->type == T(function)) {
        if (t->at(A(external)).num != 0 || !t->at(A(arguments)).nodes.empty()) { return 0; }
        name = t->at(A(name)).str;
    } else if (t->type == T(symbolic_term)) {
        auto const &s = symtab()[t->at(A(symbol)).sym];
        if (s.type != clingo_symbol_type_function || !s.args.empty()) { return 0; }
        name = s.name.c_str();
    } else { return 0; }
    for (auto const *n : {"sum", "nsum", "diff"}) {
        if (equal(name, n)) { return 1; }
    }
    for (auto const *n : {"distinct", "disjoint", "minimize", "maximize"}) {
        if (equal(name, n)) { return 2; }
    }
    return 0;
}
bool is_diff(Ast *a) {
    char const *n = nullptr;
    return theory_kind(a, n) == 1 && equal(n, "diff");
}

void check_elements(std::vector<Ast *> const &from, std::vector<Ast *> const &to) {
    if (from.size() != to.size()) { vf_fail("the number of elements changes"); }
    std::vector<std::set<std::string>> vars(from.size());
    std::vector<Env> envs[2];
    for (size_t i = 0; i < from.size(); ++i) {
        auto &ft = from[i]->at(A(terms)).nodes, &tt = to[i]->at(A(terms)).nodes;
        auto &fc = from[i]->at(A(condition)).nodes, &tc = to[i]->at(A(condition)).nodes;
        vf_check(from[i]->type == to[i]->type && !tt.empty() && same(ft[0], tt[0]), "the first term of a tuple stays");
        bool eq = fc.size() == tc.size();
        for (size_t j = 0; eq && j < fc.size(); ++j) { eq = same(fc[j], tc[j]); }
        vf_check(eq, "conditions stay");
        std::set<std::string> old;
        variables(from[i], old);
        variables(to[i], vars[i]);
        vf_check(vars[i] == old, "the variables of an element stay");
        for (auto k : {0, 1}) {
            Env e;
            for (auto const &v : vars[i]) { e[v] = vf_sym((nm(k == 0 ? "s" : "t", static_cast<int>(i)) + v).c_str(), -3, 3); }
            envs[k].push_back(std::move(e));
        }
        // (anonymous variables are projected out)
        for (size_t j = 1; j < tt.size(); ++j) {
            std::set<std::string> used;
            variables(tt[j], used);
            vf_check(used.find("_") == used.end(), "anonymous variables are not added to tuples");
        }
    }
    for (size_t i = 0; i < from.size(); ++i) {
        for (size_t j = i; j < from.size(); ++j) {
            auto &a = to[i]->at(A(terms)).nodes, &b = to[j]->at(A(terms)).nodes;
            bool tuples = a.size() == b.size();
            if (tuples) {
                for (size_t k = 0; k < a.size(); ++k) { tuples = tuples & ground_eq(a[k], envs[0][i], b[k], envs[1][j]); }
            }
            bool instances = i == j;
            if (i == j) {
                for (auto const &v : vars[i]) {
                    if (v != "_") { instances = instances & (envs[0][i].at(v) == envs[1][j].at(v)); }
                }
            }
            vf_check(tuples == instances, "tuples agree exactly for the same instance of the same element");
        }
    }
}

//! Compare a theory atom with its transformation (in the head after shifting, the relation may differ).
void check_atom(Ast *from, Ast *to, bool body, bool shifted) {
    if (to->type != T(theory_atom)) { vf_fail("a theory atom stays a theory atom"); }
    char const *name = nullptr;
    int kind = theory_kind(from, name);
    auto *ft = from->at(A(term)).node, *tt = to->at(A(term)).node;
    if (kind == 1) {
        std::string want = std::string("__") + name + (body ? "_b" : "_h");
        bool ok = tt->type == ft->type;
        if (ok && tt->type == T(function)) {
            ok = equal(tt->at(A(name)).str, want.c_str()) && tt->at(A(arguments)).nodes.empty() && tt->at(A(external)).num == 0;
        } else if (ok) {
            auto const &s = symtab()[tt->at(A(symbol)).sym];
            ok = s.type == clingo_symbol_type_function && s.args.empty() && equal(s.name.c_str(), want.c_str());
        }
        vf_check(ok, "atoms are marked as in the head or the body");
        vf_reach(body ? "marked in the body" : "marked in the head");
    } else {
        vf_check(same(ft, tt), "the names of other atoms stay");
    }
    auto &fe = from->at(A(elements)).nodes, &te = to->at(A(elements)).nodes;
    if (kind != 0) {
        check_elements(fe, te);
    } else {
        bool eq = fe.size() == te.size();
        for (size_t i = 0; eq && i < fe.size(); ++i) { eq = same(fe[i], te[i]); }
        vf_check(eq, "elements of other atoms stay");
    }
    auto *fg = from->at(A(guard)).node, *tg = to->at(A(guard)).node;
    if (shifted) {
        vf_check(fg != nullptr && tg != nullptr && same(fg->at(A(term)).node, tg->at(A(term)).node), "the right-hand side stays");
        if (is_diff(from)) { vf_check(equal(fg->at(A(operator_name)).str, tg->at(A(operator_name)).str), "the relation of difference constraints stays"); }
    } else {
        vf_check(same(fg, tg), "the guard stays");
    }
}

void check_node(Ast *from, Ast *to, bool body) {
    if (from->type == T(theory_atom)) { return check_atom(from, to, body, false); }
    if (from->type == T(literal)) {
        if (to->type != T(literal)) { vf_fail("a literal stays a literal"); }
        vf_check(from->at(A(sign)).num == to->at(A(sign)).num, "signs stay");
        return check_node(from->at(A(atom)).node, to->at(A(atom)).node, true);
    }
    vf_check(same(from, to), "other parts of a statement stay");
}

int atoms_ = 0;
// ---------------------------------------------------------------------------- meaning of rules
struct World_ {
    std::vector<int64_t> values; // value of the left minus the right side of theory atoms
    std::vector<int64_t> truths; // truth of other atoms
};
int relation(char const *op) {
    for (int i = 0; i < 6; ++i) {
        if (equal(op, RELS[i])) { return i; }
    }
    return -1;
}
bool holds(int rel, int64_t d) {
    switch (rel) {
        case 0: return d <= 0;
        case 1: return d == 0;
        case 2: return d != 0;
        case 3: return d < 0;
        case 4: return d > 0;
        case 5: return d >= 0;
        default: vf_fail("a relation is unknown");
    }
}
//! The truth of a theory atom, identified by the number on its right-hand side.
bool truth(Ast *a, World_ const &w) {
    auto *g = a->at(A(guard)).node;
    if (g == nullptr) { return w.truths[0] != 0; }
    auto id = symtab()[g->at(A(term)).node->at(A(symbol)).sym].number - 100;
    return holds(relation(g->at(A(operator_name)).str), w.values[static_cast<size_t>(id)]);
}
bool lit_truth(Ast *l, World_ const &w, int64_t other) {
    if (l->type != T(literal)) { return other != 0; }
    auto *a = l->at(A(atom)).node;
    bool t = a->type == T(theory_atom) ? truth(a, w) : a->type == T(boolean_constant) ? a->at(A(value)).num != 0 : other != 0;
    return (l->at(A(sign)).num == clingo_ast_sign_negation) != t;
}

bool may_shift(Ast *rule) {
    auto *h = rule->at(A(head)).node;
    if (h->type != T(literal)) { return false; }
    auto *a = h->at(A(atom)).node;
    return a->type == T(boolean_constant) && (a->at(A(value)).num != 0) == (h->at(A(sign)).num == clingo_ast_sign_negation);
}

//! Compare a statement with its transformation.
void check_statement(Ast *from, Ast *to, bool shift) {
    vf_check(from->type == to->type && from->attrs.size() == to->attrs.size(), "the kind of the statement stays");
    auto *fh = from->find(A(head)), *th = to->find(A(head));
    auto &fb = from->at(A(body)).nodes, &tb = to->at(A(body)).nodes;
    bool moved = fh != nullptr && fh->node->type != T(theory_atom) && th->node->type == T(theory_atom);
    for (auto &x : from->attrs) {
        if (x.first == A(head) || x.first == A(body)) { continue; }
        auto &u = x.second, &v = to->at(x.first);
        bool eq = u.loc == v.loc && same(u.node, v.node) && u.nodes.size() == v.nodes.size();
        for (size_t i = 0; eq && i < u.nodes.size(); ++i) { eq = same(u.nodes[i], v.nodes[i]); }
        vf_check(eq, "other attributes of a statement stay");
    }
    if (!moved) {
        vf_check(fb.size() == tb.size(), "the number of body literals stays");
        for (size_t i = 0; i < fb.size(); ++i) { check_node(fb[i], tb[i], false); }
        if (fh != nullptr) { check_node(fh->node, th->node, false); }
        if (shift && fh != nullptr && may_shift(from)) {
            for (auto *l : fb) {
                if (l->type != T(literal) || l->at(A(atom)).node->type != T(theory_atom)) { continue; }
                char const *name = nullptr;
                auto *a = l->at(A(atom)).node;
                if (theory_kind(a, name) != 1 || equal(name, "nsum")) { continue; }
                vf_check(equal(name, "diff") && l->at(A(sign)).num != clingo_ast_sign_negation, "a constraint that can be shifted is shifted");
            }
        }
        return;
    }
    vf_reach("shifted");
    vf_check(shift, "constraints are only shifted if asked for");
    vf_check(fb.size() == tb.size() + 1, "exactly one literal is moved");
    // the literal moved
    auto id = [](Ast *a) {
        auto *g = a->at(A(guard)).node;
        return g == nullptr ? -1 : symtab()[g->at(A(term)).node->at(A(symbol)).sym].number;
    };
    size_t at = fb.size();
    for (size_t i = 0; i < fb.size(); ++i) {
        if (fb[i]->type == T(literal) && fb[i]->at(A(atom)).node->type == T(theory_atom) && id(fb[i]->at(A(atom)).node) >= 0 && id(fb[i]->at(A(atom)).node) == id(th->node)) { at = i; }
    }
    vf_check(at < fb.size(), "the literal in the head comes from the body");
    check_atom(fb[at]->at(A(atom)).node, th->node, false, true);
    for (size_t i = 0, j = 0; i < fb.size(); ++i) {
        if (i != at) { check_node(fb[i], tb[j++], false); }
    }
    // equivalence for all truth values and sums
    World_ w;
    std::vector<int64_t> others;
    for (size_t i = 0; i < std::max(fb.size(), static_cast<size_t>(atoms_)); ++i) {
        w.values.push_back(vf_sym(nm("value", static_cast<int>(i)).c_str(), -2, 2));
        w.truths.push_back(vf_sym(nm("noguard", static_cast<int>(i)).c_str(), 0, 1));
        others.push_back(vf_sym(nm("other", static_cast<int>(i)).c_str(), 0, 1));
    }
    bool body = true, rest = true;
    for (size_t i = 0, j = 0; i < fb.size(); ++i) {
        body = body & lit_truth(fb[i], w, others[i]);
        if (i != at) { rest = rest & lit_truth(tb[j++], w, others[i]); }
    }
    bool head = lit_truth(fh->node, w, 0);
    vf_check((!body | head) == (!rest | truth(th->node, w)), "the shifted constraint has the same meaning");
}

// ---------------------------------------------------------------------------- arbitrary statements
bool bad_tuple = false; // a tuple of the library's atoms without exactly one term
bool no_guard = false;  // an atom of the library without right-hand side

Ast *term(std::string const &p) {
    switch (pick((p + "form").c_str(), 0, vf_param("forms", 2))) {
        case 0: return variable(var(p + "v", false));
        case 1: return number(1);
        case 2: {
            auto *v = variable(var(p + "v", false));
            return unparsed(v, variable(var(p + "w", false)));
        }
        default: return tfun("f", {variable(var(p + "v", false)), number(2)});
    }
}
Ast *element(std::string const &p, bool ours) {
    auto size = vf_param("tsize", -1) >= 0 ? vf_param("tsize", -1) : pick((p + "size").c_str(), 0, 2);
    std::vector<Ast *> terms, cond;
    for (int i = 0; i < size; ++i) { terms.push_back(term(p + std::to_string(i))); }
    if (ours && size != 1) { bad_tuple = true; }
    for (int64_t i = 0, n = pick((p + "conds").c_str(), 0, vf_param("conds", 1)); i < n; ++i) {
        std::vector<Ast *> args;
        auto q = p + "c" + std::to_string(i);
        args.push_back(variable(var(q + "v", true)));
        if (vf_param("nested", 0) != 0) { args.push_back(function("g", {variable(var(q + "w", true))})); }
        cond.push_back(literal(static_cast<int>(vf_sym((q + "sign").c_str(), 0, 2)), atom("p", args)));
    }
    return node(T(theory_atom_element), {{A(terms), arr(terms)}, {A(condition), arr(cond)}});
}
Ast *theory_atom(std::string const &p) {
    int id = atoms_++;
    char const *name = nullptr;
    if (vf_param("anyname", 0) > 0) {
        name = text(p + "name", static_cast<int>(vf_param("anyname", 0)));
    } else {
        name = NAMES[pick((p + "name").c_str(), 0, vf_param("names", 11))];
    }
    auto ext = vf_param("ext", 0) != 0 ? pick((p + "ext").c_str(), 0, 3) : 0;
    Ast *t = nullptr;
    if (ext == 3) {
        clingo_symbol_t s = 0;
        clingo_symbol_create_function(name, nullptr, 0, true, &s);
        t = symterm(s);
    } else {
        t = function(name, ext == 2 ? std::vector<Ast *>{number(1)} : std::vector<Ast *>{}, ext == 1 ? 1 : 0);
    }
    auto *a = node(T(theory_atom), {{A(location), loc()}, {A(term), ast(t)}, {A(elements), arr({})}, {A(guard), opt(nullptr)}});
    char const *unused = nullptr;
    bool ours = theory_kind(a, unused) != 0;
    for (int64_t i = 0, n = vf_param("elems", -1) >= 0 ? vf_param("elems", -1) : pick((p + "elems").c_str(), 0, vf_param("maxelems", 1)); i < n; ++i) { a->at(A(elements)).nodes.push_back(element(p + nm("e", static_cast<int>(i)), ours)); }
    if (vf_param("noguard", 0) == 0 || pick((p + "guard").c_str(), 0, 1) != 0) {
        auto rel = is_diff(a) ? 0 : pick((p + "rel").c_str(), 0, vf_param("rels", 5));
        a->at(A(guard)).node = node(T(theory_guard), {{A(operator_name), str(RELS[rel])}, {A(term), ast(number(100 + id))}});
    } else { no_guard = true; }
    return a;
}
Ast *body_literal(std::string const &p) {
    auto sign = static_cast<int>(vf_sym((p + "sign").c_str(), 0, 2));
    switch (pick((p + "kind").c_str(), 0, vf_param("bkinds", 3))) {
        case 0: return literal(sign, theory_atom(p));
        case 1: return literal(sign, atom("q", {}));
        case 2: return node(T(conditional_literal), {{A(location), loc()}, {A(literal), ast(literal(sign, atom("r", {})))}, {A(condition), arr({literal(0, atom("p", {}))})}});
        default: return literal(sign, boolean(static_cast<int>(vf_sym((p + "value").c_str(), 0, 1))));
    }
}
Ast *statement(std::string const &p, int n) {
    auto kind = pick((p + "statement").c_str(), vf_param("smin", 0), vf_param("smax", 5));
    Ast *head = nullptr;
    if (kind == 0) {
        auto sign = static_cast<int>(vf_sym((p + "hsign").c_str(), 0, 2));
        head = literal(sign, boolean(static_cast<int>(vf_sym((p + "hvalue").c_str(), 0, 1))));
    }
    if (kind == 1) { head = literal(static_cast<int>(vf_sym((p + "hsign").c_str(), 0, 2)), atom("h", {})); }
    if (kind == 2) { head = theory_atom(p + "h"); }
    if (kind == 3) { head = node(T(disjunction), {{A(location), loc()}, {A(elements), arr({node(T(conditional_literal), {{A(location), loc()}, {A(literal), ast(literal(0, atom("h", {})))}, {A(condition), arr({})}})})}}); }
    std::vector<Ast *> body;
    for (int i = 0; i < n; ++i) { body.push_back(body_literal(p + nm("b", i))); }
    if (kind == 4) { return node(T(external), {{A(location), loc()}, {A(atom), ast(atom("e", {}))}, {A(body), arr(body)}, {A(external_type), ast(function("false", {}))}}); }
    if (kind == 5) { return node(T(minimize), {{A(location), loc()}, {A(weight), ast(number(1))}, {A(priority), ast(number(0))}, {A(terms), arr({variable("X")})}, {A(body), arr(body)}}); }
    return node(T(rule), {{A(location), loc()}, {A(head), ast(head)}, {A(body), arr(body)}});
}

std::vector<Ast *> *results_ = nullptr;
bool collect_result(Ast *a, void *) {
    results_->push_back(acq(a));
    return true;
}
void refs(Ast *a, std::vector<int> &r) {
    if (a == nullptr) { return; }
    r.push_back(a->refs);
    for (auto &x : a->attrs) {
        refs(x.second.node, r);
        for (auto *b : x.second.nodes) { refs(b, r); }
    }
}

} // namespace

VF_ENTRY(rewrite) {
    if (vf_param("shifts", 1) != 0) { vf_need("shifted"); }
    if (vf_param("heads", 0) != 0) { vf_need("marked in the head"); }
    if (vf_param("bodies", 1) != 0) { vf_need("marked in the body"); }
    clingcon_theory_t *theory = nullptr;
    if (!clingcon_create(&theory)) { vf_fail("the theory cannot be created"); }
    bool shift = vf_param("shift", -1) >= 0 ? vf_param("shift", -1) != 0 : pick("shift", 0, 1) != 0;
    if (!clingcon_configure(theory, "shift-constraints", shift ? "yes" : "no")) { vf_fail("the option cannot be set"); }
    std::vector<Ast *> stms, pristine;
    int pools = static_cast<int>(vf_param("pools", 1));
    for (int i = 0; i < pools; ++i) {
        stms.push_back(statement(nm("p", i), static_cast<int>(vf_param("n", 2))));
        pristine.push_back(deep(stms.back()));
    }
    if (pools > 1) { unpooled = stms; }
    std::vector<int> before, after;
    for (auto *s : stms) { refs(s, before); }
    int live = ast_live;
    std::vector<Ast *> results;
    results_ = &results;
    bool ok = clingcon_rewrite_ast(theory, stms[0], collect_result, nullptr);
    for (size_t i = 0; i < stms.size(); ++i) { vf_check(same(stms[i], pristine[i]), "the statement given is not changed"); }
    if (!ok) {
        vf_reach("rejected");
        vf_check(bad_tuple || no_guard, "only malformed atoms are rejected");
    } else {
        vf_check(!bad_tuple, "tuples need exactly one term");
        vf_check(unpool_type == clingo_ast_unpool_type_all, "all pools are expanded");
        vf_check(results.size() == stms.size(), "each statement is passed on once");
        for (size_t i = 0; i < stms.size(); ++i) { check_statement(pristine[i], results[i], shift); }
    }
    for (auto *r : results) { rel(r); }
    for (auto *s : stms) { refs(s, after); }
    vf_check(before == after && live == ast_live, "no references are leaked");
}
