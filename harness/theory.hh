// Symbols, theory atoms, models and statistics of clingo's C interface as the complete propagator sees them, and an
// independent reading of what the theory atoms mean.
#pragma once
#include "world.hh"
#include <clingcon/parsing.hh>
#include <deque>
#include <map>

// ---------------------------------------------------------------------------- symbols
struct SymD {
    int type;
    int number;
    std::string name;
    std::vector<clingo_symbol_t> args;
    bool positive;
};
static std::deque<SymD> &symtab() {
    static std::deque<SymD> *t = new std::deque<SymD>(1);
    return *t;
}
static clingo_symbol_t add_sym(SymD s) {
    symtab().push_back(std::move(s));
    return symtab().size() - 1;
}
static bool sym_eq(clingo_symbol_t a, clingo_symbol_t b) {
    if (a == b) { return true; }
    auto const &x = symtab()[a];
    auto const &y = symtab()[b];
    if (x.type != y.type) { return false; }
    if (x.type == clingo_symbol_type_number) { return x.number == y.number; }
    if (x.name != y.name || x.positive != y.positive || x.args.size() != y.args.size()) { return false; }
    for (size_t i = 0; i < x.args.size(); ++i) {
        if (!sym_eq(x.args[i], y.args[i])) { return false; }
    }
    return true;
}
static size_t sym_hash(clingo_symbol_t a) {
    auto const &x = symtab()[a];
    size_t h = static_cast<size_t>(x.type) * 31 + x.args.size() * 7 + (x.positive ? 1 : 0);
    for (auto c : x.name) { h = h * 31 + static_cast<unsigned char>(c); }
    return h;
}
static std::string sym_str(clingo_symbol_t a) {
    auto const &x = symtab()[a];
    if (x.type == clingo_symbol_type_number) { return std::to_string(vf_concrete(x.number)); }
    if (x.type == clingo_symbol_type_string) { return "\"" + x.name + "\""; }
    std::string s = (x.positive ? "" : "-") + x.name;
    if (!x.args.empty() || x.name.empty()) {
        s += "(";
        for (auto b : x.args) { s += sym_str(b) + ","; }
        s += ")";
    }
    return s;
}
struct SigD { std::string name; uint32_t arity; bool positive; };
static std::deque<SigD> &sigtab() {
    static std::deque<SigD> *t = new std::deque<SigD>(1);
    return *t;
}

// ---------------------------------------------------------------------------- theory terms and atoms
struct TTerm {
    int type;
    int number;
    std::string name;
    std::vector<clingo_id_t> args;
};
struct TAtom {
    clingo_id_t term;
    std::vector<clingo_id_t> elems;
    bool guard;
    std::string op;
    clingo_id_t rhs;
    lit_t lit;
};
struct Theory {
    std::vector<TTerm> terms;
    std::vector<std::vector<clingo_id_t>> elems; // tuples
    std::vector<TAtom> atoms;
    clingo_id_t num(int n) { terms.push_back({clingo_theory_term_type_number, n, "", {}}); return last(); }
    clingo_id_t sym(std::string n) { terms.push_back({clingo_theory_term_type_symbol, 0, std::move(n), {}}); return last(); }
    clingo_id_t fun(std::string n, std::vector<clingo_id_t> a) { terms.push_back({clingo_theory_term_type_function, 0, std::move(n), std::move(a)}); return last(); }
    clingo_id_t tup(std::vector<clingo_id_t> a) { terms.push_back({clingo_theory_term_type_tuple, 0, "", std::move(a)}); return last(); }
    clingo_id_t last() const { return static_cast<clingo_id_t>(terms.size()) - 1; }
    clingo_id_t elem(std::vector<clingo_id_t> t) { elems.push_back(std::move(t)); return static_cast<clingo_id_t>(elems.size()) - 1; }
    clingo_id_t mul(int c, clingo_id_t t) { return fun("*", {num(c), t}); }
    void add(std::string name, std::vector<clingo_id_t> ts, lit_t lit, char const *op = nullptr, clingo_id_t rhs = 0) {
        bool uniq = name != "dom" && name != "show";
        TAtom a{sym(std::move(name)), {}, op != nullptr, op != nullptr ? op : "", rhs, lit};
        int i = 0;
        for (auto t : ts) {
            // as produced by the program transformation: further elements of the tuple make it unique
            if (i > 0 && uniq) { a.elems.push_back(elem({t, num(i)})); } else { a.elems.push_back(elem({t})); }
            ++i;
        }
        atoms.push_back(std::move(a));
    }
};
static Theory *theory_ = nullptr;

// ---------------------------------------------------------------------------- statistics
struct StatD {
    int type;
    double value;
    std::vector<std::pair<std::string, uint64_t>> subs;
};
static std::vector<StatD> &stattab() {
    static std::vector<StatD> *t = new std::vector<StatD>(1, StatD{clingo_statistics_type_map, 0, {}});
    return *t;
}

extern "C" {
void clingo_symbol_create_number(int n, clingo_symbol_t *s) { *s = add_sym({clingo_symbol_type_number, n, "", {}, true}); }
bool clingo_symbol_create_string(char const *str, clingo_symbol_t *s) { *s = add_sym({clingo_symbol_type_string, 0, str, {}, true}); return true; }
bool clingo_symbol_create_function(char const *name, clingo_symbol_t const *args, size_t n, bool pos, clingo_symbol_t *s) {
    *s = add_sym({clingo_symbol_type_function, 0, name, {args, args + n}, pos});
    return true;
}
bool clingo_symbol_create_id(char const *name, bool pos, clingo_symbol_t *s) { return clingo_symbol_create_function(name, nullptr, 0, pos, s); }
clingo_symbol_type_t clingo_symbol_type(clingo_symbol_t s) { return symtab()[s].type; }
bool clingo_symbol_number(clingo_symbol_t s, int *n) { *n = symtab()[s].number; return symtab()[s].type == clingo_symbol_type_number; }
bool clingo_symbol_name(clingo_symbol_t s, char const **n) { *n = symtab()[s].name.c_str(); return symtab()[s].type == clingo_symbol_type_function; }
bool clingo_symbol_string(clingo_symbol_t s, char const **n) { *n = symtab()[s].name.c_str(); return symtab()[s].type == clingo_symbol_type_string; }
bool clingo_symbol_is_positive(clingo_symbol_t s, bool *p) { *p = symtab()[s].positive; return symtab()[s].type == clingo_symbol_type_function; }
bool clingo_symbol_is_negative(clingo_symbol_t s, bool *p) { *p = !symtab()[s].positive; return symtab()[s].type == clingo_symbol_type_function; }
bool clingo_symbol_arguments(clingo_symbol_t s, clingo_symbol_t const **a, size_t *n) {
    *a = symtab()[s].args.data();
    *n = symtab()[s].args.size();
    return symtab()[s].type == clingo_symbol_type_function;
}
bool clingo_symbol_is_equal_to(clingo_symbol_t a, clingo_symbol_t b) { return sym_eq(a, b); }
bool clingo_symbol_is_less_than(clingo_symbol_t a, clingo_symbol_t b) { return !sym_eq(a, b) && a < b; }
size_t clingo_symbol_hash(clingo_symbol_t s) { return sym_hash(s); }
bool clingo_signature_create(char const *name, uint32_t arity, bool pos, clingo_signature_t *s) {
    sigtab().push_back({name, arity, pos});
    *s = sigtab().size() - 1;
    return true;
}
bool clingo_signature_is_equal_to(clingo_signature_t a, clingo_signature_t b) {
    auto const &x = sigtab()[a];
    auto const &y = sigtab()[b];
    return x.name == y.name && x.arity == y.arity && x.positive == y.positive;
}
size_t clingo_signature_hash(clingo_signature_t s) { return sigtab()[s].name.size() * 7 + sigtab()[s].arity; }
char const *clingo_signature_name(clingo_signature_t s) { return sigtab()[s].name.c_str(); }
uint32_t clingo_signature_arity(clingo_signature_t s) { return sigtab()[s].arity; }
bool clingo_signature_is_positive(clingo_signature_t s) { return sigtab()[s].positive; }

bool clingo_propagate_init_theory_atoms(clingo_propagate_init_t const *, clingo_theory_atoms_t const **a) { *a = reinterpret_cast<clingo_theory_atoms_t const *>(theory_); return true; }
bool clingo_theory_atoms_size(clingo_theory_atoms_t const *, size_t *n) { *n = theory_->atoms.size(); return true; }
bool clingo_theory_atoms_term_type(clingo_theory_atoms_t const *, clingo_id_t t, clingo_theory_term_type_t *r) { *r = theory_->terms[t].type; return true; }
bool clingo_theory_atoms_term_number(clingo_theory_atoms_t const *, clingo_id_t t, int *r) { *r = theory_->terms[t].number; return true; }
bool clingo_theory_atoms_term_name(clingo_theory_atoms_t const *, clingo_id_t t, char const **r) { *r = theory_->terms[t].name.c_str(); return true; }
bool clingo_theory_atoms_term_arguments(clingo_theory_atoms_t const *, clingo_id_t t, clingo_id_t const **a, size_t *n) {
    *a = theory_->terms[t].args.data();
    *n = theory_->terms[t].args.size();
    return true;
}
bool clingo_theory_atoms_element_tuple(clingo_theory_atoms_t const *, clingo_id_t e, clingo_id_t const **a, size_t *n) {
    *a = theory_->elems[e].data();
    *n = theory_->elems[e].size();
    return true;
}
bool clingo_theory_atoms_element_condition(clingo_theory_atoms_t const *, clingo_id_t, clingo_literal_t const **a, size_t *n) {
    *a = nullptr;
    *n = 0;
    return true;
}
bool clingo_theory_atoms_element_condition_id(clingo_theory_atoms_t const *, clingo_id_t, clingo_literal_t *l) { *l = 0; return true; }
bool clingo_theory_atoms_atom_term(clingo_theory_atoms_t const *, clingo_id_t a, clingo_id_t *t) { *t = theory_->atoms[a].term; return true; }
bool clingo_theory_atoms_atom_elements(clingo_theory_atoms_t const *, clingo_id_t a, clingo_id_t const **e, size_t *n) {
    *e = theory_->atoms[a].elems.data();
    *n = theory_->atoms[a].elems.size();
    return true;
}
bool clingo_theory_atoms_atom_has_guard(clingo_theory_atoms_t const *, clingo_id_t a, bool *r) { *r = theory_->atoms[a].guard; return true; }
bool clingo_theory_atoms_atom_guard(clingo_theory_atoms_t const *, clingo_id_t a, char const **op, clingo_id_t *t) {
    *op = theory_->atoms[a].op.c_str();
    *t = theory_->atoms[a].rhs;
    return true;
}
bool clingo_theory_atoms_atom_literal(clingo_theory_atoms_t const *, clingo_id_t a, clingo_literal_t *l) { *l = theory_->atoms[a].lit; return true; }

bool clingo_model_extend(clingo_model_t *m, clingo_symbol_t const *s, size_t n) {
    auto &w = W_(m);
    w.extended.insert(w.extended.end(), s, s + n);
    return true;
}
bool clingo_model_thread_id(clingo_model_t const *m, clingo_id_t *id) { *id = W_(m).thread; return true; }

bool clingo_statistics_map_add_subkey(clingo_statistics_t *, uint64_t key, char const *name, clingo_statistics_type_t type, uint64_t *sub) {
    for (auto &x : stattab()[key].subs) {
        if (x.first == name) { *sub = x.second; return true; }
    }
    stattab().push_back({type, 0, {}});
    *sub = stattab().size() - 1;
    stattab()[key].subs.emplace_back(name, *sub);
    return true;
}
bool clingo_statistics_array_size(clingo_statistics_t const *, uint64_t key, size_t *n) { *n = stattab()[key].subs.size(); return true; }
bool clingo_statistics_array_push(clingo_statistics_t *, uint64_t key, clingo_statistics_type_t type, uint64_t *sub) {
    stattab().push_back({type, 0, {}});
    *sub = stattab().size() - 1;
    stattab()[key].subs.emplace_back("", *sub);
    return true;
}
bool clingo_statistics_array_at(clingo_statistics_t const *, uint64_t key, size_t i, uint64_t *sub) { *sub = stattab()[key].subs[i].second; return i < stattab()[key].subs.size(); }
bool clingo_statistics_value_set(clingo_statistics_t *, uint64_t key, double v) { stattab()[key].value = v; return true; }
}

// ---------------------------------------------------------------------------- meaning
struct Oracle {
    Theory &t;
    bool error = false; // evaluation is undefined
    std::function<int64_t(std::string const &)> value; // of a variable, by the name of its symbol

    //! Name of the symbol a term stands for; numbers are evaluated.
    std::string name(clingo_id_t id) {
        auto const &x = t.terms[id];
        if (x.type == clingo_theory_term_type_number) { return std::to_string(vf_concrete(x.number)); }
        if (x.type == clingo_theory_term_type_symbol) { return x.name; }
        if (x.type == clingo_theory_term_type_function && is_op(x)) { return std::to_string(vf_concrete(ground(id))); }
        std::string s = x.type == clingo_theory_term_type_function ? x.name : "";
        s += "(";
        for (auto a : x.args) { s += name(a) + ","; }
        return s + ")";
    }
    static bool is_op(TTerm const &x) {
        return x.type == clingo_theory_term_type_function && !x.name.empty() && std::string("+-*/\\.@").find(x.name[0]) != std::string::npos;
    }
    //! Value of a term without variables.
    int64_t ground(clingo_id_t id) {
        auto const &x = t.terms[id];
        if (x.type == clingo_theory_term_type_number) { return x.number; }
        if (!is_op(x)) { error = true; return 0; }
        if (x.args.size() == 1) {
            int64_t a = ground(x.args[0]);
            return x.name == "-" ? -a : a;
        }
        int64_t a = ground(x.args[0]), b = ground(x.args[1]);
        if (x.name == "+") { return a + b; }
        if (x.name == "-") { return a - b; }
        if (x.name == "*") { return a * b; }
        if (x.name == "/" || x.name == "\\") {
            if (b == 0) { error = true; return 0; }
            return x.name == "/" ? a / b : a % b;
        }
        if (x.name == "**") {
            int64_t r = 1;
            if (b < 0) { error = true; return 0; }
            for (int64_t i = 0; i < b; ++i) { r *= a; }
            return r;
        }
        error = true;
        return 0;
    }
    bool is_ground_op(TTerm const &x) const { return x.name == "/" || x.name == "\\" || x.name == "**"; }
    //! Value of a term over variables.
    int64_t eval(clingo_id_t id) {
        auto const &x = t.terms[id];
        if (x.type == clingo_theory_term_type_number) { return x.number; }
        if (is_op(x)) {
            if (is_ground_op(x)) { return ground(id); }
            if (x.args.size() == 1) { return x.name == "-" ? -eval(x.args[0]) : eval(x.args[0]); }
            int64_t a = eval(x.args[0]), b = eval(x.args[1]);
            return x.name == "+" ? a + b : x.name == "-" ? a - b : a * b;
        }
        return value(name(id));
    }
    static bool rel(std::string const &op, int64_t a, int64_t b) {
        if (op == "<=") { return a <= b; }
        if (op == ">=") { return a >= b; }
        if (op == "<") { return a < b; }
        if (op == ">") { return a > b; }
        if (op == "=") { return a == b; }
        if (op == "!=") { return a != b; }
        vf_fail("unknown relation");
    }
    //! Does the condition of an atom hold?
    bool cond(TAtom const &a) {
        auto const &n = t.terms[a.term].name;
        if (n == "__sum_h" || n == "__sum_b" || n == "__nsum_h" || n == "__nsum_b" || n == "__diff_h" || n == "__diff_b") {
            int64_t s = 0;
            for (auto e : a.elems) { s += eval(t.elems[e][0]); }
            return rel(a.op, s, eval(a.rhs));
        }
        if (n == "dom") {
            int64_t v = value(name(a.rhs));
            bool in = false;
            for (auto e : a.elems) {
                auto const &x = t.terms[t.elems[e][0]];
                if (x.name == "..") { in = in | ((ground(x.args[0]) <= v) & (v <= ground(x.args[1]))); }
                else { in = in | (v == ground(t.elems[e][0])); }
            }
            return in;
        }
        if (n == "distinct") {
            bool ok = true;
            for (size_t i = 0; i < a.elems.size(); ++i) {
                for (size_t j = i + 1; j < a.elems.size(); ++j) { ok = ok & (eval(t.elems[a.elems[i]][0]) != eval(t.elems[a.elems[j]][0])); }
            }
            return ok;
        }
        if (n == "disjoint") {
            bool ok = true;
            for (size_t i = 0; i < a.elems.size(); ++i) {
                for (size_t j = i + 1; j < a.elems.size(); ++j) {
                    auto const &x = t.terms[t.elems[a.elems[i]][0]];
                    auto const &y = t.terms[t.elems[a.elems[j]][0]];
                    if (ground(x.args[1]) <= 0 || ground(y.args[1]) <= 0) { continue; }
                    int64_t sx = value(name(x.args[0])), dx = ground(x.args[1]), sy = value(name(y.args[0])), dy = ground(y.args[1]);
                    ok = ok & ((dx <= 0) | (dy <= 0) | (sx + dx <= sy) | (sy + dy <= sx));
                }
            }
            return ok;
        }
        return true;
    }
    bool strict(TAtom const &a) const {
        auto const &n = t.terms[a.term].name;
        return n.size() > 2 && n.substr(n.size() - 2) == "_b";
    }
    bool holds(TAtom const &a, bool lit) { return strict(a) ? lit == cond(a) : !lit | cond(a); }
    //! Objective value.
    bool has_cost() const {
        for (auto const &a : t.atoms) {
            if (t.terms[a.term].name == "minimize" || t.terms[a.term].name == "maximize") { return true; }
        }
        return false;
    }
    int64_t cost() {
        int64_t r = 0;
        for (auto const &a : t.atoms) {
            auto const &n = t.terms[a.term].name;
            for (auto e : a.elems) {
                if (n == "minimize") { r += eval(t.elems[e][0]); }
                if (n == "maximize") { r -= eval(t.elems[e][0]); }
            }
        }
        return r;
    }
};

//! Drives the complete propagator.
struct PropClient : Client {
    Propagator &p;
    uint32_t thread = 0;
    explicit PropClient(Propagator &p) : p{p} {}
    void propagate(World &w, std::vector<lit_t> const &changes) override {
        Clingo::PropagateControl ctl{to_c_<clingo_propagate_control_t>(w)};
        p.propagate(ctl, Clingo::LiteralSpan{changes.data(), changes.size()});
    }
    void check(World &w) override {
        Clingo::PropagateControl ctl{to_c_<clingo_propagate_control_t>(w)};
        p.check(ctl);
    }
    void undo(World &w, std::vector<lit_t> const &changes) override {
        Clingo::PropagateControl ctl{to_c_<clingo_propagate_control_t>(w)};
        p.undo(ctl, Clingo::LiteralSpan{changes.data(), changes.size()});
    }
    lit_t decide(World &w, lit_t fallback) override {
        return p.decide(w.thread, Clingo::Assignment{reinterpret_cast<clingo_assignment_t const *>(&w)}, fallback);
    }
};
