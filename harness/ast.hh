// Syntax trees of clingo's C interface: reference-counted nodes with the attributes of clingo's own node types.
#pragma once
#include "capi.hh"
#include <cstring>

struct clingo_ast;
using Ast = clingo_ast;

struct AVal {
    int type = 0;
    int num = 0;
    clingo_symbol_t sym = 0;
    int loc = 0;
    char const *str = nullptr;
    Ast *node = nullptr;
    std::vector<Ast *> nodes;
    std::vector<char const *> strs;
};
struct clingo_ast {
    int type;
    int refs = 1;
    std::vector<std::pair<int, AVal>> attrs;
    AVal *find(int attr) {
        for (auto &x : attrs) {
            if (x.first == attr) { return &x.second; }
        }
        return nullptr;
    }
    AVal &at(int attr) {
        auto *v = find(attr);
        if (v == nullptr) { vf_fail("a node lacks an attribute"); }
        return *v;
    }
};

static int ast_live = 0;
static int unpool_type = -1;
static std::vector<Ast *> unpooled; // what unpooling gives (empty: the statement itself)

static inline Ast *acq(Ast *a) {
    if (a != nullptr) {
        if (a->refs <= 0) { vf_fail("a released node is used"); }
        ++a->refs;
    }
    return a;
}
static inline void rel(Ast *a) {
    if (a == nullptr) { return; }
    if (a->refs <= 0) { vf_fail("a node is released too often"); }
    if (--a->refs == 0) {
        --ast_live;
        for (auto &x : a->attrs) {
            rel(x.second.node);
            for (auto *b : x.second.nodes) { rel(b); }
        }
        // (kept, so that a later use is detected)
    }
}
static inline Ast *mk(int type) {
    auto *a = new Ast{type, 1, {}};
    ++ast_live;
    return a;
}
static inline Ast *shallow(Ast *a) {
    auto *r = mk(a->type);
    r->attrs = a->attrs;
    for (auto &x : r->attrs) {
        acq(x.second.node);
        for (auto *b : x.second.nodes) { acq(b); }
    }
    return r;
}
static inline Ast *deep(Ast *a) {
    auto *r = mk(a->type);
    r->attrs = a->attrs;
    for (auto &x : r->attrs) {
        if (x.second.node != nullptr) { x.second.node = deep(x.second.node); }
        for (auto *&b : x.second.nodes) { b = deep(b); }
    }
    return r;
}

namespace astdef {
#define ARG(a, t) {clingo_ast_attribute_##a, clingo_ast_attribute_type_##t}
static clingo_ast_argument_t const id_[] = {ARG(location, location), ARG(name, string)};
static clingo_ast_argument_t const variable_[] = {ARG(location, location), ARG(name, string)};
static clingo_ast_argument_t const symbolic_term_[] = {ARG(location, location), ARG(symbol, symbol)};
static clingo_ast_argument_t const function_[] = {ARG(location, location), ARG(name, string), ARG(arguments, ast_array), ARG(external, number)};
static clingo_ast_argument_t const boolean_constant_[] = {ARG(value, number)};
static clingo_ast_argument_t const symbolic_atom_[] = {ARG(symbol, ast)};
static clingo_ast_argument_t const conditional_literal_[] = {ARG(location, location), ARG(literal, ast), ARG(condition, ast_array)};
static clingo_ast_argument_t const disjunction_[] = {ARG(location, location), ARG(elements, ast_array)};
static clingo_ast_argument_t const theory_function_[] = {ARG(location, location), ARG(name, string), ARG(arguments, ast_array)};
static clingo_ast_argument_t const theory_unparsed_term_element_[] = {ARG(operators, string_array), ARG(term, ast)};
static clingo_ast_argument_t const theory_unparsed_term_[] = {ARG(location, location), ARG(elements, ast_array)};
static clingo_ast_argument_t const theory_guard_[] = {ARG(operator_name, string), ARG(term, ast)};
static clingo_ast_argument_t const theory_atom_element_[] = {ARG(terms, ast_array), ARG(condition, ast_array)};
static clingo_ast_argument_t const theory_atom_[] = {ARG(location, location), ARG(term, ast), ARG(elements, ast_array), ARG(guard, optional_ast)};
static clingo_ast_argument_t const literal_[] = {ARG(location, location), ARG(sign, number), ARG(atom, ast)};
static clingo_ast_argument_t const rule_[] = {ARG(location, location), ARG(head, ast), ARG(body, ast_array)};
static clingo_ast_argument_t const external_[] = {ARG(location, location), ARG(atom, ast), ARG(body, ast_array), ARG(external_type, ast)};
static clingo_ast_argument_t const minimize_[] = {ARG(location, location), ARG(weight, ast), ARG(priority, ast), ARG(terms, ast_array), ARG(body, ast_array)};
static clingo_ast_argument_t const show_term_[] = {ARG(location, location), ARG(term, ast), ARG(body, ast_array)};
#undef ARG
#define DEF(n) {#n, n##_, sizeof(n##_) / sizeof(n##_[0])}
#define NONE {"", nullptr, 0}
static clingo_ast_constructor_t const table[] = {
    DEF(id), DEF(variable), DEF(symbolic_term), NONE, NONE, NONE, DEF(function), NONE, DEF(boolean_constant), DEF(symbolic_atom), NONE, NONE, DEF(conditional_literal), NONE, NONE, NONE,
    NONE, NONE, DEF(disjunction), NONE, DEF(theory_function), DEF(theory_unparsed_term_element), DEF(theory_unparsed_term), DEF(theory_guard), DEF(theory_atom_element), DEF(theory_atom), DEF(literal),
    NONE, NONE, NONE, NONE, DEF(rule), NONE, NONE, DEF(show_term), DEF(minimize), NONE, NONE, DEF(external)};
#undef DEF
#undef NONE
} // namespace astdef

extern "C" {
clingo_ast_constructors_t g_clingo_ast_constructors = {astdef::table, sizeof(astdef::table) / sizeof(astdef::table[0])};

bool clingo_add_string(char const *str, char const **res) {
    auto n = std::strlen(str);
    auto *s = new char[n + 1];
    for (size_t i = 0; i <= n; ++i) { s[i] = str[i]; }
    *res = s;
    return true;
}
// The variadic constructor is called with two or three further arguments passed like ordinary ones.
bool vf_ast_build(int type, Ast **ast, uint64_t a, uint64_t b, uint64_t c) __asm__("clingo_ast_build");
bool vf_ast_build(int type, Ast **ast, uint64_t a, uint64_t b, uint64_t c) {
    auto const &cons = astdef::table[type];
    uint64_t args[] = {a, b, c};
    if (cons.size == 0 || cons.size > 3) { vf_fail("node type outside of the model"); }
    auto *r = mk(type);
    for (size_t i = 0; i < cons.size; ++i) {
        AVal v;
        v.type = cons.arguments[i].type;
        switch (v.type) {
            case clingo_ast_attribute_type_number: v.num = static_cast<int>(args[i]); break;
            case clingo_ast_attribute_type_symbol: v.sym = args[i]; break;
            case clingo_ast_attribute_type_location: v.loc = static_cast<int>(reinterpret_cast<clingo_location_t const *>(args[i])->begin_line); break;
            case clingo_ast_attribute_type_string: clingo_add_string(reinterpret_cast<char const *>(args[i]), &v.str); break;
            case clingo_ast_attribute_type_ast:
            case clingo_ast_attribute_type_optional_ast: v.node = acq(reinterpret_cast<Ast *>(args[i])); break;
            default: vf_fail("node type outside of the model");
        }
        r->attrs.emplace_back(cons.arguments[i].attribute, v);
    }
    *ast = r;
    return true;
}
void clingo_ast_acquire(Ast *a) { acq(a); }
void clingo_ast_release(Ast *a) { rel(a); }
bool clingo_ast_copy(Ast *a, Ast **r) { *r = shallow(a); return true; }
bool clingo_ast_deep_copy(Ast *a, Ast **r) { *r = deep(a); return true; }
bool clingo_ast_get_type(Ast *a, clingo_ast_type_t *t) {
    if (a->refs <= 0) { vf_fail("a released node is used"); }
    *t = a->type;
    return true;
}
bool clingo_ast_has_attribute(Ast *a, clingo_ast_attribute_t attr, bool *r) { *r = a->find(attr) != nullptr; return true; }
bool clingo_ast_attribute_type(Ast *a, clingo_ast_attribute_t attr, clingo_ast_attribute_type_t *t) {
    auto *v = a->find(attr);
    if (v == nullptr) { return false; }
    *t = v->type;
    return true;
}
#define GET(T, N, R, E)                                                                                                \
    bool clingo_ast_attribute_get_##N(Ast *a, clingo_ast_attribute_t attr, T *r) {                                     \
        if (a->refs <= 0) { vf_fail("a released node is used"); }                                                      \
        auto *v = a->find(attr);                                                                                       \
        if (v == nullptr || v->type != clingo_ast_attribute_type_##N) { return false; }                                \
        *r = R;                                                                                                        \
        return true;                                                                                                   \
    }
#define SET(T, N, E)                                                                                                   \
    bool clingo_ast_attribute_set_##N(Ast *a, clingo_ast_attribute_t attr, T x) {                                      \
        if (a->refs <= 0) { vf_fail("a released node is used"); }                                                      \
        auto *v = a->find(attr);                                                                                       \
        if (v == nullptr || v->type != clingo_ast_attribute_type_##N) { return false; }                                \
        E;                                                                                                             \
        return true;                                                                                                   \
    }
GET(int, number, v->num, )
GET(clingo_symbol_t, symbol, v->sym, )
GET(char const *, string, v->str, )
GET(Ast *, ast, acq(v->node), )
GET(Ast *, optional_ast, acq(v->node), )
bool clingo_ast_attribute_get_location(Ast *a, clingo_ast_attribute_t attr, clingo_location_t *r) {
    auto *v = a->find(attr);
    if (v == nullptr || v->type != clingo_ast_attribute_type_location) { return false; }
    auto l = static_cast<size_t>(v->loc);
    *r = clingo_location_t{"", "", l, l, 1, 1};
    return true;
}
SET(int, number, v->num = x)
SET(clingo_symbol_t, symbol, v->sym = x)
SET(clingo_location_t const *, location, v->loc = static_cast<int>(x->begin_line))
SET(char const *, string, clingo_add_string(x, &v->str))
SET(Ast *, ast, acq(x); rel(v->node); v->node = x)
SET(Ast *, optional_ast, acq(x); rel(v->node); v->node = x)
#undef GET
#undef SET
static AVal *arr(Ast *a, int attr) {
    if (a->refs <= 0) { vf_fail("a released node is used"); }
    auto *v = a->find(attr);
    return v != nullptr && v->type == clingo_ast_attribute_type_ast_array ? v : nullptr;
}
bool clingo_ast_attribute_get_ast_at(Ast *a, clingo_ast_attribute_t attr, size_t i, Ast **r) {
    auto *v = arr(a, attr);
    if (v == nullptr || i >= v->nodes.size()) { return false; }
    *r = acq(v->nodes[i]);
    return true;
}
bool clingo_ast_attribute_set_ast_at(Ast *a, clingo_ast_attribute_t attr, size_t i, Ast *x) {
    auto *v = arr(a, attr);
    if (v == nullptr || i >= v->nodes.size()) { return false; }
    acq(x);
    rel(v->nodes[i]);
    v->nodes[i] = x;
    return true;
}
bool clingo_ast_attribute_delete_ast_at(Ast *a, clingo_ast_attribute_t attr, size_t i) {
    auto *v = arr(a, attr);
    if (v == nullptr || i >= v->nodes.size()) { return false; }
    rel(v->nodes[i]);
    v->nodes.erase(v->nodes.begin() + static_cast<int>(i));
    return true;
}
bool clingo_ast_attribute_size_ast_array(Ast *a, clingo_ast_attribute_t attr, size_t *n) {
    auto *v = arr(a, attr);
    if (v == nullptr) { return false; }
    *n = v->nodes.size();
    return true;
}
bool clingo_ast_attribute_insert_ast_at(Ast *a, clingo_ast_attribute_t attr, size_t i, Ast *x) {
    auto *v = arr(a, attr);
    if (v == nullptr || i > v->nodes.size()) { return false; }
    v->nodes.insert(v->nodes.begin() + static_cast<int>(i), acq(x));
    return true;
}
bool clingo_ast_unpool(Ast *a, clingo_ast_unpool_type_bitset_t type, clingo_ast_callback_t cb, void *data) {
    unpool_type = type;
    if (unpooled.empty()) { return cb(a, data); }
    for (auto *b : unpooled) {
        if (!cb(b, data)) { return false; }
    }
    return true;
}
}
