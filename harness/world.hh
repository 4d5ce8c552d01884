// A reference implementation of the solver side of clingo's propagator interface (the part a propagator can observe):
// assignment, trail, watches, decision levels, clause addition and unit propagation.
#pragma once
#include "vf.h"
#include <clingo.hh>
#include <clingcon/propagator.hh>
#include <functional>
#include <string>
#include <map>
#include <vector>

using namespace Clingcon;

struct World;
//! What the solver drives: either a Solver object directly or the complete propagator.
struct Client {
    virtual void propagate(World &w, std::vector<lit_t> const &changes) = 0;
    virtual void check(World &w) = 0;
    virtual void undo(World &w, std::vector<lit_t> const &changes) = 0;
    virtual lit_t decide(World &, lit_t fallback) { return fallback; }
};

struct WeightC {
    lit_t lit;
    std::vector<Clingo::WeightedLiteral> lits;
    val_t bound;
    int type;
};
struct MinimizeL {
    lit_t lit;
    val_t weight;
    int level;
};

struct World {
    std::vector<signed char> val{0, 1}; // truth value by solver variable, variable 1 is true
    std::vector<uint32_t> lev{0, 0};
    std::vector<bool> watch_pos{false, false}, watch_neg{false, false};
    std::vector<lit_t> trail{1};
    std::vector<size_t> start{0}; // trail offset by level
    std::vector<size_t> first_undo{0};
    std::vector<bool> propagated{false}; // was propagate called on the level?
    std::vector<std::vector<lit_t>> clauses;
    std::vector<WeightC> wcs;
    std::vector<MinimizeL> minimize;
    std::vector<std::vector<lit_t>> blocked; // clauses excluding models found so far
    std::vector<lit_t> pending; // clause waiting for backjumping
    bool has_pending = false, pending_temp = false;
    uint32_t pending_level = 0;
    bool conflict = false;
    bool initializing = true;
    size_t qhead = 0; // trail position up to which changes were delivered
    size_t front = 0; // assigned literals at the last check
    int check_mode = 0;
    int threads = 1;
    uint32_t thread = 0;
    Client *client = nullptr;
    std::function<void(lit_t const *, size_t, int)> on_clause; // called for each clause added through the interface
    std::function<void(lit_t)> on_literal;
    std::function<void()> on_fixpoint; // called whenever propagation reached a fixpoint without conflict
    std::function<void()> on_model; // called before an accepted model is excluded
    std::function<void(uint32_t)> on_undo; // called after returning to a level
    std::function<lit_t(lit_t)> map_literal;
    bool forget = false; // drop learnt clauses when returning to a lower level (a solver may delete them at any time)
    std::vector<bool> learnt; // by clause: may it be deleted?
    size_t n_clauses = 0, n_literals = 0, n_checks = 0;
    lit_t step = 0;         // literal assumed during the current solving step (0: none)
    size_t static_vars = 0; // variables that outlive the current step
    std::vector<bool> sent; // by variable: top-level literals already delivered to the propagator
    bool unsat = false;     // top-level conflict
    std::vector<clingo_symbol_t> extended; // symbols the propagator added to the current model

    uint32_t dl() const { return static_cast<uint32_t>(start.size()) - 1; }
    bool has(lit_t l) const { auto v = l < 0 ? -l : l; return v > 0 && static_cast<size_t>(v) < val.size(); }
    int value(lit_t l) const {
        if (!has(l)) { vf_fail("unknown literal passed to the solver"); }
        return l > 0 ? val[l] : -val[-l];
    }
    bool is_true(lit_t l) const { return value(l) > 0; }
    bool is_false(lit_t l) const { return value(l) < 0; }
    uint32_t level(lit_t l) const { return lev[l > 0 ? l : -l]; }
    size_t nvars() const { return val.size() - 1; }
    bool total() const { return trail.size() == nvars(); }

    lit_t new_lit() {
        val.push_back(0);
        lev.push_back(0);
        watch_pos.push_back(false);
        watch_neg.push_back(false);
        return static_cast<lit_t>(val.size()) - 1;
    }
    void assign(lit_t l) {
        val[l > 0 ? l : -l] = l > 0 ? 1 : -1;
        lev[l > 0 ? l : -l] = dl();
        trail.push_back(l);
    }
    void watch(lit_t l) {
        if (!has(l)) { vf_fail("watch for unknown literal"); }
        (l > 0 ? watch_pos[l] : watch_neg[-l]) = true;
    }
    bool watched(lit_t l) const { return l > 0 ? watch_pos[l] : watch_neg[-l]; }

    //! Unit propagation; sets conflict.
    bool up() {
        if (conflict) { return false; }
        for (bool again = true; again;) {
            again = false;
            for (auto const &c : clauses) {
                lit_t unit = 0;
                bool sat = false, two = false;
                for (auto l : c) {
                    int v = value(l);
                    if (v > 0) { sat = true; break; }
                    if (v == 0) {
                        if (unit != 0 && unit != l) { two = true; }
                        unit = l;
                    }
                }
                if (sat || two) { continue; }
                if (unit == 0) { conflict = true; return false; }
                assign(unit);
                again = true;
            }
        }
        return true;
    }

    void called(lit_t const *c, size_t n, int type) {
        ++n_clauses;
        for (size_t i = 0; i < n; ++i) { static_cast<void>(value(c[i])); }
        if (on_clause) { on_clause(c, n, type); }
    }
    bool init_clause(lit_t const *c, size_t n) {
        called(c, n, 1);
        if (conflict) { return false; }
        clauses.emplace_back(c, c + n);
        int open = 0;
        lit_t unit = 0;
        for (size_t i = 0; i < n; ++i) {
            if (is_true(c[i])) { return true; }
            if (value(c[i]) == 0 && c[i] != unit) { ++open; unit = c[i]; }
        }
        if (open == 0) { conflict = true; return false; }
        if (open == 1) { assign(unit); }
        return true;
    }
    void keep(std::vector<lit_t> const &c, bool temporary) {
        learnt.resize(clauses.size(), false);
        clauses.emplace_back(c);
        learnt.push_back(temporary && c.size() > 1);
    }
    void forget_learnt() {
        learnt.resize(clauses.size(), false);
        size_t j = 0;
        for (size_t i = 0; i < clauses.size(); ++i) {
            if (learnt[i]) { continue; }
            if (i != j) { clauses[j] = std::move(clauses[i]); }
            ++j;
        }
        clauses.resize(j);
        learnt.assign(j, false);
    }
    bool control_clause(lit_t const *c, size_t n, int type) {
        called(c, n, type);
        if (conflict) { return false; }
        if (has_pending) { vf_fail("clause added while the previous one requires backjumping"); }
        std::vector<lit_t> cl{c, c + n};
        bool temp = (type & 1) == 0;
        if ((type & 2) != 0 && step != 0) { cl.push_back(-step); }
        int open = 0;
        lit_t unit = 0;
        uint32_t max = 0;
        for (auto l : cl) {
            int v = value(l);
            if (v > 0) { keep(cl, temp); return true; }
            if (v == 0) {
                if (l != unit) { ++open; unit = l; }
            } else if (level(l) > max) { max = level(l); }
        }
        if (open >= 2) { keep(cl, temp); return true; }
        if (max < dl()) { // conflicting or asserting on a lower level
            pending = cl;
            pending_level = max;
            pending_temp = temp;
            has_pending = true;
            return false;
        }
        keep(cl, temp);
        if (open == 0) { conflict = true; return false; }
        assign(unit);
        return true;
    }
    bool control_propagate() {
        if (conflict || has_pending) { return false; }
        return up();
    }

    // ------------------------------------------------------------------ search
    void decide(lit_t l) {
        start.push_back(trail.size());
        propagated.push_back(false);
        assign(l);
    }
    void pop_level() {
        size_t s = start.back();
        std::vector<lit_t> changes;
        for (size_t i = s; i < qhead && i < trail.size(); ++i) {
            if (watched(trail[i])) { changes.push_back(trail[i]); }
        }
        bool call = propagated.back();
        for (size_t i = s; i < trail.size(); ++i) { val[trail[i] > 0 ? trail[i] : -trail[i]] = 0; }
        trail.resize(s);
        start.pop_back();
        propagated.pop_back();
        if (qhead > s) { qhead = s; }
        if (front > s) { front = s; }
        conflict = false;
        if (forget) { forget_learnt(); }
        if (call) { client->undo(*this, changes); }
        if (on_undo) { on_undo(dl()); }
    }
    void backjump(uint32_t level) {
        while (dl() > level) { pop_level(); }
    }
    //! Propagation until nothing changes; false on conflict.
    bool fixpoint() {
        for (int rounds = 0;; ++rounds) {
            if (rounds > 500) { vf_fail("propagation does not terminate"); }
            if (has_pending) {
                auto cl = pending;
                has_pending = false;
                backjump(pending_level);
                conflict = false;
                keep(cl, pending_temp);
            }
            if (!up()) { return false; }
            if (qhead < trail.size()) {
                std::vector<lit_t> changes;
                for (; qhead < trail.size(); ++qhead) {
                    auto v = static_cast<size_t>(trail[qhead] > 0 ? trail[qhead] : -trail[qhead]);
                    if (watched(trail[qhead]) && (v >= sent.size() || !sent[v])) { changes.push_back(trail[qhead]); }
                }
                if (!changes.empty()) {
                    propagated.back() = true;
                    client->propagate(*this, changes);
                }
                continue;
            }
            if (front < trail.size() && (check_mode & 2) != 0) {
                front = trail.size();
                ++n_checks;
                client->check(*this);
                continue;
            }
            if (on_fixpoint) { on_fixpoint(); }
            return true;
        }
    }
    bool wc_ok(WeightC const &w) const {
        int64_t sum = 0;
        for (auto const &x : w.lits) {
            if (is_true(x.literal())) { sum += x.weight(); }
        }
        bool holds = sum >= w.bound, lit = is_true(w.lit);
        return w.type == 0 ? holds == lit : w.type > 0 ? (!lit || holds) : (!holds || lit);
    }
    //! What the solver makes of a new weight constraint.
    //!
    //! Solvers treat a constraint that is decided under the current assignment or whose literal is assigned as an
    //! equivalence, also if only one direction is requested (as clasp does).
    void settle(WeightC &w) {
        if (value(w.lit) != 0) {
            if (value(w.lit) > 0 ? w.type < 0 : w.type > 0) { w.type = 0; }
            return;
        }
        std::map<lit_t, std::pair<int64_t, int64_t>> open;
        int64_t min = 0, max = 0;
        for (auto const &x : w.lits) {
            auto l = x.literal();
            if (value(l) > 0) { min += x.weight(); max += x.weight(); }
            else if (value(l) == 0) { (l > 0 ? open[l].first : open[-l].second) += x.weight(); }
        }
        for (auto const &x : open) {
            auto a = x.second.first, b = x.second.second;
            min += vf_ite(a < b, a, b);
            max += vf_ite(a < b, b, a);
        }
        if (min >= w.bound) { assign(w.lit); }
        else if (max < w.bound) { assign(-w.lit); }
        else { return; }
        w.type = 0;
    }
    //! On a total assignment after fixpoint(): is it accepted as a model?
    //! 0 rejected (conflict), 1 accepted, 2 not total anymore
    int model_check() {
        for (auto const &w : wcs) {
            if (!wc_ok(w)) { return 0; }
        }
        if ((check_mode & 1) != 0) {
            ++n_checks;
            size_t n = trail.size();
            client->check(*this);
            if (has_pending || conflict) { return fixpoint() ? 2 : 0; }
            if (!total() || trail.size() != n) { return 2; }
        }
        return 1;
    }
    //! Learns that the current decisions cannot be combined and backtracks one level; false if there are no decisions.
    bool refute(bool model = false) {
        if (model) { // exclude exactly the model
            blocked.emplace_back();
            for (size_t i = 1; i < trail.size(); ++i) { blocked.back().push_back(-trail[i]); }
            if (on_model) { on_model(); }
        }
        if (dl() == 0) { unsat = step == 0 || !model; return false; }
        if (dl() == 1 && step != 0) { return false; }
        std::vector<lit_t> c;
        for (size_t i = 1; i < start.size(); ++i) { c.push_back(-trail[start[i]]); }
        pop_level();
        conflict = false;
        clauses.emplace_back(c);
        return true;
    }
    //! Enumerates models by depth first search; choose returns the decision literal (0: first free variable).
    //! f is called for each accepted total assignment and returns whether to go on.
    template <class C, class F> bool search(C choose, F f, int max_steps = 2000) {
        initializing = false;
        for (int steps = 0;; ++steps) {
            if (steps > max_steps) { vf_fail("search does not terminate"); }
            if (!fixpoint()) {
                if (!refute()) { return false; }
                continue;
            }
            if (step != 0 && dl() == 0) {
                if (is_false(step)) { return false; }
                if (!is_true(step)) { decide(step); continue; }
            }
            if (total()) {
                int r = model_check();
                if (r == 2) { continue; }
                if (r == 1 && !f()) { return true; }
                if (!refute(r == 1)) { return false; }
                continue;
            }
            lit_t l = choose();
            decide(l);
        }
    }
    // ------------------------------------------------------------------ several solving steps
    //! Called after the initialisation; a step literal makes clauses of this step retractable.
    void begin_step(bool with_step) {
        step = with_step ? new_lit() : 0;
        static_vars = val.size();
        // literals already delivered are not delivered again unless their watch is new
        sent.resize(val.size(), false);
        qhead = 0;
        front = 0;
        blocked.clear();
    }
    //! Removes everything that only belongs to the solving step.
    void end_step() {
        has_pending = false;
        backjump(0);
        if (conflict) { unsat = true; }
        conflict = unsat;
        auto local = [this](lit_t l) { return static_cast<size_t>(l > 0 ? l : -l) >= static_vars; };
        learnt.resize(clauses.size(), false);
        size_t j = 0;
        for (size_t i = 0; i < clauses.size(); ++i) {
            bool drop = learnt[i];
            for (auto l : clauses[i]) { drop = drop || local(l) || (step != 0 && l == -step); }
            if (drop) { continue; }
            if (i != j) { clauses[j] = std::move(clauses[i]); }
            ++j;
        }
        clauses.resize(j);
        learnt.assign(j, false);
        j = 0;
        for (size_t i = 0; i < trail.size(); ++i) {
            if (!local(trail[i])) {
                sent[trail[i] > 0 ? trail[i] : -trail[i]] = watched(trail[i]);
                trail[j++] = trail[i];
            }
        }
        trail.resize(j);
        val.resize(static_vars);
        lev.resize(static_vars);
        watch_pos.resize(static_vars);
        watch_neg.resize(static_vars);
        if (step != 0 && val[step] == 0) { assign(-step); }
        propagated[0] = false;
        initializing = true;
    }
    lit_t first_free() const {
        for (size_t i = 1; i < val.size(); ++i) {
            if (val[i] == 0) { return static_cast<lit_t>(i); }
        }
        return 0;
    }
    lit_t last_free() const {
        for (size_t i = val.size() - 1; i > 0; --i) {
            if (val[i] == 0) { return static_cast<lit_t>(i); }
        }
        return 0;
    }
};

// ---------------------------------------------------------------------------- clingo's C interface on top of a world
static inline World &W_(void const *p) { return *static_cast<World *>(const_cast<void *>(p)); }
template <class T> static inline T *to_c_(World &w) { return reinterpret_cast<T *>(&w); }

extern "C" {
uint32_t clingo_assignment_decision_level(clingo_assignment_t const *a) { return W_(a).dl(); }
uint32_t clingo_assignment_root_level(clingo_assignment_t const *) { return 0; }
bool clingo_assignment_has_conflict(clingo_assignment_t const *a) { return W_(a).conflict; }
bool clingo_assignment_has_literal(clingo_assignment_t const *a, clingo_literal_t l) { return W_(a).has(l); }
bool clingo_assignment_level(clingo_assignment_t const *a, clingo_literal_t l, uint32_t *r) { *r = W_(a).level(l); return true; }
bool clingo_assignment_decision(clingo_assignment_t const *a, uint32_t l, clingo_literal_t *r) { *r = W_(a).trail[W_(a).start[l]]; return true; }
bool clingo_assignment_is_fixed(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { *r = W_(a).value(l) != 0 && W_(a).level(l) == 0; return true; }
bool clingo_assignment_is_true(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { *r = W_(a).is_true(l); return true; }
bool clingo_assignment_is_false(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { *r = W_(a).is_false(l); return true; }
bool clingo_assignment_truth_value(clingo_assignment_t const *a, clingo_literal_t l, clingo_truth_value_t *r) {
    int v = W_(a).value(l);
    *r = v > 0 ? clingo_truth_value_true : v < 0 ? clingo_truth_value_false : clingo_truth_value_free;
    return true;
}
size_t clingo_assignment_size(clingo_assignment_t const *a) { return W_(a).nvars(); }
bool clingo_assignment_at(clingo_assignment_t const *a, size_t o, clingo_literal_t *r) { *r = static_cast<lit_t>(o) + 1; return o < W_(a).nvars(); }
bool clingo_assignment_is_total(clingo_assignment_t const *a) { return W_(a).total(); }
bool clingo_assignment_trail_size(clingo_assignment_t const *a, uint32_t *r) { *r = static_cast<uint32_t>(W_(a).trail.size()); return true; }
bool clingo_assignment_trail_begin(clingo_assignment_t const *a, uint32_t l, uint32_t *r) { *r = static_cast<uint32_t>(W_(a).start[l]); return true; }
bool clingo_assignment_trail_end(clingo_assignment_t const *a, uint32_t l, uint32_t *r) {
    auto &w = W_(a);
    *r = static_cast<uint32_t>(l + 1 < w.start.size() ? w.start[l + 1] : w.trail.size());
    return true;
}
bool clingo_assignment_trail_at(clingo_assignment_t const *a, uint32_t o, clingo_literal_t *r) {
    if (o >= W_(a).trail.size()) { vf_fail("trail access out of range"); }
    *r = W_(a).trail[o];
    return true;
}

bool clingo_propagate_init_solver_literal(clingo_propagate_init_t const *i, clingo_literal_t l, clingo_literal_t *r) {
    auto &w = W_(i);
    *r = w.map_literal ? w.map_literal(l) : l;
    return true;
}
bool clingo_propagate_init_add_watch(clingo_propagate_init_t *i, clingo_literal_t l) { W_(i).watch(l); return true; }
bool clingo_propagate_init_freeze_literal(clingo_propagate_init_t *, clingo_literal_t) { return true; }
int clingo_propagate_init_number_of_threads(clingo_propagate_init_t const *i) { return W_(i).threads; }
void clingo_propagate_init_set_check_mode(clingo_propagate_init_t *i, clingo_propagator_check_mode_t m) { W_(i).check_mode = m; }
clingo_propagator_check_mode_t clingo_propagate_init_get_check_mode(clingo_propagate_init_t const *i) { return W_(i).check_mode; }
clingo_assignment_t const *clingo_propagate_init_assignment(clingo_propagate_init_t const *i) { return reinterpret_cast<clingo_assignment_t const *>(i); }
bool clingo_propagate_init_add_literal(clingo_propagate_init_t *i, bool, clingo_literal_t *r) {
    auto &w = W_(i);
    ++w.n_literals;
    *r = w.new_lit();
    if (w.on_literal) { w.on_literal(*r); }
    return true;
}
bool clingo_propagate_init_add_clause(clingo_propagate_init_t *i, clingo_literal_t const *c, size_t n, bool *r) { *r = W_(i).init_clause(c, n); return true; }
bool clingo_propagate_init_add_weight_constraint(clingo_propagate_init_t *i, clingo_literal_t l, clingo_weighted_literal_t const *ls, size_t n, clingo_weight_t b, clingo_weight_constraint_type_t t, bool eq, bool *r) {
    auto &w = W_(i);
    if (eq) { vf_fail("unexpected equality weight constraint"); }
    WeightC wc{l, {}, b, t};
    for (size_t k = 0; k < n; ++k) { wc.lits.emplace_back(ls[k].literal, ls[k].weight); static_cast<void>(w.value(ls[k].literal)); }
    w.settle(wc);
    w.wcs.push_back(wc);
    *r = !w.conflict;
    return true;
}
bool clingo_propagate_init_add_minimize(clingo_propagate_init_t *i, clingo_literal_t l, clingo_weight_t weight, clingo_weight_t p) {
    W_(i).minimize.push_back({l, weight, p});
    return true;
}
bool clingo_propagate_init_propagate(clingo_propagate_init_t *i, bool *r) { *r = W_(i).up(); return true; }

clingo_id_t clingo_propagate_control_thread_id(clingo_propagate_control_t const *c) { return W_(c).thread; }
clingo_assignment_t const *clingo_propagate_control_assignment(clingo_propagate_control_t const *c) { return reinterpret_cast<clingo_assignment_t const *>(c); }
bool clingo_propagate_control_add_literal(clingo_propagate_control_t *c, clingo_literal_t *r) {
    auto &w = W_(c);
    ++w.n_literals;
    *r = w.new_lit();
    if (w.on_literal) { w.on_literal(*r); }
    return true;
}
bool clingo_propagate_control_add_watch(clingo_propagate_control_t *c, clingo_literal_t l) { W_(c).watch(l); return true; }
bool clingo_propagate_control_has_watch(clingo_propagate_control_t const *c, clingo_literal_t l) { return W_(c).watched(l); }
bool clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *cl, size_t n, clingo_clause_type_t t, bool *r) { *r = W_(c).control_clause(cl, n, t); return true; }
bool clingo_propagate_control_propagate(clingo_propagate_control_t *c, bool *r) { *r = W_(c).control_propagate(); return true; }

bool clingo_error_code_dummy_() { return true; }
clingo_error_t clingo_error_code() { return clingo_error_runtime; }
char const *clingo_error_message() { return "error"; }
void clingo_set_error(clingo_error_t, char const *) {}
}

// ---------------------------------------------------------------------------- meaning of literals
//! Tracks what each solver literal stands for under an arbitrary (symbolic) assignment of the problem's variables.
struct Meaning {
    enum Kind { Unknown, Order, Given, Aux };
    struct Entry {
        Kind kind = Unknown;
        var_t var = 0;
        int64_t value = 0;
        int sign = 1;
        bool truth = false;
    };
    std::vector<Entry> map;
    std::vector<int64_t> sigma;   // value of each integer variable
    std::function<bool()> problem; // is the assignment a solution of the problem?
    World *world = nullptr;
    Solver *solver = nullptr;
    bool aux_ok = false; // literals without meaning are allowed (their clauses are not judged)
    size_t judged = 0;
    bool not_blocked = true;

    Entry &at(lit_t l) {
        size_t v = static_cast<size_t>(l > 0 ? l : -l);
        if (map.size() <= v) { map.resize(v + 1); }
        return map[v];
    }
    void given(lit_t l, bool truth) {
        auto &e = at(l);
        e.kind = Given;
        e.sign = l > 0 ? 1 : -1;
        e.truth = truth;
    }
    bool raw(Entry const &e) const { return e.kind == Order ? sigma[e.var] <= e.value : e.truth; }
    bool known(lit_t l) { return l == TRUE_LIT || l == -TRUE_LIT || at(l).kind == Order || at(l).kind == Given; }
    //! Truth of a literal under the assignment.
    bool eval(lit_t l) {
        if (l == TRUE_LIT) { return true; }
        if (l == -TRUE_LIT) { return false; }
        auto &e = at(l);
        return raw(e) == ((l > 0 ? 1 : -1) == e.sign);
    }
    void attach(World &w, Solver &s) {
        world = &w;
        solver = &s;
        w.on_model = [this]() { block(); };
    }
    //! Excludes the current model of the solver.
    void block() {
        bool differs = false;
        for (auto l : world->blocked.back()) {
            if (known(l)) { differs = differs | eval(l); }
        }
        for (var_t v = 0; v < sigma.size(); ++v) { differs = differs | (sigma[v] != solver->get_value(v)); }
        not_blocked = not_blocked & differs;
    }
    //! Is the assignment a solution that was not excluded by enumeration?
    bool holds() {
        return problem() & not_blocked;
    }
    //! Reads the order literals stored in the solver.
    void learn() {
        auto n = static_cast<var_t>(sigma.size());
        for (var_t v = 0; v < n; ++v) { learn(v); }
    }
    void learn(var_t v) {
        auto &vs = solver->var_state(v);
        std::vector<std::pair<lit_t, val_t>> lits;
        vs.with([&](auto ib, auto ie, auto get_lit, auto get_val, auto inc) {
            for (; ib != ie; inc(ib)) { lits.emplace_back(get_lit(ib), get_val(ib)); }
            return 0;
        });
        for (auto [lit, value] : lits) {
            if (lit == 0) { continue; } // being created
            bool want = sigma[v] <= value;
            if (lit == TRUE_LIT || lit == -TRUE_LIT) {
                vf_check((want == (lit == TRUE_LIT)) | !holds(), "an order literal replaced by a fact removes no solution");
                continue;
            }
            auto &e = at(lit);
            if (e.kind == Unknown) {
                e.kind = Order;
                e.var = v;
                e.value = value;
                e.sign = lit > 0 ? 1 : -1;
            } else if (e.kind != Order || e.var != v || e.sign != (lit > 0 ? 1 : -1) || vf_issym(e.value) || vf_issym(value) || e.value != value) {
                vf_check((want == eval(lit)) | !holds(), "a literal used in two places means the same in every solution");
            }
        }
    }
    //! The clause must hold in every solution.
    void judge(lit_t const *c, size_t n, char const *id) {
        bool all = true;
        for (size_t i = 0; i < n; ++i) { all = all && known(c[i]); }
        if (!all) {
            learn();
            all = true;
            for (size_t i = 0; i < n; ++i) {
                if (!known(c[i])) { all = false; }
            }
            if (!all) {
                if (!aux_ok) { vf_fail("clause over a literal without meaning"); }
                return;
            }
        }
        ++judged;
        bool sat = false;
        for (size_t i = 0; i < n; ++i) { sat = sat | eval(c[i]); }
        vf_check(sat | !holds(), id);
    }
};

//! Drives a Solver object directly.
struct SolverClient : Client {
    Solver &solver;
    SolverStatistics &stats;
    bool full = true;
    bool check_solution = true;
    bool check_state = true;
    bool threw = false;
    std::function<void()> after; // called after each callback
    SolverClient(Solver &s, SolverStatistics &st) : solver{s}, stats{st} {}
    void propagate(World &w, std::vector<lit_t> const &changes) override {
        Clingo::PropagateControl ctl{to_c_<clingo_propagate_control_t>(w)};
        ControlClauseCreator cc{ctl, stats};
        bool ret = solver.propagate(cc, Clingo::LiteralSpan{changes.data(), changes.size()});
        if (!ret) { vf_check(w.conflict || w.has_pending, "failed propagation comes with a conflict"); }
        if (after) { after(); }
    }
    void check(World &w) override {
        Clingo::PropagateControl ctl{to_c_<clingo_propagate_control_t>(w)};
        ControlClauseCreator cc{ctl, stats};
        size_t size = w.nvars();
        bool ret = solver.check(cc, check_state);
        if (!ret) { vf_check(w.conflict || w.has_pending, "failed check comes with a conflict"); }
        if (after) { after(); }
        if (ret && full && size == w.nvars() && w.total()) {
            solver.check_full(cc, check_solution);
            if (after) { after(); }
        }
    }
    void undo(World &, std::vector<lit_t> const &) override {
        solver.undo();
        if (after) { after(); }
    }
};
