// The library's C interface as a client uses it: callbacks registered with the control object, statistics, options.
#pragma once
#include "theory.hh"
#include "clingcon.h"

static Propagator *registered = nullptr; // what the library registered
static clingo_propagator_t callbacks;
static std::string base_program;
static int stat_roots[2] = {-1, -1};

extern "C" {
bool clingo_control_add(clingo_control_t *, char const *name, char const *const *, size_t n, char const *program) {
    if (std::string(name) != "base" || n != 0) { vf_fail("the theory is added to the base program"); }
    base_program = program;
    return true;
}
bool clingo_control_register_propagator(clingo_control_t *, clingo_propagator_t const *p, void *data, bool) {
    registered = static_cast<Propagator *>(data);
    callbacks = *p;
    return true;
}
bool clingo_statistics_root(clingo_statistics_t const *s, uint64_t *key) {
    // the first map is for the step, the second for the accumulated statistics
    auto i = reinterpret_cast<size_t>(s) - 1;
    if (stat_roots[i] < 0) {
        stattab().push_back({clingo_statistics_type_map, 0, {}});
        stat_roots[i] = static_cast<int>(stattab().size()) - 1;
    }
    *key = static_cast<uint64_t>(stat_roots[i]);
    return true;
}
}

static inline clingo_statistics_t *stat_map(size_t i) { return reinterpret_cast<clingo_statistics_t *>(i + 1); }

struct Callbacks : Client {
    static void ok(bool r) {
        if (!r) { vf_fail("a callback reports an error"); }
    }
    void propagate(World &w, std::vector<lit_t> const &changes) override { ok(callbacks.propagate(to_c_<clingo_propagate_control_t>(w), changes.data(), changes.size(), registered)); }
    void check(World &w) override { ok(callbacks.check(to_c_<clingo_propagate_control_t>(w), registered)); }
    void undo(World &w, std::vector<lit_t> const &changes) override { callbacks.undo(to_c_<clingo_propagate_control_t>(w), changes.data(), changes.size(), registered); }
    lit_t decide(World &w, lit_t fallback) override {
        if (callbacks.decide == nullptr) { return fallback; }
        lit_t r = 0;
        ok(callbacks.decide(w.thread, reinterpret_cast<clingo_assignment_t const *>(&w), fallback, registered, &r));
        return r == 0 ? fallback : r; // (clasp decides itself)
    }
};

//! Values below a key, by path.
using Stats = std::map<std::string, double>;
static inline void collect(Stats &r, std::string const &path, uint64_t key) {
    auto const &s = stattab()[key];
    if (s.type == clingo_statistics_type_value) { r[path] = s.value; }
    int i = 0;
    for (auto const &x : s.subs) {
        collect(r, path + "." + (s.type == clingo_statistics_type_array ? std::to_string(i) : x.first), x.second);
        ++i;
    }
}
