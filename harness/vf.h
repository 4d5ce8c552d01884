// Interface between a harness and its two executions: the symbolic executor and the native replay.
#pragma once
#include <cstdint>
extern "C" {
int64_t vf_sym(const char *name, int64_t lo, int64_t hi); // arbitrary value in [lo, hi]
void vf_assume(bool c);                                   // restrict to executions satisfying c
void vf_check(bool c, const char *id);                    // the property: must hold for every value
void vf_reach(const char *id);                            // reachability witness
void vf_need(const char *id);                             // announces that the check/witness must be reached (vacuity)
void vf_observe(const char *id, int64_t v);               // compared between symbolic and native execution
int64_t vf_concrete(int64_t v);                           // enumerate all values (forks)
[[noreturn]] void vf_fail(const char *id);
[[noreturn]] void vf_skip();                              // end this execution (outside the bounds)
void vf_known(const char *id);                            // execution is in a region listed as a known finding
void vf_log(const char *msg, int64_t v);
bool vf_issym(int64_t v);
int64_t vf_ite(bool c, int64_t a, int64_t b);             // branch-free selection
int64_t vf_param(const char *name, int64_t def);           // bound chosen by the check
}
#define VF_ENTRY(name) extern "C" void harness_##name()
static inline int64_t pick(const char *name, int64_t lo, int64_t hi) { return vf_concrete(vf_sym(name, lo, hi)); }
static inline bool vf_bool(const char *name) { return vf_sym(name, 0, 1) != 0; }
