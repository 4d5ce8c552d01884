// Configuration values and command line options: every string up to a length against an independent grammar.
#include "capi.hh"
#include <cstring>

namespace {

// ---------------------------------------------------------------------------- options registered with clingo
struct Option {
    std::string name;
    bool (*parse)(char const *, void *);
    void *data;
    bool multi;
    bool *flag;
};
std::vector<Option> &options() {
    static std::vector<Option> *t = new std::vector<Option>();
    return *t;
}
Option &option(char const *key) {
    for (auto &o : options()) {
        if (o.name == key || o.name == std::string(key) + ",@2") { return o; }
    }
    vf_fail("an option is not registered");
}

} // namespace

extern "C" {
bool clingo_options_add(clingo_options_t *, char const *, char const *option, char const *, bool (*parse)(char const *value, void *data), void *data, bool multi, char const *) {
    options().push_back({option, parse, data, multi, nullptr});
    return true;
}
bool clingo_options_add_flag(clingo_options_t *, char const *, char const *option, char const *, bool *target) {
    options().push_back({option, nullptr, nullptr, false, target});
    return true;
}
}

namespace {

constexpr int64_t I32MIN = std::numeric_limits<int32_t>::min(), I32MAX = std::numeric_limits<int32_t>::max(), U32MAX = std::numeric_limits<uint32_t>::max();

enum Kind { Bool, BoolThread, Sign, Heu, U32, Val, Clauses, Ratio };
enum Field { Shift, Sort, ClauseLimit, LiteralsOnly, Wcr, Distinct, TransMin, Order, MinInt, MaxInt, Solution, State, FHeu, FSign, FReasons, FIntroduce, FChain, FSplit };
struct Key { char const *name; Kind kind; Field field; };
Key const KEYS[] = {
    {"shift-constraints", Bool, Shift}, {"sort-constraints", Bool, Sort}, {"literals-only", Bool, LiteralsOnly}, {"add-order-clauses", Bool, Order},
    {"check-solution", Bool, Solution}, {"check-state", Bool, State}, {"refine-reasons", BoolThread, FReasons}, {"refine-introduce", BoolThread, FIntroduce},
    {"propagate-chain", BoolThread, FChain}, {"split-all", BoolThread, FSplit}, {"sign-value", Sign, FSign}, {"order-heuristic", Heu, FHeu},
    {"translate-distinct", U32, Distinct}, {"translate-opt", U32, TransMin}, {"min-int", Val, MinInt}, {"max-int", Val, MaxInt},
    {"translate-clauses", Clauses, ClauseLimit}, {"translate-pb", Ratio, Wcr},
};

//! A text with symbolic characters; its length is chosen.
struct Text {
    std::vector<char> c;
    size_t n = 0;
    bool is(size_t b, size_t e, char const *s) const {
        size_t m = std::strlen(s);
        if (e - b != m) { return false; }
        bool eq = true;
        for (size_t i = 0; i < m; ++i) { eq = eq & (c[b + i] == s[i]); }
        return eq;
    }
    size_t comma() const {
        for (size_t i = 0; i < n; ++i) {
            if (c[i] == ',') { return i; }
        }
        return n;
    }
};
Text text(std::string const &name, int len, int digits_from) {
    Text t;
    t.n = static_cast<size_t>(len);
    for (int i = 0; i < len; ++i) {
        // (long numbers: only the first characters are arbitrary, the others are arbitrary digits)
        bool digit = digits_from >= 0 && i >= digits_from;
        t.c.push_back(static_cast<char>(vf_sym((name + std::to_string(i)).c_str(), digit ? '0' : 1, digit ? '9' : 127)));
    }
    t.c.push_back('\0');
    return t;
}
Text of(std::string const &s) {
    Text t;
    t.n = s.size();
    t.c.assign(s.begin(), s.end());
    t.c.push_back('\0');
    return t;
}

//! Result of reading a value: 0 rejected, 1 accepted, 2 either (a negative zero for a natural number).
struct Read {
    int ok = 0;
    bool over = false; // beyond 64 bits
    int64_t value = 0;
};
Read number(Text const &t, size_t b, size_t e, int64_t min, int64_t max, bool is_unsigned, bool names) {
    if (names && t.is(b, e, "min")) { return {1, false, min}; }
    if (names && t.is(b, e, "max")) { return {1, false, max}; }
    bool neg = false;
    if (b < e && (t.c[b] == '-' || t.c[b] == '+')) {
        neg = t.c[b] == '-';
        ++b;
    }
    if (b == e || e - b > 17) { return {}; }
    int64_t r = 0;
    bool digits = true;
    for (size_t i = b; i < e; ++i) {
        digits = digits & (t.c[i] >= '0') & (t.c[i] <= '9');
        r = r * 10 + (t.c[i] - '0');
    }
    if (!digits) { return {}; }
    if (neg) { r = -r; }
    if (r < min || r > max) { return {}; }
    return {is_unsigned && neg ? 2 : 1, false, r};
}
Read boolean(Text const &t, size_t b, size_t e) {
    if (t.is(b, e, "true") | t.is(b, e, "yes") | t.is(b, e, "1")) { return {1, false, 1}; }
    if (t.is(b, e, "false") | t.is(b, e, "no") | t.is(b, e, "0")) { return {1, false, 0}; }
    return {};
}

struct SolverConf { int64_t reasons, introduce, chain, split, sign, heu; };
struct Conf {
    int64_t sort, clause_limit, total, lonly, distinct, tmin, order, lo, hi, solution, state;
    double wcr;
    SolverConf all;                       // new threads
    std::map<uint32_t, SolverConf> thread; // threads looked at
};
uint32_t const THREADS[] = {0, 1, 5, 62, 63};

SolverConf conf_of(SolverConfig const &c) {
    return {c.refine_reasons, c.refine_introduce, c.propagate_chain, c.split_all, c.sign_value, static_cast<int64_t>(c.heuristic)};
}
//! What the configuration is now; does not change it.
Conf conf_of(Config const &c) {
    Conf r{c.sort_constraints, c.clause_limit, static_cast<int64_t>(c.clause_limit_total), c.literals_only, c.distinct_limit, c.translate_minimize, c.add_order_clauses, c.min_int, c.max_int, c.check_solution, c.check_state, c.weight_constraint_ratio, conf_of(c.default_solver_config), {}};
    uint32_t i = 0;
    for (auto const &s : c.solver_configs) { r.thread[i++] = conf_of(s); }
    for (; i < 64; ++i) { r.thread[i] = r.all; }
    return r;
}
void same(SolverConf const &a, SolverConf const &b, char const *what) {
    vf_check((a.reasons == b.reasons) & (a.introduce == b.introduce) & (a.chain == b.chain) & (a.split == b.split) & (a.sign == b.sign) & (a.heu == b.heu), what);
}
void same(Conf const &a, Conf const &b, char const *what) {
    vf_check((a.sort == b.sort) & (a.clause_limit == b.clause_limit) & (a.total == b.total) & (a.lonly == b.lonly) & (a.distinct == b.distinct) & (a.tmin == b.tmin) & (a.order == b.order) & (a.lo == b.lo) & (a.hi == b.hi) & (a.solution == b.solution) & (a.state == b.state) & (a.wcr == b.wcr), what);
    same(a.all, b.all, what);
    for (auto t : THREADS) { same(a.thread.at(t), b.thread.at(t), what); }
}
int64_t &solver_field(SolverConf &c, Field f) {
    switch (f) {
        case FReasons: return c.reasons;
        case FIntroduce: return c.introduce;
        case FChain: return c.chain;
        case FSplit: return c.split;
        case FSign: return c.sign;
        default: return c.heu;
    }
}
//! One setting as the user means it.
struct Setting {
    Key const *key;
    int ok = 0;
    int64_t value = 0;
    double ratio = 0;
    bool has_thread = false, has_total = false;
    int64_t thread = 0, total = 0;
};
Setting meaning(Key const &k, Text const &t) {
    Setting s{&k};
    bool threaded = k.kind == BoolThread || k.kind == Sign || k.kind == Heu;
    size_t e = threaded || k.kind == Clauses ? t.comma() : t.n;
    Read r;
    if (e < t.n) {
        // the thread or total limit comes after the comma
        Read x = k.kind == Clauses ? number(t, e + 1, t.n, 0, (int64_t(1) << 62), true, false) : number(t, e + 1, t.n, 0, 63, true, false);
        // (min and max stand for the bounds of numbers)
        if (threaded && t.is(e + 1, t.n, "min")) { x = {1, false, 0}; }
        if (threaded && t.is(e + 1, t.n, "max")) { x = {1, false, 63}; }
        if (k.kind == Clauses && t.is(e + 1, t.n, "min")) { x = {1, false, 0}; }
        if (k.kind == Clauses && t.is(e + 1, t.n, "max")) { x = {2, false, -1}; } // as large as possible
        if (x.ok == 0) { return s; }
        s.ok = x.ok;
        s.has_thread = threaded;
        s.has_total = k.kind == Clauses;
        s.thread = s.total = x.value;
    } else { s.ok = 1; }
    switch (k.kind) {
        case Bool:
        case BoolThread: r = boolean(t, 0, e); break;
        case Sign:
            if (t.is(0, e, "+")) { r = {1, false, I32MAX}; }
            else if (t.is(0, e, "-")) { r = {1, false, I32MIN}; }
            else { r = number(t, 0, e, I32MIN, I32MAX, false, true); }
            break;
        case Heu:
            if (t.is(0, e, "none")) { r = {1, false, static_cast<int64_t>(Heuristic::None)}; }
            else if (t.is(0, e, "max-chain")) { r = {1, false, static_cast<int64_t>(Heuristic::MaxChain)}; }
            break;
        case U32:
        case Clauses: r = number(t, 0, e, 0, U32MAX, true, true); break;
        case Val: r = number(t, 0, e, MIN_VAL, MAX_VAL, false, true); break;
        case Ratio: break;
    }
    if (k.kind == Ratio) {
        // digits with at most one dot
        bool neg = false, digits = false, dot = false, bad = false;
        double m = 0, scale = 1;
        if (t.is(0, t.n, "min")) { s.ok = 1; s.ratio = std::numeric_limits<double>::lowest(); return s; }
        if (t.is(0, t.n, "max")) { s.ok = 1; s.ratio = std::numeric_limits<double>::max(); return s; }
        for (size_t i = 0; i < t.n; ++i) {
            char c = t.c[i];
            if (i == 0 && (c == '-' || c == '+')) { neg = c == '-'; }
            else if (c >= '0' && c <= '9') { digits = true; m = m * 10 + (c - '0'); if (dot) { scale *= 10; } }
            else if (c == '.' && !dot) { dot = true; }
            else { bad = true; }
        }
        s.ok = digits && !bad ? 1 : 0;
        s.ratio = neg ? -(m / scale) : m / scale;
        return s;
    }
    s.ok = r.ok == 0 ? 0 : r.ok == 2 || s.ok == 2 ? 2 : 1;
    s.value = r.value;
    return s;
}
void apply(Conf &c, bool &shift, Setting const &s) {
    switch (s.key->field) {
        case Shift: shift = s.value != 0; break;
        case Sort: c.sort = s.value; break;
        case ClauseLimit:
            c.clause_limit = s.value;
            if (s.has_total && s.total >= 0) { c.total = s.total; }
            break;
        case LiteralsOnly: c.lonly = s.value; break;
        case Wcr: c.wcr = s.ratio; break;
        case Distinct: c.distinct = s.value; break;
        case TransMin: c.tmin = s.value; break;
        case Order: c.order = s.value; break;
        case MinInt: c.lo = s.value; break;
        case MaxInt: c.hi = s.value; break;
        case Solution: c.solution = s.value; break;
        case State: c.state = s.value; break;
        default:
            if (s.has_thread) {
                for (auto &x : c.thread) {
                    auto &f = solver_field(x.second, s.key->field);
                    f = vf_ite(static_cast<int64_t>(x.first) == s.thread, s.value, f);
                }
            } else {
                solver_field(c.all, s.key->field) = s.value;
                for (auto &x : c.thread) { solver_field(x.second, s.key->field) = s.value; }
            }
    }
}

struct Subject {
    clingcon_theory_t *theory = nullptr;
    Subject() {
        vf_check(clingcon_create(&theory), "a theory can be created");
        vf_check(clingcon_register(theory, nullptr), "a theory can be registered");
    }
    Config &config() { return registered->config(); }
};

Text value(Key const &k, std::string const &name, int len) {
    int mode = vf_param("mode", 0);
    if (mode == 1) { return text(name, len, static_cast<int>(vf_param("from", 1))); }
    if (k.kind == Ratio) {
        static char const alpha[] = "0159.-+a ";
        std::string s;
        for (int i = 0; i < len; ++i) { s += alpha[pick((name + std::to_string(i)).c_str(), 0, 8)]; }
        return of(s);
    }
    return text(name, len, -1);
}
//! A valid or nearly valid text: the value, and arbitrary characters after the comma.
Text near(Key const &k, std::string const &name, int tail) {
    static char const *const BOOLS[] = {"true", "yes", "1", "false", "no", "0"};
    static char const *const HEUS[] = {"none", "max-chain"};
    static char const *const NUMS[] = {"+", "-", "7", "min", "max", "-3"};
    bool heu = k.kind == Heu, b = k.kind == Bool || k.kind == BoolThread;
    auto i = pick((name + "v").c_str(), 0, heu ? 1 : 5);
    Text t = of(heu ? HEUS[i] : b ? BOOLS[i] : NUMS[i]);
    t.c.pop_back();
    for (int j = 0; j < tail; ++j) {
        t.c.push_back(j == 0 ? ',' : static_cast<char>(vf_sym((name + std::to_string(j)).c_str(), 1, 127)));
        ++t.n;
    }
    t.c.push_back('\0');
    return t;
}
Text choose(Key const &k, std::string const &name) {
    if (vf_param("mode", 0) == 2) { return near(k, name, static_cast<int>(pick((name + "tail").c_str(), vf_param("len0", 0), vf_param("len", 3)))); }
    return value(k, name, static_cast<int>(pick((name + "len").c_str(), vf_param("len0", 0), vf_param("len", 3))));
}

} // namespace

//! clingcon_configure with every value of some length: the documented field is set exactly, or nothing changes.
VF_ENTRY(configure) {
    Subject s;
    vf_need("accepted");
    vf_need("rejected");
    int first = static_cast<int>(vf_param("key0", 0)), last = static_cast<int>(vf_param("key", 17)), n = static_cast<int>(vf_param("n", 1));
    vf_check(clingcon_register_options(s.theory, nullptr), "the options can be registered");
    bool *shifting = option("shift-constraints").flag; // (only visible there)
    auto want = conf_of(s.config());
    bool shift = *shifting;
    vf_check(shift, "constraints are shifted by default");
    for (int i = 0; i < n; ++i) {
        auto const &k = KEYS[pick(("key" + std::to_string(i)).c_str(), first, last)];
        auto t = choose(k, "c" + std::to_string(i) + "_");
        auto m = meaning(k, t);
        auto old = conf_of(s.config());
        bool ok = clingcon_configure(s.theory, k.name, t.c.data());
        if (ok) {
            vf_check(m.ok != 0, "a malformed value is rejected");
            vf_reach("accepted");
            auto before = want.total;
            apply(want, shift, m);
            auto now = conf_of(s.config());
            if (m.ok == 2 && m.has_total && m.total < 0) { vf_check(now.total > before || now.total < 0, "the limit is large"); want.total = now.total; }
            same(now, want, "the value is stored in the documented place");
            vf_check(*shifting == shift, "the value is stored in the documented place");
        } else {
            vf_check(m.ok != 1, "a well-formed value is accepted");
            vf_reach("rejected");
            same(conf_of(s.config()), old, "a rejected value changes nothing");
            vf_check(*shifting == shift, "a rejected value changes nothing");
            return;
        }
    }
}

//! The options of the command line: parsed one by one and validated at the end; settings of single threads win.
VF_ENTRY(cmdline) {
    Subject s;
    vf_need("accepted");
    vf_need("rejected");
    int first = static_cast<int>(vf_param("key0", 0)), last = static_cast<int>(vf_param("key", 17)), n = static_cast<int>(vf_param("n", 1));
    vf_check(clingcon_register_options(s.theory, nullptr), "the options can be registered");
    auto want = conf_of(s.config());
    bool *shifting = option("shift-constraints").flag;
    bool shift = *shifting;
    std::vector<Setting> given;
    for (int i = 0; i < n; ++i) {
        auto const &k = KEYS[pick(("key" + std::to_string(i)).c_str(), first, last)];
        auto &o = option(k.name);
        if (k.kind == Bool) {
            // clingo parses flags itself
            if (o.flag == nullptr) { vf_fail("the option is a flag"); }
            auto v = vf_bool(("flag" + std::to_string(i)).c_str());
            *o.flag = v;
            Setting m{&k, 1, v};
            given.push_back(m);
            continue;
        }
        if (o.parse == nullptr) { vf_fail("the option has a value"); }
        vf_check(o.multi == (k.kind == BoolThread || k.kind == Sign || k.kind == Heu), "options of threads can be given several times");
        auto t = choose(k, "c" + std::to_string(i) + "_");
        auto m = meaning(k, t);
        bool again = false;
        for (auto const &g : given) {
            again = again | ((g.key->field == m.key->field) & (g.has_thread == m.has_thread) & (!m.has_thread | (g.thread == m.thread)));
        }
        if (again && !o.multi) { vf_skip(); }
        auto old = conf_of(s.config());
        bool ok = o.parse(t.c.data(), o.data);
        if (ok) {
            vf_check(m.ok != 0, "a malformed value is rejected");
            vf_check(!again, "a setting is given only once");
            given.push_back(m);
        } else {
            vf_check((m.ok != 1) | again, "a well-formed value is accepted");
            same(conf_of(s.config()), old, "a rejected value changes nothing");
            vf_reach("rejected");
            return;
        }
    }
    for (int phase = 0; phase < 2; ++phase) {
        for (auto const &g : given) {
            if (g.has_thread == (phase == 1)) { apply(want, shift, g); }
        }
    }
    bool valid = clingcon_validate_options(s.theory);
    vf_check(valid == (want.lo <= want.hi), "the options are valid exactly if there is a default domain");
    auto now = conf_of(s.config());
    for (auto const &g : given) {
        if (g.has_total && g.total < 0) { want.total = now.total; }
    }
    same(now, want, "the options are stored in the documented places");
    vf_check(*shifting == shift, "the options are stored in the documented places");
    if (valid) { vf_reach("accepted"); } else { vf_reach("rejected"); }
}

//! The decision callback is installed exactly if some thread uses it, for each theory on its own.
VF_ENTRY(heuristic) {
    for (int i = 0, n = static_cast<int>(vf_param("n", 2)); i < n; ++i) {
        clingcon_theory_t *theory = nullptr;
        vf_check(clingcon_create(&theory), "a theory can be created");
        auto which = pick(("which" + std::to_string(i)).c_str(), 0, 3);
        char const *v = which == 0 ? "none" : which == 1 ? "max-chain" : which == 2 ? "max-chain,3" : "none,2";
        vf_check(clingcon_configure(theory, "order-heuristic", v), "the heuristic can be configured");
        vf_check(clingcon_register(theory, nullptr), "a theory can be registered");
        vf_check((callbacks.decide != nullptr) == (which == 1 || which == 2), "the decision callback is installed exactly if some thread uses it");
        vf_check(callbacks.init != nullptr && callbacks.propagate != nullptr && callbacks.undo != nullptr && callbacks.check != nullptr, "the other callbacks are installed");
        clingcon_destroy(theory);
    }
}
