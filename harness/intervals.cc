// P10: interval sets behave like sets of integers.
#include "vf.h"
#include <clingcon/util.hh>
#include <string>
#include <vector>
using namespace Clingcon;
using S = IntervalSet<int>;

namespace {
struct In { int a, b; };
bool member(std::vector<In> const &in, int v) {
    bool r = false;
    for (auto const &i : in) { r = r | ((i.a <= v) & (v < i.b)); }
    return r;
}
void shape(S const &s) {
    bool first = true;
    int prev = 0;
    for (auto const &[x, y] : s) {
        vf_check(x < y, "intervals are non-empty");
        if (!first) { vf_check(prev < x, "intervals are ascending, disjoint and not touching"); }
        prev = y;
        first = false;
    }
    // backwards iteration gives the same intervals in reverse order
    std::vector<In> f, r;
    for (auto const &[x, y] : s) { f.push_back({x, y}); }
    for (auto it = s.rbegin(); it != s.rend(); ++it) { r.push_back({it->first, it->second}); }
    vf_check(f.size() == r.size(), "reverse iteration visits all intervals");
    for (size_t i = 0; i < f.size(); ++i) { vf_check((f[i].a == r[r.size() - 1 - i].a) & (f[i].b == r[r.size() - 1 - i].b), "reverse iteration reverses"); }
    vf_check(s.empty() == f.empty(), "empty iff no interval");
}
void compare(S const &s, std::vector<In> const &in, int lim) {
    shape(s);
    int v = vf_sym("probe", -lim, lim);
    bool got = false;
    for (auto const &[x, y] : s) { got = got | ((x <= v) & (v < y)); }
    bool want = member(in, v);
    vf_check(got == want, "represented set is the union");
    bool c = s.contains(v);
    vf_check(c == want, "contains(v)");
    int a = vf_sym("qa", -lim, lim), b = vf_sym("qb", -lim, lim);
    bool inter = false;
    for (auto const &i : in) {
        bool ne = (i.a < i.b) & (a < b);
        inter = inter | (ne & (a < i.b) & (i.a < b));
    }
    vf_check(s.intersects(a, b) == inter, "intersects(a,b)");
    if (a < b) {
        // covered iff one of the (maximal, not touching) intervals covers it
        bool sub = false;
        for (auto const &[x, y] : s) { sub = sub | ((x <= a) & (b <= y)); }
        vf_check(s.contains(a, b) == sub, "contains(a,b)");
        if (sub) { vf_reach("contains"); }
    }
}
} // namespace

VF_ENTRY(add) {
    int n = vf_param("n", 3), lim = vf_param("lim", 1000000);
    vf_need("merged"); vf_need("several"); vf_need("contains");
    S s;
    std::vector<In> in;
    for (int i = 0; i < n; ++i) {
        int a = vf_sym(("a" + std::to_string(i)).c_str(), -lim, lim), b = vf_sym(("b" + std::to_string(i)).c_str(), -lim, lim);
        in.push_back({a, b});
        s.add(a, b);
    }
    size_t k = 0;
    for (auto it = s.begin(); it != s.end(); ++it) { ++k; }
    if (k == 1) { vf_reach("merged"); }
    if (k >= 2) { vf_reach("several"); }
    vf_observe("count", static_cast<int64_t>(k));
    compare(s, in, lim + 1);
}

VF_ENTRY(extend) {
    int n = vf_param("n", 2), m = vf_param("m", 2), lim = vf_param("lim", 1000);
    S s, t;
    std::vector<In> in, in_t;
    vf_need("extended");
    for (int i = 0; i < n; ++i) {
        int a = vf_sym(("a" + std::to_string(i)).c_str(), -lim, lim), b = vf_sym(("b" + std::to_string(i)).c_str(), -lim, lim);
        vf_assume(a < b);
        in.push_back({a, b});
        s.add(a, b);
    }
    for (int i = 0; i < m; ++i) {
        int a = vf_sym(("c" + std::to_string(i)).c_str(), -lim, lim), b = vf_sym(("d" + std::to_string(i)).c_str(), -lim, lim);
        vf_assume(a < b);
        in_t.push_back({a, b});
        in.push_back({a, b});
        t.add(a, b);
    }
    s.extend(t);
    vf_reach("extended");
    int v = vf_sym("probe2", -lim - 1, lim + 1);
    vf_check(t.contains(v) == member(in_t, v), "argument of extend is unchanged");
    compare(s, in, lim + 1);
    S u = s;
    u.clear();
    vf_check(u.empty() & (u.begin() == u.end()), "clear empties the set");
    vf_check(s.contains(v) == member(in, v), "copies are independent");
}

VF_ENTRY(enumerate) {
    int n = vf_param("n", 2), lim = vf_param("lim", 2);
    S s;
    std::vector<In> in;
    vf_need("all"); vf_need("stopped");
    for (int i = 0; i < n; ++i) {
        int a = vf_sym(("a" + std::to_string(i)).c_str(), -lim, lim), b = vf_sym(("b" + std::to_string(i)).c_str(), -lim, lim);
        in.push_back({a, b});
        s.add(a, b);
    }
    std::vector<int> got;
    s.enumerate([&](int v) { got.push_back(v); return true; });
    size_t k = 0;
    for (int v = -lim; v <= lim; ++v) {
        if (member(in, v)) {
            vf_check(k < got.size() && got[k] == v, "enumerate visits every element in order");
            ++k;
        }
    }
    vf_check(k == got.size(), "enumerate visits nothing else");
    vf_reach("all");
    int stop = pick("stop", 1, 3), c = 0;
    s.enumerate([&](int) { return ++c < stop; });
    vf_check(c == (static_cast<int>(got.size()) < stop ? static_cast<int>(got.size()) : stop), "enumerate stops when told to");
    if (c == stop) { vf_reach("stopped"); }
}
