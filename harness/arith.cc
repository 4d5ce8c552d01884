// Safe arithmetic, rounding division, midpoint and casts: exact result or exception, never a wrapped value.
#include "vf.h"
#include <clingcon/base.hh>
#include <clingcon/util.hh>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <type_traits>
using namespace Clingcon;

template <class I, class W> static void safe_ops() {
    int op = static_cast<int>(vf_param("op", 0));
    int64_t lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
    int64_t sm = vf_param("small", 0); // bound of the second/first operand
    int side = static_cast<int>(vf_param("side", 1));
    I a = static_cast<I>(sm != 0 && side == 0 ? vf_concrete(vf_sym("a", -sm, sm)) : vf_sym("a", lo, hi));
    I b = static_cast<I>(sm != 0 && side == 1 ? vf_concrete(vf_sym("b", -sm, sm)) : vf_sym("b", lo, hi));
    W wa = a, wb = b, exact = 0;
    bool defined = true;
    switch (op) {
        case 0: exact = wa + wb; break;
        case 1: exact = wa - wb; break;
        case 2: exact = wa * wb; break;
        case 3: if (b == 0) defined = false; else exact = wa / wb; break;
        case 4: if (b == 0) defined = false; else exact = wa - wb * (wa / wb); break;
        case 5: exact = -wa; break;
    }
    bool fits = defined && exact >= lo && exact <= hi;
    I r = 0;
    bool thrown = false;
    try {
        switch (op) {
            case 0: r = safe_add<I>(a, b); break;
            case 1: r = safe_sub<I>(a, b); break;
            case 2: r = safe_mul<I>(a, b); break;
            case 3: r = safe_div<I>(a, b); break;
            case 4: r = safe_mod<I>(a, b); break;
            case 5: r = safe_inv<I>(a); break;
        }
    } catch (std::overflow_error const &) { thrown = true; } catch (std::underflow_error const &) { thrown = true; }
    vf_need("result exact");
    vf_need("throws exactly if unrepresentable");
    if (sm != 1) vf_need("throwing path");
    if (thrown) {
        vf_reach("throwing path");
        // modulo may refuse min % -1 although the result is representable
        if (op == 4) vf_check(!defined || (a == std::numeric_limits<I>::min() && b == -1), "throws exactly if unrepresentable");
        else vf_check(!fits, "throws exactly if unrepresentable");
    } else {
        vf_check(fits, "throws exactly if unrepresentable");
        vf_check(static_cast<W>(r) == exact, "result exact");
        vf_observe("r", r);
    }
}
VF_ENTRY(safe8) { safe_ops<int8_t, int64_t>(); }
VF_ENTRY(safe32) { safe_ops<int32_t, int64_t>(); }
VF_ENTRY(safe64) { safe_ops<int64_t, __int128>(); }

// floor/ceiling division: q is the largest (smallest) integer with q*m <= n for m > 0 etc.
template <class I, class W> static void rounding() {
    int64_t sm = vf_param("small", 0), sn = vf_param("range", 0);
    bool ceil = vf_param("ceil", 0) != 0;
    I m = static_cast<I>(vf_concrete(vf_sym("m", -sm, sm)));
    I n = static_cast<I>(sn != 0 ? vf_sym("n", -sn, sn) : vf_sym("n", std::numeric_limits<I>::min(), std::numeric_limits<I>::max()));
    vf_assume(m != 0);
    vf_assume(!(m == -1 && n == std::numeric_limits<I>::min()));
    I q = ceil ? ceildiv<I>(n, m) : floordiv<I>(n, m);
    W r = static_cast<W>(n) - static_cast<W>(q) * static_cast<W>(m);
    vf_need("rounding");
    // n = q*m + r with the remainder on the right side
    if (!ceil) vf_check(m > 0 ? (r >= 0 && r < m) : (r <= 0 && r > m), "rounding");
    else vf_check(m > 0 ? (r <= 0 && r > -static_cast<W>(m)) : (r >= 0 && r < -static_cast<W>(m)), "rounding");
    vf_observe("q", q);
}
VF_ENTRY(round32) { rounding<int32_t, int64_t>(); }
VF_ENTRY(round64) { rounding<int64_t, __int128>(); }

template <class I, class W> static void mid() {
    I a = static_cast<I>(vf_sym("a", std::numeric_limits<I>::min(), std::numeric_limits<I>::max()));
    I b = static_cast<I>(vf_sym("b", std::numeric_limits<I>::min(), std::numeric_limits<I>::max()));
    vf_assume(a <= b);
    I c = midpoint<I>(a, b);
    vf_need("midpoint within interval");
    vf_check(a <= c && c <= b, "midpoint within interval");
    W d = (static_cast<W>(c) - a) - (static_cast<W>(b) - c);
    vf_check(d == 0 || d == -1, "midpoint halves the interval");
    vf_observe("c", c);
}
VF_ENTRY(mid32) { mid<int32_t, int64_t>(); }
VF_ENTRY(mid64) { mid<int64_t, __int128>(); }

template <class T, class S> static void cast1(S s) {
    __int128 w = s;
    bool fits = w >= static_cast<__int128>(std::numeric_limits<T>::min()) && w <= static_cast<__int128>(std::numeric_limits<T>::max());
    bool thrown = false;
    T t = 0;
    try { t = safe_cast<T>(s); } catch (std::overflow_error const &) { thrown = true; }
    vf_need("cast throws exactly if the value does not fit");
    vf_check(thrown == !fits, "cast throws exactly if the value does not fit");
    if (!thrown) vf_check(static_cast<__int128>(t) == w, "cast preserves the value");
    vf_observe("thrown", thrown);
}
VF_ENTRY(casts) {
    int64_t s = vf_sym("s", std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max());
    switch (pick("kind", 0, 7)) {
        case 0: cast1<int32_t, int64_t>(s); break;
        case 1: cast1<uint32_t, int64_t>(s); break;
        case 2: cast1<uint32_t, int32_t>(static_cast<int32_t>(s)); break;
        case 3: cast1<int32_t, uint32_t>(static_cast<uint32_t>(s)); break;
        case 4: cast1<int32_t, uint64_t>(static_cast<uint64_t>(s)); break;
        case 5: cast1<uint32_t, uint64_t>(static_cast<uint64_t>(s)); break;
        case 6: cast1<int64_t, int32_t>(static_cast<int32_t>(s)); break;
        case 7: cast1<uint64_t, int64_t>(s); break;
    }
}
// values accepted as integer constants or bounds lie within [MIN_VAL, MAX_VAL]
VF_ENTRY(valid) {
    int64_t s = vf_sym("s", std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max());
    bool thrown = false;
    try {
        if (pick("width", 0, 1) == 0) check_valid_value(s);
        else check_valid_value(static_cast<int32_t>(s = static_cast<int32_t>(s)));
    } catch (std::overflow_error const &) { thrown = true; } catch (std::underflow_error const &) { thrown = true; }
    vf_need("value check");
    vf_check(thrown == !(s >= -1073741823 && s <= 1073741823), "value check");
    vf_observe("thrown", thrown);
}
