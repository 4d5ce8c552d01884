// Models of the compiled parts of libstdc++/libc that the code under test calls; linked to the bitcode only.
#include <algorithm>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <locale>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>

namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "bad_cast"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "bad_exception"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

static const char *dup(const char *s) {
    size_t n = strlen(s);
    char *p = (char *)malloc(n + 1);
    memcpy(p, s, n + 1);
    return p;
}
__cow_string::__cow_string() : _M_p(dup("")) {}
__cow_string::__cow_string(const std::string &s) : _M_p(dup(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(dup(s)) { (void)n; }
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }

logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define ERR(N, B) N::N(const string &s) : B(s) {} N::N(const char *s) : B(s) {} N::~N() noexcept {}
ERR(domain_error, logic_error)
ERR(invalid_argument, logic_error)
ERR(length_error, logic_error)
ERR(out_of_range, logic_error)
ERR(range_error, runtime_error)
ERR(overflow_error, runtime_error)
ERR(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }

// red-black trees
typedef _Rb_tree_node_base Node;
static Node *incr(Node *x) {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        Node *y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
static Node *decr(Node *x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) {
        Node *y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        x = y;
    } else {
        Node *y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
Node *_Rb_tree_increment(Node *x) throw() { return incr(x); }
const Node *_Rb_tree_increment(const Node *x) throw() { return incr(const_cast<Node *>(x)); }
Node *_Rb_tree_decrement(Node *x) throw() { return decr(x); }
const Node *_Rb_tree_decrement(const Node *x) throw() { return decr(const_cast<Node *>(x)); }
static void rotl(Node *x, Node *&root) {
    Node *y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rotr(Node *x, Node *&root) {
    Node *y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, Node *x, Node *p, Node &header) throw() {
    Node *&root = header._M_parent;
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &header) { header._M_parent = x; header._M_right = x; }
        else if (p == header._M_left) header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        Node *const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            Node *const y = xpp->_M_right;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
            } else {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
                x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root);
            }
        } else {
            Node *const y = xpp->_M_left;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
            } else {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
                x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root);
            }
        }
    }
    root->_M_color = _S_black;
}
Node *_Rb_tree_rebalance_for_erase(Node *const z, Node &header) throw() {
    Node *&root = header._M_parent;
    Node *&leftmost = header._M_left;
    Node *&rightmost = header._M_right;
    Node *y = z, *x = nullptr, *xp = nullptr;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else {
        y = y->_M_right;
        while (y->_M_left) y = y->_M_left;
        x = y->_M_right;
    }
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        } else xp = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        std::swap(y->_M_color, z->_M_color);
        y = z;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (leftmost == z) {
            if (!z->_M_right) leftmost = z->_M_parent;
            else { Node *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
        }
        if (rightmost == z) {
            if (!z->_M_left) rightmost = z->_M_parent;
            else { Node *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
        }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                Node *w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) {
                    w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
                } else {
                    if (!w->_M_right || w->_M_right->_M_color == _S_black) {
                        w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right;
                    }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_right) w->_M_right->_M_color = _S_black;
                    rotl(xp, root);
                    break;
                }
            } else {
                Node *w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) {
                    w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
                } else {
                    if (!w->_M_left || w->_M_left->_M_color == _S_black) {
                        w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left;
                    }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_left) w->_M_left->_M_color = _S_black;
                    rotr(xp, root);
                    break;
                }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}

// hash tables
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173};
size_t __detail::_Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
    if (n < sizeof(fast)) {
        if (n == 0) return 1;
        _M_next_resize = (size_t)(long)((double)fast[n] * (double)_M_max_load_factor);
        return fast[n];
    }
    size_t k = sizeof(primes) / sizeof(primes[0]);
    for (size_t i = 6; i < k; ++i) if (primes[i] >= n) {
        _M_next_resize = (size_t)(long)((double)primes[i] * (double)_M_max_load_factor);
        return primes[i];
    }
    abort();
}
std::pair<bool, size_t> __detail::_Prime_rehash_policy::_M_need_rehash(size_t nbkt, size_t nelt, size_t nins) const {
    if (nelt + nins > _M_next_resize) {
        double mb = (double)std::max<size_t>(nelt + nins, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor;
        if (mb >= (double)nbkt) return {true, _M_next_bkt(std::max<size_t>((size_t)(long)mb + 1, nbkt * _S_growth_factor))};
        _M_next_resize = (size_t)(long)((double)nbkt * (double)_M_max_load_factor);
        return {false, 0};
    }
    return {false, 0};
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
    size_t h = seed;
    auto *x = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ x[i]) * 1099511628211ull;
    return h;
}
}
namespace std {
// the classic locale is only handed around
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(const locale &) noexcept : _M_impl(nullptr) {}
locale::~locale() noexcept {}
const locale &locale::classic() { static char mem[sizeof(locale)]; return *reinterpret_cast<const locale *>(mem); }
}
template class std::__cxx11::basic_string<char>;
