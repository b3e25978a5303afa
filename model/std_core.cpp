// The parts of the C and C++ runtime libraries that are not inline in their headers: red-black trees, lists, hashing,
// strings, the throw helpers, and the C string functions.  jom uses few of them; any of them may appear in a change.
#undef __OPTIMIZE__
#include <map>
#include <list>
#include <string>
#include <unordered_map>
#include <functional>
#include <new>
#include <stdexcept>
#include <cstring>
#include <cstdlib>
#include <cwchar>
#include "sym.h"

namespace std {
// --- red-black tree (the algorithm of libstdc++)
typedef _Rb_tree_node_base N;
static N *inc(N *x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    N *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
static N *dec(N *x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { N *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    N *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
N *_Rb_tree_increment(N *x) throw() { return inc(x); }
const N *_Rb_tree_increment(const N *x) throw() { return inc(const_cast<N *>(x)); }
N *_Rb_tree_decrement(N *x) throw() { return dec(x); }
const N *_Rb_tree_decrement(const N *x) throw() { return dec(const_cast<N *>(x)); }
static void rotl(N *const x, N *&root) {
    N *const y = x->_M_right;
    x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void rotr(N *const x, N *&root) {
    N *const y = x->_M_left;
    x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &h) throw() {
    N *&root = h._M_parent;
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
    } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        N *const g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) {
            N *const u = g->_M_right;
            if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
                x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root);
            }
        } else {
            N *const u = g->_M_left;
            if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
                x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root);
            }
        }
    }
    root->_M_color = _S_black;
}
N *_Rb_tree_rebalance_for_erase(N *const z, N &h) throw() {
    N *&root = h._M_parent; N *&lm = h._M_left; N *&rm = h._M_right;
    N *y = z, *x = nullptr, *xp = nullptr;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
        } else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { N *m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
        if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { N *m = x; while (m->_M_right) m = m->_M_right; rm = m; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                N *w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
                }
            } else {
                N *w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
                }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
// --- lists
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
    if (this == l) return;
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base *const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// --- hash tables: the growth policy only affects the number of buckets
static size_t prime(size_t n) { static const size_t t[] = { 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033 }; for (size_t p : t) if (p >= n) return p; return n | 1; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = prime(n); _M_next_resize = p; return p; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) {
        size_t want = ne + ni; if (!_M_next_resize && want < 11) want = 11;
        if (want >= nb) return { true, _M_next_bkt(want + 1 > 2 * nb ? want + 1 : 2 * nb) };
        _M_next_resize = nb;
    }
    return { false, 0 };
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *b = (const unsigned char *)p; size_t h = seed; while (n--) h = h * 131 + *b++; return h; }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
#define T(f) void f(const char *) { sym_fail("exception of the C++ library: " #f); __builtin_unreachable(); }
T(__throw_length_error) T(__throw_logic_error) T(__throw_out_of_range) T(__throw_invalid_argument) T(__throw_runtime_error) T(__throw_domain_error) T(__throw_range_error) T(__throw_overflow_error)
#undef T
void __throw_out_of_range_fmt(const char *, ...) { sym_fail("exception of the C++ library: out_of_range"); __builtin_unreachable(); }
#define T(f) void f() { sym_fail("exception of the C++ library: " #f); __builtin_unreachable(); }
T(__throw_bad_alloc) T(__throw_bad_array_new_length) T(__throw_bad_function_call) T(__throw_bad_exception) T(__throw_bad_cast)
#undef T
const nothrow_t nothrow{};
}
template class std::__cxx11::basic_string<char>;
template class std::__cxx11::basic_string<wchar_t>;

extern "C" {
#define NM(ret, n, args) ret m_##n args __asm__(#n); ret m_##n args
NM(char *, strrchr, (const char *s, int c)) { const char *r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
NM(void *, memchr, (const void *p, int c, size_t n)) { const unsigned char *b = (const unsigned char *)p; for (; n; --n, ++b) if (*b == (unsigned char)c) return (void *)b; return nullptr; }
NM(char *, strstr, (const char *h, const char *n)) { size_t l = strlen(n); for (;; ++h) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return nullptr; } }
NM(char *, strpbrk, (const char *s, const char *a)) { for (; *s; ++s) for (const char *t = a; *t; ++t) if (*s == *t) return (char *)s; return nullptr; }
NM(size_t, strspn, (const char *s, const char *a)) { size_t n = 0; for (; s[n]; ++n) { const char *t = a; while (*t && *t != s[n]) ++t; if (!*t) break; } return n; }
NM(size_t, strcspn, (const char *s, const char *a)) { size_t n = 0; for (; s[n]; ++n) for (const char *t = a; *t; ++t) if (*t == s[n]) return n; return n; }
NM(size_t, strnlen, (const char *s, size_t m)) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
NM(char *, strcpy, (char *d, const char *s)) { char *r = d; while ((*d++ = *s++)) {} return r; }
NM(char *, strncpy, (char *d, const char *s, size_t n)) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
NM(char *, strcat, (char *d, const char *s)) { m_strcpy(d + strlen(d), s); return d; }
NM(char *, strncat, (char *d, const char *s, size_t n)) { char *e = d + strlen(d); while (n-- && *s) *e++ = *s++; *e = 0; return d; }
NM(char *, strdup, (const char *s)) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); memcpy(p, s, n); return p; }
static int low(int c) { return ((c >= 'A') & (c <= 'Z')) ? c + 32 : c; }
NM(int, strcasecmp, (const char *a, const char *b)) { while (*a && low((unsigned char)*a) == low((unsigned char)*b)) { ++a; ++b; } return low((unsigned char)*a) - low((unsigned char)*b); }
NM(int, strncasecmp, (const char *a, const char *b, size_t n)) { for (; n; --n, ++a, ++b) { int x = low((unsigned char)*a), y = low((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
NM(int, isupper, (int c)) { return (c >= 'A') & (c <= 'Z'); }
NM(int, islower, (int c)) { return (c >= 'a') & (c <= 'z'); }
NM(int, isxdigit, (int c)) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
NM(int, isblank, (int c)) { return (c == ' ') | (c == '\t'); }
NM(int, iscntrl, (int c)) { return ((c >= 0) & (c < 32)) | (c == 127); }
NM(int, isprint, (int c)) { return (c >= 32) & (c < 127); }
NM(int, isgraph, (int c)) { return (c > 32) & (c < 127); }
NM(int, ispunct, (int c)) { return ((c > 32) & (c < 48)) | ((c > 57) & (c < 65)) | ((c > 90) & (c < 97)) | ((c > 122) & (c < 127)); }
NM(size_t, wcslen, (const wchar_t *s)) { size_t n = 0; while (s[n]) ++n; return n; }
NM(int, wcscmp, (const wchar_t *a, const wchar_t *b)) { while (*a && *a == *b) { ++a; ++b; } return *a < *b ? -1 : *a > *b; }
NM(int, wcsncmp, (const wchar_t *a, const wchar_t *b, size_t n)) { for (; n; --n, ++a, ++b) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } return 0; }
NM(wchar_t *, wcscpy, (wchar_t *d, const wchar_t *s)) { wchar_t *r = d; while ((*d++ = *s++)) {} return r; }
NM(wchar_t *, wcsncpy, (wchar_t *d, const wchar_t *s, size_t n)) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
NM(wchar_t *, wcschr, (const wchar_t *s, wchar_t c)) { for (;; ++s) { if (*s == c) return (wchar_t *)s; if (!*s) return nullptr; } }
NM(wchar_t *, wcsrchr, (const wchar_t *s, wchar_t c)) { const wchar_t *r = nullptr; for (;; ++s) { if (*s == c) r = s; if (!*s) return (wchar_t *)r; } }
NM(wchar_t *, wmemcpy, (wchar_t *d, const wchar_t *s, size_t n)) { memcpy(d, s, n * sizeof *d); return d; }
NM(wchar_t *, wmemmove, (wchar_t *d, const wchar_t *s, size_t n)) { memmove(d, s, n * sizeof *d); return d; }
NM(wchar_t *, wmemset, (wchar_t *d, wchar_t c, size_t n)) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
NM(int, wmemcmp, (const wchar_t *a, const wchar_t *b, size_t n)) { for (; n; --n, ++a, ++b) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
NM(const wchar_t *, wmemchr, (const wchar_t *s, wchar_t c, size_t n)) { for (; n; --n, ++s) if (*s == c) return s; return nullptr; }
static unsigned long ul(const char *s, char **e, int b) {
    const char *p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
    bool neg = *p == '-'; if (neg || *p == '+') ++p;
    if ((b == 0 || b == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; b = 16; } else if (b == 0) b = *p == '0' ? 8 : 10;
    unsigned long v = 0; bool any = false;
    for (;; ++p) { int c = (unsigned char)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (low(c) >= 'a' && low(c) <= 'z') d = low(c) - 'a' + 10; else break; if (d >= b) break; any = true; v = v * (unsigned long)b + (unsigned long)d; }
    if (e) *e = const_cast<char *>(any ? p : s);
    return neg ? 0 - v : v;
}
NM(unsigned long, strtoul, (const char *s, char **e, int b)) { return ul(s, e, b); }
NM(unsigned long, strtoull, (const char *s, char **e, int b)) { return ul(s, e, b); }
NM(unsigned long, __isoc23_strtoul, (const char *s, char **e, int b)) { return ul(s, e, b); }
NM(unsigned long, __isoc23_strtoull, (const char *s, char **e, int b)) { return ul(s, e, b); }
NM(int, abs, (int v)) { return v < 0 ? -v : v; }
// single-threaded: these always succeed
NM(int, pthread_mutex_lock, (void *)) { return 0; }
NM(int, pthread_mutex_trylock, (void *)) { return 0; }
NM(int, pthread_mutex_unlock, (void *)) { return 0; }
NM(int, pthread_once, (int *o, void (*f)(void))) { if (!*o) { *o = 1; f(); } return 0; }
}
