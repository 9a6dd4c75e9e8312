// Guest-only runtime: the parts of libstdc++/libc that are not header-only.
#include "vp.h"
#include <new>
#include <string>
#include <stdexcept>
#include <list>
#include <map>
#include <unordered_map>
#include <iostream>
#include <typeinfo>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
int vp_format = 0;
template class std::basic_string<char>;
namespace std {
ostream cout, cerr, clog; istream cin;
const nothrow_t nothrow = nothrow_t();
// ---- exceptions
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
type_info::~type_info() {} bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; } bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
template ostream& operator << (ostream&, const string&);
// messages are not kept (formatting is not the subject)
#define EXC2(N, B) N::N(const string& s) : B(s) {} N::N(const char* s) : B(s) {} N::~N() noexcept {}
static inline void msginit(void* p) { memset(p, 0, sizeof(void*)); }
logic_error::logic_error(const string&) { msginit((void*)((char*)this + 8)); } logic_error::logic_error(const char*) { msginit((void*)((char*)this + 8)); }
logic_error::logic_error(const logic_error&) noexcept : exception() { msginit((void*)((char*)this + 8)); }
logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return "std::logic_error"; }
runtime_error::runtime_error(const string&) { msginit((void*)((char*)this + 8)); } runtime_error::runtime_error(const char*) { msginit((void*)((char*)this + 8)); }
runtime_error::runtime_error(const runtime_error&) noexcept : exception() { msginit((void*)((char*)this + 8)); }
runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return "std::runtime_error"; }
__cow_string::__cow_string() {} __cow_string::__cow_string(const __cow_string&) noexcept {} __cow_string::~__cow_string() {}
EXC2(domain_error, logic_error) EXC2(invalid_argument, logic_error) EXC2(length_error, logic_error) EXC2(out_of_range, logic_error)
EXC2(range_error, runtime_error) EXC2(overflow_error, runtime_error) EXC2(underflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
// ---- list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
    else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
// ---- hashtable growth (the published policy of libstdc++)
static const unsigned char fastb[] = { 2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13 };
static const unsigned primes[] = { 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223, 35933, 38873, 42043, 45481, 49201, 53201, 57557, 62233, 67307 };
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    if (n < sizeof(fastb)) { if (n == 0) return 1; _M_next_resize = (size_t)__builtin_floor(fastb[n] * (double)_M_max_load_factor); return fastb[n]; }
    for (unsigned i = 0; i < sizeof(primes) / sizeof(primes[0]); ++i) if (primes[i] >= n) { _M_next_resize = (size_t)__builtin_floor(primes[i] * (double)_M_max_load_factor); return primes[i]; }
    vp_fail("hash table too large for the model");
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) { double m = (ne + ni > 11 ? ne + ni : (_M_next_resize ? ne + ni : 11)) / (double)_M_max_load_factor;
        if (!(_M_next_resize) && ne + ni < 11) m = 11 / (double)_M_max_load_factor;
        if (m >= nb) { size_t a = (size_t)__builtin_floor(m) + 1, b = nb * 2; return make_pair(true, _M_next_bkt(a > b ? a : b)); }
        _M_next_resize = (size_t)__builtin_floor(nb * (double)_M_max_load_factor); return make_pair(false, (size_t)0); }
    return make_pair(false, (size_t)0);
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; const unsigned char* c = (const unsigned char*)p; while (n--) h = (h ^ *c++) * 1099511628211ull; return h; }
// ---- red-black tree
typedef _Rb_tree_node_base NB;
NB* _Rb_tree_increment(NB* x) throw () { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const NB* _Rb_tree_increment(const NB* x) throw () { return _Rb_tree_increment(const_cast<NB*>(x)); }
NB* _Rb_tree_decrement(NB* x) throw () { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NB* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const NB* _Rb_tree_decrement(const NB* x) throw () { return _Rb_tree_decrement(const_cast<NB*>(x)); }
static void rotl(NB* x, NB*& root) { NB* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(NB* x, NB*& root) { NB* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& h) throw () {
    NB*& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        NB* const g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) { NB* const y = g->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); } }
        else { NB* const y = g->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); } }
    }
    root->_M_color = _S_black;
}
NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& h) throw () {
    NB*& root = h._M_parent; NB*& lm = h._M_left; NB*& rm = h._M_right; NB* y = z; NB* x = 0; NB* xp = 0;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
    }
    else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { NB* t = x; while (t->_M_left) t = t->_M_left; lm = t; } }
        if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { NB* t = x; while (t->_M_right) t = t->_M_right; rm = t; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black)) {
            if (x == xp->_M_left) { NB* w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; } }
            else { NB* w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; } }
        }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
}
// ---- heap
void* operator new (size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[] (size_t n) { return operator new (n); }
void* operator new (size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[] (size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete (void* p) noexcept { free(p); } void operator delete[] (void* p) noexcept { free(p); }
void operator delete (void* p, size_t) noexcept { free(p); } void operator delete[] (void* p, size_t) noexcept { free(p); }
void operator delete (void* p, const std::nothrow_t&) noexcept { free(p); } void operator delete[] (void* p, const std::nothrow_t&) noexcept { free(p); }
extern "C" {
void* __dso_handle = 0; int __gxx_personality_v0() { return 0; }
int __cxa_guard_acquire(uint64_t* g) { return *(char*)g == 0; } void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; } void __cxa_guard_abort(uint64_t*) {}
static void (* vp_ae[64])(void); static int vp_nae;
int __wrap_atexit(void (* f)(void)) { if (vp_nae < 64) vp_ae[vp_nae++] = f; return 0; }
void vp_run_atexit() { while (vp_nae) vp_ae[--vp_nae](); }
}
