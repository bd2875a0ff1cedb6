// Runtime for the symbolic executor: the compiled (non-template) parts of libstdc++ and the
// handful of C library functions the analysed code calls, written over bitcode-able C++.
#include <string>
#include <new>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <locale>
#include <ios>
#include <istream>
#include <ostream>
#include <sstream>
#include <iostream>
#include <map>
#include <list>
#include <unordered_map>
#include <functional>
#include <system_error>
#include <future>
#include <memory>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <climits>
#include "psisym.h"
#undef isdigit
#undef isspace
#undef isalpha
#undef isalnum
#undef isupper
#undef islower
#undef isxdigit
#undef ispunct
#undef isprint
#undef iscntrl
#undef isgraph
#undef toupper
#undef tolower
#undef errno
#undef stdin
#undef stdout
#undef stderr

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info* t, void**, unsigned) const { return *this == *t; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
__cow_string::__cow_string() { _M_p = new char[1]; *const_cast<char*>(_M_p) = 0; }
__cow_string::__cow_string(const string& s) { char* q = new char[s.size() + 1]; memcpy(q, s.c_str(), s.size() + 1); _M_p = q; }
__cow_string::__cow_string(const char* s, size_t n) { char* q = new char[n + 1]; memcpy(q, s, n); q[n] = 0; _M_p = q; }
__cow_string::__cow_string(const __cow_string& o) noexcept { size_t n = strlen(o._M_p); char* q = new char[n + 1]; memcpy(q, o._M_p, n + 1); _M_p = q; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { size_t n = strlen(o._M_p); char* q = new char[n + 1]; memcpy(q, o._M_p, n + 1); delete[] _M_p; _M_p = q; } return *this; }
__cow_string::~__cow_string() { delete[] _M_p; }
#define EXC(N, B) N::N(const string& s) : B(s) {} N::N(const char* s) : B(s) {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
domain_error::~domain_error() noexcept {}
invalid_argument::~invalid_argument() noexcept {}
length_error::~length_error() noexcept {}
out_of_range::~out_of_range() noexcept {}
range_error::~range_error() noexcept {}
overflow_error::~overflow_error() noexcept {}
underflow_error::~underflow_error() noexcept {}
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_ios_failure(const char* s) { throw ios_base::failure(s); }
void __throw_ios_failure(const char* s, int) { throw ios_base::failure(s); }
// std::ios_base::failure
bool uncaught_exception() noexcept { return uncaught_exceptions() > 0; }
void ios_base_library_init() {}
struct psi_cat : error_category { const char* name() const noexcept { return "psi"; } string message(int) const { return "error"; } };
}
namespace std {
inline namespace _V2 {
error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
static psi_cat psiCat;
const error_category& generic_category() noexcept { return psiCat; }
const error_category& system_category() noexcept { return psiCat; }
}
const error_category& iostream_category() noexcept { return _V2::psiCat; }
system_error::~system_error() noexcept {}
ios_base::failure::failure(const string& s) : system_error(error_code(1, iostream_category()), s) {}
ios_base::failure::failure(const string& s, const error_code& e) : system_error(e, s) {}
ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const throw() { return runtime_error::what(); }
const nothrow_t nothrow = nothrow_t{};
}
extern "C" void psirt_throw_bad_alloc() { throw std::bad_alloc(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" int __cxa_guard_acquire(long long* g) { if (*(char*)g) return 0; return 1; }
extern "C" void __cxa_guard_release(long long* g) { *(char*)g = 1; }
extern "C" void __cxa_guard_abort(long long*) {}
extern "C" { void* __dso_handle = 0; }

// ---------------------------------------------------------------- trees, lists, hash policy
namespace std {
static _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x) {
    if (x->_M_right != 0) { x = x->_M_right; while (x->_M_left != 0) x = x->_M_left; }
    else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rb_inc(const_cast<_Rb_tree_node_base*>(x)); }
static _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left != 0) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right != 0) y = y->_M_right; x = y; }
    else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rb_dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotL(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    _Rb_tree_node_base* y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left != 0) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    _Rb_tree_node_base* y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right != 0) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
    } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            _Rb_tree_node_base* const y = xpp->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); }
                x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root);
            }
        } else {
            _Rb_tree_node_base* const y = xpp->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); }
                x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root);
            }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& leftmost = h._M_left; _Rb_tree_node_base*& rightmost = h._M_right;
    _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0; _Rb_tree_node_base* xp = 0;
    if (y->_M_left == 0) x = y->_M_right;
    else if (y->_M_right == 0) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left != 0) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
        else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
        y = z;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
        if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (x == 0 || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                _Rb_tree_node_base* w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
                if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_right) w->_M_right->_M_color = _S_black;
                    rotL(xp, root); break;
                }
            } else {
                _Rb_tree_node_base* w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
                if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_left) w->_M_left->_M_color = _S_black;
                    rotR(xp, root); break;
                }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = this->_M_next; _List_node_base* const q = this->_M_prev; q->_M_next = n; n->_M_prev = q; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
static const size_t psiPrimes[] = {1, 2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
    if (n < sizeof fast) { if (n == 0) return 1; _M_next_resize = (size_t)(fast[n] * (double)_M_max_load_factor); return fast[n]; }
    for (size_t i = 7; i < sizeof psiPrimes / sizeof *psiPrimes; i++) if (psiPrimes[i] >= n) { _M_next_resize = (size_t)(psiPrimes[i] * (double)_M_max_load_factor); return psiPrimes[i]; }
    abort();
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) {
        double mb = std::max<size_t>(ne + ni, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor;
        if (mb >= nb) return {true, _M_next_bkt(std::max<size_t>((size_t)mb + 1, nb * 2))};
        _M_next_resize = (size_t)(nb * (double)_M_max_load_factor);
        return {false, 0};
    }
    return {false, 0};
}
} // __detail
// hashing: unordered containers work for any hash function; a constant one keeps addresses concrete
size_t _Hash_bytes(const void*, size_t len, size_t) { return len; }
size_t _Fnv_hash_bytes(const void*, size_t len, size_t) { return len; }
}

// ---------------------------------------------------------------- locale and streams
namespace std {
_Atomic_word locale::id::_S_refcount;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++_S_refcount; return _M_index - 1; }
locale::facet::~facet() {}
locale::_Impl* locale::_S_classic; locale::_Impl* locale::_S_global;
static const locale::facet* psiFacets[64]; static const locale::facet* psiCaches[64];
locale::locale() throw() : _M_impl(_S_classic) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::locale(const char*) : _M_impl(_S_classic) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
string locale::name() const { return "C"; }
const locale& locale::classic() { static locale l; return l; }
locale locale::global(const locale& l) { return l; }
void locale::_Impl::_M_install_cache(const facet* c, size_t i) { psiCaches[i] = c; }
void locale::_Impl::_M_install_facet(const locale::id* id, const facet* f) { size_t i = id->_M_id(); if (i >= 64) abort(); psiFacets[i] = f; }
locale::id ctype<char>::id;
static ctype_base::mask psiCt[256];
const ctype_base::mask ctype_base::upper, ctype_base::lower, ctype_base::alpha, ctype_base::digit, ctype_base::xdigit, ctype_base::space, ctype_base::print, ctype_base::graph, ctype_base::cntrl, ctype_base::punct, ctype_base::alnum, ctype_base::blank;
const ctype_base::mask* ctype<char>::classic_table() throw() { return psiCt; }
ctype<char>::ctype(const mask*, bool, size_t r) : facet(r), _M_del(false), _M_toupper(0), _M_tolower(0), _M_table(psiCt), _M_widen_ok(0), _M_narrow_ok(0) {}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (unsigned char)c < 128 ? (char)::toupper((unsigned char)c) : c; }
char ctype<char>::do_tolower(char c) const { return (unsigned char)c < 128 ? (char)::tolower((unsigned char)c) : c; }
const char* ctype<char>::do_toupper(char* a, const char* b) const { for (; a < b; a++) *a = do_toupper(*a); return b; }
const char* ctype<char>::do_tolower(char* a, const char* b) const { for (; a < b; a++) *a = do_tolower(*a); return b; }
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; i++) _M_widen[i] = (char)i; _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; i++) _M_narrow[i] = (char)i; _M_narrow_ok = 1; }
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {
    if (!_M_data) _M_data = new __numpunct_cache<char>;
    _M_data->_M_grouping = ""; _M_data->_M_grouping_size = 0; _M_data->_M_use_grouping = false;
    _M_data->_M_decimal_point = '.'; _M_data->_M_thousands_sep = ',';
    for (size_t i = 0; i < __num_base::_S_oend; i++) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
    for (size_t i = 0; i < __num_base::_S_iend; i++) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
    _M_data->_M_truename = "true"; _M_data->_M_truename_size = 4; _M_data->_M_falsename = "false"; _M_data->_M_falsename_size = 5;
}
template <> numpunct<char>::~numpunct() {}
const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
void __num_base::_S_format_float(const ios_base& io, char* f, char mod) throw() {
    ios_base::fmtflags fl = io.flags(); *f++ = '%';
    if (fl & ios_base::showpos) *f++ = '+';
    if (fl & ios_base::showpoint) *f++ = '#';
    ios_base::fmtflags ff = fl & ios_base::floatfield;
    *f++ = '.'; *f++ = '*';
    if (mod) *f++ = mod;
    bool up = fl & ios_base::uppercase;
    *f++ = ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? (up ? 'E' : 'e') : (up ? 'G' : 'g');
    *f = 0;
}
template <> void __convert_to_v(const char* s, float& v, ios_base::iostate& e, const __c_locale&) throw() { char* p; v = strtof(s, &p); if (p == s || *p) { v = 0; e = ios_base::failbit; } }
template <> void __convert_to_v(const char* s, double& v, ios_base::iostate& e, const __c_locale&) throw() { char* p; v = strtod(s, &p); if (p == s || *p) { v = 0; e = ios_base::failbit; } }
template <> void __convert_to_v(const char* s, long double& v, ios_base::iostate& e, const __c_locale&) throw() { char* p; v = strtold(s, &p); if (p == s || *p) { v = 0; e = ios_base::failbit; } }
bool __verify_grouping(const char*, size_t, const string&) throw() { return true; }
__c_locale locale::facet::_S_get_c_locale() { return 0; }
__c_locale locale::facet::_S_clone_c_locale(__c_locale&) throw() { return 0; }
void locale::facet::_S_destroy_c_locale(__c_locale&) {}
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale& l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
bool ios_base::sync_with_stdio(bool b) { return b; }
int ios_base::xalloc() throw() { static int n = 0; return n++; }
ios_base::_Words& ios_base::_M_grow_words(int, bool) { return _M_word_zero; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
template <> locale::id collate<char>::id;
template <> int collate<char>::_M_compare(const char* a, const char* b) const throw() { int r = __builtin_strcmp(a, b); return (r > 0) - (r < 0); }
template <> size_t collate<char>::_M_transform(char* d, const char* s, size_t n) const throw() { size_t l = __builtin_strlen(s); for (size_t i = 0; i < n && i <= l; i++) d[i] = s[i]; return l; }
alignas(16) static char psiImpl[sizeof(locale::_Impl)], psiCtypeBuf[sizeof(ctype<char>)], psiPutBuf[sizeof(num_put<char>)], psiGetBuf[sizeof(num_get<char>)], psiPunBuf[sizeof(numpunct<char>)], psiCollBuf[sizeof(collate<char>)];
struct PsiLocInit {
    PsiLocInit() {
        for (int i = 0; i < 256; i++) {
            ctype_base::mask m = 0;
            if (isupper(i)) m |= ctype_base::upper; if (islower(i)) m |= ctype_base::lower; if (isalpha(i)) m |= ctype_base::alpha; if (isdigit(i)) m |= ctype_base::digit;
            if (isxdigit(i)) m |= ctype_base::xdigit; if (isspace(i)) m |= ctype_base::space; if (isprint(i)) m |= ctype_base::print; if (iscntrl(i)) m |= ctype_base::cntrl; if (ispunct(i)) m |= ctype_base::punct; if (isblank(i)) m |= ctype_base::blank;
            psiCt[i] = m;
        }
        locale::_Impl* I = (locale::_Impl*)psiImpl;
        I->_M_facets = psiFacets; I->_M_facets_size = 64; I->_M_caches = psiCaches; I->_M_names = 0;
        locale::_S_classic = locale::_S_global = I;
        I->_M_install_facet(&ctype<char>::id, new (psiCtypeBuf) ctype<char>(0, false, 1));
        I->_M_install_facet(&num_put<char>::id, new (psiPutBuf) num_put<char>(1));
        I->_M_install_facet(&num_get<char>::id, new (psiGetBuf) num_get<char>(1));
        numpunct<char>* np = new (psiPunBuf) numpunct<char>((__numpunct_cache<char>*)0, 1);
        I->_M_install_facet(&numpunct<char>::id, np);
        I->_M_install_facet(&collate<char>::id, new (psiCollBuf) collate<char>((size_t)1));
    }
};
static PsiLocInit psiLocInit __attribute__((init_priority(101)));
}
namespace psi_streams {
alignas(16) static char coutB[sizeof(std::ostream)], cerrB[sizeof(std::ostream)];
}
namespace std {
ostream cout __attribute__((init_priority(102)))(0);
ostream cerr __attribute__((init_priority(102)))(0);
ostream clog __attribute__((init_priority(102)))(0);
istream cin __attribute__((init_priority(102)))(0);
// streams over std::string rely on these specialisations being present
template <> streamsize __copy_streambufs_eof(basic_streambuf<char>* in, basic_streambuf<char>* out, bool& eof) {
    streamsize n = 0; eof = true;
    int c = in->sgetc();
    while (c != EOF) { if (out->sputc((char)c) == EOF) { eof = false; break; } n++; c = in->snextc(); }
    return n;
}
template <> basic_istream<char>& basic_istream<char>::getline(char* s, streamsize n, char d) {
    _M_gcount = 0; ios_base::iostate err = ios_base::goodbit;
    sentry cerb(*this, true);
    if (cerb) {
        streambuf* sb = rdbuf(); int c = sb->sgetc();
        while (_M_gcount + 1 < n && c != EOF && (char)c != d) { *s++ = (char)c; c = sb->snextc(); ++_M_gcount; }
        if (c == EOF) err |= ios_base::eofbit;
        else if ((char)c == d) { ++_M_gcount; sb->sbumpc(); }
        else err |= ios_base::failbit;
    }
    if (n > 0) *s = 0;
    if (!_M_gcount) err |= ios_base::failbit;
    if (err) setstate(err);
    return *this;
}
template <> basic_istream<char>& basic_istream<char>::ignore(streamsize n) {
    _M_gcount = 0; sentry cerb(*this, true);
    if (cerb && n > 0) {
        ios_base::iostate err = ios_base::goodbit; streambuf* sb = rdbuf(); int c = sb->sgetc();
        while ((_M_gcount < n || n == __gnu_cxx::__numeric_traits<streamsize>::__max) && c != EOF) { ++_M_gcount; c = sb->snextc(); }
        if (c == EOF && _M_gcount < n) err |= ios_base::eofbit;
        if (err) setstate(err);
    }
    return *this;
}
template <> basic_istream<char>& basic_istream<char>::ignore(streamsize n, int d) {
    _M_gcount = 0; sentry cerb(*this, true);
    if (cerb && n > 0) {
        ios_base::iostate err = ios_base::goodbit; streambuf* sb = rdbuf(); int c = sb->sgetc();
        while ((_M_gcount < n || n == __gnu_cxx::__numeric_traits<streamsize>::__max) && c != EOF && c != d) { ++_M_gcount; c = sb->snextc(); }
        if (c == EOF && _M_gcount < n) err |= ios_base::eofbit;
        else if (c == d && _M_gcount < n) { ++_M_gcount; sb->sbumpc(); }
        if (err) setstate(err);
    }
    return *this;
}
template <> basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& str) {
    ios_base::iostate err = ios_base::goodbit; size_t ex = 0;
    istream::sentry cerb(in, false);
    if (cerb) {
        str.erase();
        streamsize w = in.width(); size_t n = w > 0 ? (size_t)w : str.max_size();
        const ctype<char>& ct = use_facet<ctype<char> >(in.getloc());
        int c = in.rdbuf()->sgetc();
        while (ex < n && c != EOF && !ct.is(ctype_base::space, (char)c)) { str += (char)c; ++ex; c = in.rdbuf()->snextc(); }
        if (ex < n && c == EOF) err |= ios_base::eofbit;
        in.width(0);
    }
    if (!ex) err |= ios_base::failbit;
    if (err) in.setstate(err);
    return in;
}
template <> basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& str, char d) {
    ios_base::iostate err = ios_base::goodbit; size_t ex = 0; const size_t n = str.max_size();
    istream::sentry cerb(in, true);
    if (cerb) {
        str.erase();
        int c = in.rdbuf()->sgetc();
        while (ex < n && c != EOF && (char)c != d) { str += (char)c; ++ex; c = in.rdbuf()->snextc(); }
        if (c == EOF) err |= ios_base::eofbit;
        else if ((char)c == d) { ++ex; in.rdbuf()->sbumpc(); }
        else err |= ios_base::failbit;
    }
    if (!ex) err |= ios_base::failbit;
    if (err) in.setstate(err);
    return in;
}
}
// std::tr1::unordered_map
namespace std { namespace tr1 { namespace __detail { extern const unsigned long __prime_list[305]; const unsigned long __prime_list[305] = {
#include "tr1_primes.inc"
}; } } }
