// Library pieces the encoded program needs as IR: allocation, libstdc++ exception objects and
// throw helpers, ctype, red-black tree primitives, a no-op fmt.
#include <cstddef>
#include <cstdint>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <variant>
#include <optional>
#include <functional>
#include <set>
#include <map>
#include <list>
#include <unordered_map>
#include <fmt/core.h>
extern "C" void *__sym_malloc(uint64_t);
extern "C" void __sym_free(void *);
extern "C" [[noreturn]] void sym_fail(const char *);
#define NI __attribute__((noinline))
void *operator new(size_t n) { void *p = __sym_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = __sym_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, std::align_val_t) { void *p = __sym_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t) { void *p = __sym_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return __sym_malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return __sym_malloc(n); }
void operator delete(void *p) noexcept { __sym_free(p); }
void operator delete[](void *p) noexcept { __sym_free(p); }
void operator delete(void *p, size_t) noexcept { __sym_free(p); }
void operator delete[](void *p, size_t) noexcept { __sym_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { __sym_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { __sym_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { __sym_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { __sym_free(p); }
extern "C" {
char __libc_single_threaded = 1;
void __cxa_bad_cast() { throw std::bad_cast(); }
// std exception classes carry no state here: only their type matters
#define EXC(n) void _ZNSt##n##C1EPKc(void *, const char *) {} void _ZNSt##n##C2EPKc(void *, const char *) {} \
  void _ZNSt##n##C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const void *) {} void _ZNSt##n##C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const void *) {} \
  void _ZNSt##n##D1Ev(void *) {} void _ZNSt##n##D2Ev(void *) {} void _ZNSt##n##D0Ev(void *) {} void _ZNSt##n##C1ERKS_(void *, const void *) {} void _ZNSt##n##C2ERKS_(void *, const void *) {} void _ZNSt##n##C1EOS_(void *, void *) {} void _ZNSt##n##C2EOS_(void *, void *) {} const char *_ZNKSt##n##4whatEv(const void *) { return "exception"; }
EXC(13runtime_error) EXC(11logic_error) EXC(12out_of_range) EXC(12length_error) EXC(16invalid_argument) EXC(12domain_error) EXC(11range_error) EXC(14overflow_error)
void _ZNSt9exceptionD1Ev(void *) {} void _ZNSt9exceptionD2Ev(void *) {} const char *_ZNKSt9exception4whatEv(const void *) { return "exception"; }
void _ZNSt9bad_allocD1Ev(void *) {} void _ZNSt9bad_allocD2Ev(void *) {} void _ZNSt20bad_array_new_lengthD1Ev(void *) {}
void _ZNSt8bad_castD1Ev(void *) {} void _ZNSt8bad_castD2Ev(void *) {}
const char *_ZNKSt9bad_alloc4whatEv(const void *) { return "std::bad_alloc"; }
}
namespace std {
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
const nothrow_t nothrow{};
void __throw_bad_optional_access_() { throw runtime_error("bad_optional_access"); }
// std::set / std::map: a binary tree kept in order (unbalanced, which only costs time)
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  h._M_color = _S_red;
}
static _Rb_tree_node_base *rbinc(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base *rbdec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { return rbinc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return rbinc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { return rbdec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return rbdec(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  _Rb_tree_node_base *r, *p = z->_M_parent;
  if (!z->_M_left || !z->_M_right) { r = z->_M_left ? z->_M_left : z->_M_right; if (r) r->_M_parent = p; }
  else { r = z->_M_right; while (r->_M_left) r = r->_M_left; if (r != z->_M_right) { _Rb_tree_node_base *q = r->_M_parent; q->_M_left = r->_M_right; if (r->_M_right) r->_M_right->_M_parent = q; r->_M_right = z->_M_right; z->_M_right->_M_parent = r; } r->_M_left = z->_M_left; z->_M_left->_M_parent = r; r->_M_parent = p; }
  if (p == &h) h._M_parent = r; else if (p->_M_left == z) p->_M_left = r; else p->_M_right = r;
  if (!h._M_parent) { h._M_left = h._M_right = &h; return z; }
  r = h._M_parent; while (r->_M_left) r = r->_M_left; h._M_left = r; r = h._M_parent; while (r->_M_right) r = r->_M_right; h._M_right = r;
  return z;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r = 13; while (r < n) r = r * 2 + 1; _M_next_resize = r; return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i <= b && b > 1) return {false, 0}; size_t r = 13; while (r < e + i) r = r * 2 + 1; _M_next_resize = r; return {true, r}; }
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *q = (const unsigned char *)p; size_t h = seed ^ 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 1099511628211ull; return h; }
}
template void std::__cxx11::basic_string<char>::_M_replace_cold(char *, size_t, const char *, size_t, size_t);
extern "C" int vsnprintf(char *p, size_t n, const char *, __builtin_va_list) { if (n > 3) { p[0] = 'n'; p[1] = 'u'; p[2] = 'm'; p[3] = 0; } return 3; }
#ifndef REAL_FMT
namespace fmt { inline namespace v9 {
std::string vformat(string_view, format_args) { return std::string("formatted"); }
namespace detail { void assert_fail(const char *, int, const char *m) { sym_fail(m); } }
void vprint(string_view, format_args) {}
} }
#endif
