// A small object model in place of Rcpp and the R C API: vectors are shared by reference, as R objects are, and calls into R are recorded.
#pragma once
#include <string>
#include <vector>
#include <set>
#include <memory>
#include <iostream>
#include <cmath>
#include <cstring>
#include <type_traits>
#include <typeinfo>
#include <stdexcept>
#include "sym.h"
enum { NILSXP = 0, CHARSXP = 9, INTSXP = 13, REALSXP = 14, STRSXP = 16, VECSXP = 19, ENVSXP = 4, CLOSXP = 3, LGLSXP = 10 };
struct SEXPREC {
  int type; std::vector<double> d; std::vector<int> i; std::vector<SEXPREC *> v; std::string s; SEXPREC *names = nullptr; std::string fname; std::vector<std::string> methods; double num = 0;
  explicit SEXPREC(int t) : type(t) {}
};
typedef SEXPREC *SEXP; typedef long R_xlen_t;
namespace mockr {
inline SEXPREC nil(NILSXP), na_string(CHARSXP); inline long prot;
inline double na_real() { uint64_t b = 0x7FF00000000007A2ull; double d; memcpy(&d, &b, 8); return d; }
void called(const std::string &name, std::vector<SEXP> &args); // the harness
inline SEXP chr(const std::string &s) { auto *c = new SEXPREC(CHARSXP); c->s = s; return c; }
}
#define R_NilValue (&mockr::nil)
#define NA_STRING (&mockr::na_string)
#define NA_REAL (mockr::na_real())
#define NA_INTEGER (-2147483647 - 1)
inline SEXP PROTECT(SEXP x) { mockr::prot++; return x; }
inline void UNPROTECT(long n) { mockr::prot -= n; sym_check(mockr::prot >= 0, "no more objects are released than protected"); }
inline bool Rf_isNull(SEXP x) { return x == R_NilValue; }
inline int TYPEOF(SEXP x) { return x->type; }
namespace Rcpp {
struct Named; struct names_proxy { SEXP o; template <class T> void operator=(const T &v); };
template <int T> struct Vec;
template <class T> SEXP wrap(const T &x);
struct attr_proxy { SEXP o; std::string n; template <class T> void operator=(const T &v); };
template <int T> struct Ref { // an element
  SEXP o; size_t i;
  Ref(SEXP q, size_t k) : o(q), i(k) {}
  template <class X> Ref &operator=(const X &x) {
    if constexpr (T == REALSXP) o->d[i] = (double)x;
    else if constexpr (T == INTSXP) o->i[i] = (int)x;
    else if constexpr (T == STRSXP) { if constexpr (std::is_same_v<X, SEXP>) o->v[i] = x; else o->v[i] = mockr::chr(std::string(x)); }
    else o->v[i] = wrap(x);
    return *this;
  }
  Ref &operator=(const Ref &r) { if constexpr (T == REALSXP) o->d[i] = r.o->d[r.i]; else if constexpr (T == INTSXP) o->i[i] = r.o->i[r.i]; else o->v[i] = r.o->v[r.i]; return *this; }
  operator double() const { if constexpr (T == REALSXP) return o->d[i]; else return o->i[i]; }
  SEXP sexp() const { return o->v[i]; }
};
template <int T> struct Vec {
  SEXP o;
  static size_t len(SEXP o) { return T == REALSXP ? o->d.size() : T == INTSXP ? o->i.size() : o->v.size(); }
  Vec() : o(new SEXPREC(T)) {}
  template <class N, class = std::enable_if_t<std::is_integral_v<N>>> explicit Vec(N n) : o(new SEXPREC(T)) { size_t k = (size_t)n; if (T == REALSXP) o->d.resize(k); else if (T == INTSXP) o->i.resize(k); else o->v.resize(k, R_NilValue); if (T == STRSXP) { static SEXPREC *e = mockr::chr(""); for (auto &x : o->v) x = e; } }
  explicit Vec(SEXP x) : o(x) {}
  Vec(const Vec &) = default; Vec &operator=(const Vec &) = default;
  R_xlen_t size() const { return (R_xlen_t)len(o); }
  R_xlen_t length() const { return size(); }
  Ref<T> operator[](size_t i) const { sym_check(i < len(o), "no access beyond the end of a vector"); return {o, i}; }
  template <class X> void push_back(const X &x) { auto *n = new SEXPREC(*o); if constexpr (T == REALSXP) n->d.push_back(x); else if constexpr (T == INTSXP) n->i.push_back(x); else n->v.push_back(nullptr); o = n; if constexpr (T == STRSXP || T == VECSXP) (*this)[len(o) - 1] = x; }
  names_proxy names() const { return {o}; }
  attr_proxy attr(const std::string &n) const { return {o, n}; }
  operator SEXP() const { return o; }
  template <class... A> static Vec create(const A &...a);
};
typedef Vec<REALSXP> NumericVector; typedef Vec<INTSXP> IntegerVector; typedef Vec<STRSXP> CharacterVector, StringVector; typedef Vec<VECSXP> List;
template <class V> V clone(const V &v) { V r; r.o = new SEXPREC(*v.o); return r; }
struct NamedValue { std::string n; SEXP v; };
struct Named { std::string n; Named(const std::string &s) : n(s) {} template <class T> NamedValue operator=(const T &x) { return {n, wrap(x)}; } };
template <int T> struct XPtrBase { SEXP o; operator SEXP() const { return o; } };
template <class T> struct XPtr : XPtrBase<0> { XPtr(T *, bool) { this->o = new SEXPREC(LGLSXP); } };
template <class T> struct is_vec : std::false_type {}; template <int T> struct is_vec<Vec<T>> : std::true_type {};
template <class T> SEXP wrap(const T &x) {
  if constexpr (std::is_same_v<T, SEXP>) return x;
  else if constexpr (is_vec<T>::value || std::is_convertible_v<T, SEXP>) return x;
  else if constexpr (std::is_same_v<T, std::vector<std::string>>) { auto *o = new SEXPREC(STRSXP); for (auto &s : x) o->v.push_back(mockr::chr(s)); return o; }
  else if constexpr (std::is_same_v<T, int> || std::is_same_v<T, short> || std::is_same_v<T, signed char>) { auto *o = new SEXPREC(INTSXP); o->i.push_back(x); return o; }
  else if constexpr (std::is_arithmetic_v<T>) { auto *o = new SEXPREC(REALSXP); o->d.push_back((double)x); return o; }
  else { auto *o = new SEXPREC(STRSXP); o->v.push_back(mockr::chr(std::string(x))); return o; }
}
template <class T> void names_proxy::operator=(const T &v) { o->names = wrap(v); }
template <class T> void attr_proxy::operator=(const T &v) { if (n == "names") o->names = wrap(v); }
template <int T> template <class... A> Vec<T> Vec<T>::create(const A &...a) { Vec r; r.o->names = new SEXPREC(STRSXP); ((r.o->v.push_back(a.v), r.o->names->v.push_back(mockr::chr(a.n))), ...); return r; }
template <class T, int K> T as_ref(const Ref<K> &r) { return r.sexp()->s; }
template <class T, int K> T as(const Ref<K> &r) { return as_ref<T>(r); }
template <class T> T as(SEXP s) { if constexpr (std::is_same_v<T, std::string>) return s->type == CHARSXP ? s->s : s->v[0]->s; else return (T)s->num; }
struct Function { SEXP o; Function(SEXP x) : o(x) {} operator SEXP() const { return o; } template <class... A> SEXP operator()(const A &...a) const { std::vector<SEXP> v; (v.push_back(wrap(a)), ...); mockr::called(o->fname, v); return R_NilValue; } };
struct Environment {
  SEXP o; Environment(SEXP x) : o(x) {}
  struct Proxy { SEXP o; std::string n; operator Function() const { auto *f = new SEXPREC(CLOSXP); f->fname = n; bool has = false; for (auto &m : o->methods) if (m == n) has = true; sym_check(has, "only functions that the sink has are used"); return Function(f); } operator size_t() const { return (size_t)o->num; } };
  bool exists(const std::string &n) const { for (auto &m : o->methods) if (m == n) return true; return false; }
  Proxy operator[](const std::string &n) const { return {o, n}; }
  static Environment Rcpp_namespace() { static SEXPREC e(ENVSXP); e.methods = {"cpp_object_maker"}; return Environment(&e); }
};
inline void stop(const char *m) { throw std::runtime_error(m); }
}
