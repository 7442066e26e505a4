// A small object model in place of Boost.Python and the Python C API: objects record what the sinks hand over and count references.
#pragma once
#include <boost/noncopyable.hpp>
#include <boost/ref.hpp>
#include <boost/shared_ptr.hpp>
#include <string>
#include <vector>
#include <set>
#include <memory>
#include <cstring>
#include <type_traits>
#include "sym.h"
struct PyObject {
  enum Kind { NONE, FLOAT, INT, BYTES, STR, LIST, DICT, DATE, DATETIME, TIME, DELTA, OPAQUE, SINK } kind; long refs = 1;
  double d = 0; long l = 0; std::string s; std::vector<PyObject *> items; std::vector<std::string> keys; long t[7] = {}; const void *p = nullptr; std::vector<std::string> methods;
  explicit PyObject(Kind k) : kind(k) {}
};
typedef long Py_ssize_t;
namespace mockpy {
inline PyObject none(PyObject::NONE);
inline void alive(PyObject *o) { sym_check(o != nullptr && o->refs > 0, "no use of a released Python object"); }
struct Call { PyObject *self; std::string name; std::vector<PyObject *> args; };
void called(PyObject *self, const char *name, std::vector<PyObject *> &args); // the harness
inline bool isMethod(PyObject *o, const char *n) { for (auto &m : o->methods) if (m == n) return true; return false; }
}
#define Py_None (&mockpy::none)
inline void Py_INCREF(PyObject *o) { mockpy::alive(o); o->refs++; }
inline void Py_DECREF(PyObject *o) { mockpy::alive(o); if (--o->refs == 0) { for (auto *i : o->items) Py_DECREF(i); o->items.clear(); } }
inline void Py_XINCREF(PyObject *o) { if (o) Py_INCREF(o); }
inline void Py_XDECREF(PyObject *o) { if (o) Py_DECREF(o); }
inline PyObject *Py_NewRef(PyObject *o) { Py_INCREF(o); return o; }
#define Py_RETURN_NONE return Py_NewRef(Py_None)
inline PyObject *PyFloat_FromDouble(double d) { auto *o = new PyObject(PyObject::FLOAT); o->d = d; return o; }
inline PyObject *PyLong_FromLong(long l) { auto *o = new PyObject(PyObject::INT); o->l = l; return o; }
inline PyObject *PyLong_FromLongLong(long long l) { return PyLong_FromLong((long)l); }
inline PyObject *PyLong_FromSize_t(size_t l) { return PyLong_FromLong((long)l); }
inline PyObject *PyBytes_FromStringAndSize(const char *p, Py_ssize_t n) { auto *o = new PyObject(PyObject::BYTES); o->s.assign(p, (size_t)n); return o; }
inline PyObject *PyUnicode_FromStringAndSize(const char *p, Py_ssize_t n) { auto *o = new PyObject(PyObject::STR); o->s.assign(p, (size_t)n); return o; }
inline bool PyUnicode_Check(PyObject *o) { return o->kind == PyObject::STR; }
inline PyObject *PyList_New(Py_ssize_t n) { auto *o = new PyObject(PyObject::LIST); o->items.resize((size_t)n); return o; }
inline bool PyList_Check(PyObject *o) { return o->kind == PyObject::LIST; }
inline Py_ssize_t PyList_Size(PyObject *o) { return (Py_ssize_t)o->items.size(); }
inline PyObject *PyList_GetItem(PyObject *o, Py_ssize_t i) { return o->items[(size_t)i]; }
inline int PyList_SetItem(PyObject *o, Py_ssize_t i, PyObject *v) { o->items[(size_t)i] = v; return 0; }
inline int PyList_Append(PyObject *o, PyObject *v) { Py_INCREF(v); o->items.push_back(v); return 0; }
inline size_t mockpy_find(PyObject *o, const char *n) { size_t i = 0; for (; i < o->keys.size(); i++) if (o->keys[i] == n) break; return i; }
inline int PyObject_HasAttrString(PyObject *o, const char *n) { mockpy::alive(o); return mockpy::isMethod(o, n) || mockpy_find(o, n) < o->keys.size(); }
inline int PyObject_SetAttrString(PyObject *o, const char *n, PyObject *v) {
  mockpy::alive(o); Py_INCREF(v); size_t i = mockpy_find(o, n);
  if (i < o->keys.size()) { Py_DECREF(o->items[i]); o->items[i] = v; } else { o->keys.push_back(n); o->items.push_back(v); }
  return 0;
}
inline int PyObject_DelAttrString(PyObject *o, const char *n) {
  mockpy::alive(o); size_t i = mockpy_find(o, n); sym_check(i < o->keys.size(), "no attribute is deleted twice (a Python error stays pending)"); if (i >= o->keys.size()) return -1;
  Py_DECREF(o->items[i]); o->items.erase(o->items.begin() + (long)i); o->keys.erase(o->keys.begin() + (long)i); return 0;
}
namespace boost { namespace python {
namespace api { struct object_base {}; }
template <class T> struct registry_of { static inline PyObject *(*conv)(const void *) = nullptr; };
template <class T, class C, bool = false> struct to_python_converter { to_python_converter() { registry_of<T>::conv = [](const void *p) -> PyObject * { return C::convert(*static_cast<const T *>(p)); }; } };
struct object; template <class T = PyObject> struct handle;
template <class T> PyObject *to_py(const T &x);
template <class T> PyObject *to_py(const boost::reference_wrapper<T> &r);
template <class T> struct extract;
struct attr_proxy { PyObject *o; const char *n; operator object() const; };
template <class T> T *borrowed_tag(T *p) { return p; }
struct borrowed_t { PyObject *p; };
inline borrowed_t borrowed(PyObject *p) { return {p}; }
inline PyObject *incref(PyObject *p) { Py_INCREF(p); return p; }
inline void decref(PyObject *p) { Py_DECREF(p); }
inline PyObject *xincref(PyObject *p) { Py_XINCREF(p); return p; }
template <class T> struct handle { PyObject *p; handle(PyObject *q = nullptr) : p(q) {} handle(borrowed_t b) : p(incref(b.p)) {} handle(const handle &h) : p(h.p) { Py_XINCREF(p); } handle &operator=(const handle &) = delete; ~handle() { Py_XDECREF(p); } PyObject *get() const { return p; } };
struct item_proxy { PyObject *d; std::string k; void set(PyObject *v) { size_t i = mockpy_find(d, k.c_str()); if (i < d->keys.size()) { Py_DECREF(d->items[i]); d->items[i] = v; } else { d->keys.push_back(k); d->items.push_back(v); } } template <class T> void operator=(const T &x) { set(to_py(x)); } };
struct object {
  PyObject *p;
  object() : p(incref(Py_None)) {}
  object(const object &o) : p(incref(o.p)) {}
  object(object &&o) noexcept : p(o.p) { o.p = incref(Py_None); }
  template <class T> object(const handle<T> &h) : p(incref(h.p)) {}
  template <class T, class = std::enable_if_t<!std::is_base_of_v<object, T>>> object(const T &x) : p(to_py(x)) {}
  object &operator=(const object &o) { PyObject *q = incref(o.p); decref(p); p = q; return *this; }
  ~object() { decref(p); }
  PyObject *ptr() const { return p; }
  attr_proxy attr(const char *n) const { return {p, n}; }
  bool is_none() const { return p == Py_None; }
 protected:
  struct adopt {}; object(PyObject *q, adopt) : p(q) {}
};
inline attr_proxy::operator object() const { size_t i = mockpy_find(o, n); sym_check(i < o->keys.size(), "only attributes that exist are read"); return object(handle<>(borrowed(o->items[i]))); }
struct list : object { list() : object(new PyObject(PyObject::LIST), adopt()) {} template <class T> void append(const T &x) { p->items.push_back(to_py(x)); } };
struct str : object { str(const char *c, size_t n) : object(PyUnicode_FromStringAndSize(c, (long)n), adopt()) {} str(const std::string &s) : object(PyUnicode_FromStringAndSize(s.data(), (long)s.size()), adopt()) {} };
struct dict : object { dict() : object(new PyObject(PyObject::DICT), adopt()) {} item_proxy operator[](const std::string &k) { return {p, k}; } };
struct tuple : object { tuple() : object(new PyObject(PyObject::LIST), adopt()) {} };
template <class... A> tuple make_tuple(const A &...a) { tuple t; (t.p->items.push_back(to_py(a)), ...); return t; }
inline long len(const object &o) { return (long)o.p->items.size(); }
template <class T> PyObject *to_py(const T &x) {
  if constexpr (std::is_base_of_v<object, T>) return incref(x.ptr());
  else if constexpr (std::is_same_v<T, attr_proxy>) { object o = x; return incref(o.ptr()); }
  else if constexpr (std::is_floating_point_v<T>) return PyFloat_FromDouble(x);
  else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) return PyLong_FromLong((long)x);
  else if constexpr (std::is_convertible_v<T, std::string>) { std::string s(x); return PyUnicode_FromStringAndSize(s.data(), (long)s.size()); }
  else if (registry_of<T>::conv) return registry_of<T>::conv(&x);
  else return new PyObject(PyObject::OPAQUE);
}
template <class T> PyObject *to_py(const boost::reference_wrapper<T> &r) { auto *o = new PyObject(PyObject::OPAQUE); o->p = r.get_pointer(); return o; }
template <class T> struct extract {
  PyObject *o; object keep; extract(PyObject *q) : o(q) {} extract(const object &q) : o(q.ptr()), keep(q) {} extract(const attr_proxy &a) : keep(a) { o = keep.ptr(); }
  bool check() const { return std::is_same_v<T, std::string> ? o->kind == PyObject::STR : o->kind == PyObject::INT; }
  operator T() const { if constexpr (std::is_same_v<T, std::string>) { if (o->kind != PyObject::STR) throw 1; return o->s; } else return (T)o->l; }
  T operator()() const { return *this; }
};
struct error_already_set {};
template <class R, class... A> R call_method(PyObject *self, const char *name, const A &...a) { // an array argument decays in the real one, too
  mockpy::alive(self); std::vector<PyObject *> args; (args.push_back(to_py(a)), ...);
  mockpy::called(self, name, args); for (auto *o : args) Py_DECREF(o);
}
template <class T> struct iterator {};
struct no_init_t {}; inline no_init_t no_init;
struct arg { const char *n; arg(const char *m) : n(m) {} template <class T> arg &operator=(const T &) { return *this; } arg &operator,(const arg &) { return *this; } };
struct default_call_policies {}; struct reference_existing_object {}; template <class...> struct return_value_policy {}; template <class...> struct return_internal_reference {};
template <class... A> int make_constructor(A...) { return 0; }
template <class... T> struct class_ { template <class... A> class_(A...) {} template <class... A> class_ &def(A...) { return *this; } template <class... A> class_ &add_property(A...) { return *this; } template <class... A> class_ &def_readonly(A...) { return *this; } };
template <class T> int type_id() { return 0; }
namespace converter {
struct rvalue_from_python_stage1_data { void *convertible; };
template <class T> struct rvalue_from_python_storage { rvalue_from_python_stage1_data stage1; struct { alignas(T) char bytes[sizeof(T)]; } storage; };
struct registry { template <class... A> static void push_back(A...) {} };
}
namespace numpy { struct dtype { template <class T> static dtype get_builtin() { return {}; } }; struct ndarray : object {}; template <class... A> ndarray from_data(A...) { return {}; } template <class... A> ndarray array(A...) { return {}; } inline void initialize() {} }
} }
