// C20: the Python sinks, driven through the Python reader class, against a plain reader making the same calls.
// args: L layout, kind 0 chunked, 1 whole table, 2 rows; NR rows; size largest chunk size; K calls, ops mask of calls; m 1: cells arbitrary (one row)
// inc: a list of names to include
#include "sym.h"
#include <fstream>
#include <iostream>
#include "import_datetime.cpp"
#include "reader.cpp"
#include "datasource_ifstream.cpp"
#include "stream.cpp"
#include "api.hpp"
#undef Py_RETURN_NONE
static uint8_t file[6144]; static const size_t NC = 8; static uint8_t g_type[NC]; static sas::Col g_cols[NC];
static PyObject g_sink(PyObject::SINK);
typedef PyObject *Obj;
static bool eqStr(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool e = true; for (size_t i = 0; i < a.size(); i++) e &= a[i] == b[i]; return e; }
struct Val { Column::Type t; std::string s; double d = 0; long l = 0; bool none = false; long f[7] = {}; };
static bool same(const Val &v, PyObject *o) { // is o the Python value of the cell?
  switch (v.t) {
  case Column::Type::string: return o->kind == PyObject::BYTES && eqStr(o->s, v.s);
  case Column::Type::integer: return o->kind == PyObject::INT && o->l == v.l;
  case Column::Type::number: { uint64_t a, b; memcpy(&a, &o->d, 8); memcpy(&b, &v.d, 8); return o->kind == PyObject::FLOAT && a == b; }
  default: break;
  }
  if (v.none) return o == Py_None;
  if (o->kind != (v.t == Column::Type::date ? PyObject::DATE : v.t == Column::Type::datetime ? PyObject::DATETIME : PyObject::TIME)) return false;
  bool e = true; for (int i = 0; i < 7; i++) e &= o->t[i] == v.f[i];
  return e;
}
typedef std::vector<Val> Row;
struct Plain; // what a plain reader delivers
static std::vector<Row> dRow; static std::vector<size_t> dIdx; static size_t dEod; static COLUMNS pcols;
struct PlainSink {
  void set_properties(const Properties &p) { pcols = COLUMNS(p.columns); }
  void push_row(size_t i, Column::PBUF p) {
    Row r;
    for (const auto &c : pcols) {
      Val v; v.t = c.type;
      auto ymd = [&](const DATE &d) { const auto x = d.year_month_day(); v.f[0] = (int)x.year; v.f[1] = (int)x.month; v.f[2] = (int)x.day; };
      auto hms = [&](const TIME &t) { const int64_t k = t.ticks(); v.f[3] = (long)(k / 3600000000); v.f[4] = (long)(k / 60000000 % 60); v.f[5] = (long)(k / 1000000 % 60); v.f[6] = (long)(k % 1000000); };
      switch (c.type) {
      case Column::Type::string: v.s = std::string(c.get_string(p)); break;
      case Column::Type::integer: v.l = c.get_integer(p); break;
      case Column::Type::number: v.d = c.get_number(p); break;
      case Column::Type::date: { DATE d = c.get_date(p); v.none = d.is_special(); if (!v.none) ymd(d); break; }
      case Column::Type::datetime: { DATETIME d = c.get_datetime(p); v.none = d.is_special(); if (!v.none) { ymd(d.date()); hms(d.time_of_day()); } break; }
      case Column::Type::time: { TIME d = c.get_time(p); v.none = d.is_special(); if (!v.none) hms(d); break; }
      default: sym_fail("the table has no column of unknown type");
      }
      r.push_back(v);
    }
    dRow.push_back(r); dIdx.push_back(i);
  }
  void end_of_data() { dEod++; }
};
static size_t kind, g_size, gRows /* handed over */, gCalls, gEarly; static bool inBuild, atEod; static size_t gNone;
static std::vector<PyObject *> kept; // Python keeps what it gets
static void columnsOf(PyObject *d, size_t from, size_t n) {
  sym_check(d->kind == PyObject::DICT && d->keys.size() == pcols.size(), "a hand-over has every column");
  for (size_t c = 0; c < pcols.size(); c++) {
    const size_t i = mockpy_find(d, pcols[c].name.c_str()); sym_check(i < d->keys.size(), "a hand-over names every column"); PyObject *l = d->items[i];
    sym_check(l->kind == PyObject::LIST && l->items.size() == n, "every column of a hand-over has its rows");
    for (size_t r = 0; r < n; r++) { mockpy::alive(l->items[r]); if (l->items[r] == Py_None) gNone++; sym_check(same(dRow[from + r][c], l->items[r]), "the cells are those of the rows"); }
  }
}
static void deliver(PyObject *d, size_t n) { sym_check(n > 0 && gRows + n <= dRow.size(), "rows are handed over once, after they are read"); columnsOf(d, gRows, n); gRows += n; }
static size_t rowsIn(PyObject *d) { return d->kind == PyObject::DICT && d->items.size() && d->items[0]->kind == PyObject::LIST ? d->items[0]->items.size() : 0; }
void mockpy::called(PyObject *self, const char *name, std::vector<PyObject *> &a) {
  sym_check(self == &g_sink && isMethod(self, name), "only methods of the sink are called");
  if (!strcmp(name, "set_properties")) { sym_check(inBuild, "the properties are announced first"); gEarly++; return; }
  for (PyObject *o : a) { Py_INCREF(o); kept.push_back(o); }
  gCalls++;
  if (!strcmp(name, "push_row")) {
    sym_check(kind == 2 && a.size() == 2 && gRows < dRow.size(), "one call per row read"); sym_check(a[0]->kind == PyObject::INT && a[0]->l == (long)dIdx[gRows], "a row comes with its index");
    sym_check(a[1]->kind == PyObject::LIST && a[1]->items.size() == pcols.size(), "a row has every column");
    for (size_t c = 0; c < pcols.size(); c++) { mockpy::alive(a[1]->items[c]); if (a[1]->items[c] == Py_None) gNone++; sym_check(same(dRow[gRows][c], a[1]->items[c]), "the cells are those of the row"); }
    gRows++;
  } else if (!strcmp(name, "push_rows")) {
    sym_check(kind == 0 && a.size() == 3, "only chunks are handed over"); const size_t n = rowsIn(a[2]), f = gRows; sym_check(n <= g_size, "a chunk has at most the chunk size"); deliver(a[2], n);
    sym_check(a[0]->l == (long)dIdx[f] && a[1]->l == (long)dIdx[f + n - 1], "a chunk comes with the indices of its first and last row"); sym_cover("chunk");
  } else if (!strcmp(name, "set_data")) { sym_check(kind == 1 && a.size() == 1, "the table is handed over"); deliver(a[0], rowsIn(a[0])); sym_check(atEod, "the table is handed over at the end of data"); sym_check(gRows == dRow.size(), "everything read so far is handed over"); sym_cover("table"); }
}
enum { ROW, ROWS, SKIP, ALL, EOD, FLUSH, NOPS };
int main() {
  const size_t l = (size_t)sym_arg("L", 0), K = (size_t)sym_arg("K", 2), ops = (size_t)sym_arg("ops", 63), NR = (size_t)sym_arg("NR", 3), m = (size_t)sym_arg("m", 0), maxn = (size_t)sym_arg("n", 2); kind = (size_t)sym_arg("kind", 0);
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4; const size_t H = 304, P = 2560, R = 64;
  static const char *nm[NC] = {"Sa", "Nb", "Dc", "Id", "Te", "Zf", "Sg", "Nh"};
  g_cols[0] = {nm[0], "", "", 40, 3, 2}; g_cols[1] = {nm[1], "", "", 0, 8, 1}; g_cols[2] = {nm[2], "", "DATE", 8, 8, 1}; g_cols[3] = {nm[3], "", "", 48, 2, 1};
  g_cols[4] = {nm[4], "", "TIME", 16, 8, 1}; g_cols[5] = {nm[5], "", "DATETIME", 24, 8, 1}; g_cols[6] = {nm[6], "", "", 44, 2, 2}; g_cols[7] = {nm[7], "", "", 32, 8, 1};
  sas::header(file, L, H, P, 2); sas::Page pg(file + H, L, P, sas::META); sas::Meta mt; mt.row_length = R; mt.row_count = NR; mt.ncols = NC; mt.cols = g_cols; sas::putMeta(pg, mt);
  sas::Page dp(file + H + P, L, P, sas::DATA, NR);
  static uint64_t tab[256]; for (int k = 0; k < 256; k++) { double x = (k - 100) * 977.5; memcpy(&tab[k], &x, 8); }
  for (size_t r = 0; r < NR; r++) {
    const size_t o = dp.pbo() + 8 + r * R; uint8_t *q = dp.w.p + o;
    for (size_t k = 0; k < R; k++) q[k] = (uint8_t)(k * 7 + r * 13 + 1);
    const double nan = __builtin_nan("");
    dp.w.f64(o + 8, r % 2 ? nan : 100.0 * (double)r); dp.w.f64(o + 16, r % 3 == 1 ? nan : 3661.5 + (double)r); dp.w.f64(o + 24, r % 3 == 2 ? nan : -86400.25 + (double)r * 1e6); dp.w.f64(o + 32, (double)r - 0.5); dp.w.f64(o, r == 1 ? nan : (double)(r + 1));
    if (m == 1) { for (size_t k = 0; k < 8; k++) q[k] = sym_u8("number"); for (size_t k = 40; k < 50; k++) q[k] = sym_u8("cell"); }
    if (m == 2) dp.w.u64(o + 8, tab[sym_u8("date")]);
    if (m == 3) dp.w.u64(o + 16, tab[sym_u8("time")]);
    if (m == 4) dp.w.u64(o + 24, tab[sym_u8("datetime")]);
    if (m == 5) { const size_t c = (size_t)sym_arg("c", 8); uint64_t b = sym_u64("NaN"); sym_assume((b & 0x7fffffffffffffffull) > 0x7ff0000000000000ull); dp.w.u64(o + c, b); }
  }
  symfs::content = (const char *)file; symfs::size = H + 2 * P;
  g_sink.methods.push_back("set_properties"); g_sink.methods.push_back(kind == 0 ? "push_rows" : kind == 1 ? "set_data" : "push_row");
  if (kind == 0) { const size_t top = (size_t)sym_arg("size", 2); g_size = 1 + (size_t)sym_range(0, top - 1, "chunk size"); for (size_t i = 1; i < top; i++) if (sym_concretize(g_size == i)) break; PyObject_SetAttrString(&g_sink, "chunk_size", PyLong_FromLong((long)g_size)); }
  pycppsas7bdat::bind_datetime();
  cppsas7bdat::ColumnFilter::IncludeExclude f; Obj il = nullptr;
  if (sym_arg("inc", 0)) { il = PyList_New(0); for (size_t i = 0; i < NC; i++) { bool in = sym_range(0, 1, "included"); if (sym_concretize(in)) { PyList_Append(il, PyUnicode_FromStringAndSize(nm[i], 2)); f.included.insert(nm[i]); } } }
  Obj xl = nullptr;
  if (sym_arg("exc", 0)) { xl = PyList_New(0); for (size_t i = 0; i < NC; i++) { bool in = sym_range(0, 1, "excluded"); if (sym_concretize(in)) { PyList_Append(xl, PyUnicode_FromStringAndSize(nm[i], 2)); f.excluded.insert(nm[i]); } } }
  const long refs0 = g_sink.refs, none0 = Py_None->refs; size_t lastEod = 0;
  {
    MemSource ms(file, H + 2 * P); cppsas7bdat::Reader plain(ms, PlainSink{}, f);
    inBuild = true; boost::shared_ptr<pycppsas7bdat::Reader> rd;
    try { rd = pycppsas7bdat::create_reader("x", &g_sink, il, xl); } catch (...) { sym_fail("a sink with the documented methods is accepted"); }
    inBuild = false; sym_check(gEarly == 1, "the properties are announced once");
    for (size_t k = 0; k <= K; k++) {
      size_t op = ALL; if (k < K) { op = (size_t)sym_range(0, NOPS - 1, "call"); for (size_t i = 0; i < NOPS; i++) if (sym_concretize(op == i)) { op = i; break; } if (!(ops >> op & 1)) return 0; }
      size_t n = 0; if (op == ROWS || op == SKIP) { n = (size_t)sym_range(0, maxn, "n"); for (size_t i = 0; i <= maxn; i++) if (sym_concretize(n == i)) { n = i; break; } }
      bool a = false, b = false, eod = false; const size_t e0 = dEod; atEod = op == FLUSH;
      try {
        switch (op) {
        case ROW: a = plain.read_row(); atEod = dEod > e0; b = rd->read_row(); break;
        case ROWS: a = plain.read_rows(n); atEod = dEod > e0; b = rd->read_rows(n); break;
        case SKIP: a = plain.skip(n); atEod = dEod > e0; b = rd->skip(n); break;
        case ALL: plain.read_all(); atEod = dEod > e0; rd->read_all(); break;
        case EOD: plain.end_of_data(); atEod = dEod > e0; rd->end_of_data(); break;
        case FLUSH: { size_t i = mockpy_find(&g_sink, "_cpp"); if (i < g_sink.keys.size()) { PyObject *o = g_sink.items[i]; sym_check(o->kind == PyObject::OPAQUE && o->p, "the sink gets a handle for flushing"); static_cast<pycppsas7bdat::SinkBase *>(const_cast<void *>(o->p))->flush_sink(); eod = true; } break; }
        }
      } catch (...) { sym_fail("no call fails"); }
      sym_check(a == b && plain.current_row_index() == rd->current_row_index(), "the Python reader behaves as the plain reader");
      if (dEod > e0 || eod) sym_check(gRows == dRow.size(), "nothing stays undelivered after end of data");
      if (kind == 2) sym_check(gRows == dRow.size(), "every row is handed over as it is read");
    }
    sym_check(gRows == dRow.size() && dRow.size() <= NR, "every row is handed over");
  }
  sym_check(Py_None->refs >= none0 + (long)gNone, "a missing value owns its reference to None");
  sym_check(g_sink.refs >= refs0, "the sink object is not released");
  sym_observe("calls", gCalls); sym_observe("rows", gRows); sym_cover("read");
  return 0;
}
