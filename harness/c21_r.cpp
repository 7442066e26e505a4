// C21: the R sinks, driven through the R reader class, against a plain reader making the same calls.
// args: L layout, kind 0 chunked, 1 whole table, 2 rows; NR rows; size largest chunk size; K calls, ops mask of calls; m 1: cells arbitrary (one row)
// inc/exc: arbitrary lists of names to include/exclude
#include "sym.h"
#include <fstream>
#include <iostream>
#include "reader.cpp"
#include "filter.cpp"
#include "datasource_ifstream.cpp"
#include "stream.cpp"
#include "api.hpp"
static uint8_t file[6144]; static const size_t NC = 8; static uint8_t g_type[NC]; static sas::Col g_cols[NC];
static SEXPREC g_sink(ENVSXP);
static bool eqStr(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool e = true; for (size_t i = 0; i < a.size(); i++) e &= a[i] == b[i]; return e; }
struct Val { Column::Type t; std::string s; double d = 0; long l = 0; bool none = false; };
static bool eqNum(double x, double y) { uint64_t a, b; memcpy(&a, &x, 8); memcpy(&b, &y, 8); return a == b; }
static bool sameNum(const Val &v, double d) { return v.none ? eqNum(d, NA_REAL) : eqNum(d, v.d); }
typedef std::vector<Val> Row;
struct Plain; // what a plain reader delivers
static std::vector<Row> dRow; static std::vector<size_t> dIdx; static size_t dEod; static COLUMNS pcols;
struct PlainSink {
  void set_properties(const Properties &p) { pcols = COLUMNS(p.columns); }
  void push_row(size_t i, Column::PBUF p) {
    Row r;
    for (const auto &c : pcols) {
      Val v; v.t = c.type;
      switch (c.type) {
      case Column::Type::string: v.s = std::string(c.get_string(p)); break;
      case Column::Type::integer: v.l = c.get_integer(p); break;
      case Column::Type::number: v.d = c.get_number(p); v.none = sym_concretize(std::isnan(v.d)); break;
      case Column::Type::date: { DATE d = c.get_date(p); v.none = d.is_special(); if (!v.none) v.s = to_string(d); break; }
      case Column::Type::datetime: { DATETIME d = c.get_datetime(p); v.none = d.is_special(); if (!v.none) v.s = to_string(d); break; }
      case Column::Type::time: { TIME d = c.get_time(p); v.none = d.is_special(); if (!v.none) v.s = to_string(d); break; }
      default: sym_fail("the table has no column of unknown type");
      }
      r.push_back(v);
    }
    dRow.push_back(r); dIdx.push_back(i);
  }
  void end_of_data() { dEod++; }
};
static size_t kind, g_size, gRows /* handed over */, gCalls, gEarly; static bool inBuild, atEod;
struct Kept { SEXP o; SEXPREC was; }; static std::vector<Kept> kept; // R keeps what it gets
static void keep(SEXP o) { kept.push_back({o, *o}); if (o->names) kept.push_back({o->names, *o->names}); for (SEXP x : o->v) if (x->type != CHARSXP && x != R_NilValue) keep(x); }
static size_t nameOf(SEXP l, const std::string &n) { size_t i = 0; for (; l->names && i < l->names->v.size(); i++) if (l->names->v[i]->s == n) break; return i; }
static size_t len(SEXP o) { return o->type == REALSXP ? o->d.size() : o->type == INTSXP ? o->i.size() : o->v.size(); }
static void columnsOf(SEXP d, SEXP idx, size_t from, size_t n) {
  sym_check(idx->type == INTSXP && idx->i.size() == n, "a hand-over has the index of every row"); for (size_t r = 0; r < n; r++) sym_check(idx->i[r] == (int)dIdx[from + r], "a hand-over has the indices of its rows");
  sym_check(d->type == VECSXP && d->v.size() == pcols.size() && d->names && d->names->v.size() == pcols.size(), "a hand-over has every column");
  for (size_t c = 0; c < pcols.size(); c++) {
    const size_t i = nameOf(d, pcols[c].name); sym_check(i < d->v.size(), "a hand-over names every column"); SEXP l = d->v[i]; const auto t = pcols[c].type;
    sym_check(l->type == (t == Column::Type::number ? REALSXP : t == Column::Type::integer ? INTSXP : STRSXP) && len(l) == n, "every column of a hand-over has its rows");
    for (size_t r = 0; r < n; r++) {
      const Val &v = dRow[from + r][c]; bool e;
      if (t == Column::Type::number) e = sameNum(v, l->d[r]); else if (t == Column::Type::integer) e = l->i[r] == v.l; else e = v.none ? l->v[r] == NA_STRING : l->v[r] != NA_STRING && l->v[r]->type == CHARSXP && eqStr(l->v[r]->s, v.s);
      sym_check(e, "the cells are those of the rows");
    }
  }
}
void mockr::called(const std::string &name, std::vector<SEXP> &a) {
  if (name == "set_properties") { sym_check(inBuild, "the properties are announced first"); gEarly++; return; }
  gCalls++;
  if (name == "push_row") {
    sym_check(kind == 2 && a.size() == 2 && gRows < dRow.size(), "one call per row read"); sym_check(a[0]->type == REALSXP ? a[0]->d[0] == (double)dIdx[gRows] : a[0]->i[0] == (int)dIdx[gRows], "a row comes with its index");
    sym_check(a[1]->type == VECSXP && a[1]->v.size() == pcols.size(), "a row has every column");
    for (size_t c = 0; c < pcols.size(); c++) {
      const Val &v = dRow[gRows][c]; SEXP x = a[1]->v[c]; const auto t = pcols[c].type; bool e; sym_check(nameOf(a[1], pcols[c].name) == c, "a row names its columns");
      if (t == Column::Type::number) e = x->type == REALSXP && len(x) == 1 && sameNum(v, x->d[0]); else if (t == Column::Type::integer) e = x->type == INTSXP && len(x) == 1 && x->i[0] == v.l;
      else e = v.none ? x == R_NilValue : x->type == STRSXP && len(x) == 1 && x->v[0] != NA_STRING && eqStr(x->v[0]->s, v.s);
      sym_check(e, "the cells are those of the row");
    }
    keep(a[1]); gRows++;
  } else if (name == "push_rows") {
    sym_check(kind == 0 && a.size() == 2, "only chunks are handed over"); const size_t n = len(a[0]); sym_check(n > 0 && gRows + n <= dRow.size(), "rows are handed over once, after they are read"); sym_check(n <= g_size, "a chunk has at most the chunk size");
    columnsOf(a[1], a[0], gRows, n); gRows += n; keep(a[0]); keep(a[1]); sym_cover("chunk");
  } else if (name == "set_data") {
    sym_check(kind == 1 && a.size() == 2, "the table is handed over"); sym_check(atEod, "the table is handed over at the end of data"); const size_t n = len(a[0]); sym_check(n == dRow.size(), "everything read so far is handed over");
    columnsOf(a[1], a[0], 0, n); gRows = n; keep(a[0]); keep(a[1]); sym_cover("table");
  }
}
enum { ROW, ROWS, SKIP, ALL, EOD, NOPS };
int main() {
  const size_t l = (size_t)sym_arg("L", 0), K = (size_t)sym_arg("K", 2), ops = (size_t)sym_arg("ops", 31), NR = (size_t)sym_arg("NR", 3), m = (size_t)sym_arg("m", 0), maxn = (size_t)sym_arg("n", 2); kind = (size_t)sym_arg("kind", 0);
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4; const size_t H = 304, P = 2560, R = 64;
  static const char *nm[NC] = {"Sa", "Nb", "Dc", "Id", "Te", "Zf", "Sg", "Nh"};
  g_cols[0] = {nm[0], "", "", 40, 3, 2}; g_cols[1] = {nm[1], "", "", 0, 8, 1}; g_cols[2] = {nm[2], "", "DATE", 8, 8, 1}; g_cols[3] = {nm[3], "", "", 48, 2, 1};
  g_cols[4] = {nm[4], "", "TIME", 16, 8, 1}; g_cols[5] = {nm[5], "", "DATETIME", 24, 8, 1}; g_cols[6] = {nm[6], "", "", 44, 2, 2}; g_cols[7] = {nm[7], "", "", 32, 8, 1};
  sas::header(file, L, H, P, 2); sas::Page pg(file + H, L, P, sas::META); sas::Meta mt; mt.row_length = R; mt.row_count = NR; mt.ncols = NC; mt.cols = g_cols; sas::putMeta(pg, mt);
  sas::Page dp(file + H + P, L, P, sas::DATA, NR);
  auto some = [] { size_t k = (size_t)sym_range(0, 15, "value"); for (size_t i = 0; i < 16; i++) if (sym_concretize(k == i)) { k = i; break; } const double x = ((double)k - 6) * 19773.046875; uint64_t b; memcpy(&b, &x, 8); return b; };
  for (size_t r = 0; r < NR; r++) {
    const size_t o = dp.pbo() + 8 + r * R; uint8_t *q = dp.w.p + o;
    for (size_t k = 0; k < R; k++) q[k] = (uint8_t)(k * 7 + r * 13 + 1);
    const double nan = __builtin_nan("");
    dp.w.f64(o + 8, r % 2 ? nan : 100.0 * (double)r); dp.w.f64(o + 16, r % 3 == 1 ? nan : 3661.5 + (double)r); dp.w.f64(o + 24, r % 3 == 2 ? nan : -86400.25 + (double)r * 1e6); dp.w.f64(o + 32, (double)r - 0.5); dp.w.f64(o, r == 1 ? nan : (double)(r + 1));
    if (m == 1) { for (size_t k = 0; k < 8; k++) q[k] = sym_u8("number"); for (size_t k = 40; k < 50; k++) q[k] = sym_u8("cell"); }
    if (m == 2) dp.w.u64(o + 8, some());
    if (m == 3) dp.w.u64(o + 16, some());
    if (m == 4) dp.w.u64(o + 24, some());
    if (m == 5) { const size_t c = (size_t)sym_arg("c", 8); uint64_t b = sym_u64("NaN"); sym_assume((b & 0x7fffffffffffffffull) > 0x7ff0000000000000ull); dp.w.u64(o + c, b); }
  }
  symfs::content = (const char *)file; symfs::size = H + 2 * P;
  g_sink.methods.push_back("set_properties"); g_sink.methods.push_back(kind == 0 ? "push_rows" : kind == 1 ? "set_data" : "push_row");
  if (kind == 0) { const size_t top = (size_t)sym_arg("size", 2); g_size = 1 + (size_t)sym_range(0, top - 1, "chunk size"); for (size_t i = 1; i < top; i++) if (sym_concretize(g_size == i)) break; g_sink.methods.push_back("chunk_size"); g_sink.num = (double)g_size; }
  cppsas7bdat::ColumnFilter::IncludeExclude f; SEXP il = R_NilValue;
  if (sym_arg("inc", 0)) { il = new SEXPREC(STRSXP); for (size_t i = 0; i < NC; i++) { bool in = sym_range(0, 1, "included"); if (sym_concretize(in)) { il->v.push_back(mockr::chr(nm[i])); f.included.insert(nm[i]); } } }
  SEXP xl = R_NilValue;
  if (sym_arg("exc", 0)) { xl = new SEXPREC(STRSXP); for (size_t i = 0; i < NC; i++) { bool in = sym_range(0, 1, "excluded"); if (sym_concretize(in)) { xl->v.push_back(mockr::chr(nm[i])); f.excluded.insert(nm[i]); } } }
  {
    MemSource ms(file, H + 2 * P); cppsas7bdat::Reader plain(ms, PlainSink{}, f);
    inBuild = true; std::unique_ptr<Rcppsas7bdat::Reader> rd;
    try { rd.reset(new Rcppsas7bdat::Reader("x", &g_sink, il, xl)); } catch (...) { sym_fail("a sink with the documented methods is accepted"); }
    inBuild = false; sym_check(gEarly == 1, "the properties are announced once");
    for (size_t k = 0; k <= K; k++) {
      size_t op = ALL; if (k < K) { op = (size_t)sym_range(0, NOPS - 1, "call"); for (size_t i = 0; i < NOPS; i++) if (sym_concretize(op == i)) { op = i; break; } if (!(ops >> op & 1)) return 0; }
      size_t n = 0; if (op == ROWS || op == SKIP) { n = (size_t)sym_range(0, maxn, "n"); for (size_t i = 0; i <= maxn; i++) if (sym_concretize(n == i)) { n = i; break; } }
      bool a = false, b = false;  const size_t e0 = dEod; atEod = false;
      try {
        switch (op) {
        case ROW: a = plain.read_row(); atEod = dEod > e0; b = rd->read_row(); break;
        case ROWS: a = plain.read_rows(n); atEod = dEod > e0; b = rd->read_rows(n); break;
        case SKIP: a = plain.skip(n); atEod = dEod > e0; b = rd->skip(n); break;
        case ALL: plain.read_all(); atEod = dEod > e0; rd->read_all(); break;
        case EOD: plain.end_of_data(); atEod = dEod > e0; rd->end_of_data(); break;
        }
      } catch (...) { sym_fail("no call fails"); }
      sym_check(a == b && plain.current_row_index() == rd->current_row_index(), "the R reader behaves as the plain reader");
      if (dEod > e0) sym_check(gRows == dRow.size(), "nothing stays undelivered after end of data");
      if (kind == 2) sym_check(gRows == dRow.size(), "every row is handed over as it is read");
    }
    sym_check(gRows == dRow.size() && dRow.size() <= NR, "every row is handed over");
  }
  for (const Kept &k : kept) {
    sym_check(k.o->v == k.was.v && k.o->i.size() == k.was.i.size() && k.o->d.size() == k.was.d.size() && k.o->names == k.was.names, "what was handed over stays as it was");
    bool e = true; for (size_t i = 0; i < k.was.i.size(); i++) e &= k.o->i[i] == k.was.i[i]; for (size_t i = 0; i < k.was.d.size(); i++) e &= eqNum(k.o->d[i], k.was.d[i]);
    sym_check(e, "what was handed over stays as it was");
  }
  sym_check(mockr::prot == 0, "every protected object is released");
  sym_observe("calls", gCalls); sym_observe("rows", gRows); sym_cover("read");
  return 0;
}
