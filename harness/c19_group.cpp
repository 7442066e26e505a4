// C19: grouping a column list by type.
// args: mode 0: N columns of any type built by the user; 1: N columns of a file with any stored type, width and one of several formats; L layout
#include "api.hpp"
static uint8_t file[8192], row[64];
struct NullSink { void set_properties(const Properties &) {} void push_row(size_t, Column::PBUF) {} void end_of_data() {} };
using T = Column::Type;
static uint64_t bits(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
struct Fmt { // a formatter of the user's own, which answers with its number
  T type; size_t length; int id;
  SV get_string(Column::PBUF p) const { return SV((const char *)p + id, 1); }
  NUMBER get_number(Column::PBUF p) const { return id * 3.0; }
  INTEGER get_integer(Column::PBUF p) const { return id + ((const uint8_t *)p)[id]; }
  DATETIME get_datetime(Column::PBUF) const { return DATETIME(); }
  DATE get_date(Column::PBUF) const { return DATE(); }
  TIME get_time(Column::PBUF) const { return TIME(id, 0, 0); }
  STRING to_string(Column::PBUF p) const { return STRING(1, (char)('a' + id)); }
};
static const T TY[6] = {T::string, T::number, T::integer, T::datetime, T::date, T::time};
template <class CMP> static void check(const COLUMNS &all, CMP &&cmp) {
  Columns g(all); const COLUMNS *gs[6] = {&g.strings, &g.numbers, &g.integers, &g.datetimes, &g.dates, &g.times}; size_t total = 0, some = 0;
  for (size_t t = 0; t < 6; t++) {
    size_t k = 0;
    for (size_t i = 0; i < all.size(); i++) { if (all[i].type != TY[t]) continue; sym_check(k < gs[t]->size(), "every column of the type is in its group"); const Column &a = all[i], &b = (*gs[t])[k++];
      sym_check(a.name == b.name && a.label == b.label && a.format == b.format && a.type == b.type && a.length() == b.length(), "a group has its columns in file order"); cmp(a, b); }
    sym_check(k == gs[t]->size(), "a group has the columns of its type only"); total += k; if (k > 1) some++;
  }
  if (some) sym_cover("two of a type"); if (total < all.size()) sym_cover("unknown type"); sym_observe("grouped", total);
}
static void sameCells(const Column &x, const Column &y) {
  switch (x.type) {
  case T::string: { SV s = x.get_string(row), t = y.get_string(row); sym_check(s.data() == t.data() && s.size() == t.size(), "a grouped column reads the same text"); break; }
  case T::integer: sym_check(x.get_integer(row) == y.get_integer(row), "a grouped column reads the same integer"); break;
  case T::number: sym_check(bits(x.get_number(row)) == bits(y.get_number(row)), "a grouped column reads the same number"); break;
  case T::datetime: sym_check(x.get_datetime(row) == y.get_datetime(row), "a grouped column reads the same datetime"); break;
  case T::date: sym_check(x.get_date(row) == y.get_date(row), "a grouped column reads the same date"); break;
  default: sym_check(x.get_time(row) == y.get_time(row), "a grouped column reads the same time"); }
}
int main() {
  const size_t mode = (size_t)sym_arg("mode", 0), N = (size_t)sym_arg("N", 4), l = (size_t)sym_arg("L", 0), H = 304, P = 2560;
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4;
  if (mode == 0) {
    COLUMNS all; sym_bytes(row, N, "row");
    for (size_t i = 0; i < N; i++) { char nm[2] = {(char)sym_range('A', 'B', "name"), 0}; uint8_t t = (uint8_t)sym_range(0, 6, "type");
      all.emplace_back(std::string(nm, 1), std::string(1, (char)sym_u8("label")), std::string(), Fmt{(T)t, i, (int)i}); }
    check(all, [](const Column &a, const Column &b) { sym_check(a.get_integer(row) == b.get_integer(row) && a.get_number(row) == b.get_number(row) && a.get_string(row).data() == b.get_string(row).data() && a.get_time(row) == b.get_time(row), "a grouped column reads the same values"); });
  } else {
    static const char *F[4] = {"BEST", "DATE", "DATETIME", "TIME"}, *NM[6] = {"A", "B", "C", "D", "E", "F"};
    sas::Col cols[6]; sym_bytes(row, 8 * N, "row");
    for (size_t i = 0; i < N; i++) { row[8 * i + (L.big ? 0 : 7)] = 0x40; row[8 * i + (L.big ? 1 : 6)] = 0x59; if (L.big) row[8 * i + 7] = 0x40; size_t f = (size_t)sym_concretize(sym_range(0, 3, "format")); if (f) for (size_t k = 2; k < 8; k++) row[8 * i + (L.big ? k : 7 - k)] = k == 2 ? (uint8_t)(i * 16) : 0; const size_t w = (size_t)sym_range(1, 9, "width"); const int t = sym_u8("type byte") & 1 ? 1 : 2;
      cols[i] = sas::Col{NM[i], NM[N - 1 - i], F[f], 8 * i, t == 2 ? 8 : w, t}; sym_assume(t == 1 || w == 8); if (f) sym_assume(t == 1 && (w < 3 || w >= 8)); }
    sas::Meta m; m.row_length = 64; m.row_count = 1; m.ncols = N; m.cols = cols;
    sas::header(file, L, H, P, 2); { sas::Page pg(file + H, L, P, sas::META); sas::putMeta(pg, m); sas::Page d(file + H + P, L, P, sas::DATA, 1); }
    MemSource ms(file, H + 2 * P);
    try { Reader rd(ms, NullSink{}); sym_check(rd.properties().columns.size() == N, "every column is there"); check(rd.properties().columns, sameCells); }
    catch (const std::exception &) { sym_fail("a well formed file is opened without exception"); }
  }
  return 0;
}
