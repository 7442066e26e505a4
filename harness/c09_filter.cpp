// C09: filters select columns and change nothing else.
// args: L layout, mode 0: any set of accepted columns, 1: include list, 2: exclude list, 3: both; K names per list, len longest name
#include "api.hpp"
#include <cppsas7bdat/filter/column.hpp>
static uint8_t file[2][8192], row[32];
static const size_t NC = 5;
static const char *NAMES[NC] = {"A", "B", "AB", "a", "BA"};
struct NullSink { size_t *n; void set_properties(const Properties &p) { *n = p.columns.size(); } void push_row(size_t, Column::PBUF) {} void end_of_data() {} };
static uint64_t bits(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static unsigned mask; static size_t asked;
struct ByMask { bool accept(const Column &c) const { sym_check(c.name == NAMES[asked] && asked < NC, "the filter is asked about each column in file order"); return (mask >> asked++) & 1; } };
static std::set<std::string> list(size_t K, size_t len, uint8_t (*chars)[4], size_t *ns, size_t &n) {
  std::set<std::string> r; n = (size_t)sym_concretize(sym_range(0, K, "names"));
  for (size_t i = 0; i < n; i++) { ns[i] = (size_t)sym_concretize(sym_range(0, len, "length")); for (size_t k = 0; k < ns[i]; k++) chars[i][k] = sym_u8("letter"); r.insert(std::string((const char *)chars[i], ns[i])); }
  return r;
}
static bool has(const uint8_t (*chars)[4], const size_t *ns, size_t n, const char *name) {
  bool r = false; for (size_t i = 0; i < n; i++) { bool e = ns[i] == sas::slen(name); for (size_t k = 0; e && k < ns[i]; k++) { if (chars[i][k] != (uint8_t)name[k]) e = false; } r |= e; } return r;
}
template <class F> static void compare(Reader &all, MemSource &ms, F &&f) {
  size_t seen = 99; Reader rd(ms, NullSink{&seen}, std::forward<F>(f));
  const COLUMNS &a = all.properties().columns, &b = rd.properties().columns; size_t k = 0;
  sym_check(seen == b.size(), "the sink sees the accepted columns"); sym_check(rd.properties().column_count == NC && rd.properties().row_count == 1, "the other properties are unaffected");
  const void *p = all.read_row_no_sink(), *q = rd.read_row_no_sink(); sym_check(p && q, "the row is read");
  for (size_t i = 0; i < NC; i++) {
    if (!((mask >> i) & 1)) continue;
    sym_check(k < b.size(), "every accepted column is there"); const Column &x = a[i], &y = b[k++];
    sym_check(x.name == y.name && x.label == y.label && x.format == y.format && x.type == y.type && x.length() == y.length(), "an accepted column is the column of the file");
    switch (x.type) {
    case Column::Type::string: { SV s = x.get_string(p), t = y.get_string(q); sym_check(s == t, "an accepted column has the same text"); break; }
    case Column::Type::integer: sym_check(x.get_integer(p) == y.get_integer(q), "an accepted column has the same integer"); break;
    case Column::Type::number: sym_check(bits(x.get_number(p)) == bits(y.get_number(q)), "an accepted column has the same number"); break;
    default: sym_check(x.get_date(p) == y.get_date(q), "an accepted column has the same date"); }
  }
  sym_check(k == b.size(), "no other column is there"); sym_observe("accepted", k); if (k && k < NC) sym_cover("some accepted");
}
int main() {
  const size_t l = (size_t)sym_arg("L", 0), mode = (size_t)sym_arg("mode", 0), K = (size_t)sym_arg("K", 1), len = (size_t)sym_arg("len", 2), H = 304, P = 2560;
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4;
  sas::Col cols[NC] = {{NAMES[0], "Num", "BEST", 0, 8, 1}, {NAMES[1], "Text", "$", 8, 3, 2}, {NAMES[2], "Int", "", 11, 2, 1}, {NAMES[3], "Date", "DATE", 13, 8, 1}, {NAMES[4], "Short", "", 21, 4, 1}};
  sas::Meta m; m.row_length = 25; m.row_count = 1; m.ncols = NC; m.cols = cols;
  sym_bytes(row, 25, "row"); memset(row + 13, 0, 8); row[13 + (L.big ? 0 : 7)] = 0x40; row[13 + (L.big ? 1 : 6)] = 0x59; row[8] = 'x'; row[9] = ' ';
  sas::header(file[0], L, H, P, 2); { sas::Page pg(file[0] + H, L, P, sas::META); sas::putMeta(pg, m); sas::Page d(file[0] + H + P, L, P, sas::DATA, 1); memcpy(d.w.p + d.pbo() + 8, row, 25); }
  MemSource ma(file[0], H + 2 * P), mb(file[0], H + 2 * P); size_t n0 = 0;
  try {
    Reader all(ma, NullSink{&n0}); sym_check(n0 == NC, "without a filter every column is there");
    if (mode == 0) { mask = (unsigned)sym_range(0, (1 << NC) - 1, "accepted"); compare(all, mb, ByMask{}); sym_check(asked == NC, "the filter is asked once about each column"); }
    else {
      uint8_t ic[4][4], ec[4][4]; size_t in[4], en[4], ni = 0, ne = 0; ColumnFilter::IncludeExclude f;
      if (mode & 1) f.included = list(K, len, ic, in, ni); if (mode & 2) f.excluded = list(K, len, ec, en, ne);
      for (size_t i = 0; i < NC; i++) { bool a = mode == 1 ? has(ic, in, ni, NAMES[i]) : mode == 2 ? !has(ec, en, ne, NAMES[i]) : ni ? has(ic, in, ni, NAMES[i]) : !has(ec, en, ne, NAMES[i]); if (a) mask |= 1u << i; }
      if (mode == 1) { ColumnFilter::Include g; g.included = f.included; compare(all, mb, std::move(g)); }
      else if (mode == 2) { ColumnFilter::Exclude g; g.excluded = f.excluded; compare(all, mb, std::move(g)); }
      else compare(all, mb, std::move(f));
    }
  } catch (const std::exception &) { sym_fail("a well formed file is read without exception"); }
  return 0;
}
