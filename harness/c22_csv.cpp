// C22: the output of the CSV and print sinks. args: L layout, print (0 CSV, 1 print), w width of the text columns,
// m: 0 names arbitrary, 1 text cells arbitrary, 2 integers arbitrary, 3 dates and numbers, n: length of the names, sep: 1 special characters only
#include "plain_dates.hpp"
#include "api.hpp"
#include <cppsas7bdat/sink/csv.hpp>
#include <cppsas7bdat/sink/print.hpp>
#include <ostream>
#include <string>
#include <vector>
#include <cmath>
static uint8_t file[8192];
static std::string out; // what the sink has written
struct Cap : std::streambuf {
  std::streamsize xsputn(const char *d, std::streamsize k) override { out.append(d, (size_t)k); return k; }
  int_type overflow(int_type c) override { out.push_back((char)c); return c; }
};
struct Row { const void *p; };
template <class S> struct Both { // the sink, and the expected fields
  S s; std::vector<std::vector<std::string>> *rows; COLUMNS *cols; std::vector<std::vector<bool>> *num; std::string *tail;
  void set_properties(const Properties &p) { s.set_properties(p); *cols = COLUMNS(p.columns); }
  static std::string dec(int64_t v) { bool neg = v < 0; uint64_t u = neg ? 0 - (uint64_t)v : (uint64_t)v; char b[24]; size_t n = 0; do { b[n++] = (char)('0' + u % 10); u /= 10; } while (sym_concretize(u != 0)); std::string r; if (neg) r = "-"; while (n) r.push_back(b[--n]); return r; }
  void push_row(size_t i, Column::PBUF p) {
    std::vector<std::string> f; std::vector<bool> isnum;
    for (const auto &c : *cols) {
      std::string x; char b[17]; bool nm = false;
      switch (c.type) {
      case Column::Type::string: x = std::string(c.get_string(p)); break;
      case Column::Type::integer: x = dec(c.get_integer(p)); break;
      case Column::Type::number: nm = !std::isnan(c.get_number(p)); break;
      case Column::Type::date: { auto d = c.get_date(p); plain_dates::code(b, 'd', d.is_special(), d.is_special() ? 0 : plain_dates::ticks(d)); x.assign(b, 17); break; }
      case Column::Type::datetime: { auto d = c.get_datetime(p); plain_dates::code(b, 's', d.is_special(), d.is_special() ? 0 : plain_dates::ticks(d)); x.assign(b, 17); break; }
      case Column::Type::time: { auto d = c.get_time(p); plain_dates::code(b, 't', d.is_special(), d.is_special() ? 0 : plain_dates::ticks(d)); x.assign(b, 17); break; }
      default: break;
      }
      f.push_back(x); isnum.push_back(nm);
    }
    rows->push_back(f); num->push_back(isnum);
    s.push_row(i, p);
  }
  void end_of_data() { s.end_of_data(); }
};
static bool same(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool e = true; for (size_t i = 0; i < a.size(); i++) e &= a[i] == b[i]; return e; }
// An independent CSV reader (fields may be quoted, a quote inside is doubled)
static size_t g_pos = 0;
static bool field(std::string &f) { // returns whether the line ends after this field
  f.clear(); sym_check(g_pos < out.size(), "the output holds every line and field");
  if (sym_concretize(out[g_pos] == '"')) {
    g_pos++;
    for (;;) {
      sym_check(g_pos < out.size(), "a quoted field is closed");
      if (sym_concretize(out[g_pos] == '"')) { if (g_pos + 1 < out.size() && sym_concretize(out[g_pos + 1] == '"')) { f.push_back('"'); g_pos += 2; continue; } g_pos++; break; }
      f.push_back(out[g_pos++]);
    }
  } else while (g_pos < out.size() && !sym_concretize(out[g_pos] == ',' || out[g_pos] == '\n')) f.push_back(out[g_pos++]);
  sym_check(g_pos < out.size() && (out[g_pos] == ',' || out[g_pos] == '\n'), "a field ends with a comma or the line");
  return sym_concretize(out[g_pos++] == '\n');
}
template <class S> static void run(Both<S> b, MemSource &ms, bool print, std::vector<std::vector<std::string>> &rows, std::vector<std::vector<bool>> &num, COLUMNS &cols, std::string &names) {
  Reader rd(ms, std::move(b));
  for (const auto &c : rd.properties().columns) cols.push_back(c);
  rd.read_all();
}
int main() {
  const size_t l = (size_t)sym_arg("L", 0), m = (size_t)sym_arg("m", 0), n = (size_t)sym_arg("n", 2), w = (size_t)sym_arg("w", 3); const bool print = sym_arg("print", 0);
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4;
  const size_t H = 304, P = 2560, NR = 2;
  sas::header(file, L, H, P, 2); sas::Page pg(file + H, L, P, sas::META); sas::Col cols[6]; size_t nc = 0, R = 0; char nm[2][16];
  if (m == 0) { for (int i = 0; i < 2; i++) { memset(nm[i], 'x', n); nm[i][n] = 0; } cols[0] = {nm[0], "", "", 0, 8, 2}; cols[1] = {nm[1], "", "", 8, 1, 1}; nc = 2; R = 9; }
  if (m == 1) { cols[0] = {"A", "", "", 0, w, 2}; cols[1] = {"B\"", "", "", w, w, 2}; nc = 2; R = 2 * w; }
  if (m == 2) { cols[0] = {"A", "", "", 0, 1, 1}; cols[1] = {"B", "", "", 2, 2, 1}; nc = 2; R = 8; }
  if (m == 3) { cols[0] = {"A", "", "DATE", 0, 8, 1}; cols[1] = {"B", "", "", 8, 8, 1}; cols[2] = {"C", "", "DATETIME", 0, 8, 1}; cols[3] = {"D", "", "TIME", 0, 8, 1}; cols[4] = {"E", "", "", 0, 9, 1}; cols[5] = {"F", "", "", (uint32_t)(L.big ? 8 : 12), 4, 1}; nc = 6; R = 16; }
  sas::Meta mt; mt.row_length = R; mt.row_count = NR; mt.ncols = nc; mt.cols = cols; sas::MetaOffs mo = sas::putMeta(pg, mt);
  if (m == 0) { uint8_t *p = pg.w.p + mo.text; size_t o = 0; for (int i = 0; i < 2; i++) { for (;; o++) { bool e = true; for (size_t k = 0; k < n; k++) e &= p[o + k] == 'x'; if (e) break; } for (size_t k = 0; k < n; k++) p[o + k] = sym_u8("name"); } }
  sas::Page dp(file + H + P, L, P, sas::DATA, NR); uint8_t *q = dp.w.p + dp.pbo() + 8;
  for (size_t r = 0; r < NR; r++, q += R) {
    if (m == 1) for (size_t k = 0; k < R; k++) q[k] = r ? (uint8_t)("a\"b,c d\n\"\"e;\tf"[k % 14]) : sym_u8("cell");
    if (m == 2) { // one byte of one integer is arbitrary
      q[0] = (uint8_t)sym_arg("a", 200); q[2] = (uint8_t)sym_arg("b", 0x93); q[3] = (uint8_t)sym_arg("d", 0x87);
      if (r == (size_t)sym_arg("r", 0)) { const size_t at = (size_t)sym_arg("at", 0); q[at] = sym_u8("integer"); }
    }
    if (m == 3) {
      static uint64_t days[256]; for (int k = 0; k < 256; k++) { double x = (k - 100) * 97.0; memcpy(&days[k], &x, 8); }
      dp.w.u64((size_t)(q - dp.w.p), r == (size_t)sym_arg("r", 0) ? days[sym_u8("day")] : days[150]);
      static const double ch[] = {0, -1.5, 0.1 + 0.2, 1e22, 1234567890.125, 1e-7, 123456789012345678.0}; uint64_t b = sym_u64("NaN"); sym_assume((b & 0x7fffffffffffffffull) > 0x7ff8000000000000ull); double v; memcpy(&v, &b, 8);
      const size_t c = r ? (size_t)sym_arg("c", 1) : 7; dp.w.f64((size_t)(q - dp.w.p) + 8, c < 7 ? ch[c] : v);
    }
  }
  MemSource ms(file, H + 2 * P); Cap cap; std::ostream os(&cap);
  std::vector<std::vector<std::string>> rows; std::vector<std::vector<bool>> num; COLUMNS C, C2; std::string names;
  try {
    if (print) run(Both<datasink::print>{datasink::print(os), &rows, &C2, &num, nullptr}, ms, true, rows, num, C, names);
    else run(Both<datasink::detail::csv>{datasink::csv(os), &rows, &C2, &num, nullptr}, ms, false, rows, num, C, names);
  } catch (const std::exception &) { sym_fail("writing a table never fails"); }
  sym_check(rows.size() == NR && C.size() == nc, "every row is written");
  if (!print) {
    std::string f;
    for (size_t i = 0; i < nc; i++) { bool end = field(f); sym_check(end == (i + 1 == nc), "the header has one field per column"); sym_check(same(f, C[i].name), "the header holds the column names"); }
    for (size_t r = 0; r < NR; r++) for (size_t i = 0; i < nc; i++) {
      const size_t at = g_pos; bool end = field(f); sym_check(end == (i + 1 == nc), "a line has one field per column");
      if (num[r][i]) { sym_check(f.size() > 0 && (f[0] == '-' || (f[0] >= '0' && f[0] <= '9')), "a number is written in digits"); if (i == 1) { static const char *tx[] = {"0", "-1.5", "0.30000000000000004", "1e+22", "1234567890.125", "1e-07", "1.2345678901234568e+17"}; sym_check(same(f, tx[sym_arg("c", 1)]), "a number is written with all its digits"); } continue; }
      sym_check(same(f, rows[r][i]), "a field holds the value of its column");
      if (C[i].type == Column::Type::integer || C[i].type == Column::Type::number) sym_check(out[at] != '"', "numbers are not quoted");
    }
    sym_check(g_pos == out.size(), "there is one line per row");
  } else {
    std::string e = "#"; for (size_t i = 0; i < nc; i++) { e += ","; e += C[i].name; } e += "\n";
    for (size_t r = 0; r < NR; r++) { e += r ? "1" : "0"; for (size_t i = 0; i < nc; i++) { e += ","; e += C[i].type == Column::Type::integer || C[i].type == Column::Type::string || C[i].type == Column::Type::unknown ? rows[r][i] : ""; } e += "\n"; }
    sym_check(out.size() > e.size(), "the properties precede the table"); const size_t o = out.size() - e.size(); bool eq = out[o - 1] == '\n'; for (size_t i = 0; i < e.size(); i++) eq &= out[o + i] == e[i];
    sym_check(eq, "one line of names and one line per row with its index, every name and value verbatim");
  }
  sym_observe("size", out.size()); sym_cover("written");
  return 0;
}
