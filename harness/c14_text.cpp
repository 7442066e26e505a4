// C14: text of dates, datetimes and times.
// args: t 0 date, 1 datetime, 2 time; ylo, yhi: years; f: fraction; nh: digits of the hour of a time; t 3: missing and unsupported cells of a file, q: NaN or too large; t 4: date cells
#include "api.hpp"
#include <string>
static char want[64]; static size_t wn;
static void lit(char c) { want[wn++] = c; }
static void put(uint64_t v, unsigned n) { for (unsigned i = n; i--;) { want[wn + i] = (char)('0' + v % 10); v /= 10; } wn += n; }
static uint64_t split(uint64_t v, uint64_t lo, uint64_t hi) { while (lo < hi) { uint64_t m = lo + (hi - lo) / 2; if (sym_concretize(v <= m)) hi = m; else lo = m + 1; } return lo; }
// a number below 100 of two digits, told apart by its first digit, and below 10 by its highest bit
static bool fixed_hms = false;
static uint64_t two(uint64_t hi, const char *name, uint64_t lo = 0) {
  if (fixed_hms) { lit('2'); lit('1'); return 21; }
  const uint64_t t = split(sym_range(0, hi / 10, name), 0, hi / 10), top = t == hi / 10 ? hi % 10 : 9, e = t || top < 8 ? 0 : split(sym_range(0, 1, name), 0, 1), u = e ? sym_range(8, top, name) : sym_range(t ? 0 : lo, t ? top : 7, name);
  lit((char)('0' + t)); lit((char)('0' + u)); return t * 10 + u;
}
// a number of n digits, told apart by the number of its leading zeros and the first digit after them
static uint64_t digits(unsigned n, bool zeros, const char *name) {
  const uint64_t z = zeros ? split(sym_range(0, n - 1, name), 0, n - 1) : 0, t = split(sym_range(1, 9, name), 1, 9); uint64_t v = t;
  for (unsigned i = 0; i < z; i++) lit('0');
  lit((char)('0' + t));
  for (unsigned i = (unsigned)z + 1; i < n; i++) { const uint64_t d = sym_range(0, 9, name); lit((char)('0' + d)); v = v * 10 + d; }
  return v;
}
static void same(const std::string &s, const char *what) { sym_check(s.size() == wn, "the text has the length of its fields"); bool eq = true; for (size_t i = 0; i < wn; i++) eq &= s[i] == want[i]; sym_check(eq, what); sym_observe("length", s.size()); }
static const unsigned ML[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static uint8_t file[4096];
struct Sink { void set_properties(const Properties &) {} void push_row(size_t, Column::PBUF) {} void end_of_data() {} };
// a file of a row with a date, a datetime and a time, all of the value v
template <class F> static void cells(double v, F f) {
  sas::Layout L; L.big = sym_arg("L", 0) & 1; L.b64 = sym_arg("L", 0) & 2; L.a1 = sym_arg("L", 0) & 4; const size_t H = 304, P = 2048;
  sas::header(file, L, H, P, 2); sas::Page pg(file + H, L, P - 256, sas::META);
  sas::Col cols[3] = {{"D", "", "DATE", 8, 8, 1}, {"S", "", "DATETIME", 0, 8, 1}, {"T", "", "TIME", 16, 8, 1}};
  sas::Meta m; m.row_length = 24; m.row_count = 1; m.ncols = 3; m.cols = cols; sas::putMeta(pg, m); sas::header(file, L, H, P - 256, 2);
  sas::Page dp(file + H + P - 256, L, P - 256, sas::DATA, 1); const size_t row = dp.pbo() + 8;
  for (int i = 0; i < 3; i++) dp.w.f64(row + 8 * i, v);
  MemSource ms(file, H + 2 * (P - 256));
  try { Reader rd(ms, Sink{}); const void *p = rd.read_row_no_sink(); sym_check(p != nullptr, "the row is read"); const auto &C = rd.properties().columns; sym_check(C.size() == 3, "three columns"); f(C, p); }
  catch (const std::exception &) { sym_fail("rendering a cell never throws"); }
}
int main() {
  using namespace boost::posix_time; using namespace boost::gregorian;
  const size_t t = (size_t)sym_arg("t", 0); const uint64_t ylo = (uint64_t)sym_arg("ylo", 2000), yhi = (uint64_t)sym_arg("yhi", 2000); const uint64_t mlo = (uint64_t)sym_arg("mlo", 1), mhi = (uint64_t)sym_arg("mhi", 12); const bool f = sym_arg("f", 0);
  if (t == 3) {
    double v; const uint64_t bits = sym_u64("bits"), a = bits & 0x7fffffffffffffffull;
    if (sym_arg("q", 0)) sym_assume(a >= 0x426D1A94A2000000ull && a <= 0x7ff0000000000000ull); else sym_assume(a > 0x7ff0000000000000ull); // |v| >= 1e12, or NaN
    memcpy(&v, &bits, 8);
    cells(v, [](const COLUMNS &C, const void *p) { for (const auto &c : C) sym_check(c.to_string(p).size() == 0, "the text of a missing or unsupported cell is empty"); });
    return 0;
  }
  date d;
  if (t < 2 || t == 4) {
    const uint64_t y = split(sym_range(ylo, yhi, "year"), ylo, yhi), m = split(sym_range(mlo, mhi, "month"), mlo, mhi), last = ML[m - 1] + (m == 2 && y % 4 == 0 && (y % 100 || y % 400 == 0));
    put(y, 4); lit('-'); put(m, 2); lit('-'); const uint64_t n = two(last, "day", 1); d = date((unsigned short)y, (unsigned short)m, 1) + days((long)n - 1);
    if (t == 0) { same(to_string(d), "the text of a date is YYYY-MM-DD"); return 0; }
    if (t == 4) {
      const int64_t e = (d - date(1960, 1, 1)).days(), lo = (date((unsigned short)y, (unsigned short)m, 1) - date(1960, 1, 1)).days();
      cells(sym_scaled(e, lo, lo + 30, 0), [](const COLUMNS &C, const void *p) { same(C[0].to_string(p), "the text of a date cell is YYYY-MM-DD"); });
      return 0;
    }
    lit(' ');
  }
  fixed_hms = !sym_arg("hms", 1); const unsigned nh = (unsigned)sym_arg("nh", 2);
  const uint64_t h = t == 1 ? two(23, "hour") : nh == 2 ? two(99, "hour") : digits(nh, false, "hour");
  lit(':'); const uint64_t mi = two(59, "minute"); lit(':'); const uint64_t s = two(59, "second"); uint64_t us = 0;
  if (f) { lit('.'); us = digits(6, true, "fraction"); }
  const time_duration td((long)h, (long)mi, (long)s, (long)us);
  if (t == 1) same(to_string(ptime(d, td)), "the text of a datetime is YYYY-MM-DD HH:MM:SS, with a fraction if there is one");
  else same(to_string(td), "the text of a time is HH:MM:SS, with a fraction if there is one");
  return 0;
}
