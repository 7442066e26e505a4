// C13: date, datetime and time cells. args: L layout,
// t: 0 date from whole days, 1 datetime from whole seconds, 2 datetime from n * 2^-j seconds, 3 time of day,
//    4 missing values (any NaN), 5 numbers beyond every supported year, 6 date at half days (rounded), lo, hi: range of days
#include "api.hpp"
static uint8_t file[4096];
struct Sink { void set_properties(const Properties &) {} void push_row(size_t, Column::PBUF) {} void end_of_data() {} };
int main() {
  using namespace boost::posix_time; using namespace boost::gregorian;
  const size_t l = (size_t)sym_arg("L", 0), t = (size_t)sym_arg("t", 0); const int64_t lo = sym_arg("lo", -1000), hi = sym_arg("hi", 1000);
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4;
  const size_t H = 304, P = 2048;
  sas::header(file, L, H, P, 2);
  sas::Page pg(file + H, L, P - 256, sas::META);
  sas::Col cols[3] = {{"D", "", "DATE", 8, 8, 1}, {"S", "", "DATETIME", 0, 8, 1}, {"T", "", "TIME", 16, 8, 1}};
  sas::Meta m; m.row_length = 24; m.row_count = 1; m.ncols = 3; m.cols = cols; sas::putMeta(pg, m);
  sas::header(file, L, H, P - 256, 2);
  sas::Page dp(file + H + P - 256, L, P - 256, sas::DATA, 1);
  const size_t row = dp.pbo() + 8;
  double v = 0; int64_t d = 0, s = 0, us = 0, q = 0, fs = 0; uint64_t bits = 0;
  if (t == 0) { d = (int64_t)sym_range(0, (uint64_t)(hi - lo), "day") + lo; v = sym_scaled(d, lo, hi, 0); }
  else if (t == 6) { // half days round away from zero
    d = (int64_t)sym_range(0, (uint64_t)(hi - lo), "day") + lo; v = sym_scaled(2 * d + 1, 2 * lo + 1, 2 * hi + 1, 1); d = lo >= 0 ? d + 1 : d; }
  else if (t == 1 || t == 2 || t == 3) {
    d = (int64_t)sym_range(0, (uint64_t)(hi - lo), "day") + lo; q = sym_arg("q", 0); fs = sym_arg("fs", 1);
    // seconds from that midnight, q: 0 before, 1 after, 2 half a day after, 3 none; fraction, fs: 0 negative, 1 positive or none, 2 one half
    const int64_t j = t == 1 ? 0 : sym_arg("j", 0), half = j ? 1ll << (j - 1) : 0; int64_t fr = 0;
    s = q == 2 ? 43200 : q == 3 ? 0 : q == 1 ? (int64_t)sym_range(1, 43199, "second") : (int64_t)sym_range(0, 43198, "second") - 43199;
    if (j) fr = fs == 2 ? half : fs == 1 ? (int64_t)sym_range(0, (uint64_t)half - 1, "fraction") : (int64_t)sym_range(0, (uint64_t)half - 2, "fraction") - (half - 1);
    v = sym_scaled(((86400 * d + s) << j) + fr, (86400 * lo - 43201) << j, (86400 * hi + 43201) << j, j);
    us = fr * (1000000 >> j); // j <= 6: exact
  } else if (t == 4) { bits = sym_u64("bits"); sym_assume((bits & 0x7fffffffffffffffull) > 0x7ff0000000000000ull); memcpy(&v, &bits, 8); }
  else if (t == 5) { bits = sym_u64("bits"); sym_assume((bits & 0x7fffffffffffffffull) >= 0x426D1A94A2000000ull && (bits & 0x7fffffffffffffffull) <= 0x7ff0000000000000ull); memcpy(&v, &bits, 8); } // |v| >= 1e12
  uint8_t *c = dp.w.p + row; dp.w.f64(row + (t == 0 || t == 6 ? 8 : t == 3 ? 16 : 0), v);
  if (t >= 4) { dp.w.f64(row, v); dp.w.f64(row + 8, v); dp.w.f64(row + 16, v); }
  MemSource ms(file, H + 2 * (P - 256));
  try {
    Reader rd(ms, Sink{});
    const void *p = rd.read_row_no_sink(); sym_check(p != nullptr, "the row is read");
    const auto &C = rd.properties().columns; sym_check(C.size() == 3 && C[0].type == Column::Type::date && C[1].type == Column::Type::datetime && C[2].type == Column::Type::time, "date, datetime and time columns");
    const date e(1960, 1, 1);
    if (t == 0 || t == 6) {
      const date x = C[0].get_date(p); sym_check(!x.is_special(), "a day number in the supported years is a date");
      sym_check((x - e).days() == d, "the date is that many days after 1960-01-01"); sym_observe("day", (uint64_t)(x - e).days());
      if (t == 0) { const ptime y = C[0].get_datetime(p); sym_check((y - ptime(e)).total_microseconds() == d * 86400000000ll, "a date cell as datetime is the midnight of that date"); }
    } else if (t == 1 || t == 2) {
      const ptime x = C[1].get_datetime(p); sym_check(!x.is_special(), "a second number in the supported years is a datetime");
      const int64_t y = (x - ptime(e)).total_microseconds(); sym_check(y == (86400 * d + s) * 1000000 + us, "the datetime is that many seconds after 1960-01-01"); sym_observe("microseconds", (uint64_t)y);
    } else if (t == 3) {
      const time_duration x = C[2].get_time(p); sym_check(!x.is_special(), "a time number is a time of day");
      const int64_t y = x.total_microseconds(), w0 = s * 1000000 + us, want = (q == 0 || (q == 3 && fs == 0)) ? w0 + 86400000000ll : w0; sym_check(y == want, "the time is the time of day of that many seconds"); sym_check(y >= 0 && y < 86400000000ll, "a time of day is less than a day"); sym_observe("microseconds", (uint64_t)y);
    } else {
      const date x = C[0].get_date(p); const ptime y = C[1].get_datetime(p); const time_duration z = C[2].get_time(p);
      sym_check(x.is_special(), "a missing or unsupported date is not a date"); sym_check(y.is_special(), "a missing or unsupported datetime is not a datetime"); sym_check(z.is_special(), "a missing or unsupported time is not a time");
    }
  } catch (const std::exception &) { sym_fail("date cells never throw"); }
  return 0;
}
