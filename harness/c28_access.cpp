// C28: every accessor of a column of every type, against the column's own kind of value.
// args: L layout, t 0 days, 1 seconds, 2 any NaN, 3 numbers beyond every supported year, 4 any bytes (columns other than dates); lo, hi days, f fraction bits
#include "api.hpp"
static uint8_t file[6144];
struct Sink { void set_properties(const Properties &) {} void push_row(size_t, Column::PBUF) {} void end_of_data() {} };
static uint64_t bitsOf(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static bool isNaN(uint64_t b) { return (b & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
int main() {
  using namespace boost::posix_time; using namespace boost::gregorian;
  const size_t l = (size_t)sym_arg("L", 0), t = (size_t)sym_arg("t", 0), H = 304, P = 2816; const int64_t lo = sym_arg("lo", 0), hi = sym_arg("hi", 100), j = sym_arg("f", 0);
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4; const size_t H2 = L.a1 ? H + 16 : H;
  sas::header(file, L, H2, P, 2);
  sas::Col cols[8] = {{"D", "", "DATE", 0, 8, 1}, {"S", "", "DATETIME", 0, 8, 1}, {"T", "", "TIME", 0, 8, 1}, {"N", "", "BEST", 0, 8, 1}, {"C", "", "$", 8, 4, 2}, {"I", "", "", 8, 1, 1}, {"J", "", "", 9, 2, 1}, {"X", "", "DATE", 0, 9, 1}};
  sas::Meta m; m.row_length = 12; m.row_count = 1; m.ncols = 8; m.cols = cols; { sas::Page pg(file + H2, L, P, sas::META); sas::putMeta(pg, m); }
  sas::Page dp(file + H2 + P, L, P, sas::DATA, 1); const size_t row = dp.pbo() + 8;
  double v = 0; uint64_t bits = 0;
  if (t == 0) { const int64_t d = (int64_t)sym_range(0, (uint64_t)(hi - lo), "day") + lo; v = sym_scaled(d, lo, hi, 0); }
  else if (t == 1) { const int64_t d = (int64_t)sym_range(0, (uint64_t)(hi - lo), "day") + lo, q = sym_arg("q", 1), s = q == 1 ? (int64_t)sym_range(1, 43199, "second") : (int64_t)sym_range(0, 43198, "second") - 43199, fr = j ? (int64_t)sym_range(0, (1ull << (j - 1)) - 1, "fraction") : 0; v = sym_scaled(((86400 * d + s) << j) + fr, (86400 * lo - 43201) << j, (86400 * hi + 43201) << j, j); }
  else { bits = sym_u64("bits"); if (t == 2) sym_assume(isNaN(bits)); if (t == 3) sym_assume((bits & 0x7fffffffffffffffull) >= 0x426D1A94A2000000ull && (bits & 0x7fffffffffffffffull) <= 0x7ff0000000000000ull); memcpy(&v, &bits, 8); }
  bits = bitsOf(v); dp.w.f64(row, v); uint8_t *c = dp.w.p + row + 8; sym_bytes(c, 3, "bytes"); c[3] = 'z';
  const long i1 = c[0], i2 = (int16_t)(L.big ? c[1] << 8 | c[2] : c[2] << 8 | c[1]);
  MemSource ms(file, H2 + 2 * P);
  try {
    Reader rd(ms, Sink{}); const void *p = rd.read_row_no_sink(); sym_check(p != nullptr, "the row is read"); const auto &C = rd.properties().columns; sym_check(C.size() == 8, "eight columns"); if (!p || C.size() != 8) return 0;
    auto noText = [&](const Column &k) { sym_check(k.get_string(p).size() == 0, "only a text column has a text cell"); };
    auto noInt = [&](const Column &k) { sym_check(k.get_integer(p) == 0, "only an integer column has an integer cell"); };
    auto noDates = [&](const Column &k) { sym_check(k.get_datetime(p).is_special(), "a column that is no date has no datetime"); sym_check(k.get_date(p).is_special(), "a column that is no date has no date"); sym_check(k.get_time(p).is_special(), "a column that is no date has no time"); };
    if (t != 4) {
      const date d = C[0].get_date(p); const ptime s = C[1].get_datetime(p); const time_duration y = C[2].get_time(p);
      for (size_t i = 0; i < 3; i++) { noText(C[i]); noInt(C[i]); const uint64_t b = bitsOf(C[i].get_number(p)); sym_check(b == bits || (isNaN(b) && isNaN(bits)), "the number of a date, datetime or time cell is the stored one"); }
      const ptime ds = C[0].get_datetime(p); sym_check(d.is_special() == ds.is_special() && (d.is_special() || (ds.date() == d && ds.time_of_day().ticks() == 0)), "the datetime of a date cell is its midnight");
      if (!d.is_special()) sym_check(C[0].get_time(p).ticks() == 0, "the time of a date cell is midnight");
      const date sd = C[1].get_date(p); const time_duration st = C[1].get_time(p);
      sym_check(sd.is_special() == s.is_special() && (s.is_special() || sd == s.date()), "the date of a datetime cell is the date part"); sym_check(st.is_special() == s.is_special() && (s.is_special() || st == s.time_of_day()), "the time of a datetime cell is the time of day part");
      sym_check(y.is_special() == s.is_special() && (s.is_special() || y == st), "a time cell is the time of day of the same number of seconds");
      sym_check(C[2].get_date(p).is_special() && C[2].get_datetime(p).is_special(), "a time cell has no date");
      if (!d.is_special()) { sym_cover("date"); } if (!s.is_special()) { sym_cover("datetime"); } if (s.is_special() && d.is_special()) { sym_cover("missing"); }
    } else {
      const Column &N = C[3], &T = C[4], &I = C[5], &J = C[6], &X = C[7];
      noDates(N); noDates(T); noDates(I); noDates(J); noDates(X); noText(N); noText(I); noText(J); noText(X); noInt(N); noInt(T); noInt(X);
      sym_check(isNaN(bitsOf(T.get_number(p))) && isNaN(bitsOf(X.get_number(p))), "a text or unknown column has no number"); sym_check(bitsOf(N.get_number(p)) == bits, "a number column has its number"); sym_check(X.to_string(p).empty(), "an unknown cell has no text"); sym_check(X.type == Column::Type::unknown, "a numeric column of nine bytes has no type");
      const SV s = T.get_string(p); sym_check(s.size() == 4 && s.data() == (const char *)p + 8, "a text column has its text");
      sym_check(I.get_integer(p) == i1 && I.get_number(p) == (double)i1 && J.get_integer(p) == i2 && J.get_number(p) == (double)i2, "an integer column has its integer, as a number too");
      for (size_t k = 0; k < 2; k++) { const STRING z = k ? J.to_string(p) : I.to_string(p); const long e = k ? i2 : i1; long r = 0; bool ok = !z.empty() && z.size() <= 6; const bool neg = !z.empty() && z[0] == '-'; for (size_t i = neg; i < z.size(); i++) { ok = ok && z[i] >= '0' && z[i] <= '9'; r = 10 * r + (z[i] - '0'); } ok = ok && z.size() > (neg ? 1u : 0u) && (z[neg] != '0' || z.size() == 1); sym_check(ok && (neg ? -r : r) == e, "the text of an integer cell is its decimal notation"); }
      sym_cover("cells");
    }
    sym_observe("bits", bits);
  } catch (const std::exception &) { sym_fail("accessors never throw"); }
  return 0;
}
