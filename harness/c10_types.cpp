// C10: the type of a column follows its stored type byte, width and display format.
// args: L layout, w width (-1: any up to 12), t type byte (-1: any), n format length (every printable format name)
#include "api.hpp"
static uint8_t file[8192];
struct NullSink { void set_properties(const Properties &) {} void push_row(size_t, Column::PBUF) {} void end_of_data() {} };
// SAS display formats by the kind of value they show
static const char *DT[] = {"DATETIME", "DTWKDATX", "B8601DN", "B8601DT", "B8601DX", "B8601DZ", "B8601LX", "E8601DN", "E8601DT", "E8601DX", "E8601DZ", "E8601LX", "DATEAMPM", "DTDATE", "DTMONYY", "DTYEAR", "TOD", "MDYAMPM"};
static const char *DA[] = {"DATE", "DAY", "DDMMYY", "DOWNAME", "JULDAY", "JULIAN", "MMDDYY", "MMYY", "MMYYC", "MMYYD", "MMYYP", "MMYYS", "MMYYN", "MONNAME", "MONTH", "MONYY", "QTR", "QTRR", "NENGO", "WEEKDATE", "WEEKDATX", "WEEKDAY", "WEEKV", "WORDDATE", "WORDDATX", "YEAR", "YYMM", "YYMMC", "YYMMD", "YYMMP", "YYMMS", "YYMMN", "YYMON", "YYMMDD", "YYQ", "YYQC", "YYQD", "YYQP", "YYQS", "YYQN", "YYQR", "YYQRC", "YYQRD", "YYQRP", "YYQRS", "YYQRN", "YYMMDDP", "YYMMDDC", "E8601DA", "YYMMDDN", "MMDDYYC", "MMDDYYS", "MMDDYYD", "YYMMDDS", "B8601DA", "DDMMYYN", "YYMMDDD", "DDMMYYB", "DDMMYYP", "MMDDYYP", "YYMMDDB", "MMDDYYN", "DDMMYYC", "DDMMYYD", "DDMMYYS", "MINGUO"};
static const char *TI[] = {"TIME"};
template <size_t N> static bool in(const char *(&a)[N], const uint8_t *f, size_t n) {
  bool r = false;
  for (size_t i = 0; i < N; i++) { if (sas::slen(a[i]) != n) continue; bool e = true; for (size_t k = 0; k < n; k++) e &= f[k] == (uint8_t)a[i][k]; r |= e; }
  return r;
}
int main() {
  const size_t l = (size_t)sym_arg("L", 0), n = (size_t)sym_arg("n", 4), R = 40; const int64_t wa = sym_arg("w", -1), ta = sym_arg("t", -1);
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4;
  const size_t w = wa < 0 ? (size_t)sym_range(0, 12, "width") : (size_t)wa;
  const uint8_t t = ta < 0 ? sym_u8("type byte") : (uint8_t)ta;
  const size_t H = 304, P = 1792;
  sas::header(file, L, H, P, 2);
  static char f[16]; memset(f, 'x', 12); f[n] = 0; // the format, filled in below
  sas::Col cols[3] = {{"A", "La", "F", 0, 8, 1}, {"B", "Lb", f, 8, w, t}, {"C", "Lc", "DATE", 24, 8, 1}};
  sas::Meta m; m.row_length = R; m.row_count = 1; m.ncols = 3; m.cols = cols;
  uint8_t fm[16];
  for (size_t k = 0; k < n; k++) { fm[k] = sym_u8("format"); sym_assume(fm[k] > 32 && fm[k] < 127); }
  { sas::Page pg(file + H, L, P, sas::META); sas::MetaOffs mo = sas::putMeta(pg, m);
    // column 1's format text is the one made of x
    uint8_t *p = pg.w.p + mo.text; size_t o = 0; for (;; o++) { bool e = n > 0; for (size_t k = 0; k < n; k++) e &= p[o + k] == 'x'; if (e || o > 200) break; }
    if (n) memcpy(p + o, fm, n); }
  { sas::Page pg(file + H + P, L, P, sas::DATA, 1); }
  MemSource ms(file, H + 2 * P);
  try {
    Reader rd(ms, NullSink{});
    const COLUMNS &c = rd.properties().columns; sym_check(c.size() == 3, "every column is there");
    using T = Column::Type; T e;
    const bool dt = in(DT, fm, n), da = in(DA, fm, n), ti = in(TI, fm, n);
    if (t != 1) e = T::string; else if (w == 1 || w == 2) e = T::integer; else if (w < 3 || w > 8) e = T::unknown;
    else if (dt) e = T::datetime; else if (da) e = T::date; else if (ti) e = T::time; else e = T::number;
    sym_check(c[1].type == e, "the type follows stored type, width and format"); sym_check(c[1].length() == w, "the width is the stored one");
    sym_check(c[0].type == T::number && c[2].type == T::date && c[0].name == "A" && c[2].name == "C" && c[2].label == "Lc" && c[0].length() == 8 && c[2].length() == 8, "the other columns are unaffected");
    bool fe = c[1].format.size() == n; for (size_t k = 0; k < n && fe; k++) fe &= (uint8_t)c[1].format[k] == fm[k]; sym_check(fe, "the format is the stored one");
    if (e == T::date) sym_cover("date"); if (e == T::number) sym_cover("number"); if (e == T::string) sym_cover("string"); if (e == T::unknown) sym_cover("unknown"); if (e == T::datetime) sym_cover("datetime"); if (e == T::time) sym_cover("time");
    sym_observe("type", (uint64_t)c[1].type);
  } catch (const std::exception &) { sym_fail("a well formed file is opened without exception"); }
  return 0;
}
