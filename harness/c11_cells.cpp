// C11/C12: a cell is decoded from its own bytes, wherever its column lies in the row.
// args: L layout, w width, t 1 number / 2 string, R row length, comp 0/1 (row stored compressed), nb: with a second column over the whole row
#include "api.hpp"
static uint8_t file[8192], row[512];
struct NullSink { void set_properties(const Properties &) {} void push_row(size_t, Column::PBUF) {} void end_of_data() {} };
static uint64_t bits(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
int main() {
  const size_t l = (size_t)sym_arg("L", 0), R = (size_t)sym_arg("R", 12), comp = (size_t)sym_arg("comp", 0); const int t = (int)sym_arg("t", 1);
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4;
  const size_t w = t == 1 ? (size_t)sym_arg("w", 8) : (size_t)sym_range((size_t)sym_arg("wlo", 0), (size_t)sym_arg("w", 8), "width");
  const size_t off = (size_t)sym_range(0, R - w, "offset");
  const size_t H = 304, P = 1536;
  sas::Col cols[2] = {{"A", "", "", off, w, t}, {"B", "", "", 0, R, 2}};
  sas::Meta m; m.row_length = R; m.row_count = 1; m.ncols = 2; m.cols = cols; m.comp = (int)comp;
  sas::header(file, L, H, P, 2);
  { sas::Page pg(file + H, L, P, sas::META); sas::putMeta(pg, m); }
  const int64_t fill = sym_arg("fill", -1); // middle of the row: one concrete byte value
  if (fill >= 0) { memset(row, (int)fill, R); sym_bytes(row, 3, "row"); sym_bytes(row + R - 3, 3, "row"); } else sym_bytes(row, R, "row");
  if (comp) { // one literal copy of the row but for its last byte, which the reader fills with zero
    row[R - 1] = 0; sas::Page pg(file + H + P, L, P, sas::META); size_t o = pg.alloc(R); pg.w.p[o] = (uint8_t)(0x80 | (R - 2)); for (size_t i = 0; i + 1 < R; i++) pg.w.p[o + 1 + i] = row[i];
    if (comp == 2) { for (size_t i = 0; i < R; i++) row[i] = 0; pg.w.p[o] = pg.w.p[o + 1] = 0; pg.w.p[o + R - 1] = pg.w.p[o + R - 2] = pg.w.p[o + R - 3] = 0; for (size_t i = 0; i + 5 < R; i++) row[i] = pg.w.p[o + 2 + i]; pg.add(o, R - 1, 4, 1); }
    else pg.add(o, R, 4, 1);
    if (comp == 1) { pg.nsub = 0; pg.add(o, R - 1, 4, 1); row[R - 2] = 0; }
  } else {
    sas::Page pg(file + H + P, L, P, sas::DATA, 1); memcpy(pg.w.p + pg.pbo() + 8, row, R);
  }
  MemSource ms(file, H + 2 * P);
  try {
    Reader rd(ms, NullSink{});
    const void *p = rd.read_row_no_sink(); sym_check(p != nullptr, "the row is read");
    sym_check(rd.properties().columns.size() == 2, "the table has two columns");
    const Column &c = rd.properties().columns[0];
    sym_check(c.length() == w, "the width of a column is the stored one");
    uint8_t cell[512]; for (size_t i = 0; i < w; i++) cell[i] = row[off + i];
    if (t == 1) {
      const double d = c.get_number(p);
      if (w >= 3) {
        sym_check(c.type == Column::Type::number, "a numeric column without format is a number");
        uint64_t e = 0; for (size_t i = 0; i < w; i++) e |= (uint64_t)cell[L.big ? i : w - 1 - i] << (56 - 8 * i);
        sym_check(bits(d) == e, "the number is the stored double, its missing bytes zero"); sym_observe("number", bits(d));
        sym_cover("number");
      } else {
        sym_check(c.type == Column::Type::integer, "a one or two byte number is an integer");
        long e = w == 1 ? (long)cell[0] : (long)(int16_t)(L.big ? cell[0] << 8 | cell[1] : cell[1] << 8 | cell[0]);
        sym_check(c.get_integer(p) == e, "the integer is the stored one"); sym_check(d == (double)e, "the number is the stored integer");
        sym_observe("integer", (uint64_t)c.get_integer(p)); sym_cover("integer");
      }
    } else {
      size_t n = w; while (n && (cell[n - 1] == 0 || cell[n - 1] == ' ' || (cell[n - 1] >= 9 && cell[n - 1] <= 13))) n--;
      const SV s = c.get_string(p);
      sym_check(c.type == Column::Type::string, "a character column is a string");
      sym_check(s.size() == n, "a text cell loses its trailing padding and nothing else");
      bool eq = true; for (size_t i = 0; i < n; i++) eq &= (uint8_t)s[i] == cell[i];
      sym_check(eq, "a text cell has the stored bytes");
      const STRING z = c.to_string(p); eq = z.size() == n; for (size_t i = 0; i < n && eq; i++) eq &= (uint8_t)z[i] == cell[i];
      sym_check(eq, "the text of a text cell is the cell"); sym_observe("length", n); if (n) sym_cover("text");
    }
    const SV all = rd.properties().columns[1].get_string(p); sym_check(all.size() <= R, "a column ends with the row");
  } catch (const std::exception &) { sym_fail("reading a well formed row throws"); }
  return 0;
}
