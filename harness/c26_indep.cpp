// C26: two readers used in turns, and columns kept after their reader is gone.
// args: A, B layouts, ca, cb compression (0 none, 1 RLE, 2 RDC), K calls
#include "api.hpp"
static uint8_t file[2][10240]; static size_t flen[2];
static const size_t NR = 4, RL = 24;
static uint8_t rows[2][NR][RL]; static size_t pushed[2];
static double val[2][NR]; static int small[2][NR];
static uint64_t bits(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static bool same(const void *p, const uint8_t *q) { bool eq = true; for (size_t i = 0; i < RL; i++) eq &= ((const uint8_t *)p)[i] == q[i]; return eq; }
struct Sink {
  size_t t; const Properties *pr = nullptr;
  Sink(size_t k) : t(k) {}
  void set_properties(const Properties &p) { pr = &p; }
  void push_row(size_t i, Column::PBUF p) { sym_check(i < NR && same(p, rows[t][i]), "a row is delivered to the sink of its own reader"); sym_check(pr && pr->columns.size() == 3 && pr->columns[0].name == (t ? "second" : "first"), "a sink sees the properties of its own reader"); pushed[t]++; }
  void end_of_data() {}
};
static void build(size_t t, size_t l, int comp) {
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4; const size_t H = L.a1 ? 320 : 304, P = 1600; uint8_t *f = file[t];
  sas::Col cols[3] = {{t ? "second" : "first", "a label", "BEST", 0, 8, 1}, {"S", "", "$", 8, t ? 2u : 3u, 2}, {"I", "", "", 11, 1, 1}};
  sas::header(f, L, H, P, 3); sas::Meta m; m.row_length = RL; m.row_count = NR; m.ncols = 3; m.cols = cols; m.comp = comp; m.lcp = 8;
  { sas::Page pg(f + H, L, P, sas::META); sas::putMeta(pg, m); }
  for (size_t k = 0; k < NR; k++) {
    uint8_t *r = rows[t][k]; memset(r, 0, RL); sym_bytes(r, 12, "row"); r[8] = (uint8_t)('a' + k + 8 * t); r[9] = 'x'; r[10] = 'y';
    uint64_t x = 0; for (size_t i = 0; i < 8; i++) x |= (uint64_t)r[L.big ? i : 7 - i] << (56 - 8 * i); memcpy(&val[t][k], &x, 8); small[t][k] = r[11];
  }
  for (size_t ip = 1, k = 0; ip < 3; ip++) {
    sas::Page pg(f + H + ip * P, L, P, comp ? sas::META : sas::DATA, comp ? 0 : 2);
    for (size_t i = 0; i < 2; i++, k++) {
      if (!comp) { memcpy(pg.w.p + pg.pbo() + 8 + i * RL, rows[t][k], RL); continue; }
      const size_t o = pg.alloc(18); uint8_t *d = pg.w.p + o; const size_t h = comp == 1 ? 1 : 2; if (comp == 1) d[0] = 0x80 | 11; memcpy(d + h, rows[t][k], 12); pg.add(o, comp == 1 ? 13 : 16, 4, 1); // literals, zero filled
    }
  }
  flen[t] = H + 3 * P;
}
static void checkCells(size_t t, size_t k, const COLUMNS &c, const void *p) {
  sym_check(c.size() == 3 && c[0].name == (t ? "second" : "first") && c[0].label == "a label" && c[0].format == "BEST" && c[1].name == "S" && c[1].length() == (t ? 2 : 3), "columns stay those of their own table");
  sym_check(bits(c[0].get_number(p)) == bits(val[t][k]), "a number column decodes rows of its own table"); sym_check(c[2].get_integer(p) == small[t][k], "an integer column decodes rows of its own table");
  const SV s = c[1].get_string(p); sym_check(s.size() >= 1 && s.data() == (const char *)p + 8 && (uint8_t)s[0] == rows[t][k][8], "a text column decodes rows of its own table");
}
int main() {
  const size_t K = (size_t)sym_arg("K", 3);
  build(0, (size_t)sym_arg("A", 0), (int)sym_arg("ca", 0)); build(1, (size_t)sym_arg("B", 3), (int)sym_arg("cb", 0));
  try {
    MemSource ms[2] = {{file[0], flen[0]}, {file[1], flen[1]}};
    Reader *rd[2]; for (size_t t = 0; t < 2; t++) rd[t] = new Reader(ms[t], Sink(t));
    COLUMNS cols[2] = {rd[0]->properties().columns, rd[1]->properties().columns};
    Properties *copy = new Properties(rd[0]->properties());
    size_t cur[2] = {0, 0}, ilast[2] = {0, 0}; const void *last[2] = {nullptr, nullptr};
    for (size_t k = 0; k < K; k++) {
      const size_t t = (size_t)sym_concretize(sym_range(0, 1, "reader")), op = (size_t)sym_concretize(sym_range(0, 4, "call")); if (!rd[t]) continue;
      const size_t p0 = pushed[0], p1 = pushed[1]; size_t mine = 0; const bool left = cur[t] < NR;
      if (op == 0) { const void *p = rd[t]->read_row_no_sink(); sym_check((p != nullptr) == left, "a row is read while there are rows"); if (p && left) { last[t] = p; ilast[t] = cur[t]++; } else last[t] = nullptr; }
      if (op == 1) { last[t] = nullptr; sym_check(rd[t]->read_row() == left, "a row is read while there are rows"); if (left) { mine = 1; cur[t]++; } }
      if (op == 2) { last[t] = nullptr; const size_t n = sym_u64("count"), had = NR - cur[t]; sym_check(rd[t]->skip(n) == (n <= had), "rows are skipped while there are rows"); cur[t] += sym_concretize(n < had ? n : had); }
      if (op == 3) { MemSource m2(file[t], flen[t]); Reader other(m2, Sink(t)); const void *p = other.read_row_no_sink(); sym_check(p && same(p, rows[t][0]), "a new reader starts at the first row"); if (p) checkCells(t, 0, cols[t], p); }
      if (op == 4) { delete rd[t]; rd[t] = nullptr; last[t] = nullptr; }
      sym_check(pushed[0] - p0 == (t == 0 ? mine : 0) && pushed[1] - p1 == (t == 1 ? mine : 0), "a call notifies the sink of its own reader only");
      for (size_t i = 0; i < 2; i++) {
        if (rd[i]) { sym_check(rd[i]->current_row_index() == cur[i], "a call moves its own reader only"); sym_check(rd[i]->properties().columns.size() == 3 && rd[i]->properties().columns[0].name == (i ? "second" : "first"), "properties stay those of their own table"); }
        if (last[i]) { sym_check(same(last[i], rows[i][ilast[i]]), "a row stays as it was read until the next call on its reader"); checkCells(i, ilast[i], cols[i], last[i]); }
      }
      sym_observe("call", 10 * op + t);
    }
    for (size_t t = 0; t < 2; t++) if (rd[t]) { delete rd[t]; }
    for (size_t t = 0; t < 2; t++) for (size_t k = 0; k < 2; k++) checkCells(t, k, cols[t], rows[t][k]); // columns do not need their reader
    checkCells(0, 3, copy->columns, rows[0][3]); sym_check(copy->dataset_name == "DATASET" && copy->row_count == NR, "a copy of the properties does not need the reader"); delete copy;
    sym_cover("used in turns");
  } catch (const std::exception &) { sym_fail("reading well formed files throws"); }
  return 0;
}
