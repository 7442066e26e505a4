// C05: the same content laid out twice; both files read alike.
// args: A, B layouts (bit 0 big endian, bit 1 64 bit, bit 2 alignment), comp 0/1/2, NP pages of rows, w width (3..6) of the second number column
#include "api.hpp"
static uint8_t file[2][10240];
static const size_t NR = 8;
struct Cell { uint8_t num[8]; uint8_t i2[2]; uint8_t i1; uint8_t str[4]; uint8_t dt[8]; uint8_t n3[8]; };
static Cell rows[NR]; // most significant byte first
static size_t w3;
struct NullSink { void set_properties(const Properties &) {} void push_row(size_t, Column::PBUF) {} void end_of_data() {} };
static uint64_t bits(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static void putRow(uint8_t *d, sas::Layout L, const Cell &c) {
  auto num = [&](size_t o, const uint8_t *v, size_t n) { for (size_t i = 0; i < n; i++) d[o + (L.big ? i : n - 1 - i)] = v[i]; };
  num(0, c.num, 8); num(8, c.i2, 2); d[10] = c.i1; for (size_t i = 0; i < 4; i++) d[11 + i] = c.str[i]; num(15, c.dt, 8); num(23, c.n3, w3);
}
static size_t build(uint8_t *f, sas::Layout L, int comp, size_t NP, const size_t *blocks, const unsigned *types, size_t rowcount, size_t mixrows) {
  const size_t H = L.a1 ? 320 : 304, P = 2560, N = 24 + w3, RL = N + 8; size_t k = 0;
  sas::header(f, L, H, P, (uint32_t)(NP + 1));
  sas::Col cols[6] = {{"NUM", "Number", "BEST", 0, 8, 1}, {"I2", "", "", 8, 2, 1}, {"I1", "One", "", 10, 1, 1}, {"STR", "Text", "$", 11, 4, 2}, {"DT", "", "DATETIME", 15, 8, 1}, {"N3", "", "", 23, w3, 1}};
  sas::Meta m; m.row_length = RL; m.row_count = rowcount; m.ncols = 6; m.cols = cols; m.comp = comp; m.mix_rows = mixrows; m.lcp = 8;
  { sas::Page pg(f + H, L, P, sas::META); sas::putMeta(pg, m); }
  for (size_t ip = 1; ip <= NP; ip++) {
    sas::Page pg(f + H + ip * P, L, P, types[ip - 1], types[ip - 1] == sas::DATA ? (unsigned)blocks[ip - 1] : 0);
    if (types[ip - 1] == sas::DATA) { for (size_t i = 0; i < 2; i++) putRow(pg.w.p + pg.pbo() + 8 + i * RL, L, rows[k++]); }
    else if (types[ip - 1] == sas::MIX1) { size_t o = (pg.dataStart() + 7) / 8 * 8; for (size_t i = 0; i < 2; i++) putRow(pg.w.p + o + i * RL, L, rows[k++]); }
    else for (size_t i = 0; i < 2; i++) { // a literal copy of the row but for its last 8 bytes, which the reader fills with zeros
      size_t o = pg.alloc(N + 8); uint8_t t[64], *d = pg.w.p + o; putRow(t, L, rows[k++]);
      if (comp == 1) { d[0] = (uint8_t)(0x90 | (N - 17)); memcpy(d + 1, t, N); pg.add(o, N + 1, 4, 1); }
      else { size_t q = 0; for (size_t j = 0; j < N + 2; j++) { if (j % 16 == 0) { d[q++] = 0; d[q++] = 0; } d[q++] = j < N ? t[j] : 0; } pg.add(o, q, 4, 1); }
    }
  }
  return H + (NP + 1) * P;
}
int main() {
  const size_t la = (size_t)sym_arg("A", 0), lb = (size_t)sym_arg("B", 1), NP = (size_t)sym_arg("NP", 2); w3 = (size_t)sym_arg("w", 3);
  const int comp = (int)sym_arg("comp", 0);
  size_t blocks[4]; unsigned types[4];
  const size_t rc = (size_t)sym_range(0, 2 * NP + 1, "declared row count"), mix = (size_t)sym_range(0, 2, "mix rows");
  for (size_t i = 0; i < NP; i++) { blocks[i] = (size_t)sym_range(0, 2, "block count"); types[i] = comp && i == 0 ? sas::META : sym_concretize(sym_range(0, 1, "page kind")) ? (comp ? sas::META : sas::DATA) : sas::MIX1; }
  for (size_t i = 0; i < 2 * NP; i++) {
    Cell &c = rows[i]; sym_bytes(c.num, 8, "number"); sym_bytes(c.i2, 2, "integer"); c.i1 = sym_u8("integer"); sym_bytes(c.n3, w3, "number"); sym_bytes(c.str + 3, 1, "text"); c.str[0] = ' '; c.str[1] = 'a'; c.str[2] = 0xE9; memset(c.dt, 0, 8); c.dt[0] = 0x41; c.dt[1] = (uint8_t)(0xD0 + i); c.dt[5] = 7;
  }
  sas::Layout A, B; A.big = la & 1; A.b64 = la & 2; A.a1 = la & 4; B.big = lb & 1; B.b64 = lb & 2; B.a1 = lb & 4; 
  const size_t na = build(file[0], A, comp, NP, blocks, types, rc, mix), nb = build(file[1], B, comp, NP, blocks, types, rc, mix);
  MemSource ma(file[0], na), mb(file[1], nb);
  try {
    Reader ra(ma, NullSink{}), rb(mb, NullSink{});
    const Properties &pa = ra.properties(), &pb = rb.properties();
    sym_check(pa.row_count == pb.row_count && pa.column_count == pb.column_count && pa.columns.size() == pb.columns.size() && pa.row_length == pb.row_length && pa.mix_page_row_count == pb.mix_page_row_count && pa.compression == pb.compression && pa.creator == pb.creator && pa.creator_proc == pb.creator_proc, "both layouts give the same table");
    sym_check(pa.columns.size() == 6 && (comp == 2 || pa.creator_proc == "DATASTEP"), "the columns and the procedure are there");
    for (size_t i = 0; i < 6; i++) { const Column &x = pa.columns[i], &y = pb.columns[i]; sym_check(x.name == y.name && x.label == y.label && x.format == y.format && x.type == y.type && x.length() == y.length(), "both layouts give the same columns"); }
    for (;;) {
      const void *x = ra.read_row_no_sink(), *y = rb.read_row_no_sink();
      sym_check((x == nullptr) == (y == nullptr), "both layouts have the same rows");
      sym_check(ra.current_row_index() == rb.current_row_index(), "both layouts have the same row indices");
      if (!x) break;
      auto &ca = pa.columns, &cb = pb.columns;
      sym_check(bits(ca[0].get_number(x)) == bits(cb[0].get_number(y)) && bits(ca[5].get_number(x)) == bits(cb[5].get_number(y)), "both layouts give the same numbers");
      sym_check(ca[1].get_integer(x) == cb[1].get_integer(y) && ca[2].get_integer(x) == cb[2].get_integer(y), "both layouts give the same integers");
      sym_check(ca[3].get_string(x) == cb[3].get_string(y), "both layouts give the same text");
      sym_check(ca[4].get_datetime(x) == cb[4].get_datetime(y), "both layouts give the same datetimes");
      sym_cover("row");
    }
    sym_observe("rows", ra.current_row_index());
  } catch (const std::exception &) { sym_fail("a well formed file is read without exception"); }
  return 0;
}
