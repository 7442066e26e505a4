// C01/C02/C03: decompression of one row, driven through the Reader.
// args: comp (1 RLE, 2 RDC), R row length, N compressed length, L layout bits,
// what (bit 0: valid rows decode to the reference, bit 1: corrupt rows are rejected), c0: high nibble of the first byte, n0: least low nibble of the first byte, pre: literal prefix length, rows 1 or 2 (second row of N2 symbolic bytes)
#include "api.hpp"
#include "ref_decomp.hpp"
static uint8_t file[8192];
static uint8_t ref[8192], ref3[8192];
struct NullSink { void set_properties(const Properties &) {} void push_row(size_t, Column::PBUF) {} void end_of_data() {} };
int main() {
  const int comp = (int)sym_arg("comp", 1); const size_t R = (size_t)sym_arg("R", 24), N = (size_t)sym_arg("N", 4), l = (size_t)sym_arg("L", 0), what = (size_t)sym_arg("what", 0), pre = (size_t)sym_arg("pre", 0);
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4;
  const size_t H = 304, P = 1536 + 2 * N;
  sas::header(file, L, H, P, 1);
  sas::Page pg(file + H, L, P, sas::META);
  sas::Col cols[1] = {{"A", "", "", 0, R, 2}};
  const size_t rows = (size_t)sym_arg("rows", 1), N2 = (size_t)sym_arg("N2", N);
  sas::Meta m; m.row_length = R; m.row_count = rows; m.ncols = 1; m.comp = comp; m.cols = cols;
  size_t o[2] = {pg.alloc(N), 0}; if (rows > 1) o[1] = pg.alloc(N2); // compressed row at the very end of the page
  sas::putMeta(pg, m); pg.add(o[0], N, 4, 1); if (rows > 1) pg.add(o[1], N2, 4, 1);
  uint8_t *src = file + H + o[0];
  if (pre) { // concrete beginning: RDC control word whose first pre bits are literals, then the literals; RLE: copy of pre bytes
    size_t k = 0;
    if (comp == 2) { for (size_t done = 0; done < pre;) { size_t g = pre - done < 16 ? pre - done : 16; unsigned ctl = g == 16 ? 0 : (unsigned)sym_u16("control") & ((1u << (16 - g)) - 1); src[k++] = (uint8_t)(ctl >> 8); src[k++] = (uint8_t)ctl; for (size_t i = 0; i < g; i++, done++) src[k++] = (uint8_t)('a' + done); } }
    else { src[k++] = (uint8_t)(0x80 | (pre - 1)); for (size_t i = 0; i < pre; i++) src[k++] = (uint8_t)('a' + i); }
    sym_bytes(src + k, N - k, "row");
  } else sym_bytes(src, N, "row");
  if (rows > 1) sym_bytes(file + H + o[1], N2, "second row");
  if (sym_arg("c0", -1) >= 0) sym_assume((src[0] >> 4) == (uint8_t)sym_arg("c0", 0));
  if (sym_arg("n0", -1) >= 0) sym_assume((src[0] & 15) >= (uint8_t)sym_arg("n0", 0));
  MemSource ms(file, H + P);
  static Reader rd; bool threw = false;
  try { rd = Reader(ms, NullSink{}); } catch (const std::exception &) { sym_fail("a file is opened without decoding its rows"); }
  for (size_t ir = 0; ir < rows && !threw; ir++) {
    const size_t n = ir ? N2 : N; src = file + H + o[ir];
    const uint8_t *row = nullptr;
    try { row = static_cast<const uint8_t *>(rd.read_row_no_sink()); } catch (const std::exception &) { threw = true; }
    size_t used = 0;
    int st = comp == 1 ? ref_rle(src, n, ref, R, &used) : ref_rdc(src, n, ref, R, &used), st3 = comp == 2 ? ref_rdc(src, n, ref3, R, &used, 3) : st;
    bool eq = false, eq3 = false;
    if (!threw && row) { eq = eq3 = true; for (size_t i = 0; i < R; i++) { eq &= row[i] == ref[i]; if (comp == 2) eq3 &= row[i] == ref3[i]; } }
    if (st == REF_CORRUPT) {
      sym_cover("corrupt");
      if (what & 2) {
        if (comp == 1 || st3 == REF_CORRUPT) sym_check(threw, "a corrupt compressed row is rejected with an exception");
        else sym_check(threw || eq3, "a row whose last code is incomplete is rejected or ends before it");
      }
      if (!threw) return 0;
    } else {
      sym_cover(ir ? "valid second row" : "valid");
      if (what & 1) {
        sym_check(!threw, "a well formed compressed row is decoded");
        if (!threw) {
          sym_check(row != nullptr, "the row is returned");
          if (comp == 1) sym_check(eq, "the decoded row equals the reference decoding");
          else {
            sym_check(eq | eq3, "the decoded row equals the reference decoding");
            sym_finding(eq, "rdc-tail");
          }
        }
      }
    }
    sym_observe("threw", threw); if (!threw && row) { uint64_t h = 0; for (size_t i = 0; i < R; i++) h = h * 31 + row[i]; sym_observe("row", h); }
  }
  return 0;
}
