// C06: rows of any sequence of page kinds are delivered once, in order, with index and bytes.
// args: L layout, comp 0/1/2, NP pages after the first, B max rows per page, first (0 meta, 1 mix),
// dsub: compressed row subheaders on first page and on each meta page (comp != 0)
#include "api.hpp"
static uint8_t file[12288];
struct Exp { const uint8_t *p; };
static Exp ex[64]; static size_t nex;
static size_t got, bad; static bool idxok = true, eod = false, afterEod = false;
static size_t RL;
struct Sink {
  void set_properties(const Properties &) {}
  void push_row(size_t i, Column::PBUF p) {
    if (eod) afterEod = true;
    if (i != got) idxok = false;
    sym_check(got < nex, "no row beyond the stored ones is delivered");
    const uint8_t *q = static_cast<const uint8_t *>(p); bool eq = true;
    for (size_t k = 0; k < RL; k++) eq &= q[k] == ex[got].p[k];
    sym_check(eq, "a delivered row has the bytes stored for it");
    got++;
  }
  void end_of_data() { eod = true; }
};
// a compressed row that decodes to its own literal payload; returns the payload
static const uint8_t *putComp(sas::Page &pg, int comp, size_t o, size_t n) {
  uint8_t *d = pg.w.p + o; // literals, zero filled to the row length by the reader
  if (comp == 1) { d[0] = (uint8_t)(0x80 | (n - 2)); return d + 1; }
  d[0] = d[1] = d[4] = d[5] = 0; return d + 2; // (the last two literals are zeros: see the known finding of C02)
}
static uint8_t pay[32][16]; static size_t npay;
int main() {
  const size_t l = (size_t)sym_arg("L", 0), comp = (size_t)sym_arg("comp", 0), NP = (size_t)sym_arg("NP", 2), B = (size_t)sym_arg("B", 2), first = (size_t)sym_arg("first", 0), dsub = (size_t)sym_arg("dsub", 0);
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4;
  RL = (size_t)sym_arg("R", 8);
  const size_t H = 304, P = (size_t)sym_arg("P", 1536);
  const size_t rowcount = sym_range(0, (size_t)sym_arg("RC", (NP + 1) * B + 1), "declared row count"), mixrows = sym_range(0, B, "mix page row count");
  sas::header(file, L, H, (uint32_t)P, (uint32_t)(NP + 1));
  sas::Col cols[1] = {{"A", "", "", 0, RL, 2}};
  sas::Meta m; m.row_length = RL; m.row_count = rowcount; m.ncols = 1; m.comp = (int)comp; m.cols = cols; m.mix_rows = mixrows;
  const size_t I = L.I();
  // stored rows, in file order
  auto addRows = [&](const uint8_t *base, size_t n) { for (size_t i = 0; i < n && nex < 60; i++) ex[nex++].p = base + i * RL; };
  // row subheaders: symbolic kind, type and length
  struct DS { size_t o, ptr; const uint8_t *pl; };
  auto reserveSubs = [&](sas::Page &pg, size_t n, DS *ds) { for (size_t i = 0; i < n; i++) { ds[i].o = pg.alloc(8); for (size_t k = 0; k < 8; k++) pg.w.p[ds[i].o + k] = 0; } };
  auto addSubs = [&](sas::Page &pg, size_t n, DS *ds) {
    for (size_t i = 0; i < n; i++) {
      size_t len = 6;
      uint8_t *d = pg.w.p + ds[i].o; sym_bytes(d, 8, "row");
      ds[i].pl = putComp(pg, (int)comp, ds[i].o, len);
      uint8_t c = (uint8_t)sym_u8("subheader compression"), t = (uint8_t)sym_u8("subheader type");
      uint8_t kind = (uint8_t)sym_range(0, 2, "row kind"); // 0 compressed row, 1 zero length, 2 full length
      if (sym_arg("c4", 0) && kind != 1) sym_assume(c != 0); // on the first page: rows are marked compressed (a plain row there could look like metadata)
      size_t ln = kind == 0 ? len : kind == 1 ? 0 : RL;
      // the reader takes a row subheader that is neither empty nor marked truncated nor of another kind
      sym_assume(kind != 0 || c != 0); // rows stored shorter than the row length are compressed ones
      pg.add(ds[i].o, ln, c, t);
      bool isrow = ln && (c == 0 || c == 4) && t == 1;
      if (!isrow) for (size_t k = 0; k < 8; k++) d[k] = 'n'; // not a row, and not metadata either
      if (isrow) {
        if (kind == 0) { uint8_t *q = pay[npay++]; size_t pn = comp == 1 ? len - 1 : len - 2; for (size_t k = 0; k < RL; k++) q[k] = k < pn ? ds[i].pl[k] : 0; ex[nex++].p = q; }
        else ex[nex++].p = d;
      }
    }
  };
  { // first page: all metadata
    sas::Page pg(file + H, L, P, first ? (sym_u8("mix kind") & 1 ? sas::MIX2 : sas::MIX1) : sas::META);
    DS ds[4]; size_t nd = comp ? dsub : 0; reserveSubs(pg, nd, ds);
    sas::putMeta(pg, m); addSubs(pg, nd, ds);
    if (first) {
      size_t o = pg.dataStart(); o = (o + 7) / 8 * 8;
      size_t n = mixrows < rowcount ? mixrows : rowcount;
      sym_bytes(pg.w.p + o, B * RL, "rows"); addRows(pg.w.p + o, n);
    }
  }
  for (size_t ip = 1; ip <= NP; ip++) {
    uint8_t *p = file + H + ip * P;
    uint16_t type = sym_u16("page type"); uint16_t blocks = (uint16_t)sym_range(0, B, "block count");
    sas::Page pg(p, L, P, type, blocks);
    if (type == sas::META && comp && dsub) {
      DS ds[4]; reserveSubs(pg, dsub, ds); addSubs(pg, dsub, ds); sym_cover("meta page with row subheaders");
    } else if (type == sas::DATA) {
      size_t o = pg.pbo() + 8; sym_bytes(p + o, B * RL, "rows"); addRows(p + o, blocks); sym_cover("data page");
      pg.w.u16(pg.pbo() + 4, sym_range(0, 3, "subheader count of a data page"));
    } else if (type == sas::MIX1 || type == sas::MIX2) {
      size_t ns = sym_range(0, 1, "subheaders of a mix page"); // column list subheaders: not rows
      for (size_t i = 0; i < ns; i++) { size_t o = pg.sub(2 * I); pg.sig(o, 0xFFFFFFFEu); }
      size_t o = pg.dataStart(); o = (o + 7) / 8 * 8; sym_bytes(p + o, B * RL, "rows");
      addRows(p + o, mixrows < rowcount ? mixrows : rowcount); sym_cover("mix page");
    } else sym_cover("page of another kind");
  }
  if (nex > rowcount) nex = rowcount;
  MemSource ms(file, H + (NP + 1) * P);
  bool threw = false;
  try {
    Reader rd(ms, Sink{});
    sym_check(rd.current_row_index() == 0, "reading starts at row 0");
    rd.read_all();
    sym_check(rd.current_row_index() == got, "the current row index is the number of delivered rows");
  } catch (const std::exception &) { threw = true; }
  sym_check(!threw, "a well formed file is read without exception");
  sym_check(got == nex, "every stored row is delivered");
  sym_check(idxok, "row indices are consecutive from zero");
  sym_check(eod && !afterEod, "end of data comes after the last row");
  sym_observe("rows", got); sym_observe("expected", nex);
  return 0;
}
