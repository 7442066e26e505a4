// C17: arbitrary values in groups of structural fields: an exception or a result, no memory error, bounded work.
// args: L layout, g group, i index within the group, comp 0/1/2, first page type, P page length
#include "api.hpp"
static uint8_t file[320 + 3 * 2048];
static size_t nread, rows;
// tells the values up to hi apart by halving, one path each; the larger ones stay together
static uint64_t split(uint64_t v, uint64_t hi) { if (v > hi) return v; uint64_t lo = 0; while (lo < hi) { uint64_t m = lo + (hi - lo) / 2; if (sym_concretize(v <= m)) hi = m; else lo = m + 1; } return lo; }
struct Src { MemSource m; bool eof() { return m.eof(); } bool read_bytes(void *d, size_t n) { if (n <= m.n - m.pos) n = (size_t)split(n, m.n - m.pos); nread++; sym_check(nread <= 200, "the number of reads is bounded by the size of the file"); return m.read_bytes(d, n); } };
static uint64_t mix;
static void cells(const COLUMNS &cols, Column::PBUF p) {
  for (const auto &c : cols) {
    switch (c.type) {
    case Column::Type::string: { auto s = c.get_string(p); for (char ch : s) mix = mix * 31 + (uint8_t)ch; break; }
    case Column::Type::integer: mix = mix * 31 + (uint64_t)c.get_integer(p) + (uint64_t)(c.get_number(p) > 0); break;
    case Column::Type::number: { double d = c.get_number(p); uint64_t x; memcpy(&x, &d, 8); mix ^= x; break; }
    case Column::Type::datetime: mix += c.get_datetime(p).is_special(); break;
    case Column::Type::date: mix += c.get_date(p).is_special(); break;
    case Column::Type::time: mix += c.get_time(p).is_special(); break;
    default: mix += c.to_string(p).size();
    }
  }
}
struct Sink {
  const Properties *pr = nullptr;
  void set_properties(const Properties &p) { pr = &p; for (const auto &c : p.columns) { for (char ch : c.name) mix += (uint8_t)ch; for (char ch : c.label) mix += (uint8_t)ch; for (char ch : c.format) mix += (uint8_t)ch; } }
  void push_row(size_t, Column::PBUF p) { rows++; sym_check(rows <= pr->row_count, "no more rows than declared"); cells(pr->columns, p); }
  void end_of_data() {}
};
int main() {
  const size_t l = (size_t)sym_arg("L", 0), g = (size_t)sym_arg("g", 0), ix = (size_t)sym_arg("i", 0), comp = (size_t)sym_arg("comp", 0); sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4; const size_t I = L.I();
  const size_t H = 320, P = (size_t)sym_arg("P", L.b64 ? 1600 : 1000), NP = 3; const bool mixp = sym_arg("mix", 0);
  sas::Col cols[3] = {{"Name", "Text label", "$", 0, 4, 2}, {"N", "", g == 10 || g == 14 ? "" : "DATE", 4, 8, 1}, {"W", "w", "", 12, 2, 1}};
  sas::Meta m; m.row_length = 14; m.row_count = 5; m.ncols = 3; m.cols = cols; m.comp = (int)comp; m.mix_rows = mixp ? 2 : 0; m.proc = "ABCDEFGH"; m.lcp = 8;
  sas::header(file, L, H, P, NP);
  sas::Page pg(file + H, L, P, mixp ? sas::MIX1 : sas::META); auto mo = sas::putMeta(pg, m); 
  if (mixp) { size_t o = (pg.dataStart() + 7) / 8 * 8; for (size_t k = 0; k < 28; k++) pg.w.p[o + k] = (uint8_t)(k * 7 + 33); }
  
  for (size_t k = 1; k < NP; k++) {
    if (comp) { sas::Page d(file + H + k * P, L, P, sas::META); for (int r = 0; r < 2; r++) { size_t o = d.sub(6, 4, 1); uint8_t *q = d.w.p + o; if (comp == 1) { q[0] = 0x84; q[1] = 'a'; q[2] = 0x40; q[3] = 2; q[4] = 0xC0; q[5] = 'x'; } else { q[0] = q[1] = 0; q[2] = 'a'; q[3] = 'b'; q[4] = q[5] = 0; } } }
    else { sas::Page d(file + H + k * P, L, P, sas::DATA, 2); size_t o = d.pbo() + 8; for (size_t b = 0; b < 28; b++) d.w.p[o + b] = (uint8_t)(b * 5 + 32); }
  }
  size_t total = H + NP * P; uint8_t *p0 = pg.w.p; const size_t a = (L.a1 ? 4 : 0), pbo = pg.pbo();
  const size_t subs[] = {mo.rowsize, mo.colsize, mo.text, mo.names, mo.attrs, mo.fl[0], mo.fl[1], mo.fl[2]};
  uint8_t *p1 = file + H + P;
  // a symbolic word stored at offset o of page p; small values are told apart
  auto word = [&](uint8_t *p, size_t o, const char *name, size_t hi) { uint64_t v = I == 4 ? sym_u32(name) : sym_u64(name); if (hi) v = split(v, hi); sas::W{p, L}.word(o, v); };
  auto ref = [&](size_t o) { pg.w.u16(o, sym_u16("block")); pg.w.u16(o + 2, split(sym_range((uint64_t)sym_arg("from", 60), 65535, "offset"), 90)); pg.w.u16(o + 4, split(sym_u16("length"), 90)); };
  sas::W w1{p1, L};
  switch (g) {
  case 0: sas::W{file, L}.u32(196 + a, split(sym_u32("header length"), ix)); sym_bytes(file + 204 + a, 4, "page count"); total = ix; break;
  case 1: sym_bytes(p0 + pbo, 6, "page type, blocks, subheaders"); break;
  case 2: word(p0, pg.ptr(ix), "subheader offset", P); word(p0, pg.ptr(ix) + I, "subheader length", 0); sym_bytes(p0 + pg.ptr(ix) + 2 * I, 2, "kind"); break;
  case 3: sym_bytes(p0 + subs[ix], I, "signature"); break;
  case 4: if (!mixp) word(p0, mo.rowsize + 5 * I, "row length", P); sym_bytes(p0 + mo.rowsize + 6 * I, I, "row count"); sym_bytes(p0 + mo.rowsize + 15 * I, I, "mix page rows"); break;
  case 5: pg.w.u16(mo.rowsize + (I == 8 ? 682 : 354), ix == 1 ? split(sym_u16("creator length"), P) : sym_u16("creator length")); pg.w.u16(mo.rowsize + (I == 8 ? 706 : 378), ix != 1 ? split(sym_u16("procedure length"), P) : sym_u16("procedure length")); if (ix == 0) memset(p0 + mo.text + I + 12, ' ', 8); if (ix == 1) p0[mo.text + I + 12] = 'X'; break;
  case 6: sym_bytes(p0 + mo.colsize + I, I, "column count"); sym_bytes(p0 + mo.rowsize + 9 * I, 2 * I, "column counts"); break;
  case 7: ref(mo.names + I + 8 + 8 * ix); break;
  case 8: sym_bytes(p0 + mo.attrs + I + 8 + (I + 8) * ix, I + 7, "attributes"); break;
  case 9: ref(mo.fl[ix / 2] + 3 * I + 22 + 6 * (ix % 2)); break;
  case 19: sym_bytes(p1 + pbo, 6, "page type, blocks, subheaders"); sym_bytes(p1 + pbo + 8 + 2 * I, 2, "kind"); if (comp || L.b64) break; [[fallthrough]];
  case 10: if (comp == 1) w1.word(pbo + 8, split(sym_range(P - 200, P + 9, "subheader offset"), P + 9)); else word(p1, pbo + 8, "subheader offset", P); word(p1, pbo + 8 + I, "subheader length", 0); break;
  case 11: if (mixp) pg.w.word(mo.rowsize + 5 * I, split(sym_range(10, 40, "row length"), 40)); else word(p0, mo.rowsize + 5 * I, "row length", P); sym_bytes(p1 + pbo, 6, "page type, blocks, subheaders"); break;
  case 12: sym_bytes(p0 + pg.ptr(ix) + I, I, "subheader length"); sym_bytes(p0 + pg.ptr(ix) + 2 * I, 2, "kind"); sym_bytes(p0 + subs[ix], I, "signature"); break;
  case 13: word(p0, mo.attrs + I + 8 + (I + 8), "column offset", 20); pg.w.u32(mo.attrs + I + 8 + (I + 8) + I, sym_range(0, 12, "column width")); p0[mo.attrs + I + 8 + (I + 8) + I + 6] = sym_u8("type"); pg.w.word(mo.rowsize + 5 * I, split(sym_range(0, 20, "row length"), 20)); if (comp) sym_bytes(p1 + P - 6, 2, "row"); break;
  case 14: sym_bytes(p1 + pbo + 4, 2, "subheaders"); for (size_t k = 0; k < 2; k++) { word(p1, pbo + 8 + k * 3 * I + I, "subheader length", 0); sym_bytes(p1 + pbo + 8 + k * 3 * I + 2 * I, 2, "kind"); } break;
  case 15: sym_bytes(p0 + pg.ptr(ix) + I, I, "length"); sym_bytes(p0 + pg.ptr(ix + 1) + I, I, "length"); sym_bytes(p0 + pbo + 4, 2, "subheaders"); break;
  case 16: sas::W{file, L}.u32(200 + a, split(sym_u32("page length"), ix)); sym_bytes(file + 204 + a, 4, "page count"); total = ix; break;
  case 17: sym_bytes(file + 32, 8, "markers"); break;
  case 18: sym_bytes(p0 + mo.text + I, 2, "text length"); break;
  }
  bool opened = false, threw = false; size_t ncols = 0;
  try {
    Reader rd(Src{MemSource(file, total)}, Sink{}); opened = true; sym_cover("opened"); ncols = rd.properties().columns.size();
    if (sym_concretize(sym_range(0, 1, "how"))) { while (auto p = rd.read_row_no_sink()) { rows++; sym_check(rows <= rd.properties().row_count, "no more rows than declared"); cells(rd.properties().columns, p); } }
    else rd.read_all();
    sym_cover("read");
  } catch (const std::exception &) { threw = true; }
  if (threw) sym_cover("refused");
  sym_observe("opened", opened); sym_observe("threw", threw); sym_observe("rows", rows); sym_observe("columns", ncols);
  return 0;
}
