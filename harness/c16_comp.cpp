// C16: compression kind, creator and creating procedure from the first text block.
// args: L layout, mode 0: a signature anywhere, other bytes not 'S'; 1: ten symbolic bytes; 2: both signatures; 3: creator fields; W offset of the symbolic bytes
#include "api.hpp"
#include "ref_text.hpp"
#include "ref_decomp.hpp"
static uint8_t file[12288];
struct NullSink { void set_properties(const Properties &) {} void push_row(size_t, Column::PBUF) {} void end_of_data() {} };
static bool isp(uint8_t c) { return c >= 32 && c < 127; }
static bool iss(uint8_t c) { return c == 32 || (c >= 9 && c <= 13); }
struct Piece { const uint8_t *p; size_t n; };
static Piece trimmed(const uint8_t *p, size_t n) { while (n && iss(*p)) p++, n--; while (n && (!isp(p[n - 1]) || iss(p[n - 1]))) n--; return {p, n}; }
static bool eqs(const std::string &a, Piece b) { if (a.size() != b.n) return false; bool e = true; for (size_t i = 0; i < b.n; i++) e &= (uint8_t)a[i] == b.p[i]; return e; }
static bool at(const uint8_t *t, const char *s) { bool e = true; for (size_t i = 0; i < 8; i++) e &= t[i] == (uint8_t)s[i]; return e; }
int main() {
  const size_t l = (size_t)sym_arg("L", 0), mode = (size_t)sym_arg("mode", 0), T = 64, H = 304, P = 2048, RL = 8;
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4; const size_t I = L.I();
  const size_t lm = (size_t)sym_arg("lm", mode == 3 ? 4 : mode == 2 ? 0 : mode == 1 ? 1 : 2);
  sas::header(file, L, H, P, 2);
  sas::Page pg(file + H, L, P, sas::META);
  sas::Meta m; m.row_length = RL; m.row_count = 1; m.ncols = 0;
  const size_t lcs = (size_t)sym_range(0, lm, "creator length"), lcp = (size_t)sym_range(0, lm, "procedure length");
  m.lcs = sym_concretize(lcs); m.lcp = sym_concretize(lcp);
  sas::putRowSize(pg, m); sas::putColSize(pg, 0);
  size_t o = pg.sub(I + T); pg.sig(o, 0xFFFFFFFDu); uint8_t *t = pg.w.p + o + I; memset(t, '.', T); pg.w.u16(o + I, T);
  auto put = [&](size_t p, const char *s) { for (size_t i = 0; i < 8; i++) t[p + i] = (uint8_t)s[i]; };
  auto any = [&](size_t p, size_t n) { sym_bytes(t + p, n, "text"); for (size_t i = 0; i < n; i++) sym_assume(t[p + i] != 'S'); };
  const char *RLE = "SASYZCRL", *RDC = "SASYZCR2";
  if (mode == 0) { any(2, 4); any(12, 4); any(58, 4); const size_t place = (size_t)sym_concretize(sym_range(2, T - 8, "place")); const bool which = sym_u8("which") & 1; put(place, which ? RLE : RDC); }
  if (mode == 1) sym_bytes(t + (size_t)sym_arg("W", 12), (size_t)sym_arg("N", 9), "text");
  if (mode == 2) { size_t a = (size_t)sym_concretize(sym_range(2, T - 8, "place")), b = (size_t)sym_concretize(sym_range(2, T - 8, "place")); put(a, RLE); put(b, RDC); }
  if (mode == 3) {
    size_t k = (size_t)sym_concretize(sym_range(0, 3, "literal"));
    if (k == 0) memset(t + 12, ' ', 8); if (k == 1) put(12, RLE); if (k == 2) { memset(t + 12, 0, 8); t[13] = ' '; } if (k == 3) put(12, RDC);
    any(28, 4); any(36, 4); if (k == 0 && sym_u8("creator") & 1) { any(12, 3); }
  }
  { // a later text block, with other signatures and names
    size_t p = pg.sub(I + T); pg.sig(p, 0xFFFFFFFDu); uint8_t *u = pg.w.p + p + I; memset(u, 'z', T); pg.w.u16(p + I, T);
    const char *s = sym_u8("signature of the later block") & 1 ? RLE : RDC; for (size_t i = 0; i < 8; i++) u[12 + i] = (uint8_t)s[i];
  }
  static uint8_t src[6] = {0x80, 'a', 0xC1, 'b', 0x81, 'c'}, ref[64];
  { sas::Page d(file + H + P, L, P, sas::META); size_t q = d.alloc(8); memcpy(d.w.p + q, src, 6); d.add(q, 6, 4, 1); }
  // what the format says
  bool rle = false, rdc = false; for (size_t i = 0; i + 8 <= T; i++) { rle |= at(t + i, RLE); rdc |= at(t + i, RDC); }
  Piece lit = trimmed(t + 12, 8), cr{t, 0}, pr{t, 0};
  if (lit.n == 0) pr = trimmed(t + 28, m.lcp); else if (at(t + 12, RLE)) pr = trimmed(t + 36, m.lcp); else if (m.lcs) cr = trimmed(t + 12, m.lcs);
  MemSource ms(file, H + 2 * P);
  bool threw = false;
  try {
    Reader rd(ms, NullSink{}); const Properties &p = rd.properties();
    sym_check(p.compression == (rle ? Compression::RLE : rdc ? Compression::RDC : Compression::none), "the compression is the one named by the first text block");
    sym_check(eqs(p.creator, cr), "the creator is taken from its position"); sym_check(eqs(p.creator_proc, pr), "the creating procedure is taken from its position");
    if (rle) sym_cover("RLE"); if (rdc) sym_cover("RDC");
    sym_observe("compression", (uint64_t)p.compression);
    size_t used; const int st = rle ? ref_rle(src, 6, ref, RL, &used) : rdc ? ref_rdc(src, 6, ref, RL, &used) : 0;
    const uint8_t *row = nullptr;
    try { row = (const uint8_t *)rd.read_row_no_sink(); } catch (const std::exception &) { threw = true; }
    if (!rle && !rdc) sym_check(!threw && !row, "without compression a row subheader of fewer bytes is no row");
    else if (st == REF_CORRUPT) sym_check(threw, "rows are read with the compression named");
    else { bool eq = row != nullptr; for (size_t i = 0; i < RL && eq; i++) eq &= row[i] == ref[i]; sym_check(eq && !threw, "rows are read with the compression named"); }
  } catch (const std::exception &) { sym_fail("a well formed file is opened without exception"); }
  return 0;
}
