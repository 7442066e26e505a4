// A small SAS7BDAT writer: lays out header, pages and subheaders the way the format documents
// them, for either byte order, either word size and either header alignment.  Independent of /repo.
#pragma once
#include "sym.h"
#include <cstring>
namespace sas {
struct Layout { bool big = false, b64 = false, a1 = false; size_t I() const { return b64 ? 8 : 4; } };
template <size_t N> struct Bytes {
  uint8_t b[N]; size_t n = 0;
  Bytes() { memset(b, 0, N); }
};
struct W { // writer over raw memory
  uint8_t *p; Layout L;
  void u8(size_t o, uint8_t v) { p[o] = v; }
  void uN(size_t o, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; i++) p[o + (L.big ? n - 1 - i : i)] = (uint8_t)(v >> (8 * i)); }
  void u16(size_t o, uint64_t v) { uN(o, v, 2); }
  void u32(size_t o, uint64_t v) { uN(o, v, 4); }
  void u64(size_t o, uint64_t v) { uN(o, v, 8); }
  void word(size_t o, uint64_t v) { uN(o, v, (unsigned)L.I()); }
  void str(size_t o, const char *s) { while (*s) p[o++] = (uint8_t)*s++; }
  void strn(size_t o, const char *s, size_t n, char pad = ' ') { size_t i = 0; for (; i < n && s[i]; i++) p[o + i] = (uint8_t)s[i]; for (; i < n; i++) p[o + i] = (uint8_t)pad; }
  void f64(size_t o, double d) { uint64_t x; memcpy(&x, &d, 8); u64(o, x); }
};
static const uint8_t MAGIC[32] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xc2, 0xea, 0x81, 0x60, 0xb3, 0x14, 0x11, 0xcf, 0xbd, 0x92, 0x08, 0x00, 0x09, 0xc7, 0x31, 0x8c, 0x18, 0x1f, 0x10, 0x11};
// ---- header; returns nothing, caller owns hlen bytes of zeroed memory
inline void header(uint8_t *p, Layout L, uint32_t hlen, uint32_t page_len, uint32_t page_count) {
  W w{p, L};
  memcpy(p, MAGIC, 32);
  size_t a1 = L.a1 ? 4 : 0, a2 = L.b64 ? 4 : 0, t = a1 + a2;
  p[32] = L.b64 ? '3' : '"'; p[35] = L.a1 ? '3' : '2'; p[37] = L.big ? 0 : 1; p[39] = '1'; p[70] = 20;
  w.strn(84, "SAS FILE", 8); w.strn(92, "DATASET", 64); w.strn(156, "DATA", 8);
  w.f64(164 + a1, 0); w.f64(172 + a1, 0);
  w.u32(196 + a1, hlen); w.u32(200 + a1, page_len); w.u32(204 + a1, page_count);
  w.strn(216 + t, "9.0401M1", 8); w.strn(224 + t, "Linux", 16); w.strn(240 + t, "2.6", 16); w.strn(256 + t, "x86", 16); w.strn(272 + t, "x86_64", 16);
}
// ---- pages
enum { META = 0, DATA = 256, MIX1 = 512, MIX2 = 640, AMD = 1024, METC = 16384 };
struct Page {
  W w; size_t len, nsub = 0, tail; // subheaders grow downwards from the end of the page
  size_t pbo() const { return w.L.b64 ? 32 : 16; }
  size_t ptrsz() const { return 3 * w.L.I(); }
  Page(uint8_t *p, Layout L, size_t n, unsigned type, unsigned blocks = 0) : w{p, L}, len(n), tail(n) { w.u16(pbo(), type); w.u16(pbo() + 2, blocks); w.u16(pbo() + 4, 0); }
  size_t ptr(size_t i) const { return pbo() + 8 + i * ptrsz(); }
  size_t dataStart() const { size_t o = ptr(nsub); return o; }
  size_t add(size_t off, size_t n, uint8_t comp = 0, uint8_t type = 0) {
    size_t o = ptr(nsub++), I = w.L.I(); w.word(o, off); w.word(o + I, n); w.u8(o + 2 * I, comp); w.u8(o + 2 * I + 1, type); w.u16(pbo() + 4, nsub);
    return off;
  }
  size_t alloc(size_t n) { tail -= n; return tail; }
  size_t sub(size_t n, uint8_t comp = 0, uint8_t type = 0) { size_t o = alloc(n); return add(o, n, comp, type); }
  void sig(size_t o, uint32_t s) { // signature, sign extended to 64 bits; row/column size differ
    size_t I = w.L.I();
    if (I == 4) { w.u32(o, s); return; }
    if (s == 0xF7F7F7F7u || s == 0xF6F6F6F6u) w.u64(o, w.L.big ? (uint64_t)s : (uint64_t)s);
    else w.u64(o, 0xFFFFFFFF00000000ull | s);
  }
};
struct Col { const char *name, *label, *format; size_t off, len; int type; }; // type 1 number, 2 string
struct Meta {
  size_t row_length = 0, row_count = 0, ncols = 0, mix_rows = 0; int comp = 0; // 0 none, 1 RLE, 2 RDC
  size_t p1 = (size_t)-1, lcs = 0, lcp = 0; const char *proc = "DATASTEP"; const char *creator = "";
  const Col *cols = nullptr;
};
inline size_t slen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
struct MetaOffs { size_t rowsize, colsize, text, names, attrs, fl[16]; };
inline size_t rowsizeLen(Layout L) { return L.b64 ? 808 : 480; }
inline size_t putRowSize(Page &pg, const Meta &m) {
  size_t I = pg.w.L.I(), o = pg.sub(rowsizeLen(pg.w.L)); pg.sig(o, 0xF7F7F7F7u);
  pg.w.word(o + 5 * I, m.row_length); pg.w.word(o + 6 * I, m.row_count); pg.w.word(o + 9 * I, m.p1 == (size_t)-1 ? m.ncols : m.p1); pg.w.word(o + 10 * I, m.p1 == (size_t)-1 ? 0 : m.ncols - m.p1); pg.w.word(o + 15 * I, m.mix_rows);
  pg.w.u16(o + (I == 8 ? 682 : 354), m.lcs); pg.w.u16(o + (I == 8 ? 706 : 378), m.lcp);
  return o;
}
inline size_t putColSize(Page &pg, size_t n) { size_t I = pg.w.L.I(), o = pg.sub(3 * I); pg.sig(o, 0xF6F6F6F6u); pg.w.word(o + I, n); return o; }
// all metadata subheaders for m on one page: text block 0 carries the compression literal and every string
inline MetaOffs putMeta(Page &pg, const Meta &m) {
  MetaOffs r; size_t I = pg.w.L.I();
  r.rowsize = putRowSize(pg, m); r.colsize = putColSize(pg, m.ncols);
  // text: [u16 len][pad to 12(32)/12(64)][compression 8][...strings]; offsets relative to o+I
  size_t tl = 12 + 8 + 32; for (size_t i = 0; i < m.ncols; i++) tl += ((slen(m.cols[i].name) + 3) & ~3u) + ((slen(m.cols[i].label) + 3) & ~3u) + ((slen(m.cols[i].format) + 3) & ~3u);
  size_t o = pg.sub(I + tl); r.text = o; pg.sig(o, 0xFFFFFFFDu); pg.w.u16(o + I, tl);
  size_t c = o + I + 12; pg.w.strn(c, m.comp == 1 ? "SASYZCRL" : m.comp == 2 ? "SASYZCR2" : "        ", 8);
  // compression literal sits at o+16 (32 bit) / o+20 (64 bit) = o + I + 12 in both
  size_t q = c + 8; // remaining 32 bytes: procedure name area
  pg.w.strn(q, "", 32); if (m.comp == 1) pg.w.strn(c + 24, m.proc, 8); else if (m.comp == 0) pg.w.strn(c + 16, m.proc, 8);
  size_t s = o + I + 52; size_t no[16], lo[16], fo[16];
  for (size_t i = 0; i < m.ncols; i++) {
    no[i] = s - (o + I); pg.w.str(s, m.cols[i].name); s += (slen(m.cols[i].name) + 3) & ~3u;
    lo[i] = s - (o + I); pg.w.str(s, m.cols[i].label); s += (slen(m.cols[i].label) + 3) & ~3u;
    fo[i] = s - (o + I); pg.w.str(s, m.cols[i].format); s += (slen(m.cols[i].format) + 3) & ~3u;
  }
  size_t nl = 2 * I + 12 + 8 * m.ncols; o = pg.sub(nl); r.names = o; pg.sig(o, 0xFFFFFFFFu);
  for (size_t i = 0; i < m.ncols; i++) { size_t e = o + I + 8 + 8 * i; pg.w.u16(e, 0); pg.w.u16(e + 2, no[i]); pg.w.u16(e + 4, slen(m.cols[i].name)); }
  size_t al = 2 * I + 12 + (I + 8) * m.ncols; o = pg.sub(al); r.attrs = o; pg.sig(o, 0xFFFFFFFCu);
  for (size_t i = 0; i < m.ncols; i++) { size_t e = o + I + 8 + (I + 8) * i; pg.w.word(e, m.cols[i].off); pg.w.u32(e + I, m.cols[i].len); pg.w.u8(e + I + 6, m.cols[i].type); }
  for (size_t i = 0; i < m.ncols; i++) {
    o = pg.sub(3 * I + 40); if (i < 16) r.fl[i] = o; pg.sig(o, 0xFFFFFBFEu); size_t e = o + 3 * I;
    pg.w.u16(e + 22, 0); pg.w.u16(e + 24, fo[i]); pg.w.u16(e + 26, slen(m.cols[i].format)); pg.w.u16(e + 28, 0); pg.w.u16(e + 30, lo[i]); pg.w.u16(e + 32, slen(m.cols[i].label));
  }
  return r;
}
} // namespace sas
