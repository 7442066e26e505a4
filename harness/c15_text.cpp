// C15: names, labels and formats are the referenced pieces of text; column i gets the i-th of everything.
// args: L layout, what 0 name, 1 label, 2 format: one reference symbolic; T length of the text block referred to
//       what 3: order of the references over subheaders and pages
#include "api.hpp"
#include "ref_text.hpp"
static uint8_t file[12288];
struct NullSink { void set_properties(const Properties &) {} void push_row(size_t, Column::PBUF) {} void end_of_data() {} };
static bool isp(uint8_t c) { return c >= 32 && c < 127; }
static bool iss(uint8_t c) { return c == 32 || (c >= 9 && c <= 13); }
static bool eqs(const std::string &a, const uint8_t *b, size_t n) { if (a.size() != n) return false; bool e = true; for (size_t i = 0; i < n; i++) e &= (uint8_t)a[i] == b[i]; return e; }
int main() {
  const size_t l = (size_t)sym_arg("L", 0), what = (size_t)sym_arg("what", 0), T = (size_t)sym_arg("T", 6), H = 304, P = 2048;
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4; const size_t I = L.I();
  sas::Col cols[3] = {{"NAMEA", "Label A", "F1", 0, 8, 1}, {"NAMEB", "Label B", "F2", 8, 4, 1}, {"NAMEC", "Label C", "F3", 12, 5, 2}};
  sas::Meta m; m.row_length = 20; m.row_count = 0; m.ncols = 3; m.cols = cols;
  if (what < 3) {
    sas::header(file, L, H, P, 2);
    uint8_t *tx; sas::MetaOffs mo; size_t tl;
    { // a second text block of T bytes in front of the references: the first one holds everything else
      sas::Page pg(file + H, L, P, sas::META);
      mo = sas::putMeta(pg, m);
      size_t o = pg.alloc(I + T + 2 - (T & 1)); pg.sig(o, 0xFFFFFFFDu); tl = T;
      pg.w.u16(o + I, T); tx = pg.w.p + o + I; if (T > 2) sym_bytes(tx + 2, T - 2, "text");
      // exchange the subheader pointers so that the block is the fourth
      size_t n = pg.nsub; pg.add(o, I + T, 0, 0);
      for (size_t i = n; i > 3; i--) { uint8_t t[24]; uint8_t *a = pg.w.p + pg.ptr(i), *b = pg.w.p + pg.ptr(i - 1); memcpy(t, a, 3 * I); memcpy(a, b, 3 * I); memcpy(b, t, 3 * I); }
      uint16_t bi = sym_u16("block"), bo = sym_u16("offset"), bl = sym_u16("length");
      const bool first = sym_arg("first", 0); // refer to the first block (concrete text) with lengths up to 5 or beyond its end, else to any other
      sym_assume((bi == 0) == first);
      size_t TT = T; const uint8_t *ty = tx;
      if (first) { bi = 0; ty = pg.w.p + mo.text + I; TT = 52; for (size_t i = 0; i < 3; i++) TT += ((sas::slen(cols[i].name) + 3) & ~3u) + ((sas::slen(cols[i].label) + 3) & ~3u) + ((sas::slen(cols[i].format) + 3) & ~3u); sym_assume(bl <= 5 || bl >= TT); }
      if (bo < TT) { bo = (uint16_t)sym_concretize(bo); if (bl < TT - bo) bl = (uint16_t)sym_concretize(bl); }
      size_t at = what == 0 ? mo.names + I + 8 + 8 : mo.fl[1] + 3 * I + (what == 1 ? 28 : 22);
      pg.w.u16(at, bi); pg.w.u16(at + 2, bo); pg.w.u16(at + 4, bl);
      MemSource ms(file, H + 2 * P); sas::Page d(file + H + P, L, P, sas::DATA, 0);
      try {
        Reader rd(ms, NullSink{}); const COLUMNS &c = rd.properties().columns; sym_check(c.size() == 3, "every column is there");
        // reference
        size_t a = bo, e = 0, n2 = 0;
        if ((first || bi == 1) && a < TT) { size_t len = bl < TT - a ? bl : TT - a; e = a + len; if (len && isp(ty[a])) { while (a < e && iss(ty[a])) a++; while (e > a && (!isp(ty[e - 1]) || iss(ty[e - 1]))) e--; n2 = e - a; } }
        const std::string &s = what == 0 ? c[1].name : what == 1 ? c[1].label : c[1].format;
        sym_check(eqs(s, ty + a, n2), "the text is the referenced piece of its block"); sym_observe("length", s.size()); if (n2) sym_cover("piece of text");
        sym_check(c[0].name == "NAMEA" && c[2].name == "NAMEC" && c[0].label == "Label A" && c[2].label == "Label C" && c[0].format == "F1" && c[2].format == "F3", "the other columns are unaffected");
        if (what != 0) sym_check(c[1].name == "NAMEB", "the name is unaffected"); if (what != 1) sym_check(c[1].label == "Label B", "the label is unaffected"); if (what != 2) sym_check(c[1].format == "F2", "the format is unaffected");
      } catch (const std::exception &) { sym_fail("a well formed file is opened without exception"); }
    }
    return 0;
  }
  // what == 3: text on the first page; names, attributes, formats and labels of 3 columns split over
  // subheaders on the first page and on further metadata pages at symbolic places
  const size_t s1 = (size_t)sym_concretize(sym_range(0, 3, "names in the first subheader")), s2 = (size_t)sym_concretize(sym_range(0, 3, "attributes in the first subheader")), s3 = (size_t)sym_concretize(sym_range(0, 3, "labels on the first page"));
  const bool amd = sym_u8("kind of the second page") & 1;
  sas::header(file, L, H, P, 3);
  sas::Page pg(file + H, L, P, sas::META); sas::putRowSize(pg, m); sas::putColSize(pg, 3);
  auto text = [&](sas::Page &p, const char *s) { size_t n = sas::slen(s), t = 60 + ((n + 3) & ~3u), o = p.sub(I + t); p.sig(o, 0xFFFFFFFDu); p.w.u16(o + I, t); p.w.strn(o + I + 12, "", 48); p.w.str(o + I + 60, s); };
  text(pg, "NAMEALabel A"); // block 0: column 0, block 1: the others
  text(pg, "NAMEBNAMECLabel BLabel CF2F3F1");
  uint16_t nidx[3] = {0, 1, 1}, nof[3] = {60, 60, 65}, lidx[3] = {0, 1, 1}, lof[3] = {65, 70, 77}, fidx[3] = {1, 1, 1}, fof[3] = {88, 84, 86};
  // which text each column refers to: symbolic among the three
  size_t w0 = (size_t)sym_concretize(sym_range(0, 2, "name of the first column"));
  sas::Page p2(file + H + P, L, P, amd ? sas::AMD : sas::META), p3(file + H + 2 * P, L, P, sas::DATA, 0);
  uint64_t offs[3]; uint32_t wid[3];
  for (int i = 0; i < 3; i++) { offs[i] = sym_range(0, 12, "column offset"); wid[i] = (uint32_t)sym_range(3, 8, "column width"); }
  auto names = [&](sas::Page &p, size_t a, size_t b) { size_t o = p.sub(2 * I + 12 + 8 * (b - a)); p.sig(o, 0xFFFFFFFFu); for (size_t i = a; i < b; i++) { size_t j = (i + w0) % 3, e = o + I + 8 + 8 * (i - a); p.w.u16(e, nidx[j]); p.w.u16(e + 2, nof[j]); p.w.u16(e + 4, 5); } };
  auto attrs = [&](sas::Page &p, size_t a, size_t b) { size_t o = p.sub(2 * I + 12 + (I + 8) * (b - a)); p.sig(o, 0xFFFFFFFCu); for (size_t i = a; i < b; i++) { size_t e = o + I + 8 + (I + 8) * (i - a); p.w.word(e, offs[i]); p.w.u32(e + I, wid[i]); p.w.u8(e + I + 6, i == 2 ? 2 : 1); } };
  auto labs = [&](sas::Page &p, size_t a, size_t b) { for (size_t i = a; i < b; i++) { size_t o = p.sub(3 * I + 40), e = o + 3 * I; p.sig(o, 0xFFFFFBFEu); p.w.u16(e + 22, fidx[i]); p.w.u16(e + 24, fof[i]); p.w.u16(e + 26, 2); p.w.u16(e + 28, lidx[i]); p.w.u16(e + 30, lof[i]); p.w.u16(e + 32, 7); } };
  names(pg, 0, s1); attrs(pg, 0, s2); labs(pg, 0, s3);
  if (s1 < 3) names(amd ? p2 : pg, s1, 3); if (s2 < 3) attrs(p2, s2, 3); labs(p2, s3, 3);
  const size_t RL = 20; memset(p3.w.p + p3.pbo() + 8, 0, RL); p3.w.u16(p3.pbo() + 2, 1);
  for (size_t i = 0; i < RL; i++) p3.w.p[p3.pbo() + 8 + i] = (uint8_t)(i + 1);
  MemSource ms(file, H + 3 * P);
  try {
    Reader rd(ms, NullSink{}); const COLUMNS &c = rd.properties().columns; sym_check(c.size() == 3, "every column is there");
    const char *nm[3] = {"NAMEA", "NAMEB", "NAMEC"}, *lb[3] = {"Label A", "Label B", "Label C"}, *fm[3] = {"F1", "F2", "F3"};
    static uint8_t row[20]; for (size_t i = 0; i < RL; i++) row[i] = (uint8_t)(i + 1);
    for (size_t i = 0; i < 3; i++) {
      sym_check(c[i].name == nm[(i + w0) % 3], "column i has the i-th name"); sym_check(c[i].label == lb[i], "column i has the i-th label"); sym_check(c[i].format == fm[i], "column i has the i-th format");
      sym_check(c[i].length() == wid[i], "column i has the i-th width"); sym_check(c[i].type == (i == 2 ? Column::Type::string : Column::Type::number), "column i has the i-th type");
      if (i == 2) { SV s = c[i].get_string(row); sym_check(s.data() == (const char *)row + offs[i], "column i has the i-th offset"); }
      else { double d = c[i].get_number(row); uint64_t x, e = 0; memcpy(&x, &d, 8); for (size_t k = 0; k < wid[i]; k++) e |= (uint64_t)(uint8_t)(offs[i] + 1 + (L.big ? k : wid[i] - 1 - k)) << (56 - 8 * k); sym_check(x == e, "column i has the i-th offset"); }
    }
    sym_cover("columns");
  } catch (const std::exception &) { sym_fail("a well formed file is opened without exception"); }
  return 0;
}
