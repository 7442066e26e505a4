// C04: every header field comes from its documented position. args: L layout, f which part is symbolic:
// 0 magic number, 1..8 the text field of that number, 9 encoding, 10 header and page length, 11 page count and the
// alignment/endian/platform marker bytes, 12 truncated file, 13 dates
#include "api.hpp"
#include "ref_text.hpp"
#include "ref_enc.hpp"
static uint8_t file[8192];
struct Sink { void set_properties(const Properties &) {} void push_row(size_t, Column::PBUF) {} void end_of_data() {} };
int main() {
  const size_t l = (size_t)sym_arg("L", 0), f = (size_t)sym_arg("f", 0);
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4;
  const size_t a1 = L.a1 ? 4 : 0, t = a1 + (L.b64 ? 4 : 0);
  size_t H = 312, P = 1536;
  if (f == 10) {
    static const size_t hs[] = {288, 292, 296, 300, 1024, 2048, 287, 0}; H = hs[sym_concretize(sym_range(0, 7, "header length"))];
    static const size_t ps[] = {1536, 1544, 2048, 4096}; P = ps[sym_concretize(sym_range(0, 3, "page length"))];
  }
  const size_t HF = H < 288 ? 288 : H; // bytes stored before the page
  uint8_t *h = file; sas::W w{h, L};
  static uint8_t hb[4096]; sas::header(hb, L, (uint32_t)H, (uint32_t)P, 1); memcpy(h, hb, HF < 4096 ? HF : 4096);
  sas::Page pg(file + HF, L, P, sas::META);
  sas::Col cols[1] = {{"A", "", "", 0, 8, 1}};
  sas::Meta m; m.row_length = 8; m.row_count = 0; m.ncols = 1; m.cols = cols; sas::putMeta(pg, m);
  // contents: distinct for every field
  static const struct { size_t off, len; const char *v; } T[] = {{0, 0, ""}, {92, 64, "MYTABLE"}, {156, 8, "DATA"}, {216 + t, 8, "9.0401M1"}, {224 + t, 16, "Linux srv"}, {240 + t, 16, "2.6.32"}, {256 + t, 16, "x86_64 a"}, {272 + t, 16, "Os Name B"}, {256 + t, 16, "x86_64 a"}};
  if (HF >= 288 + t) for (size_t i = 1; i <= 7; i++) w.strn(T[i].off, T[i].v, T[i].len, i == 3 ? 0 : ' ');
  else for (size_t i = 1; i <= 2; i++) w.strn(T[i].off, T[i].v, T[i].len);
  bool osA = f == 8; // no name at 272: the one at 256 counts
  if (osA) h[272 + t] = 0;
  if (f >= 1 && f <= 8) { const size_t n = T[f].len; if (n <= 8) sym_bytes(h + T[f].off, n, "text"); else { const size_t e = (size_t)sym_arg("e", 3); sym_bytes(h + T[f].off, e, "text"); sym_bytes(h + T[f].off + n - e, e, "text"); if (sym_arg("blank", 0)) for (size_t i = e; i < n - e; i++) h[T[f].off + i] = ' '; else for (size_t i = e; i < n - e; i++) h[T[f].off + i] = (uint8_t)(i % 3 ? 'x' : ' '); } }
  uint8_t enc = 20; if (f == 9) enc = h[70] = sym_u8("encoding");
  if (f == 0) { size_t k = (size_t)sym_arg("m", 0); sym_bytes(h + k, 8, "magic"); }
  uint32_t pc = 1; uint8_t plat = '1';
  if (f == 11) {
    pc = sym_u32("page count"); w.u32(204 + a1, pc);
    uint8_t b = sym_u8("64 bit marker"); sym_assume((b == '3') == L.b64); h[32] = b;
    b = sym_u8("alignment marker"); sym_assume((b == '3') == L.a1); h[35] = b;
    b = sym_u8("endian marker"); sym_assume((b == 1) == !L.big); h[37] = b;
    plat = h[39] = sym_u8("platform marker");
  }
  int64_t n1 = 1000000000, n2 = 1234567890; double d1 = (double)n1, d2 = (double)n2;
  if (f == 13) { // day numbers of the supported years, seconds up to half a day either side of that midnight
    const int64_t lo = -204527, hi = 2936546; const int64_t d = (int64_t)sym_range(0, (uint64_t)(hi - lo), "day") + lo, q = sym_arg("q", 0);
    const int64_t x = q ? (int64_t)sym_range(0, 43199, "second") : (int64_t)sym_range(0, 43198, "second") - 43199, n = 86400 * d + x; const double v = sym_scaled(n, 86400 * lo - 43200, 86400 * hi + 43200, 0);
    if (sym_arg("second", 0)) d2 = v, n2 = n; else d1 = v, n1 = n;
  }
  w.f64(164 + a1, d1); w.f64(172 + a1, d2);
  if (HF >= 288) { w.u32(196 + a1, H); w.u32(200 + a1, P); if (f != 11) w.u32(204 + a1, 1); }
  size_t n = HF + P; if (f == 12) n = (size_t)sym_concretize(sym_range(0, HF, "file length")); // HF: the header is complete, no page
  MemSource ms(file, n);
  bool threw = false; Reader *rd = nullptr; alignas(Reader) static uint8_t st[sizeof(Reader)];
  try { rd = new (st) Reader(ms, Sink{}); } catch (const std::exception &) { threw = true; }
  bool ok = true;
  if (f == 0) for (size_t i = 0; i < 32; i++) ok &= h[i] == sas::MAGIC[i];
  if (f == 10) ok = H >= 288 + t;
  if (f == 12) ok = n == HF;
  if (f == 0) { if (!ok) sym_check(threw, "a wrong magic number is refused"); else sym_check(!threw, "the right magic number is accepted"); }
  else if (f == 12 || f == 10) { if (!ok) sym_check(threw, "a file shorter than its header is refused"); else sym_check(!threw || f == 12, "a complete header is accepted"); }
  else sym_check(!threw, "a well formed header is accepted");
  sym_observe("threw", threw);
  if (threw) { sym_cover("refused"); return 0; }
  sym_cover("opened");
  const Properties &p = rd->properties();
  sym_check(p.format == (L.b64 ? Format::bit64 : Format::bit32), "format");
  sym_check(p.endianness == (L.big ? Endian::big : Endian::little), "endianness");
  sym_check(p.platform == (plat == '1' ? Platform::unix : plat == '2' ? Platform::windows : Platform::unknown), "platform");
  { const char *e = "WINDOWS-1252"; if (f == 9) { uint8_t ce = (uint8_t)sym_concretize(enc); for (auto &r : REF_ENC) if (r.id == ce) e = r.name; } else e = "UTF-8"; sym_check(same(p.encoding, e), "encoding"); }
  sym_check(same(p.dataset_name, ref_trim(h + 92, 64)), "dataset name");
  sym_check(same(p.file_type, ref_trim(h + 156, 8)), "file type");
  sym_check(same(p.sas_release, ref_trim(h + 216 + t, 8)), "SAS release");
  sym_check(same(p.sas_server_type, ref_trim(h + 224 + t, 16)), "server type");
  sym_check(same(p.os_type, ref_trim(h + 240 + t, 16)), "OS type");
  sym_check(same(p.os_name, h[272 + t] ? ref_trim(h + 272 + t, 16) : ref_trim(h + 256 + t, 16)), "OS name");
  sym_check(p.header_length == H, "header length"); sym_check(p.page_length == P, "page length"); sym_check(p.page_count == pc, "page count");
  const boost::posix_time::ptime base(boost::gregorian::date(1960, 1, 1));
  auto secs = [&](const DATETIME &d) -> int64_t { return d.is_special() ? INT64_MIN : (d - base).total_microseconds(); };
  sym_check(secs(p.date_created) == n1 * 1000000, "creation time"); sym_check(secs(p.date_modified) == n2 * 1000000, "modification time");
  sym_observe("name length", p.dataset_name.size()); sym_observe("page count", p.page_count);
  return 0;
}
