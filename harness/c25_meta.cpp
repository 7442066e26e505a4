// C25: the numbers of the row size and column size subheaders and what the sink is told about the table.
// args: L layout, comp 0/1/2, g group of symbolic words (0 row length and counts, 1 the 16-bit lengths, 2 which columns and where the subheaders are), pad bytes before the page's last subheader
#include "api.hpp"
static uint8_t file[16384];
struct Seen { Properties *p = nullptr; alignas(Properties) uint8_t mem[sizeof(Properties)]; size_t n = 0; } seen;
struct Sink { void set_properties(const Properties &p) { seen.p = new (seen.mem) Properties(p); seen.n++; } void push_row(size_t, Column::PBUF) {} void end_of_data() {} };
struct Every { bool some; bool accept(const Column &c) const { return !some || c.name != "B"; } };
int main() {
  const size_t l = (size_t)sym_arg("L", 0), H = 304, P = 2560; const int comp = (int)sym_arg("comp", 0), g = (int)sym_arg("g", 0);
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4; const size_t I = L.I(), H2 = L.a1 ? H + 16 : H;
  sas::header(file, L, H2, P, 2);
  sas::Col cols[3] = {{"A", "la", "BEST", 0, 8, 1}, {"B", "", "$", 8, 3, 2}, {"C", "lc", "", 11, 1, 1}};
  sas::Meta m; m.row_length = 12; m.row_count = 5; m.ncols = 3; m.cols = cols; m.comp = comp; m.lcp = 8; m.mix_rows = 1;
  const bool amd = g == 2 && (sym_u8("page kind") & 1);
  sas::Page pg(file + H2, L, P, amd ? sas::AMD : sas::META);
  if (g == 2 && sym_concretize(sym_u8("unused subheader") & 1)) { size_t o = pg.sub(4 * I); pg.sig(o, 0xFFFFFFFEu); pg.w.word(o + I, 7); } // a column list
  if (g == 2 && sym_concretize(sym_u8("empty subheader") & 1)) pg.add(0, 0);
  if (g == 2 && sym_concretize(sym_u8("truncated subheader") & 1)) { size_t o = pg.sub(3 * I, 1); pg.sig(o, 0xF6F6F6F6u); pg.w.word(o + I, 9); }
  const sas::MetaOffs mo = sas::putMeta(pg, m);
  if (g == 2 && sym_concretize(sym_u8("count subheader") & 1)) { size_t o = pg.sub(4 * I); pg.sig(o, 0xFFFFFC00u); pg.w.word(o + I, 8); }
  { sas::Page d(file + H2 + P, L, P, sas::DATA, 5); }
  uint64_t rl = 12, rc = 5, p1 = 3, p2 = 0, mix = 1, lcs = 0, lcp = 8, cc = 3;
  const uint64_t top = L.b64 ? ~0ull : 0xFFFFFFFFull;
  auto word = [&](const char *n) -> uint64_t { return L.b64 ? sym_u64(n) : sym_u32(n); };
  if (g == 0) {
    rl = word("row length"); sym_assume(rl >= 12); rc = word("row count"); p1 = word("first column count"); p2 = word("second column count"); mix = word("mix page row count");
    if (comp) sym_assume(rl < 200); // the row buffer is made at once
    pg.w.word(mo.rowsize + 5 * I, rl); pg.w.word(mo.rowsize + 6 * I, rc); pg.w.word(mo.rowsize + 9 * I, p1); pg.w.word(mo.rowsize + 10 * I, p2); pg.w.word(mo.rowsize + 15 * I, mix);
    for (size_t i = 1; i < 54 && i * I + I <= (L.b64 ? 680u : 352u); i++) if (i != 5 && i != 6 && i != 9 && i != 10 && i != 15) pg.w.word(mo.rowsize + i * I, 0x5A00 + i); // the other words do not matter
  }
  if (g == 1) {
    const size_t hi = (size_t)sym_arg("hi", 300); const bool which = sym_concretize(sym_u8("which length") & 1);
    lcs = 5; lcp = 7; (which ? lcs : lcp) = sym_concretize(sym_range(0, hi, "length"));
    pg.w.u16(mo.rowsize + (L.b64 ? 682 : 354), lcs); pg.w.u16(mo.rowsize + (L.b64 ? 706 : 378), lcp);
    for (size_t i = 1; i < 4; i++) { pg.w.u16(mo.rowsize + (L.b64 ? 682 : 354) - 2 * i, 0x7171); pg.w.u16(mo.rowsize + (L.b64 ? 682 : 354) + 2 * i, 0x7272); pg.w.u16(mo.rowsize + (L.b64 ? 706 : 378) - 2 * i, 0x7373); pg.w.u16(mo.rowsize + (L.b64 ? 706 : 378) + 2 * i, 0x7474); }
  }
  if (g == 2) { cc = sym_concretize(sym_range(0, 3, "column count")); pg.w.word(mo.colsize + I, cc); }
  (void)top;
  const bool some = sym_u8("filter") & 1;
  MemSource ms(file, H2 + 2 * P);
  try {
    Reader rd(ms, Sink{}, Every{some});
    const Properties &p = rd.properties();
    sym_check(p.row_length == rl, "the row length is the one stored"); sym_check(p.row_count == rc, "the row count is the one stored");
    sym_check(p.col_count_p1 == p1 && p.col_count_p2 == p2, "the two column counts are those stored"); sym_check(p.mix_page_row_count == mix, "the mix page row count is the one stored");
    sym_check(p.column_count == cc, "the column count is the one stored");
    // without a compression literal there is no creator length; a creator in its place leaves no procedure length
    sym_check(p.lcs == (comp == 0 ? 0 : lcs), "the creator length is the one stored"); sym_check(p.lcp == (comp == 2 && lcs > 0 ? 0 : lcp), "the procedure length is the one stored");
    size_t n = 0; static const char *nm[3] = {"A", "B", "C"}; bool ok = true;
    for (size_t i = 0; i < cc; i++) if (!(some && i == 1)) { ok = ok && n < p.columns.size() && p.columns[n].name == nm[i] && p.columns[n].length() == cols[i].len; n++; }
    sym_check(ok && n == p.columns.size(), "the columns are those counted");
    sym_check(seen.n == 1, "the sink is told the properties once");
    const Properties &q = *seen.p;
    sym_check(q.row_length == p.row_length && q.row_count == p.row_count && q.col_count_p1 == p.col_count_p1 && q.col_count_p2 == p.col_count_p2 && q.mix_page_row_count == p.mix_page_row_count && q.column_count == p.column_count && q.lcs == p.lcs && q.lcp == p.lcp && q.compression == p.compression && q.creator == p.creator && q.creator_proc == p.creator_proc && q.columns.size() == p.columns.size() && q.page_length == p.page_length && q.page_count == p.page_count && q.header_length == p.header_length && q.dataset_name == p.dataset_name && q.encoding == p.encoding && q.format == p.format && q.endianness == p.endianness && q.date_created == p.date_created, "the sink is told the same properties");
    for (size_t i = 0; i < q.columns.size() && i < p.columns.size(); i++) sym_check(q.columns[i].name == p.columns[i].name && q.columns[i].label == p.columns[i].label && q.columns[i].format == p.columns[i].format && q.columns[i].type == p.columns[i].type, "the sink is told the same columns");
    sym_check(rd.current_row_index() == 0, "no row has been read yet");
    sym_observe("row count", p.row_count); sym_observe("columns", n); sym_cover("opened");
  } catch (const std::exception &) { sym_fail("a well formed file is opened without exception"); }
  return 0;
}
