// C18: a source that ends or fails at any point.
// args: L layout, shape 0 uncompressed (meta, data, data), 1 RLE (meta with rows, meta), 2 mix then data, 3 metadata over two pages then data, 4 RDC
#include "api.hpp"
static uint8_t file[12288];
static size_t total, H, P, NP, RL;
static const uint8_t *ex[16]; static size_t exPage[16], nex;
enum { END, EAGER, ERR, ERR_ONCE };
struct Faulty {
  size_t limit, kind, lie, pos = 0; bool hit = false, *failed;
  Faulty(size_t l, size_t k, size_t p, bool *f) : limit(l), kind(k), lie(p), failed(f) {}
  bool eof() { return kind == EAGER ? pos == limit : kind == END ? hit : false; }
  bool read_bytes(void *d, size_t n) {
    uint8_t *q = (uint8_t *)d;
    if (hit && kind != ERR_ONCE) return false;
    if (!hit && n > limit - pos) { // short: what arrived is unknown, some of it may look valid
      hit = true; *failed = true; if (lie == 1) for (size_t i = 0; i < n && pos + i < total; i++) q[i] = file[pos + i]; if (lie == 2) memset(q, 0, n); if (kind != ERR_ONCE) pos = limit; return false;
    }
    memcpy(q, file + pos, n); pos += n; return true;
  }
};
static size_t got, eods, props; static bool late;
struct Sink {
  void set_properties(const Properties &) { props++; }
  void push_row(size_t i, Column::PBUF p) { sym_check(i == got && got < nex, "rows keep their index"); const uint8_t *q = (const uint8_t *)p; bool eq = true; for (size_t k = 0; k < RL; k++) eq &= q[k] == ex[got][k]; sym_check(eq, "a row has the bytes the source supplied"); got++; if (eods) late = true; }
  void end_of_data() { eods++; }
};
static uint8_t pay[8][16]; static size_t npay;
static void compRow(sas::Page &pg, int comp, size_t page) { // a row stored compressed: literals, zero filled
  size_t o = pg.alloc(8); uint8_t *d = pg.w.p + o; sym_bytes(d, 6, "row"); size_t n = comp == 1 ? 5 : 4; uint8_t *q = pay[npay++]; memset(q, 0, RL);
  if (comp == 1) d[0] = 0x80 | 4; else d[0] = d[1] = d[4] = d[5] = 0;
  for (size_t k = 0; k < n; k++) q[k] = d[k + 6 - n]; pg.add(o, 6, 4, 1); ex[nex] = q; exPage[nex++] = page;
}
int main() {
  const size_t l = (size_t)sym_arg("L", 0), shape = (size_t)sym_arg("shape", 0); sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4; const size_t I = L.I();
  H = (size_t)sym_arg("H", 304); P = (size_t)sym_arg("P", 1536); RL = 8; sas::Col cols[1] = {{"A", "La", "", 0, 8, 2}};
  sas::Meta m; m.row_length = RL; m.row_count = 9; m.ncols = 1; m.cols = cols; m.comp = shape == 1 ? 1 : shape == 4 ? 2 : 0; NP = 3;
  sas::header(file, L, H, P, 3);
  size_t metaPages = 1;
  auto dataPage = [&](size_t k, size_t n) { sas::Page d(file + H + k * P, L, P, sas::DATA, n); size_t o = d.pbo() + 8; sym_bytes(d.w.p + o, n * RL, "rows"); for (size_t i = 0; i < n; i++) { ex[nex] = d.w.p + o + i * RL; exPage[nex++] = k; } };
  sas::Page pg(file + H, L, P, shape == 2 ? sas::MIX1 : sas::META);
  if (shape == 0) { m.row_count = 4; sas::putMeta(pg, m); dataPage(1, 2); dataPage(2, 2); }
  if (shape == 1 || shape == 4) { sas::putMeta(pg, m); compRow(pg, m.comp, 0); compRow(pg, m.comp, 0); for (size_t k = 1; k < 3; k++) { sas::Page q(file + H + k * P, L, P, sas::META); compRow(q, m.comp, k); if (k == 1) compRow(q, m.comp, k); } }
  if (shape == 2) { m.mix_rows = 2; sas::putMeta(pg, m); size_t o = (pg.dataStart() + 7) / 8 * 8; sym_bytes(file + H + o, 16, "rows"); for (size_t i = 0; i < 2; i++) { ex[nex] = file + H + o + i * RL; exPage[nex++] = 0; } dataPage(1, 1); dataPage(2, 2); }
  if (shape == 3) { // row and column sizes on the first page, texts and columns on the second
    sas::putRowSize(pg, m); sas::putColSize(pg, 1); metaPages = 2; sas::Page q(file + H + P, L, P, sas::META); size_t o = q.sub(I + 64); q.sig(o, 0xFFFFFFFDu); q.w.u16(o + I, 64); q.w.strn(o + I + 12, "A", 48);
    o = q.sub(2 * I + 20); q.sig(o, 0xFFFFFFFFu); q.w.u16(o + I + 8, 0); q.w.u16(o + I + 10, 12); q.w.u16(o + I + 12, 1);
    o = q.sub(2 * I + 12 + I + 8); q.sig(o, 0xFFFFFFFCu); q.w.word(o + I + 8, 0); q.w.u32(o + 2 * I + 8, 8); q.w.u8(o + 2 * I + 14, 2); o = q.sub(3 * I + 40); q.sig(o, 0xFFFFFBFEu); dataPage(2, 3);
  }
  total = H + NP * P;
  const size_t kind = (size_t)sym_concretize(sym_range(0, 3, "kind")), lie = (size_t)sym_concretize(sym_range(0, 2, "short read")), limit = (size_t)sym_range(0, total, "supplied bytes");
  size_t n = 0; // rows of the pages supplied completely
  for (size_t i = 0; i < nex; i++) if (limit >= H + (exPage[i] + 1) * P) n++;
  const bool headerOk = limit >= H, metaOk = limit >= H + metaPages * P; bool failed = false;
  const size_t end = m.row_count < nex ? m.row_count : nex; if (n > end) n = end; n = (size_t)sym_concretize(n);
  bool threw = false, opened = false; const size_t K = (size_t)sym_arg("K", 0);
  try {
    Reader rd(Faulty(limit, kind, lie, &failed), Sink{}); opened = true; sym_check(props == 1 && !got && !eods, "the properties come first");
    size_t seen = 0; 
    const size_t how = (size_t)sym_concretize(sym_range(0, K ? 3 : 2, "call"));
    try {
      if (how == 0) { rd.read_all(); seen = got; }
      if (how == 1) { while (const uint8_t *p = (const uint8_t *)rd.read_row_no_sink()) { sym_check(seen < nex, "no row beyond the stored ones"); bool eq = true; for (size_t k = 0; k < RL; k++) eq &= p[k] == ex[seen][k]; sym_check(eq, "a row has the bytes the source supplied"); seen++; } }
      if (how == 2) { while (rd.skip(1)) seen++; }
      if (how == 3) { // any sequence of K calls
        for (size_t c = 0; c < K; c++) {
          const size_t op = (size_t)sym_concretize(sym_range(0, 3, "op")), cnt = op < 2 ? 1 : (size_t)sym_concretize(sym_range(0, 3, "count")), e0 = eods; got = seen; bool r;
          if (op == 0) r = rd.read_row(); else if (op == 1) { const uint8_t *p = (const uint8_t *)rd.read_row_no_sink(); r = p != nullptr; if (r) { sym_check(seen < n, "no row that was not supplied"); bool eq = true; for (size_t k = 0; k < RL; k++) eq &= p[k] == ex[seen][k]; sym_check(eq, "a row has the bytes the source supplied"); } } else if (op == 2) r = rd.read_rows(cnt); else r = rd.skip(cnt);
          const size_t to = seen + cnt <= n ? seen + cnt : n; sym_check(r == (seen + cnt <= n), "a call succeeds if the rows it needs were supplied"); sym_check(rd.current_row_index() == to, "the row index counts the rows"); sym_check(op == 1 || op == 3 || got == to, "the rows are delivered"); sym_check(eods - e0 == (r || op == 1 ? 0 : 1), "the end of data is reported by the call that runs into it"); seen = to;
        }
        got = seen; rd.read_all(); seen = got; sym_check(rd.current_row_index() == n, "the rest is delivered"); eods = 1; late = false;
      }
      sym_check(seen == n, "the rows of every page read completely are delivered, and no other"); sym_check(rd.current_row_index() == n, "the row index counts them");
      if (how != 1) sym_check(eods == 1 && !late, "the end of data is reported once, at the end"); else sym_check(eods == 0, "the sink is not called");
      got = seen; sym_cover("end of data");
    } catch (const std::exception &) {
      threw = true; got = rd.current_row_index(); sym_check(got == n, "the rows of the pages before the failure were delivered"); if (how != 3) sym_check(eods == 0, "no end of data is reported when the source fails"); sym_cover("failure");
    }
    // reading on never gives a row that is not there
    bool again = false, threwAgain = false; try { again = rd.read_row(); } catch (const std::exception &) { threwAgain = true; }
    sym_check(!again || kind == ERR_ONCE, "nothing is delivered after the end"); sym_check(kind == ERR_ONCE || got == n, "nothing more is delivered"); 
    if (kind == END || kind == EAGER) sym_check(!threwAgain, "reading on at the end of data reports it again");
  } catch (const std::exception &) { threw = true; }
  if (!headerOk) { sym_check(!opened, "an incomplete header is refused"); sym_cover("header refused"); }
  else if (metaOk || limit == H || metaPages == 1 || kind >= ERR) {
    const bool noticed = failed && kind >= ERR; // the reader asked for bytes that did not come
    if (kind < ERR) { if (metaOk) sym_check(opened && !threw, "at the end of the source there is no exception"); } else sym_check(noticed == threw, "a failing source raises an exception");
  }
  if (!metaOk && opened) sym_check(got == 0, "no row without the metadata");
  sym_observe("rows", got); sym_observe("threw", threw);
  return 0;
}
