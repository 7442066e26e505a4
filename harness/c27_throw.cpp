// C27: an exception thrown by a sink, a filter or a source reaches the caller, and the reader can still be used and destroyed.
// args: L layout, comp 0/1/2, who 0 sink, 1 filter, 2 source, 3 source with metadata on two pages, K calls
#include "api.hpp"
static uint8_t file[10240]; static size_t flen, H, P;
static const size_t NR = 4, RL = 24;
static uint8_t rows[NR][RL];
struct Boom { uint64_t v; };
struct BoomStd : std::runtime_error { uint64_t v; BoomStd(uint64_t x) : std::runtime_error("boom"), v(x) {} };
static size_t calls, at = (size_t)-1; static uint64_t code; static bool isStd, armed;
static void step() { if (armed && calls++ == at) { if (isStd) throw BoomStd(code); throw Boom{code}; } }
static long live;
struct Live { Live() { live++; } Live(const Live &) { live++; } Live(Live &&) { live++; } ~Live() { live--; } };
static size_t pushed, eods, props; static uint64_t got[4 * NR], ngot;
struct Sink {
  Live l; bool on;
  Sink(bool o) : on(o) {}
  void set_properties(const Properties &) { props++; if (on) step(); }
  void push_row(size_t i, Column::PBUF p) { bool eq = i < NR; for (size_t k = 0; k < RL && eq; k++) eq &= ((const uint8_t *)p)[k] == rows[i][k]; sym_check(eq, "a row delivered has its bytes"); if (ngot < 4 * NR) got[ngot++] = i; pushed++; if (on) step(); }
  void end_of_data() { eods++; if (on) step(); }
};
struct Filter { Live l; bool on; Filter(bool o) : on(o) {} bool accept(const Column &) const { if (on) step(); return true; } };
struct Source {
  Live l; bool on; MemSource m;
  Source(bool o) : on(o), m(file, flen) {}
  bool eof() { if (on) step(); return m.eof(); }
  bool read_bytes(void *d, size_t n) { if (on) step(); return m.read_bytes(d, n); }
};
static void build(size_t l, int comp, bool two) {
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4; const size_t I = L.I(); H = L.a1 ? 320 : 304; P = 1600; uint8_t *f = file; size_t ip = 1;
  sas::Col cols[3] = {{"N", "a label", "BEST", 0, 8, 1}, {"S", "", "$", 8, 3, 2}, {"I", "", "", 11, 1, 1}};
  sas::Meta m; m.row_length = RL; m.row_count = NR; m.ncols = 3; m.cols = cols; m.comp = comp; m.lcp = 8;
  if (two) { sas::Page pg(f + H, L, P, sas::META); size_t o = pg.sub(4 * I); pg.sig(o, 0xFFFFFC00u); ip++; }
  { sas::Page pg(f + H + (ip - 1) * P, L, P, sas::META); sas::putMeta(pg, m); }
  sas::header(f, L, H, P, ip + 2);
  for (size_t k = 0; k < NR; k++) { uint8_t *r = rows[k]; memset(r, 0, RL); sym_bytes(r, 12, "row"); r[8] = (uint8_t)('a' + k); }
  for (size_t k = 0, e = ip + 2; ip < e; ip++) {
    sas::Page pg(f + H + ip * P, L, P, comp ? sas::META : sas::DATA, comp ? 0 : 2);
    for (size_t i = 0; i < 2; i++, k++) {
      if (!comp) { memcpy(pg.w.p + pg.pbo() + 8 + i * RL, rows[k], RL); continue; }
      const size_t o = pg.alloc(18); uint8_t *d = pg.w.p + o; const size_t h = comp == 1 ? 1 : 2; if (comp == 1) d[0] = 0x80 | 11; memcpy(d + h, rows[k], 12); pg.add(o, comp == 1 ? 13 : 16, 4, 1);
    }
  }
  flen = H + ip * P;
}
int main() {
  const size_t who = (size_t)sym_arg("who", 0), K = (size_t)sym_arg("K", 3); build((size_t)sym_arg("L", 0), (int)sym_arg("comp", 0), who == 3);
  at = (size_t)sym_concretize(sym_range(0, (size_t)sym_arg("at", 8), "failing call")); code = sym_u64("exception"); isStd = sym_concretize(sym_u8("kind of exception") & 1); armed = true;
  Reader *rd = nullptr; bool threw = false; size_t booms = 0;
  // runs f; true if it threw, which must be what the user's code threw
  auto guarded = [&](auto &&f) {
    const size_t c0 = calls; bool t = false;
    try { f(); }
    catch (const Boom &b) { t = true; sym_check(!isStd && b.v == code, "the exception is the one thrown"); }
    catch (const BoomStd &b) { t = true; sym_check(isStd && b.v == code, "the exception is the one thrown"); }
    catch (...) { t = true; sym_check(false, "the exception is the one thrown"); }
    sym_check(t == (c0 <= at && at < calls), "an exception of the user's code reaches the caller, and no other"); if (t) sym_cover("thrown"); booms += t;
    return t;
  };
  threw = guarded([&] { rd = new Reader(Source(who >= 2), Sink(who == 0), Filter(who == 1)); });
  if (threw) { sym_check(live == 0, "what was handed to a reader that could not be built is destroyed"); sym_check(who == 0 ? props == 1 && !pushed && !eods : !props && !pushed && !eods, "the sink hears nothing of a table that could not be opened"); sym_cover("not opened"); return 0; }
  sym_check(live > 0 && props == 1, "the reader keeps its sink, source and filter");
  const long alive = live; size_t cur = 0;
  for (size_t k = 0; k < K && !(booms && who >= 2); k++) {
    const size_t op = (size_t)sym_concretize(sym_range(0, 5, "call")), p0 = pushed, e0 = eods, had = NR - cur; const uint64_t n = op == 1 || op == 3 ? sym_u64("count") : op == 4 ? NR + 1 : 1; const size_t g0 = ngot;
    bool r = false; const void *row = nullptr;
    const bool t = guarded([&] { if (op == 0) r = rd->read_row(); if (op == 1) r = rd->read_rows(n); if (op == 2) { row = rd->read_row_no_sink(); r = row != nullptr; } if (op == 3) r = rd->skip(n); if (op == 4) rd->read_all(); if (op == 5) rd->end_of_data(); });
    const size_t want = op == 5 ? 0 : (size_t)sym_concretize(n < had ? n : had); size_t done = want;
    if (t) { // the row whose delivery failed counts as read; a row that could not be fetched does not
      const size_t now = rd->current_row_index(); sym_check(now >= cur && now <= cur + want, "the row index stays in step"); done = now - cur;
      if (who == 0) sym_check(eods != e0 ? done == want : done == pushed - p0 && done > 0, "only the rows handed over are consumed");
    } else if (op < 4) sym_check(r == (n <= had), "a call returns whether the rows existed");
    if (row) { bool eq = cur < NR; for (size_t i = 0; i < RL && eq; i++) eq &= ((const uint8_t *)row)[i] == rows[cur][i]; sym_check(eq, "a row read has its bytes"); }
    sym_check(pushed - p0 == (op == 2 || op == 3 || op == 5 ? 0 : done), "the rows are delivered once"); for (size_t i = 0; g0 + i < ngot; i++) sym_check(got[g0 + i] == cur + i, "the rows are delivered in order");
    cur += done; sym_check(rd->current_row_index() == cur, "the row index counts the rows"); sym_check(live == alive, "the reader keeps its sink, source and filter");
  }
  if (booms) { armed = false; const size_t p0 = pushed, g0 = ngot; try { rd->read_all(); } catch (...) { sym_fail("a reader goes on after an exception"); } 
    if (who < 2) sym_check(pushed - p0 == NR - cur && rd->current_row_index() == NR, "a reader goes on after an exception with the rows left");
    else sym_check(pushed - p0 <= NR - cur && rd->current_row_index() == cur + (pushed - p0), "after a failure of its source a reader gives no row that is not next"); // it may give none
    for (size_t i = 0; g0 + i < ngot; i++) sym_check(got[g0 + i] == cur + i, "a reader goes on in order"); sym_cover("read on"); }
  delete rd; sym_check(live == 0, "sink, source and filter are destroyed with the reader");
  sym_observe("rows", cur); sym_observe("pushed", pushed);
  return 0;
}
