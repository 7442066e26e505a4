// C07/C08/C24: any sequence of K calls on a reader, against a model of the row sequence.
// args: L layout, shape (see build), K calls, ops bit mask of allowed calls, RC declared row count (-1: all),
// what: bit 0 rows/returns/index, bit 1 notifications, bit 2 moves
#include "api.hpp"
static uint8_t file[12288];
static const size_t RL = 8;
static uint8_t rowsExp[32][8]; static size_t total;
static size_t what;
static size_t nprops, neod, npush; static size_t lastIdx; static bool inCall, orderOk = true;
static size_t cur;            // model: rows consumed
static size_t expPush, eodAtCall;
static const Properties *propsSeen; static size_t propsCols;
struct Sink {
  void set_properties(const Properties &p) { if (npush || neod || nprops) orderOk = false; nprops++; propsCols = p.columns.size(); }
  void push_row(size_t i, Column::PBUF p) {
    if (nprops != 1 || neod != eodAtCall || !inCall) orderOk = false;
    if (what & 5) {
      sym_check(i == cur, "the row pushed next is the next row of the table");
      sym_check(i < total, "no row beyond the last is pushed");
      const uint8_t *q = static_cast<const uint8_t *>(p); bool eq = true;
      for (size_t k = 0; k < RL; k++) eq &= q[k] == rowsExp[i][k];
      sym_check(eq, "the row pushed has the bytes stored for its index");
    }
    cur++; npush++;
  }
  void end_of_data() { neod++; }
};
static void build(size_t shape, sas::Layout L, size_t &fileLen, size_t rc) {
  const size_t H = 304, P = 1536; size_t np = 0; sas::Col cols[1] = {{"A", "", "", 0, RL, 2}};
  sas::Meta m; m.row_length = RL; m.ncols = 1; m.cols = cols; m.comp = shape == 1 ? 1 : shape == 4 ? 2 : 0; m.mix_rows = 2;
  auto fill = [&](uint8_t *d) { sym_bytes(d, 2, "row"); d[2] = (uint8_t)('a' + total); for (size_t k = 3; k < RL; k++) d[k] = (uint8_t)(17 * total + k); memcpy(rowsExp[total], d, RL); total++; };
  auto comp = [&](sas::Page &pg, size_t n) { // n row subheaders, compressed: literal of 4 bytes, then zeros
    for (size_t i = 0; i < n; i++) {
      size_t o = pg.alloc(8); uint8_t *d = pg.w.p + o; size_t h = m.comp == 1 ? 1 : 2;
      if (m.comp == 1) d[0] = 0x83; else d[0] = d[1] = 0;
      sym_bytes(d + h, 1, "row"); d[h + 1] = (uint8_t)('a' + total); d[h + 2] = m.comp == 1 ? 3 : 0; d[h + 3] = m.comp == 1 ? 4 : 0;
      memset(rowsExp[total], 0, RL); memcpy(rowsExp[total], d + h, 4); total++;
      pg.add(o, h + 4, 4, 1);
    }
  };
  auto data = [&](size_t n) { uint8_t *p = file + H + np++ * P; sas::Page pg(p, L, P, sas::DATA, n); for (size_t i = 0; i < n; i++) fill(p + pg.pbo() + 8 + i * RL); };
  auto mixRows = [&](sas::Page &pg) { size_t o = (pg.dataStart() + 7) / 8 * 8; for (size_t i = 0; i < 2; i++) fill(pg.w.p + o + i * RL); };
  auto meta = [&](unsigned type) { sas::Page pg(file + H + np++ * P, L, P, type); return pg; };
  sas::Page first = meta(shape == 2 ? sas::MIX2 : sas::META);
  sas::MetaOffs mo = sas::putMeta(first, m);
  if (m.comp) comp(first, shape == 1 ? 2 : 1);
  switch (shape) {
  case 0: data(2); data(0); data(1); { sas::Page a = meta(sas::AMD); (void)a; } { sas::Page x = meta(sas::MIX1); mixRows(x); } break;
  case 1: { sas::Page x = meta(sas::META); comp(x, 1); } { sas::Page a = meta(sas::AMD); (void)a; } { sas::Page x = meta(sas::META); } { sas::Page x = meta(sas::META); comp(x, 2); } break;
  case 2: mixRows(first); data(1); data(2); break;
  case 3: data(0); break;
  case 4: { sas::Page x = meta(sas::META); comp(x, 2); } data(2); break;
  }
  if (total > rc) total = rc;
  sas::W w{file + H, L}; size_t I = L.I();
  w.word(mo.rowsize + 6 * I, rc == (size_t)-1 ? total : rc);
  sas::header(file, L, H, (uint32_t)P, (uint32_t)np);
  fileLen = H + np * P;
}
enum { ROW, ROWS, NOSINK, SKIP, ALL, EOD, MOVEC, MOVEA, MOVEL };
static size_t otherCalls; struct Other { void set_properties(const Properties &) {} void push_row(size_t, Column::PBUF) { otherCalls++; } void end_of_data() { otherCalls++; } };
static void inert(Reader &r) {
  sym_check(r.current_row_index() == 0, "an empty reader is at row 0");
  sym_check(r.properties().columns.size() == 0 && r.properties().row_count == 0 && r.properties().dataset_name.size() == 0, "an empty reader has empty properties");
  size_t a = npush, b = neod, c = nprops;
  sym_check(!r.read_row() && !r.read_rows(2) && !r.skip(1) && r.read_row_no_sink() == nullptr, "an empty reader delivers nothing");
  r.read_all(); r.end_of_data();
  sym_check(a == npush && b == neod && c == nprops, "an empty reader calls no sink");
}
int main() {
  const size_t l = (size_t)sym_arg("L", 0), K = (size_t)sym_arg("K", 2), ops = (size_t)sym_arg("ops", 511), shape = (size_t)sym_arg("shape", 0); what = (size_t)sym_arg("what", 7);
  sas::Layout L; L.big = l & 1; L.b64 = l & 2; L.a1 = l & 4; size_t flen = 0;
  build(shape, L, flen, (size_t)sym_arg("RC", -1));
  MemSource ms(file, flen);
  alignas(Reader) static uint8_t store[10][sizeof(Reader)]; size_t slot = 0;
  Reader *rd = new (store[slot++]) Reader(ms, Sink{});
  if (what & 2) sym_check(nprops == 1 && propsCols == 1, "the sink gets the properties when the reader is built");
  if (what & 4) { Reader e; inert(e); }
  try {
    for (size_t k = 0; k < K; k++) {
      size_t op; for (;;) { op = (size_t)sym_concretize(sym_range(0, 8, "call")); break; }
      sym_assume((ops >> op) & 1);
      if (op >= MOVEC) {
        Reader *r2;
        size_t a = npush, b = neod, c = nprops;
        if (op == MOVEC) r2 = new (store[slot++]) Reader(std::move(*rd));
        else if (op == MOVEA) { r2 = new (store[slot++]) Reader(); *r2 = std::move(*rd); }
        else { MemSource ms2(file, flen); r2 = new (store[slot++]) Reader(ms2, Other{}); r2->read_row_no_sink(); *r2 = std::move(*rd); sym_check(otherCalls == 0, "a reader assigned to does not notify its sink"); }
        if (what & 4) { sym_check(a == npush && b == neod && c == nprops, "moving a reader calls no sink"); inert(*rd); }
        rd->~Reader(); rd = r2; sym_cover("moved");
      } else {
        const size_t p0 = npush, e0 = neod, c0 = cur, left = total - cur; eodAtCall = neod; size_t eE = 0; inCall = true;
        uint64_t n = op == ROWS || op == SKIP ? sym_u64("count") : 0;
        bool ret = true, rexp = true; size_t consumed = 0; bool deliver = true;
        switch (op) {
        case ROW: ret = rd->read_row(); consumed = left ? 1 : 0; rexp = left > 0; eE = !rexp; break;
        case ROWS: ret = rd->read_rows(n); rexp = n <= left; consumed = rexp ? n : left; eE = !rexp; break;
        case NOSINK: {
          inCall = false; deliver = false; const void *q = rd->read_row_no_sink(); inCall = true; consumed = left ? 1 : 0; ret = q != nullptr; rexp = left > 0;
          if (q && left && (what & 5)) { bool eq = true; for (size_t i = 0; i < RL; i++) eq &= ((const uint8_t *)q)[i] == rowsExp[cur][i]; sym_check(eq, "the row read without sink is the next row"); }
          cur += consumed; break; }
        case SKIP: deliver = false; inCall = false; ret = rd->skip(n); rexp = n <= left; consumed = rexp ? n : left; eE = !rexp; cur += consumed; break;
        case ALL: rd->read_all(); consumed = left; eE = 1; break;
        case EOD: rd->end_of_data(); consumed = 0; eE = 1; break;
        }
        inCall = false; consumed = (size_t)sym_concretize(consumed); cur = (size_t)sym_concretize(cur);
        if (what & 5) {
          sym_check(ret == rexp, "the call returns whether the requested rows existed");
          sym_check(npush - p0 == (deliver ? consumed : 0), "the call delivers the rows asked for to the sink, and no other");
          sym_check(cur == c0 + consumed, "the call consumes the rows asked for");
        }
        if (what & 2) sym_check(neod - e0 == eE, "end of data is notified once by a read or skip that runs out of rows and by a request, else never");
        if (eE) sym_cover("ran out of rows");
      }
      if (what & 5) sym_check(rd->current_row_index() == cur, "the current row index is the number of rows consumed");
      if (what & 4) sym_check(rd->properties().columns.size() == 1 && rd->properties().columns[0].name == "A" && rd->properties().dataset_name == "DATASET", "a moved reader keeps its properties");
    }
    rd->~Reader();
  } catch (const std::exception &) { sym_fail("a call on a well formed file throws"); }
  if (what & 2) sym_check(orderOk && nprops == 1, "properties come once and first; rows only inside delivering calls and before their end of data");
  sym_observe("rows", cur); sym_observe("pushed", npush); sym_observe("end of data", neod);
  return 0;
}
