// symex: bounded symbolic execution of LLVM IR with an SMT back end.
// usage: symex module.bc --out DIR [--jobs N] [--time S] [--arg K=V ...]
#include "expr.hpp"
#include "solver.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cxxabi.h>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <unordered_set>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
typedef uint64_t u64;
// ------------------------------------------------------------------ values
struct Agg;
struct Val { E e = nullptr; const Agg *g = nullptr; };
struct Agg { std::vector<Val> v; };
static const Agg *mkAgg(std::vector<Val> v) { auto *a = new Agg; a->v = std::move(v); return a; }
static Val V(E e) { Val v; v.e = e; return v; }
// ------------------------------------------------------------------ memory
enum Kind : uint8_t { K_GLOBAL, K_STACK, K_HEAP, K_EXC };
struct Object {
  u64 base, size; Kind kind; bool ro = false; int refs = 0; E ssize = nullptr; const char *name = "";
  std::vector<E> b; // null: uninitialised
};
struct ORef {
  Object *p = nullptr;
  ORef() {}
  ORef(Object *q) : p(q) { if (p) p->refs++; }
  ORef(const ORef &o) : p(o.p) { if (p) p->refs++; }
  ORef(ORef &&o) noexcept : p(o.p) { o.p = nullptr; }
  ORef &operator=(ORef o) { std::swap(p, o.p); return *this; }
  ~ORef() { if (p && --p->refs == 0) delete p; }
};
typedef std::map<u64, ORef> Mem;
static Mem g_const; // read-only globals, shared
static const char *intern(const std::string &s) { static std::set<std::string> t; return t.insert(s).first->c_str(); }
// ------------------------------------------------------------------ compiled code
enum OpK : uint8_t { OK_REG, OK_CONST, OK_UNDEF };
struct Opnd { OpK k; int reg; Val v; unsigned w; };
struct KInst {
  Instruction *I; unsigned opc; int dest = -1; std::vector<Opnd> ops; unsigned w = 0; u64 sz = 0;
  i128 cofs = 0; std::vector<std::pair<int, u64>> idx; // GEP
  int s0 = -1, s1 = -1; unsigned pred = 0;
  std::vector<int> cases; Type *ty = nullptr; Function *callee = nullptr; int builtin = -1;
  std::vector<std::pair<int, int>> phiIn; // (bb, operand)
};
struct KBB { std::vector<KInst> in; };
struct KFunc { Function *F; std::vector<KBB> bb; int nregs = 0; const char *name; u64 hits = 0; };
struct Frame { KFunc *f; int bb = 0, prev = -1; size_t ip = 0; std::vector<Val> regs; std::vector<u64> allocas; };
struct ExcInfo { u64 ti; };
struct Dom { u64 w[4]; bool has(unsigned v) const { return w[v >> 6] >> (v & 63) & 1; } unsigned count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]); } };
struct Doms { // values still possible per symbolic byte, from the constraints over single bytes; multi: the byte also occurs in wider constraints
  std::vector<std::pair<uint32_t, Dom>> d; std::vector<uint32_t> multi; std::vector<E> wide; // wide: the constraints over several open bytes
  const Dom *find(uint32_t id) const { auto it = std::lower_bound(d.begin(), d.end(), id, [](auto &p, uint32_t x) { return p.first < x; }); return it != d.end() && it->first == id ? &it->second : nullptr; }
  Dom &get(uint32_t id) { auto it = std::lower_bound(d.begin(), d.end(), id, [](auto &p, uint32_t x) { return p.first < x; }); if (it == d.end() || it->first != id) it = d.insert(it, {id, Dom{{~0ull, ~0ull, ~0ull, ~0ull}}}); return it->second; }
  bool isMulti(uint32_t id) const { return std::binary_search(multi.begin(), multi.end(), id); }
  void addMulti(uint32_t id) { auto it = std::lower_bound(multi.begin(), multi.end(), id); if (it == multi.end() || *it != id) multi.insert(it, id); }
};
struct State {
  std::vector<Frame> fr; Mem mem; std::vector<E> cons; std::unordered_set<E> consSet; Model model; Doms doms;
  u64 nextSlot; unsigned nin = 0, nundef = 0; std::vector<std::pair<const char *, unsigned>> inputs; std::vector<std::pair<const char*,E>> obs;
  std::map<u64, u64> exc; std::vector<u64> caught; u64 steps = 0, depth = 0; std::set<u64> freed; std::set<const char *> covers;
  u64 dbgHeap = 0;
};
// ------------------------------------------------------------------ globals
static LLVMContext *C; static Module *M; static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, u64> g_addr;
static std::map<u64, Function *> g_funcAt;
static std::unordered_map<const Function *, KFunc *> g_kf;
static std::deque<State *> g_work;
struct Shm { std::atomic<int> active, forks; std::atomic<int> violations, stop; std::atomic<u64> paths; };
static Shm *g_shm; static int g_jobs = 8; static std::string g_out; static double g_deadline; static u64 g_maxSteps = 8000000; static u64 g_cap = 1 << 16;
static unsigned g_forkLimit = 96; static u64 g_iteLimit = 8192; static int g_maxViol = 1; static unsigned g_samplesPer = 12;
static bool g_stopAll = false; static std::map<std::string, i128> g_args; static bool g_timedOut = false;
static struct { u64 paths = 0, infeasible = 0, instr = 0, branches = 0, forks = 0, errors = 0, checks = 0, symchecks = 0, bounds = 0, domcases = 0; } g_st;
static std::map<std::string, u64> g_covers, g_inconclusive, g_checksById; static std::vector<std::string> g_viol, g_samples; static std::set<KFunc *> g_execd;
static std::set<std::string> g_violIds, g_findIds; static std::vector<std::string> g_find;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string demangle(const std::string &n) { int st; char *p = abi::__cxa_demangle(n.c_str(), 0, 0, &st); std::string r = p ? p : n; free(p); return r; }
struct PathEnd { };   // thrown to end the current path
static std::string jstr(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static unsigned inSym(unsigned k) { return 2 * k; }
static unsigned undefSym(unsigned k) { return 2 * k + 1; }

static std::string inputHex(State &s) { std::string r; char b[3]; for (unsigned i = 0; i < s.nin; i++) { unsigned id = inSym(i); snprintf(b, 3, "%02x", id < s.model.size() ? s.model[id] : 0); r += b; } return r; }
static std::string obsJson(State &s) { std::string r = "["; bool f = true; for (auto &o : s.obs) { if (!f) r += ","; f = false; char b[64]; snprintf(b, 64, "%llu", (unsigned long long)evalE(o.second, s.model)); r += std::string("[") + jstr(o.first) + "," + "\"" + b + "\"]"; } return r + "]"; }
static std::string stackOf(State &s) {
  std::string r; int n = 0;
  for (int i = (int)s.fr.size() - 1; i >= 0 && n < 12; i--, n++) {
    auto &f = s.fr[i]; std::string loc;
    if (f.ip < f.f->bb[f.bb].in.size()) if (auto &dl = f.f->bb[f.bb].in[f.ip].I->getDebugLoc()) loc = std::string(" ") + dl->getFilename().str() + ":" + std::to_string(dl.getLine());
    std::string d = demangle(f.f->name); if (d.size() > 90) d = d.substr(0, 90) + "~";
    r += d + loc + "\n";
  }
  return r;
}
static void addViolation(State &s, const std::string &kind, const std::string &msg) {
  for (auto c : s.cons) if (!evalE(c, s.model)) { fprintf(stderr, "MODEL BUG: %s\n", showE(c, 8).c_str()); }
  std::string key = kind + ":" + msg;
  if (!g_violIds.insert(key).second && g_viol.size() >= 3) return;
  std::string j = "{\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"inputs\":\"" + inputHex(s) + "\",\"names\":[";
  bool f = true; for (auto &p : s.inputs) { if (!f) j += ","; f = false; j += "[" + jstr(p.first) + "," + std::to_string(p.second) + "]"; }
  j += "],\"stack\":" + jstr(stackOf(s)) + ",\"obs\":" + obsJson(s) + "}";
  g_viol.push_back(j);
  if (g_shm->violations.fetch_add(1) + 1 >= g_maxViol) g_shm->stop = 1;
}
static void inconclusive(State &s, const std::string &why) { if (g_inconclusive[why]++ == 0 && getenv("SYMEX_V")) fprintf(stderr, "INCONCLUSIVE %s\n%s", why.c_str(), stackOf(s).c_str()); if (g_inconclusive[why] == 1) g_inconclusive[why + " @ " + stackOf(s).substr(0, 600)]++; throw PathEnd(); }
[[noreturn]] static void violationEnd(State &s, const std::string &kind, const std::string &msg) { g_st.errors++; addViolation(s, kind, msg); throw PathEnd(); }
// ------------------------------------------------------------------ constraints
// the symbols of e with more than one possible value; false when there are more than two of them
static bool openSyms(State &s, E e, uint32_t out[2], const Dom *dm[2], int &n) {
  n = 0;
  for (auto id : e->syms->v) { const Dom *d = s.doms.find(id); if (d && d->count() == 1) continue; if (n == 2) return false; out[n] = id; dm[n++] = d; }
  return true;
}
static E foldE(State &s, E e) { // constant when every byte of e is determined
  if (e->isConst()) return e;
  if (e->syms->v.size() > 16) return e;
  for (auto id : e->syms->v) { const Dom *d = s.doms.find(id); if (!d || d->count() != 1) return e; }
  return mkConst(evalE(e, s.model), e->w);
}
static bool narrowDom(State &s, uint32_t id, const Dom *d, E c) { // true when the byte is determined by it
  Dom r = d ? *d : Dom{{~0ull, ~0ull, ~0ull, ~0ull}}; static Model m; m = s.model; if (id >= m.size()) m.resize(id + 64, 0);
  for (unsigned v = 0; v < 256; v++) if (r.has(v)) { m[id] = (uint8_t)v; if (!evalE(c, m)) r.w[v >> 6] &= ~(1ull << (v & 63)); }
  s.doms.get(id) = r;
  return r.count() == 1;
}
static void addCons(State &s, E c) {
  if (c->isConst()) { if (!c->val) throw PathEnd(); return; }
  if (c->op == O_AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
  if (!s.consSet.insert(c).second) return;
  s.cons.push_back(c);
  uint32_t id[2]; const Dom *dm[2]; int n;
  if (openSyms(s, c, id, dm, n) && n <= 1) {
    if (n == 0 || !narrowDom(s, id[0], dm[0], c)) return;
    // a byte became known: constraints over several bytes may now speak about one byte only
    bool any = false, again = true;
    while (again) {
      again = false;
      for (size_t i = 0; i < s.doms.wide.size(); i++) {
        E x = s.doms.wide[i]; if (!openSyms(s, x, id, dm, n) || n > 1) continue;
        s.doms.wide.erase(s.doms.wide.begin() + (long)i); i--; any = true;
        if (n == 1 && narrowDom(s, id[0], dm[0], x)) again = true;
      }
    }
    if (any) { s.doms.multi.clear(); for (auto x : s.doms.wide) for (auto y : x->syms->v) s.doms.addMulti(y); }
  } else { s.doms.wide.push_back(c); for (auto x : c->syms->v) s.doms.addMulti(x); }
}
// 1 true, 0 false, -1 both possible (model then satisfies PC; other receives a model for the opposite)
static bool evalB(State &s, E c) { return evalE(c, s.model) != 0; }
static SolveR feasible(State &s, E c, Model &m) { m = s.model; return solve(s.cons, c, m); }
static int decide(State &s, E c, Model *otherModel) {
  if (c->isConst()) return c->val ? 1 : 0;
  if (s.consSet.count(c)) return 1;
  E n = mkNot(c);
  if (s.consSet.count(n)) return 0;
  bool v = evalB(s, c);
  Model m;
  uint32_t id[2]; const Dom *dm[2]; int k;
  if (openSyms(s, c, id, dm, k)) { // few open bytes: complete case distinction over their remaining values
    if (k == 0) return v;
    unsigned n0 = dm[0] ? dm[0]->count() : 256, n1 = k == 2 ? (dm[1] ? dm[1]->count() : 256) : 1;
    if (n0 * n1 <= 4096) {
      m = s.model; for (int i = 0; i < k; i++) if (id[i] >= m.size()) m.resize(id[i] + 64, 0);
      bool other = false; g_st.domcases++;
      for (unsigned x = 0; x < 256 && !other; x++) { if (dm[0] && !dm[0]->has(x)) continue; m[id[0]] = (uint8_t)x;
        for (unsigned y = 0; y < 256 && !other; y++) { if (k == 2) { if (dm[1] && !dm[1]->has(y)) continue; m[id[1]] = (uint8_t)y; } if ((evalE(c, m) != 0) != v) other = true; if (k == 1) break; } }
      if (!other) return v;
      bool free = true; for (int i = 0; i < k; i++) if (s.doms.isMulti(id[i])) free = false;
      if (free) { if (otherModel) *otherModel = std::move(m); return -1; }
    }
  }
  SolveR r = feasible(s, v ? n : c, m);
  if (r == S_UNSAT) return v ? 1 : 0;
  if (r == S_UNKNOWN) { inconclusive(s, "solver gave no answer"); }
  if (otherModel) *otherModel = std::move(m);
  return -1;
}
static void pushState(State *t) { g_work.push_back(t); g_st.forks++; }
// the value of e, a constant; siblings take the other values by re-executing the current instruction
static E concretize(State &s, E e, const char *what, unsigned limit = 0) {
  e = foldE(s, e);
  if (e->isConst()) return e;
  (void)what; (void)limit;
  { // two open bytes: take the values of the smaller one in turn, the rest is then decided without the solver
    uint32_t id[2]; const Dom *dm[2]; int n;
    while (!e->isConst() && e->umax - e->umin > 32 && openSyms(s, e, id, dm, n) && n == 2) {
      int k = dm[0] && (!dm[1] || dm[0]->count() <= dm[1]->count()) ? 0 : 1;
      E b = mkSym(id[k]), eq = mkEq(b, mkConst(evalE(b, s.model), 8)); Model m;
      int d = decide(s, eq, &m);
      if (d == -1) { auto *t = new State(s); t->model = std::move(m); addCons(*t, mkNot(eq)); t->depth++; pushState(t); s.depth++; }
      addCons(s, eq); e = foldE(s, e);
    }
    if (e->isConst()) return e;
  }
  E v = mkConst(evalE(e, s.model), e->w);
  E eq = mkEq(e, v);
  Model m;
  int d = decide(s, eq, &m);
  if (d == -1) { auto *t = new State(s); t->model = std::move(m); addCons(*t, mkNot(eq)); t->depth++; pushState(t); addCons(s, eq); s.depth++; }
  return v;
}
static bool mustBeUnique(State &s, E e, E &v) { if (e->isConst()) { v = e; return true; } E f = foldE(s, e); if (f->isConst()) { v = f; return true; } v = mkConst(evalE(e, s.model), e->w); return decide(s, mkEq(e, v), nullptr) == 1; }
// branch on c: returns its value in s, the opposite goes to a sibling that re-executes the instruction
static bool forkOn(State &s, E c) {
  Model m; int d = decide(s, c, &m);
  if (d >= 0) return d;
  bool v = evalB(s, c);
  auto *t = new State(s); t->model = std::move(m); addCons(*t, v ? mkNot(c) : c); t->depth++; pushState(t);
  addCons(s, v ? c : mkNot(c)); s.depth++;
  return v;
}
// ------------------------------------------------------------------ memory access
static E newUndef(State &s) { unsigned id = undefSym(s.nundef++); return mkSym(id); }
static Object *newObj(State &s, u64 size, Kind k, const char *name) {
  auto *o = new Object; o->base = (s.nextSlot++) << 32; o->size = size; o->kind = k; o->name = name; o->b.assign(size, nullptr);
  s.mem[o->base] = ORef(o); return o;
}
static Object *findObj(State &s, u64 a) {
  u64 base = a & ~0xffffffffull;
  auto it = s.mem.find(base); if (it != s.mem.end()) return it->second.p;
  auto ic = g_const.find(base); if (ic != g_const.end()) return ic->second.p;
  return nullptr;
}
static Object *writable(State &s, Object *o) {
  auto &r = s.mem[o->base];
  if (r.p->refs > 1) { auto *n = new Object(*r.p); n->refs = 0; r = ORef(n); }
  return r.p;
}
static E byteAt(State &s, Object *&o, u64 i) {
  E x = o->b[i];
  if (x) return x;
  if (g_const.count(o->base)) return mkConst(0, 8);
  o = writable(s, o);
  x = newUndef(s); o->b[i] = x; return x;
}
struct Loc { Object *o; E off; }; // off: constant or symbolic, in bounds
static std::string objDesc(Object *o) { return std::string(o->kind == K_GLOBAL ? "global " : o->kind == K_STACK ? "stack " : "heap ") + o->name + "[" + std::to_string(o->size) + "]"; }
static Loc resolve(State &s, E addr, u64 n, bool wr) {
  const char *acc = wr ? "write" : "read";
  g_st.bounds++;
  addr = foldE(s, addr);
  if (!addr->isConst()) { E v; if (addr->op == O_ITE && mustBeUnique(s, addr, v)) addr = v; }
  if (addr->isConst()) {
    u64 a = addr->u64(); Object *o = findObj(s, a);
    if (!o) { bool uaf = s.freed.count(a & ~0xffffffffull); violationEnd(s, "memory", uaf ? std::string("use after free: ") + acc : std::string("out-of-bounds ") + acc + " at invalid address"); }
    u64 off = a - o->base;
    if (n && (off > o->size || n > o->size - off)) violationEnd(s, "memory", std::string("out-of-bounds ") + acc + " of " + objDesc(o));
    if (o->ssize && n) {
      E inb = mkUle(mkConst(off + n, 64), o->ssize); Model m; int d = decide(s, inb, &m);
      if (d == 0) violationEnd(s, "memory", std::string("out-of-bounds ") + acc + " of " + objDesc(o));
      if (d == -1) { if (!evalB(s, inb)) m = s.model; Model keep = s.model; bool bad = !evalB(s, inb); if (!bad) s.model = m; addViolation(s, "memory", std::string("out-of-bounds ") + acc + " of " + objDesc(o)); s.model = bad ? m : keep; throw PathEnd(); }
    }
    return {o, mkConst(off, 64)};
  }
  u64 k = 0; bool prov = false;
  if (addr->op == O_ADD && addr->b->isConst() && addr->b->u64() >= (1ull << 32) - (1ull << 31) && addr->b->u64() < (1ull << 60)) { k = (addr->b->u64() + (1ull << 31)) >> 32 << 32; prov = true; }
  Object *o = prov ? findObj(s, k) : nullptr;
  if (!o) { prov = false; o = findObj(s, (u64)evalE(addr, s.model)); }
  if (!o) violationEnd(s, "memory", std::string("out-of-bounds ") + acc + " at invalid address");
  E off = mkSub(addr, mkConst(o->base, 64));
  E inb = o->size < n ? mkConst(0, 1) : mkUle(off, mkConst(o->size - n, 64));
  if (o->ssize) inb = mkAnd(inb, mkUle(mkAdd(off, mkConst(n, 64)), o->ssize));
  Model m; int d = decide(s, inb, &m);
  if (d == 0) violationEnd(s, "memory", std::string("out-of-bounds ") + acc + " of " + objDesc(o));
  if (d == -1) {
    bool v = evalB(s, inb);
    if (prov) { if (v) s.model = m; violationEnd(s, "memory", std::string("out-of-bounds ") + acc + " of " + objDesc(o)); }
    // several objects possible: this state keeps the one of its model
    if (!v) violationEnd(s, "memory", std::string("out-of-bounds ") + acc + " of " + objDesc(o));
    auto *t = new State(s); t->model = m; addCons(*t, mkNot(inb)); pushState(t); addCons(s, inb);
  }
  E u;
  if (off->umax - off->umin > 4096 && mustBeUnique(s, off, u)) off = u;
  return {o, off};
}
static void offRange(State &s, Loc &l, u64 n, u64 &lo, u64 &hi) {
  lo = l.off->umin; hi = std::min<u64>(l.off->umax, l.o->size - n);
  if (hi - lo > 64) { // narrow by bisection with the solver
    auto can = [&](E c) { Model m; return decide(s, c, &m) != 0; };
    u64 a = lo, b = hi;
    for (int i = 0; i < 12 && a < b; i++) { u64 mid = a + (b - a + 1) / 2; if (can(mkUle(mkConst(mid, 64), l.off))) a = mid; else b = mid - 1; }
    hi = b; b = hi; a = lo;
    for (int i = 0; i < 12 && a < b; i++) { u64 mid = a + (b - a) / 2; if (can(mkUle(l.off, mkConst(mid, 64)))) b = mid; else a = mid + 1; }
    lo = a;
  }
}
static E selTree(State &s, Object *&o, E off, u64 lo, u64 hi, u64 add) {
  if (lo == hi) return byteAt(s, o, lo + add);
  u64 mid = lo + (hi - lo) / 2;
  E a = selTree(s, o, off, lo, mid, add), b = selTree(s, o, off, mid + 1, hi, add);
  if (a == b) return a;
  return mkIte(mkUle(off, mkConst(mid, 64)), a, b);
}
static E selIte(State &s, Object *&o, E off, u64 add, u64 n) {
  if (off->isConst()) return off->u64() + n <= o->size ? byteAt(s, o, off->u64() + add) : mkConst(0, 8); // leaves out of bounds have been shown not to be taken
  E a = selIte(s, o, off->b, add, n), b = selIte(s, o, off->c, add, n); return a == b ? a : mkIte(off->a, a, b);
}
static void readBytes(State &s, Loc l, u64 n, E *out) {
  if (l.off->isConst()) { u64 f = l.off->u64(); for (u64 i = 0; i < n; i++) out[i] = byteAt(s, l.o, f + i); return; }
  if (constIte(l.off)) { for (u64 i = 0; i < n; i++) out[i] = selIte(s, l.o, l.off, i, n); return; }
  u64 lo, hi; offRange(s, l, n, lo, hi);
  for (u64 i = 0; i < n; i++) out[i] = selTree(s, l.o, l.off, lo, hi, i);
}
static void writeBytes(State &s, Loc l, u64 n, E *in) {
  if (g_const.count(l.o->base)) violationEnd(s, "memory", "write to constant " + objDesc(l.o));
  l.o = writable(s, l.o);
  if (l.off->isConst()) { u64 f = l.off->u64(); for (u64 i = 0; i < n; i++) l.o->b[f + i] = in[i]; return; }
  u64 lo, hi; offRange(s, l, n, lo, hi);
  for (u64 p = lo; p < hi + n; p++) {
    E v = byteAt(s, l.o, p);
    for (u64 i = 0; i < n; i++) if (p >= i && p - i >= lo && p - i <= hi) v = mkIte(mkEq(l.off, mkConst(p - i, 64)), in[i], v);
    l.o->b[p] = v;
  }
}
// values stored as bytes whose bytes were simplified one by one: a load of the same bytes gives the value back
static std::unordered_map<u64, E> g_whole;
static u64 wholeKey(E *b, unsigned n) { u64 h = n; for (unsigned i = 0; i < n; i++) h = (h ^ (u64)b[i]) * 0x9e3779b97f4a7c15ull, h ^= h >> 29; return h; }
static E loadInt(State &s, E addr, unsigned bits) {
  unsigned n = (bits + 7) / 8; Loc l = resolve(s, addr, n, false);
  E b[32]; readBytes(s, l, n, b);
  if (n >= 4 && n <= 8 && bits == 8 * n && !g_whole.empty()) {
    auto it = g_whole.find(wholeKey(b, n));
    if (it != g_whole.end() && it->second->w == bits) { bool eq = true; for (unsigned i = 0; i < n && eq; i++) eq = mkExtract(it->second, 8 * i, 8) == b[i]; if (eq) return it->second; }
  }
  E r = b[n - 1]; for (int i = (int)n - 2; i >= 0; i--) r = mkConcat(r, b[i]);
  return bits < 8 * n ? mkExtract(r, 0, bits) : r;
}
static void storeInt(State &s, E addr, E v) {
  unsigned n = (v->w + 7) / 8; Loc l = resolve(s, addr, n, true);
  if (v->w < 8 * n) v = mkZExt(v, 8 * n);
  E b[32]; for (unsigned i = 0; i < n; i++) b[i] = mkExtract(v, 8 * i, 8);
  if (n >= 4 && n <= 8 && (v->op == O_ADD || v->op == O_MUL || v->op == O_OR)) g_whole[wholeKey(b, n)] = v;
  writeBytes(s, l, n, b);
}
static Val loadTy(State &s, E addr, Type *t);
static unsigned bitsOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static Val loadTy(State &s, E addr, Type *t) {
  if (unsigned w = bitsOf(t)) return V(loadInt(s, addr, w));
  std::vector<Val> v;
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadTy(s, mkAdd(addr, mkConst(sl->getElementOffset(i), 64)), st->getElementType(i))); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(loadTy(s, mkAdd(addr, mkConst(i * es, 64)), at->getElementType())); }
  else { std::string n; raw_string_ostream os(n); t->print(os); inconclusive(s, "load of type " + os.str()); }
  Val r; r.g = mkAgg(v); return r;
}
static void storeTy(State &s, E addr, Type *t, const Val &v) {
  if (bitsOf(t)) { storeInt(s, addr, v.e); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, mkAdd(addr, mkConst(sl->getElementOffset(i), 64)), st->getElementType(i), v.g->v[i]); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) storeTy(s, mkAdd(addr, mkConst(i * es, 64)), at->getElementType(), v.g->v[i]); }
  else inconclusive(s, "store of unsupported type");
}
// ------------------------------------------------------------------ constants
static Val constVal(const Constant *c);
static E constInt(const Constant *c) { return constVal(c).e; }
static Val zeroOf(Type *t) {
  if (unsigned w = bitsOf(t)) return V(mkConst(0, w));
  std::vector<Val> v;
  if (auto *st = dyn_cast<StructType>(t)) for (auto *e : st->elements()) v.push_back(zeroOf(e));
  else if (auto *at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType()));
  Val r; r.g = mkAgg(v); return r;
}
static u64 addrOf(const GlobalValue *g) {
  if (auto *a = dyn_cast<GlobalAlias>(g)) return constInt(a->getAliasee())->u64();
  auto it = g_addr.find(g);
  if (it == g_addr.end()) { fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); abort(); }
  return it->second;
}
static E binop(unsigned opc, E a, E b) {
  switch (opc) {
  case Instruction::Add: return mkAdd(a, b); case Instruction::Sub: return mkSub(a, b); case Instruction::Mul: return mkMul(a, b);
  case Instruction::UDiv: return mkUDiv(a, b); case Instruction::SDiv: return mkSDiv(a, b); case Instruction::URem: return mkURem(a, b); case Instruction::SRem: return mkSRem(a, b);
  case Instruction::And: return mkAnd(a, b); case Instruction::Or: return mkOr(a, b); case Instruction::Xor: return mkXor(a, b);
  case Instruction::Shl: return mkShl(a, b); case Instruction::LShr: return mkLShr(a, b); case Instruction::AShr: return mkAShr(a, b);
  case Instruction::FAdd: return mkFAdd(a, b); case Instruction::FSub: return mkFSub(a, b); case Instruction::FMul: return mkFMul(a, b); case Instruction::FDiv: return mkFDiv(a, b);
  }
  return nullptr;
}
static E icmp(unsigned p, E a, E b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNe(a, b);
  case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_ULE: return mkUle(a, b); case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_UGE: return mkUle(b, a);
  case CmpInst::ICMP_SLT: return mkSlt(a, b); case CmpInst::ICMP_SLE: return mkSle(a, b); case CmpInst::ICMP_SGT: return mkSlt(b, a); case CmpInst::ICMP_SGE: return mkSle(b, a);
  }
  abort();
}
static E fcmp(unsigned p, E a, E b) {
  E uno = mkOr(mkFIsNan(a), mkFIsNan(b));
  switch (p) {
  case CmpInst::FCMP_FALSE: return mkBool(0); case CmpInst::FCMP_TRUE: return mkBool(1);
  case CmpInst::FCMP_OEQ: return mkFOeq(a, b); case CmpInst::FCMP_ONE: return mkAnd(mkNot(uno), mkNot(mkFOeq(a, b)));
  case CmpInst::FCMP_OLT: return mkFOlt(a, b); case CmpInst::FCMP_OLE: return mkFOle(a, b); case CmpInst::FCMP_OGT: return mkFOlt(b, a); case CmpInst::FCMP_OGE: return mkFOle(b, a);
  case CmpInst::FCMP_UEQ: return mkOr(uno, mkFOeq(a, b)); case CmpInst::FCMP_UNE: return mkNot(mkFOeq(a, b));
  case CmpInst::FCMP_ULT: return mkOr(uno, mkFOlt(a, b)); case CmpInst::FCMP_ULE: return mkOr(uno, mkFOle(a, b)); case CmpInst::FCMP_UGT: return mkOr(uno, mkFOlt(b, a)); case CmpInst::FCMP_UGE: return mkOr(uno, mkFOle(b, a));
  case CmpInst::FCMP_ORD: return mkNot(uno); case CmpInst::FCMP_UNO: return uno;
  }
  abort();
}
static E castop(unsigned opc, E a, unsigned w) {
  switch (opc) {
  case Instruction::Trunc: return mkExtract(a, 0, w);
  case Instruction::ZExt: return mkZExt(a, w);
  case Instruction::SExt: return mkSExt(a, w);
  case Instruction::PtrToInt: case Instruction::IntToPtr: return w < a->w ? mkExtract(a, 0, w) : mkZExt(a, w);
  case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
  case Instruction::SIToFP: return w == 64 ? mkSI2F(a) : nullptr;
  case Instruction::UIToFP: return w == 64 ? mkUI2F(a) : nullptr;
  case Instruction::FPToSI: return a->w == 64 ? mkF2SI(a, w) : nullptr;
  case Instruction::FPToUI: return a->w == 64 ? mkF2UI(a, w) : nullptr;
  case Instruction::FPExt: if (a->isConst() && a->w == 32 && w == 64) { uint32_t x = (uint32_t)a->val; float f; memcpy(&f, &x, 4); double d = f; u64 y; memcpy(&y, &d, 8); return mkConst(y, 64); } return nullptr;
  case Instruction::FPTrunc: if (a->isConst() && a->w == 64 && w == 32) { u64 x = a->u64(); double d; memcpy(&d, &x, 8); float f = d; uint32_t y; memcpy(&y, &f, 4); return mkConst(y, 32); } return nullptr;
  }
  return nullptr;
}
static Val constVal(const Constant *c) {
  if (auto *x = dyn_cast<ConstantInt>(c)) { auto &ap = x->getValue(); u128 v = ap.getRawData()[0]; if (ap.getNumWords() > 1) v |= (u128)ap.getRawData()[1] << 64; return V(mkConst(v, ap.getBitWidth())); }
  if (auto *x = dyn_cast<ConstantFP>(c)) { auto ap = x->getValueAPF().bitcastToAPInt(); return V(mkConst(ap.getRawData()[0], std::min(64u, ap.getBitWidth()))); }
  if (isa<ConstantPointerNull>(c)) return V(mkConst(0, 64));
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto *g = dyn_cast<GlobalValue>(c)) return V(mkConst(addrOf(g), 64));
  if (auto *a = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (auto &o : a->operands()) v.push_back(constVal(cast<Constant>(o))); Val r; r.g = mkAgg(v); return r; }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < d->getNumElements(); i++) v.push_back(constVal(d->getElementAsConstant(i))); Val r; r.g = mkAgg(v); return r; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      E base = constInt(ce->getOperand(0)); APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
      return V(mkAdd(base, mkConst((u128)(i128)off.getSExtValue(), 64)));
    }
    if (ce->isCast()) return V(castop(ce->getOpcode(), constInt(ce->getOperand(0)), bitsOf(ce->getType())));
    if (ce->getOpcode() == Instruction::ICmp) return V(icmp(ce->getPredicate(), constInt(ce->getOperand(0)), constInt(ce->getOperand(1))));
    if (E r = binop(ce->getOpcode(), constInt(ce->getOperand(0)), constInt(ce->getOperand(1)))) return V(r);
  }
  std::string n; raw_string_ostream os(n); c->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); abort();
}
static void initBytes(Object *o, u64 off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { u64 n = DL->getTypeAllocSize(t); for (u64 i = 0; i < n; i++) o->b[off + i] = mkConst(0, 8); return; }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); for (u64 i = 0; i < r.size(); i++) o->b[off + i] = mkConst((uint8_t)r[i], 8); return; }
  if (auto *a = dyn_cast<ConstantAggregate>(c)) {
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < a->getNumOperands(); i++) initBytes(o, off + sl->getElementOffset(i), a->getOperand(i)); }
    else { u64 es = DL->getTypeAllocSize(t->getContainedType(0)); for (unsigned i = 0; i < a->getNumOperands(); i++) initBytes(o, off + i * es, a->getOperand(i)); }
    return;
  }
  if (t->isX86_FP80Ty()) { for (u64 i = 0; i < 10; i++) o->b[off + i] = mkConst(0, 8); return; }
  E e = constInt(c); unsigned n = (e->w + 7) / 8; if (e->w < 8 * n) e = mkZExt(e, 8 * n);
  for (unsigned i = 0; i < n; i++) o->b[off + i] = mkExtract(e, 8 * i, 8);
}
// ------------------------------------------------------------------ builtins
typedef std::vector<Val> Args;
enum BRes { B_NEXT, B_CONTROL }; // B_CONTROL: the handler moved the program counter itself
struct Builtin { const char *name; BRes (*fn)(State &, KInst &, Args &); };
static void setDest(State &s, KInst &k, Val v) { if (k.dest >= 0) s.fr.back().regs[k.dest] = v; }
static void advance(State &s, KInst &k); // past a call or invoke
static void enterBB(State &s, int bb);
static bool unwindTo(State &s, u64 obj, u64 ti); // returns after moving control; ends path when uncaught
static std::string cstr(State &s, E p) { std::string r; u64 a = p->u64(); for (int i = 0; i < 400; i++) { E c = loadInt(s, mkConst(a + i, 64), 8); if (!c->isConst() || !c->val) break; r += (char)c->val; } return r; }
static E symBytes(State &s, unsigned n, const char *name) {
  E r = nullptr; s.inputs.push_back({name, n});
  for (unsigned i = 0; i < n; i++) { E b = mkSym(inSym(s.nin++)); r = r ? mkConcat(b, r) : b; }
  return r;
}
static Object *allocSym(State &s, E n, Kind k, const char *nm) {
  if (n->isConst()) { return newObj(s, n->u64(), k, nm); }
  E v; if (mustBeUnique(s, n, v)) return newObj(s, v->u64(), k, nm);
  // symbolic size below the cap: capacity of the largest possible value
  u64 a = n->umin, b = std::min<u64>(n->umax, g_cap);
  while (a < b) { u64 mid = a + (b - a + 1) / 2; Model m; if (decide(s, mkUle(mkConst(mid, 64), n), &m) != 0) a = mid; else b = mid - 1; }
  Object *o = newObj(s, a, k, nm); o->ssize = n; return o;
}
static void copyBytes(State &s, E d, E sp, E n, bool overlapOk) {
  E u;
  if (!n->isConst() && mustBeUnique(s, n, u)) n = u;
  if (n->isConst()) {
    u64 k = n->u64(); if (!k) return;
    if (k > (1ull << 31)) violationEnd(s, "memory", "huge memory copy");
    Loc a = resolve(s, sp, k, false); std::vector<E> t(k); 
    Loc b = resolve(s, d, k, true);
    if (!overlapOk && a.o == b.o) {
      E dif = mkNot(mkOr(mkEq(a.off, b.off), mkOr(mkUle(mkAdd(a.off, n), b.off), mkUle(mkAdd(b.off, n), a.off))));
      Model m; int dd = decide(s, dif, &m);
      if (dd == 1 || dd == -1) { if (dd == -1 && !evalB(s, dif)) s.model = m; violationEnd(s, "memory", "overlapping memcpy"); }
    }
    readBytes(s, a, k, t.data()); b = resolve(s, d, k, true); writeBytes(s, b, k, t.data()); return;
  }
  // symbolic length: few values fork, otherwise byte-wise guarded copy
  u64 lo = n->umin, hi = n->umax;
  { u64 a = lo, b = std::min<u64>(hi, 1ull << 20); Model m; if (hi > b && decide(s, mkUlt(mkConst(b, 64), n), &m) != 0) { Model keep; if (!evalE(mkUlt(mkConst(b, 64), n), s.model)) s.model = m; violationEnd(s, "memory", "huge memory copy"); }
    while (a < b) { u64 mid = a + (b - a + 1) / 2; if (decide(s, mkUle(mkConst(mid, 64), n), &m) != 0) a = mid; else b = mid - 1; } hi = a;
    a = lo; b = hi; while (a < b) { u64 mid = a + (b - a) / 2; if (decide(s, mkUle(n, mkConst(mid, 64)), &m) != 0) b = mid; else a = mid + 1; } lo = a; }
  if (hi - lo < g_forkLimit) { E v = concretize(s, n, "memcpy length"); copyBytes(s, d, sp, v, overlapOk); return; }
  if (hi > g_iteLimit) inconclusive(s, "symbolic copy too long");
  // bounds for the largest value of n, i.e. for every value
  E dc = concretize(s, d, "memcpy dst"), sc = concretize(s, sp, "memcpy src");
  auto bound = [&](E p, bool wr) {
    Object *o = findObj(s, p->u64()); if (!o) violationEnd(s, "memory", "copy through invalid pointer");
    u64 off = p->u64() - o->base; E lim = o->ssize ? o->ssize : mkConst(o->size, 64);
    E inb = mkUle(mkAdd(n, mkConst(off, 64)), lim); Model m; int q = decide(s, inb, &m);
    if (q != 1) { if (q == -1 && evalB(s, inb)) s.model = m; violationEnd(s, "memory", std::string("out-of-bounds ") + (wr ? "write" : "read") + " of " + objDesc(o)); }
    return Loc{o, mkConst(off, 64)};
  };
  Loc a = bound(sc, false); Loc b = bound(dc, true); std::vector<E> t(hi);
  for (u64 i = 0; i < hi && a.off->u64() + i < a.o->size; i++) t[i] = byteAt(s, a.o, a.off->u64() + i);
  b.o = findObj(s, dc->u64()); Object *w = writable(s, b.o);
  for (u64 i = 0; i < hi; i++) { u64 p = b.off->u64() + i; if (p >= w->size || !t[i]) break; E old = i < lo ? t[i] : byteAt(s, w, p); w->b[p] = mkIte(mkUlt(mkConst(i, 64), n), t[i], old); }
}
static void setBytes(State &s, E d, E c, E n) {
  E u; if (!n->isConst() && mustBeUnique(s, n, u)) n = u;
  c = mkExtract(c, 0, 8);
  if (n->isConst()) { u64 k = n->u64(); if (!k) return; if (k > (1ull << 31)) violationEnd(s, "memory", "huge memset"); Loc b = resolve(s, d, k, true); std::vector<E> t(k, c); writeBytes(s, b, k, t.data()); return; }
  u64 lo = n->umin, hi = n->umax; Model m;
  { u64 a = lo, b = std::min<u64>(hi, 1ull << 20); if (hi > b && decide(s, mkUlt(mkConst(b, 64), n), &m) != 0) { if (!evalE(mkUlt(mkConst(b, 64), n), s.model)) s.model = m; violationEnd(s, "memory", "huge memset"); }
    while (a < b) { u64 mid = a + (b - a + 1) / 2; if (decide(s, mkUle(mkConst(mid, 64), n), &m) != 0) a = mid; else b = mid - 1; } hi = a;
    a = lo; b = hi; while (a < b) { u64 mid = a + (b - a) / 2; if (decide(s, mkUle(n, mkConst(mid, 64)), &m) != 0) b = mid; else a = mid + 1; } lo = a; }
  if (hi - lo < g_forkLimit) { E v = concretize(s, n, "memset length"); setBytes(s, d, c, v); return; }
  E dc = concretize(s, d, "memset dst"); Object *o = findObj(s, dc->u64()); if (!o) violationEnd(s, "memory", "memset through invalid pointer");
  u64 off = dc->u64() - o->base; E lim = o->ssize ? o->ssize : mkConst(o->size, 64); E inb = mkUle(mkAdd(n, mkConst(off, 64)), lim); int q = decide(s, inb, &m);
  if (q != 1) { if (q == -1 && evalB(s, inb)) s.model = m; violationEnd(s, "memory", "out-of-bounds write of " + objDesc(o)); }
  Object *w = writable(s, o);
  for (u64 i = 0; i < hi && off + i < w->size; i++) { E old = i < lo ? c : byteAt(s, w, off + i); w->b[off + i] = mkIte(mkUlt(mkConst(i, 64), n), c, old); }
}
static E A(Args &a, unsigned i) { return a[i].e; }
static void vcheck(State &s, E c, const std::string &id) {
  g_st.checks++; g_checksById[id]++;
  E b = mkNot(mkEq(c, mkConst(0, c->w)));
  if (b->isConst() && b->val) return;
  if (!b->isConst()) g_st.symchecks++;
  Model m; int d = decide(s, b, &m);
  if (d == 1) return;
  if (d == 0) violationEnd(s, "check", id);
  Model keep = s.model; bool v = evalB(s, b);
  if (v) s.model = m;
  g_st.errors++; addViolation(s, "check", id);
  s.model = v ? keep : m;
  addCons(s, b);
}
static const Function *fnAt(u64 a) { auto it = g_funcAt.find(a); return it == g_funcAt.end() ? nullptr : it->second; }
static BRes bThrowAt(State &s, u64 obj, u64 ti) { unwindTo(s, obj, ti); return B_CONTROL; }
#define BI(n) static BRes n(State &s, KInst &k, Args &a)
#define UNUSED (void)s; (void)k; (void)a
BI(b_nop) { UNUSED; if (k.dest >= 0) setDest(s, k, zeroOf(k.I->getType())); return B_NEXT; }
BI(b_sym_bytes) { UNUSED; u64 p = A(a, 0)->u64(), n = A(a, 1)->u64(); const char *nm = intern(cstr(s, A(a, 2))); s.inputs.push_back({nm, (unsigned)n}); Loc l = resolve(s, mkConst(p, 64), n, true); std::vector<E> t(n); for (u64 i = 0; i < n; i++) t[i] = mkSym(inSym(s.nin++)); writeBytes(s, l, n, t.data()); return B_NEXT; }
BI(b_sym_u8) { UNUSED; setDest(s, k, V(symBytes(s, 1, intern(cstr(s, A(a, 0)))))); return B_NEXT; }
BI(b_sym_u16) { UNUSED; setDest(s, k, V(symBytes(s, 2, intern(cstr(s, A(a, 0)))))); return B_NEXT; }
BI(b_sym_u32) { UNUSED; setDest(s, k, V(symBytes(s, 4, intern(cstr(s, A(a, 0)))))); return B_NEXT; }
BI(b_sym_u64) { UNUSED; setDest(s, k, V(symBytes(s, 8, intern(cstr(s, A(a, 0)))))); return B_NEXT; }
BI(b_sym_range) { // uniform in [lo,hi], few bytes
  UNUSED; u64 lo = A(a, 0)->u64(), hi = A(a, 1)->u64(), d = hi - lo; unsigned n = d < 256 ? 1 : d < 65536 ? 2 : d <= 0xffffffff ? 4 : 8;
  E x = symBytes(s, n, intern(cstr(s, A(a, 2)))); E c = mkUle(mkZExt(x, 64), mkConst(d, 64)); unsigned nb = d ? 64 - __builtin_clzll(d) : 1;
  if (!evalB(s, c)) { Model m; if (feasible(s, c, m) != S_SAT) throw PathEnd(); s.model = m; }
  addCons(s, c); setDest(s, k, V(mkAdd(mkZExt(mkRng(mkExtract(x, 0, nb), d), 64), mkConst(lo, 64)))); return B_NEXT; }
BI(b_sym_dyadic) { // double n*2^-j with n in [lo,hi]: 8 input bytes for n
  UNUSED; int64_t lo = (int64_t)A(a, 0)->u64(), hi = (int64_t)A(a, 1)->u64(); int j = (int)A(a, 2)->u64();
  E x = symBytes(s, 8, intern(cstr(s, A(a, 3)))); E c = mkAnd(mkSle(mkConst((u128)(i128)lo, 64), x), mkSle(x, mkConst((u128)(i128)hi, 64)));
  if (!evalB(s, c)) { Model m; if (feasible(s, c, m) != S_SAT) throw PathEnd(); s.model = m; }
  addCons(s, c); setDest(s, k, V(mkDyadic(x, j, lo, hi))); return B_NEXT; }
BI(b_sym_scaled) { UNUSED; setDest(s, k, V(mkDyadic(A(a, 0), (int)A(a, 3)->u64(), (int64_t)A(a, 1)->u64(), (int64_t)A(a, 2)->u64()))); return B_NEXT; }
BI(b_sym_assume) { UNUSED; E c = mkNot(mkEq(A(a, 0), mkConst(0, A(a, 0)->w))); Model m;
  if (!c->isConst() && evalB(s, c)) { addCons(s, c); return B_NEXT; }
  if (c->isConst()) { if (!c->val) { g_st.infeasible++; throw PathEnd(); } return B_NEXT; }
  SolveR r = feasible(s, c, m); if (r == S_UNKNOWN) inconclusive(s, "solver gave no answer (assume)"); if (r == S_UNSAT) { g_st.infeasible++; throw PathEnd(); }
  s.model = m; addCons(s, c); return B_NEXT; }
BI(b_sym_check) { UNUSED; vcheck(s, A(a, 0), cstr(s, A(a, 1))); return B_NEXT; }
BI(b_sym_finding) { // a known defect: recorded once per id with its inputs, the path goes on
  UNUSED; E c = mkNot(mkEq(A(a, 0), mkConst(0, A(a, 0)->w))); std::string id = cstr(s, A(a, 1)); g_st.checks++; g_checksById["finding:" + id]++;
  if (c->isConst() && c->val) return B_NEXT;
  if (g_findIds.count(id)) return B_NEXT;
  Model m; int d = decide(s, c, &m); if (d == 1) return B_NEXT;
  Model keep = s.model; if (d == -1 && evalB(s, c)) s.model = m;
  g_findIds.insert(id); g_find.push_back("{\"id\":" + jstr(id) + ",\"inputs\":\"" + inputHex(s) + "\",\"obs\":" + obsJson(s) + "}");
  s.model = keep; return B_NEXT; }
BI(b_sym_cover) { UNUSED; s.covers.insert(intern(cstr(s, A(a, 0)))); return B_NEXT; }
BI(b_sym_observe) { UNUSED; s.obs.push_back({intern(cstr(s, A(a, 0))), A(a, 1)}); return B_NEXT; }
BI(b_sym_concretize) { UNUSED; E v = concretize(s, A(a, 0), "requested"); setDest(s, k, V(v)); return B_NEXT; }
BI(b_sym_arg) { UNUSED; auto n = cstr(s, A(a, 0)); auto it = g_args.find(n); i128 v = it == g_args.end() ? (i128)sxt(A(a, 1)->val, 64) : it->second; setDest(s, k, V(mkConst((u128)v, 64))); return B_NEXT; }
BI(b_sym_exit) { UNUSED; s.fr.clear(); return B_CONTROL; }
BI(b_sym_fail) { UNUSED; violationEnd(s, "check", cstr(s, A(a, 0))); }
BI(b_sym_is_symbolic) { UNUSED; setDest(s, k, V(mkConst(1, 32))); return B_NEXT; }
BI(b_sym_malloc) { // null above the cap
  UNUSED; E n = A(a, 0); E big = mkUlt(mkConst(g_cap, 64), n);
  if (forkOn(s, big)) { setDest(s, k, V(mkConst(0, 64))); return B_NEXT; }
  Object *o = allocSym(s, n, K_HEAP, "new"); setDest(s, k, V(mkConst(o->base, 64))); return B_NEXT; }
BI(b_malloc) { UNUSED; E n = A(a, 0); E big = mkUlt(mkConst(g_cap, 64), n); if (forkOn(s, big)) { setDest(s, k, V(mkConst(0, 64))); return B_NEXT; } Object *o = allocSym(s, n, K_HEAP, "malloc"); setDest(s, k, V(mkConst(o->base, 64))); return B_NEXT; }
BI(b_calloc) { UNUSED; E n = concretize(s, mkMul(A(a, 0), A(a, 1)), "calloc"); Object *o = newObj(s, n->u64(), K_HEAP, "calloc"); for (auto &b : o->b) b = mkConst(0, 8); setDest(s, k, V(mkConst(o->base, 64))); return B_NEXT; }
BI(b_free) { UNUSED; E p = concretize(s, A(a, 0), "free"); u64 x = p->u64(); if (!x) return B_NEXT; auto it = s.mem.find(x); if (it == s.mem.end() || it->second.p->kind != K_HEAP) violationEnd(s, "memory", s.freed.count(x & ~0xffffffffull) ? "double free" : "invalid free"); s.mem.erase(it); s.freed.insert(x); if (k.dest >= 0) setDest(s, k, zeroOf(k.I->getType())); return B_NEXT; }
BI(b_memcpy) { UNUSED; copyBytes(s, A(a, 0), A(a, 1), A(a, 2), false); setDest(s, k, V(A(a, 0))); return B_NEXT; }
BI(b_memmove) { UNUSED; copyBytes(s, A(a, 0), A(a, 1), A(a, 2), true); setDest(s, k, V(A(a, 0))); return B_NEXT; }
BI(b_memset) { UNUSED; setBytes(s, A(a, 0), A(a, 1), A(a, 2)); setDest(s, k, V(A(a, 0))); return B_NEXT; }
static E cmpBytes(State &s, E p, E q, u64 n, bool eqOnly) {
  if (!n) return mkConst(0, 32);
  std::vector<E> x(n), y(n); Loc l = resolve(s, p, n, false); readBytes(s, l, n, x.data()); l = resolve(s, q, n, false); readBytes(s, l, n, y.data());
  E r = mkConst(0, 32);
  if (eqOnly) { E c = mkBool(true); for (u64 i = 0; i < n; i++) c = mkAnd(c, mkEq(x[i], y[i])); return mkIte(c, mkConst(0, 32), mkConst(1, 32)); }
  for (u64 i = n; i-- > 0;) r = mkIte(mkEq(x[i], y[i]), r, mkIte(mkUlt(x[i], y[i]), mkConst(0xffffffff, 32), mkConst(1, 32)));
  return r;
}
BI(b_memcmp) { UNUSED; E n = concretize(s, A(a, 2), "memcmp length"); bool eq = true; for (auto *u : k.I->users()) { auto *ic = dyn_cast<ICmpInst>(u); if (!ic || !ic->isEquality()) eq = false; } setDest(s, k, V(cmpBytes(s, A(a, 0), A(a, 1), n->u64(), eq))); return B_NEXT; }
BI(b_strlen) { UNUSED; E p = concretize(s, A(a, 0), "strlen"); u64 i = 0; for (;; i++) { E c = loadInt(s, mkAdd(p, mkConst(i, 64)), 8); E z = mkEq(c, mkConst(0, 8)); if (forkOn(s, z)) break; } setDest(s, k, V(mkConst(i, 64))); return B_NEXT; }
BI(b_cxa_alloc) { UNUSED; E n = A(a, 0); Object *o = newObj(s, n->u64() , K_EXC, "exception"); for (auto &b : o->b) b = mkConst(0, 8); setDest(s, k, V(mkConst(o->base, 64))); return B_NEXT; }
BI(b_cxa_free) { UNUSED; return B_NEXT; }
BI(b_cxa_throw) { UNUSED; u64 o = A(a, 0)->u64(); s.exc[o] = A(a, 1)->u64(); return bThrowAt(s, o, A(a, 1)->u64()); }
BI(b_cxa_begin_catch) { UNUSED; s.caught.push_back(A(a, 0)->u64()); setDest(s, k, a[0]); return B_NEXT; }
BI(b_cxa_end_catch) { UNUSED; if (!s.caught.empty()) s.caught.pop_back(); return B_NEXT; }
BI(b_cxa_rethrow) { UNUSED; if (s.caught.empty()) violationEnd(s, "terminate", "rethrow without exception"); u64 o = s.caught.back(); return bThrowAt(s, o, s.exc[o]); }
BI(b_cur_exc) { UNUSED; storeInt(s, A(a, 0), mkConst(s.caught.empty() ? 0 : s.caught.back(), 64)); return B_NEXT; }
BI(b_rethrow_exc) { UNUSED; u64 o = loadInt(s, A(a, 0), 64)->u64(); if (!o) violationEnd(s, "terminate", "rethrow of no exception"); return bThrowAt(s, o, s.exc[o]); }
BI(b_dyn_cast);
BI(b_unwind_resume) { UNUSED; u64 o = A(a, 0)->u64(); return bThrowAt(s, o, s.exc[o]); }
BI(b_get_exc_ptr) { UNUSED; setDest(s, k, a[0]); return B_NEXT; }
BI(b_terminate) { UNUSED; violationEnd(s, "terminate", "std::terminate reached"); }
BI(b_abort) { UNUSED; violationEnd(s, "terminate", "abort reached"); }
BI(b_true) { UNUSED; setDest(s, k, V(mkConst(1, bitsOf(k.I->getType())))); return B_NEXT; }
BI(b_guard_acquire) { UNUSED; E g = loadInt(s, A(a, 0), 8); E z = mkEq(g, mkConst(0, 8)); setDest(s, k, V(mkZExt(z, 32))); return B_NEXT; }
BI(b_guard_release) { UNUSED; storeInt(s, A(a, 0), mkConst(1, 8)); return B_NEXT; }
BI(b_round) { UNUSED; setDest(s, k, V(mkFUn(O_FROUND, A(a, 0)))); return B_NEXT; }
BI(b_floor) { UNUSED; setDest(s, k, V(mkFUn(O_FFLOOR, A(a, 0)))); return B_NEXT; }
BI(b_ceil) { UNUSED; setDest(s, k, V(mkFUn(O_FCEIL, A(a, 0)))); return B_NEXT; }
BI(b_trunc) { UNUSED; setDest(s, k, V(mkFUn(O_FTRUNC, A(a, 0)))); return B_NEXT; }
BI(b_lround) { UNUSED; setDest(s, k, V(mkF2SI(mkFUn(O_FROUND, A(a, 0)), 64))); return B_NEXT; }
BI(b_fabs) { UNUSED; setDest(s, k, V(mkFAbs(A(a, 0)))); return B_NEXT; }
BI(b_sym_print) { UNUSED; fprintf(stderr, "PRINT %s %s\n", cstr(s, A(a, 0)).c_str(), showE(A(a, 1), 12).c_str()); return B_NEXT; }
static Builtin g_builtins[] = {
  {"sym_bytes", b_sym_bytes}, {"sym_u8", b_sym_u8}, {"sym_u16", b_sym_u16}, {"sym_u32", b_sym_u32}, {"sym_u64", b_sym_u64}, {"sym_range", b_sym_range}, {"sym_dyadic", b_sym_dyadic}, {"sym_scaled", b_sym_scaled},
  {"sym_assume", b_sym_assume}, {"sym_check", b_sym_check}, {"sym_finding", b_sym_finding}, {"sym_cover", b_sym_cover}, {"sym_observe", b_sym_observe}, {"sym_concretize", b_sym_concretize}, {"sym_arg", b_sym_arg}, {"sym_exit", b_sym_exit}, {"sym_fail", b_sym_fail}, {"sym_is_symbolic", b_sym_is_symbolic}, {"sym_print", b_sym_print},
  {"__sym_malloc", b_sym_malloc}, {"__sym_free", b_free}, {"malloc", b_malloc}, {"calloc", b_calloc}, {"free", b_free}, {"memcpy", b_memcpy}, {"memmove", b_memmove}, {"memset", b_memset}, {"memcmp", b_memcmp}, {"bcmp", b_memcmp}, {"strlen", b_strlen},
  {"__cxa_allocate_exception", b_cxa_alloc}, {"__cxa_free_exception", b_cxa_free}, {"__cxa_throw", b_cxa_throw}, {"__cxa_begin_catch", b_cxa_begin_catch}, {"__cxa_end_catch", b_cxa_end_catch}, {"__cxa_rethrow", b_cxa_rethrow}, {"_Unwind_Resume", b_unwind_resume}, {"__cxa_get_exception_ptr", b_get_exc_ptr},
  {"_ZSt17current_exceptionv", b_cur_exc}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", b_rethrow_exc}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", b_nop}, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", b_nop}, {"__dynamic_cast", b_dyn_cast},
  {"_ZSt9terminatev", b_terminate}, {"__clang_call_terminate", b_terminate}, {"__cxa_pure_virtual", b_terminate}, {"abort", b_abort}, {"__assert_fail", b_abort}, {"exit", b_sym_exit}, {"_exit", b_sym_exit},
  {"__cxa_guard_acquire", b_guard_acquire}, {"__cxa_guard_release", b_guard_release}, {"__cxa_guard_abort", b_nop}, {"__cxa_atexit", b_nop}, {"_ZNSt8ios_base4InitC1Ev", b_nop}, {"_ZNSt8ios_base4InitD1Ev", b_nop},
  {"round", b_round}, {"floor", b_floor}, {"ceil", b_ceil}, {"trunc", b_trunc}, {"lround", b_lround}, {"llround", b_lround}, {"fabs", b_fabs},
};
static int builtinOf(const std::string &n) { static std::unordered_map<std::string, int> t; if (t.empty()) for (unsigned i = 0; i < sizeof g_builtins / sizeof *g_builtins; i++) t[g_builtins[i].name] = i; auto it = t.find(n); return it == t.end() ? -1 : it->second; }
// ------------------------------------------------------------------ compile
static KFunc *kfunc(Function *F) {
  auto it = g_kf.find(F); if (it != g_kf.end()) return it->second;
  auto *kf = new KFunc; kf->F = F; kf->name = intern(F->getName().str()); g_kf[F] = kf;
  std::unordered_map<const Value *, int> reg; std::unordered_map<const BasicBlock *, int> bbi;
  for (auto &a : F->args()) reg[&a] = kf->nregs++;
  int nb = 0;
  for (auto &b : *F) { bbi[&b] = nb++; for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = kf->nregs++; }
  auto opnd = [&](Value *v) {
    Opnd o{OK_CONST, -1, Val(), bitsOf(v->getType())};
    auto r = reg.find(v);
    if (r != reg.end()) { o.k = OK_REG; o.reg = r->second; }
    else if (isa<UndefValue>(v) && !isa<PoisonValue>(v) && o.w) { o.k = OK_UNDEF; }
    else if (auto *c = dyn_cast<Constant>(v)) { if (v->getType()->isSized() || v->getType()->isPointerTy()) { o.v = constVal(c); } }
    return o;
  };
  for (auto &b : *F) {
    KBB kb;
    for (auto &i : b) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      KInst k; k.I = &i; k.opc = i.getOpcode(); k.ty = i.getType();
      if (!k.ty->isVoidTy()) { k.dest = reg[&i]; k.w = bitsOf(k.ty); }
      switch (k.opc) {
      case Instruction::Br: { auto *x = cast<BranchInst>(&i); if (x->isConditional()) { k.ops.push_back(opnd(x->getCondition())); k.s0 = bbi[x->getSuccessor(0)]; k.s1 = bbi[x->getSuccessor(1)]; } else k.s0 = bbi[x->getSuccessor(0)]; break; }
      case Instruction::Switch: { auto *x = cast<SwitchInst>(&i); k.ops.push_back(opnd(x->getCondition())); k.s0 = bbi[x->getDefaultDest()]; for (auto c : x->cases()) { k.ops.push_back(opnd(c.getCaseValue())); k.cases.push_back(bbi[c.getCaseSuccessor()]); } break; }
      case Instruction::PHI: { auto *x = cast<PHINode>(&i); for (unsigned j = 0; j < x->getNumIncomingValues(); j++) { k.phiIn.push_back({bbi[x->getIncomingBlock(j)], (int)k.ops.size()}); k.ops.push_back(opnd(x->getIncomingValue(j))); } break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto *x = cast<CallBase>(&i); for (auto &a : x->args()) { if (a->getType()->isMetadataTy()) k.ops.push_back(Opnd{OK_CONST, -1, V(mkConst(0, 1)), 1}); else k.ops.push_back(opnd(a)); }
        Value *cv = x->getCalledOperand()->stripPointerCasts(); if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        k.callee = dyn_cast<Function>(cv); if (!k.callee) k.ops.push_back(opnd(x->getCalledOperand())); else k.builtin = builtinOf(k.callee->getName().str());
        if (auto *iv = dyn_cast<InvokeInst>(&i)) { k.s0 = bbi[iv->getNormalDest()]; k.s1 = bbi[iv->getUnwindDest()]; }
        break; }
      case Instruction::GetElementPtr: {
        auto *x = cast<GetElementPtrInst>(&i); k.ops.push_back(opnd(x->getPointerOperand()));
        MapVector<Value *, APInt> var; APInt co(64, 0); 
        if (!x->collectOffset(*DL, 64, var, co)) { fprintf(stderr, "gep\n"); abort(); }
        k.cofs = co.getSExtValue(); for (auto &p : var) { k.idx.push_back({(int)k.ops.size(), p.second.getZExtValue()}); k.ops.push_back(opnd(p.first)); }
        break; }
      case Instruction::Alloca: { auto *x = cast<AllocaInst>(&i); k.sz = DL->getTypeAllocSize(x->getAllocatedType()); k.ops.push_back(opnd(x->getArraySize())); break; }
      case Instruction::ICmp: case Instruction::FCmp: k.pred = cast<CmpInst>(&i)->getPredicate(); k.ops.push_back(opnd(i.getOperand(0))); k.ops.push_back(opnd(i.getOperand(1))); break;
      case Instruction::LandingPad: break;
      default: for (auto &o : i.operands()) if (!isa<BasicBlock>(o)) k.ops.push_back(opnd(o)); break;
      }
      kb.in.push_back(std::move(k));
    }
    kf->bb.push_back(std::move(kb));
  }
  return kf;
}
static Val get(State &s, const Opnd &o) {
  if (o.k == OK_REG) return s.fr.back().regs[o.reg];
  if (o.k == OK_CONST) return o.v;
  unsigned n = (o.w + 7) / 8; E r = nullptr; for (unsigned i = 0; i < n; i++) { E b = newUndef(s); r = r ? mkConcat(b, r) : b; }
  return V(o.w < 8 * n ? mkExtract(r, 0, o.w) : r);
}
static void enterBB(State &s, int bb) {
  auto &f = s.fr.back(); f.prev = f.bb; f.bb = bb; f.ip = 0;
  auto &in = f.f->bb[bb].in; std::vector<std::pair<int, Val>> vals;
  while (f.ip < in.size() && in[f.ip].opc == Instruction::PHI) {
    auto &k = in[f.ip]; int op = -1; for (auto &p : k.phiIn) if (p.first == f.prev) { op = p.second; break; }
    vals.push_back({k.dest, get(s, k.ops[op])}); f.ip++;
  }
  for (auto &v : vals) f.regs[v.first] = v.second;
}
static void advance(State &s, KInst &k) { if (k.opc == Instruction::Invoke) enterBB(s, k.s0); else s.fr.back().ip++; }
static void popFrame(State &s) { for (u64 a : s.fr.back().allocas) { s.mem.erase(a); s.freed.insert(a); } s.fr.pop_back(); }
// ------------------------------------------------------------------ exceptions
static const GlobalVariable *g_tiOf(u64 a) { static std::map<u64, const GlobalVariable *> t; if (t.empty()) for (auto &g : M->globals()) if (g.getName().starts_with("_ZTI")) t[g_addr[&g]] = &g; auto it = t.find(a); return it == t.end() ? nullptr : it->second; }
static const std::map<std::string, std::string> STDBASE = {
  {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
  {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}};
static bool derives(const std::string &n, const std::string &base) {
  if (n == base) return true;
  auto it = STDBASE.find(n); if (it != STDBASE.end()) return derives(it->second, base);
  auto *g = M->getNamedGlobal(n); if (!g || !g->hasInitializer()) return false;
  auto *cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
  for (unsigned i = 2; i < cs->getNumOperands(); i++) { auto *o = cs->getOperand(i)->stripPointerCasts(); if (auto *b = dyn_cast<GlobalVariable>(o)) if (derives(b->getName().str(), base)) return true; }
  return false;
}
BI(b_dyn_cast) { UNUSED; // up and down a single chain of base classes at offset zero
  E p = concretize(s, A(a, 0), "dynamic_cast"); u64 x = p->u64(); if (!x) { setDest(s, k, V(mkConst(0, 64))); return B_NEXT; }
  u64 vp = concretize(s, loadInt(s, p, 64), "vtable")->u64(); u64 ti = concretize(s, loadInt(s, mkConst(vp - 8, 64), 64), "typeinfo")->u64(), top = concretize(s, loadInt(s, mkConst(vp - 16, 64), 64), "offset")->u64();
  auto *t = g_tiOf(ti), *d = g_tiOf(A(a, 2)->u64()); if (!t || !d) inconclusive(s, "dynamic_cast");
  setDest(s, k, V(mkConst(derives(t->getName().str(), d->getName().str()) ? x + top : 0, 64))); return B_NEXT; }
static bool matches(u64 ti, u64 clause) { if (!clause) return true; if (ti == clause) return true; auto *a = g_tiOf(ti), *b = g_tiOf(clause); return a && b && derives(a->getName().str(), b->getName().str()); }
static E typeId(u64 ti) { return mkConst(ti ? (uint32_t)(ti >> 32) : 0x7fffffff, 32); }
static bool unwindTo(State &s, u64 obj, u64 ti) {
  // from the frame of the throwing call upwards
  while (!s.fr.empty()) {
    auto &f = s.fr.back(); auto &k = f.f->bb[f.bb].in[f.ip];
    if (k.opc == Instruction::Invoke) {
      auto *lp = cast<InvokeInst>(k.I)->getLandingPadInst(); u64 sel = 0; bool hit = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isCatch(i)) { u64 cl = constInt(lp->getClause(i))->u64(); if (matches(ti, cl)) { sel = cl ? cl : 1; hit = true; sel = cl; enterBB(s, k.s1); auto &lk = s.fr.back().f->bb[s.fr.back().bb].in[s.fr.back().ip]; Val r; r.g = mkAgg({V(mkConst(obj, 64)), V(typeId(sel))}); setDest(s, lk, r); s.fr.back().ip++; return true; } }
        else { // filter: treat a non-matching filter as terminate
          auto *arr = lp->getClause(i); bool in = false; for (auto &o : arr->operands()) { u64 cl = constInt(cast<Constant>(o))->u64(); if (matches(ti, cl)) in = true; } if (!in) violationEnd(s, "terminate", "exception specification violated"); }
      }
      if (hit) { enterBB(s, k.s1); auto &lk = s.fr.back().f->bb[s.fr.back().bb].in[s.fr.back().ip]; Val r; r.g = mkAgg({V(mkConst(obj, 64)), V(mkConst(0, 32))}); setDest(s, lk, r); s.fr.back().ip++; return true; }
    } else if (k.opc == Instruction::Call && s.fr.size() > 0 && cast<CallInst>(k.I)->doesNotThrow() && f.f->F->doesNotThrow()) {
      // a call marked nounwind inside a nounwind function: an exception here is undefined; fall through to the caller
    }
    if (f.f->F->doesNotThrow() && f.f->F->hasPersonalityFn() == false && false) {}
    if (s.fr.size() == 1) break;
    popFrame(s);
  }
  violationEnd(s, "terminate", "exception leaves main");
}
// ------------------------------------------------------------------ calls
static void callFn(State &s, KInst &k, Function *F, Args &args) {
  if (F->isDeclaration()) inconclusive(s, "call of unmodelled function " + demangle(F->getName().str()));
  if (s.fr.size() > 400) inconclusive(s, "call depth");
  KFunc *kf = kfunc(F); kf->hits++; g_execd.insert(kf);
  Frame f; f.f = kf; f.regs.resize(kf->nregs);
  unsigned i = 0;
  for (auto &a : F->args()) {
    if (i >= args.size()) inconclusive(s, "argument count");
    if (a.hasByValAttr()) { u64 n = DL->getTypeAllocSize(a.getParamByValType()); Object *o = newObj(s, n, K_STACK, "byval"); copyBytes(s, mkConst(o->base, 64), args[i].e, mkConst(n, 64), true); f.allocas.push_back(o->base); f.regs[i] = V(mkConst(o->base, 64)); }
    else f.regs[i] = args[i];
    i++;
  }
  s.fr.push_back(std::move(f));
  (void)k;
}
static E umulh(E a, E b, unsigned w) { return mkExtract(mkMul(mkZExt(a, 2 * w), mkZExt(b, 2 * w)), w, w); }
static bool intrinsic(State &s, KInst &k, Function *F, Args &a) { // true: handled, advance
  auto id = F->getIntrinsicID(); unsigned w = k.w; auto set = [&](E e) { setDest(s, k, V(e)); };
  switch (id) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::vaend: return true;
  case Intrinsic::invariant_start: case Intrinsic::stacksave: set(mkConst(0, 64)); return true;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: setDest(s, k, a[0]); return true;
  case Intrinsic::memcpy: copyBytes(s, A(a, 0), A(a, 1), mkZExt(A(a, 2), 64), false); return true;
  case Intrinsic::memmove: copyBytes(s, A(a, 0), A(a, 1), mkZExt(A(a, 2), 64), true); return true;
  case Intrinsic::memset: setBytes(s, A(a, 0), A(a, 1), mkZExt(A(a, 2), 64)); return true;
  case Intrinsic::umin: set(mkIte(mkUlt(A(a, 0), A(a, 1)), A(a, 0), A(a, 1))); return true;
  case Intrinsic::umax: set(mkIte(mkUlt(A(a, 0), A(a, 1)), A(a, 1), A(a, 0))); return true;
  case Intrinsic::smin: set(mkIte(mkSlt(A(a, 0), A(a, 1)), A(a, 0), A(a, 1))); return true;
  case Intrinsic::smax: set(mkIte(mkSlt(A(a, 0), A(a, 1)), A(a, 1), A(a, 0))); return true;
  case Intrinsic::abs: set(mkIte(mkSlt(A(a, 0), mkConst(0, w)), mkSub(mkConst(0, w), A(a, 0)), A(a, 0))); return true;
  case Intrinsic::bswap: { E r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(A(a, 0), 8 * i, 8); r = r ? mkConcat(r, b) : b; } set(r); return true; }
  case Intrinsic::ctpop: { E r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(A(a, 0), i, 1), w)); set(r); return true; }
  case Intrinsic::ctlz: { // x >= 2^i decides whether bit i or a higher one is set
    E x = A(a, 0), r = mkConst(w, w), y = x; bool odd = x->op == O_OR && x->b->isConst() && x->b->val == 1; if (odd) y = x->a;
    for (unsigned i = 0; i < w; i++) r = mkIte(odd && !i ? mkConst(1, 1) : mkUle(mkConst((u128)1 << i, w), y), mkConst(w - 1 - i, w), r);
    set(r); return true; }
  case Intrinsic::cttz: { E r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkEq(mkExtract(A(a, 0), i, 1), mkConst(1, 1)), mkConst(i, w), r); set(r); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: { if (!A(a, 2)->isConst()) { E c = mkConcat(A(a, 0), A(a, 1)), q = mkZExt(mkAnd(A(a, 2), mkConst(w - 1, w)), 2 * w); set(id == Intrinsic::fshl ? mkExtract(mkShl(c, q), w, w) : mkExtract(mkLShr(c, q), 0, w)); return true; } unsigned n = (unsigned)(A(a, 2)->val % w); E c = mkConcat(A(a, 0), A(a, 1)); set(id == Intrinsic::fshl ? mkExtract(c, w - n, w) : mkExtract(c, n, w)); return true; }
  case Intrinsic::uadd_with_overflow: { E r = mkAdd(A(a, 0), A(a, 1)); Val v; v.g = mkAgg({V(r), V(mkUlt(r, A(a, 0)))}); setDest(s, k, v); return true; }
  case Intrinsic::usub_with_overflow: { Val v; v.g = mkAgg({V(mkSub(A(a, 0), A(a, 1))), V(mkUlt(A(a, 0), A(a, 1)))}); setDest(s, k, v); return true; }
  case Intrinsic::umul_with_overflow: { unsigned n = A(a, 0)->w; E h = n <= 64 ? umulh(A(a, 0), A(a, 1), n) : nullptr; Val v; v.g = mkAgg({V(mkMul(A(a, 0), A(a, 1))), V(mkNot(mkEq(h, mkConst(0, n))))}); setDest(s, k, v); return true; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned n = A(a, 0)->w, d = id == Intrinsic::smul_with_overflow ? 2 * n : n + 1; E x = mkSExt(A(a, 0), d), y = mkSExt(A(a, 1), d);
    E r = id == Intrinsic::sadd_with_overflow ? mkAdd(x, y) : id == Intrinsic::ssub_with_overflow ? mkSub(x, y) : mkMul(x, y); E t = mkExtract(r, 0, n);
    Val v; v.g = mkAgg({V(t), V(mkNot(mkEq(mkSExt(t, d), r)))}); setDest(s, k, v); return true; }
  case Intrinsic::uadd_sat: { E r = mkAdd(A(a, 0), A(a, 1)); set(mkIte(mkUlt(r, A(a, 0)), mkConst(maskw(w), w), r)); return true; }
  case Intrinsic::usub_sat: set(mkIte(mkUlt(A(a, 0), A(a, 1)), mkConst(0, w), mkSub(A(a, 0), A(a, 1)))); return true;
  case Intrinsic::is_constant: set(mkConst(0, 1)); return true;
  case Intrinsic::objectsize: set(mkConst(maskw(w), w)); return true;
  case Intrinsic::eh_typeid_for: set(typeId(A(a, 0)->u64())); return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: violationEnd(s, "terminate", "trap");
  case Intrinsic::fabs: set(w == 64 ? mkFAbs(A(a, 0)) : A(a, 0)); return true;
  case Intrinsic::round: set(mkFUn(O_FROUND, A(a, 0))); return true;
  case Intrinsic::floor: set(mkFUn(O_FFLOOR, A(a, 0))); return true;
  case Intrinsic::ceil: set(mkFUn(O_FCEIL, A(a, 0))); return true;
  case Intrinsic::trunc: set(mkFUn(O_FTRUNC, A(a, 0))); return true;
  case Intrinsic::lround: case Intrinsic::llround: set(mkF2SI(mkFUn(O_FROUND, A(a, 0)), 64)); return true;
  case Intrinsic::fmuladd: set(mkFAdd(mkFMul(A(a, 0), A(a, 1)), A(a, 2))); return true;
  case Intrinsic::is_fpclass: { // nan, inf, finite tests on bits
    E x = A(a, 0); if (x->w != 64) inconclusive(s, "fpclass float"); unsigned m = (unsigned)A(a, 1)->val; E mag = mkExtract(x, 0, 63), neg = mkExtract(x, 63, 1); E inf = mkConst(0x7ff0000000000000ull, 63); E r = mkBool(false);
    auto add = [&](E c) { r = mkOr(r, c); }; E q = mkEq(mkExtract(x, 51, 1), mkConst(1, 1)), isn = mkFIsNan(x);
    if (m & 1) add(mkAnd(isn, mkNot(q))); if (m & 2) add(mkAnd(isn, q)); E isinf = mkEq(mag, inf); E z = mkEq(mag, mkConst(0, 63)); E sub = mkAnd(mkNot(z), mkUlt(mag, mkConst(0x0010000000000000ull, 63))); E nor = mkAnd(mkNot(sub), mkAnd(mkNot(z), mkUlt(mag, inf)));
    E N = mkEq(neg, mkConst(1, 1)), P = mkNot(N); if (m & 4) add(mkAnd(isinf, N)); if (m & 8) add(mkAnd(nor, N)); if (m & 16) add(mkAnd(sub, N)); if (m & 32) add(mkAnd(z, N)); if (m & 64) add(mkAnd(z, P)); if (m & 128) add(mkAnd(sub, P)); if (m & 256) add(mkAnd(nor, P)); if (m & 512) add(mkAnd(isinf, P));
    set(r); return true; }
  case Intrinsic::load_relative: { E o = loadInt(s, mkAdd(A(a, 0), mkSExt(A(a, 1), 64)), 32); set(mkAdd(A(a, 0), mkSExt(o, 64))); return true; }
  case Intrinsic::bitreverse: { E r = nullptr; for (unsigned i = 0; i < w; i++) { E b = mkExtract(A(a, 0), i, 1); r = r ? mkConcat(r, b) : b; } set(r); return true; }
  case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: { E x = mkSExt(A(a, 0), w + 1), y = mkSExt(A(a, 1), w + 1), r = id == Intrinsic::sadd_sat ? mkAdd(x, y) : mkSub(x, y), t = mkExtract(r, 0, w); set(mkIte(mkEq(mkSExt(t, w + 1), r), t, mkIte(mkSlt(A(a, 0), mkConst(0, w)), mkConst((u128)1 << (w - 1), w), mkConst(maskw(w - 1), w)))); return true; }
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: if (A(a, 0)->isConst() && w == 64) { double d; u64 q = A(a, 0)->u64(); memcpy(&d, &q, 8); d = nearbyint(d); memcpy(&q, &d, 8); set(mkConst(q, 64)); return true; } inconclusive(s, "rint");
  default: inconclusive(s, "intrinsic " + F->getName().str());
  }
  return false;
}
static void doCall(State &s, KInst &k) {
  Args a; unsigned n = k.ops.size() - (k.callee ? 0 : 1);
  for (unsigned i = 0; i < n; i++) a.push_back(get(s, k.ops[i]));
  Function *F = k.callee; int bi = k.builtin;
  if (!F) {
    if (cast<CallBase>(k.I)->isInlineAsm()) { if (k.dest >= 0) setDest(s, k, zeroOf(k.I->getType())); advance(s, k); return; }
    E p = concretize(s, get(s, k.ops[n]).e, "call target"); F = const_cast<Function *>(fnAt(p->u64()));
    if (!F) violationEnd(s, "memory", "call through invalid pointer");
    bi = builtinOf(F->getName().str());
  }
  if (bi >= 0) { if (g_builtins[bi].fn(s, k, a) == B_NEXT) advance(s, k); return; }
  if (F->isIntrinsic()) { if (intrinsic(s, k, F, a)) advance(s, k); return; }
  callFn(s, k, F, a);
}
// ------------------------------------------------------------------ one instruction
static void step(State &s) {
  auto &f = s.fr.back(); KInst &k = f.f->bb[f.bb].in[f.ip];
  g_st.instr++; s.steps++;
  switch (k.opc) {
  case Instruction::Br: {
    if (k.s1 < 0) { enterBB(s, k.s0); return; }
    g_st.branches++;
    E c = get(s, k.ops[0]).e;
    bool v = c->isConst() ? c->val != 0 : forkOn(s, c);
    enterBB(s, v ? k.s0 : k.s1); return; }
  case Instruction::Switch: {
    g_st.branches++;
    E c = get(s, k.ops[0]).e;
    if (c->isConst()) { int t = k.s0; for (size_t i = 0; i < k.cases.size(); i++) if (k.ops[i + 1].v.e == c) { t = k.cases[i]; break; } enterBB(s, t); return; }
    u128 v = evalE(c, s.model); int t = k.s0; for (size_t i = 0; i < k.cases.size(); i++) if (k.ops[i + 1].v.e->val == v) { t = k.cases[i]; break; }
    E cond = mkBool(t == k.s0); // all values that go to t
    if (t == k.s0) { for (size_t i = 0; i < k.cases.size(); i++) if (k.cases[i] != t) cond = mkAnd(cond, mkNot(mkEq(c, k.ops[i + 1].v.e))); }
    else for (size_t i = 0; i < k.cases.size(); i++) if (k.cases[i] == t) cond = mkOr(cond, mkEq(c, k.ops[i + 1].v.e));
    Model m; int d = decide(s, cond, &m);
    if (d == -1) { auto *o = new State(s); o->model = std::move(m); addCons(*o, mkNot(cond)); o->depth++; pushState(o); addCons(s, cond); s.depth++; }
    enterBB(s, t); return; }
  case Instruction::Ret: {
    Val r; bool has = !k.ops.empty(); if (has) r = get(s, k.ops[0]);
    popFrame(s);
    if (s.fr.empty()) return;
    auto &cf = s.fr.back(); KInst &ck = cf.f->bb[cf.bb].in[cf.ip];
    if (has && ck.dest >= 0) cf.regs[ck.dest] = r;
    advance(s, ck); return; }
  case Instruction::Call: case Instruction::Invoke: doCall(s, k); return;
  case Instruction::Unreachable: violationEnd(s, "terminate", "unreachable code reached");
  case Instruction::Resume: { Val v = get(s, k.ops[0]); u64 o = v.g->v[0].e->u64(); auto ti = s.exc[o]; if (s.fr.size() == 1) violationEnd(s, "terminate", "exception leaves main"); popFrame(s); unwindTo(s, o, ti); return; }
  case Instruction::Alloca: { E n = get(s, k.ops[0]).e; n = concretize(s, n, "alloca"); Object *o = newObj(s, k.sz * n->u64(), K_STACK, intern(k.I->getName().str())); s.fr.back().allocas.push_back(o->base); setDest(s, k, V(mkConst(o->base, 64))); break; }
  case Instruction::Load: { Val v = loadTy(s, get(s, k.ops[0]).e, k.ty); setDest(s, k, v); break; }
  case Instruction::Store: { Val v = get(s, k.ops[0]); storeTy(s, get(s, k.ops[1]).e, k.I->getOperand(0)->getType(), v); break; }
  case Instruction::GetElementPtr: { E p = get(s, k.ops[0]).e; E off = mkConst((u128)k.cofs, 64); for (auto &x : k.idx) { E i = get(s, k.ops[x.first]).e; i = i->w < 64 ? mkSExt(i, 64) : mkExtract(i, 0, 64); off = mkAdd(off, mkMul(i, mkConst(x.second, 64))); } setDest(s, k, V(mkAdd(p, off))); break; }
  case Instruction::ICmp: setDest(s, k, V(icmp(k.pred, get(s, k.ops[0]).e, get(s, k.ops[1]).e))); break;
  case Instruction::FCmp: { E a = get(s, k.ops[0]).e, b = get(s, k.ops[1]).e; if (a->w != 64) inconclusive(s, "float compare"); setDest(s, k, V(fcmp(k.pred, a, b))); break; }
  case Instruction::Select: { E c = get(s, k.ops[0]).e; Val a = get(s, k.ops[1]), b = get(s, k.ops[2]); if (a.g) { bool v = forkOn(s, c); setDest(s, k, v ? a : b); } else setDest(s, k, V(mkIte(c, a.e, b.e))); break; }
  case Instruction::ExtractValue: { Val v = get(s, k.ops[0]); for (auto i : cast<ExtractValueInst>(k.I)->indices()) v = v.g->v[i]; setDest(s, k, v); break; }
  case Instruction::InsertValue: {
    Val v = get(s, k.ops[0]), x = get(s, k.ops[1]); auto idx = cast<InsertValueInst>(k.I)->getIndices();
    std::function<Val(const Val &, unsigned)> ins = [&](const Val &b, unsigned d) -> Val { std::vector<Val> t = b.g->v; t[idx[d]] = d + 1 == idx.size() ? x : ins(t[idx[d]], d + 1); Val r; r.g = mkAgg(t); return r; };
    setDest(s, k, ins(v, 0)); break; }
  case Instruction::Freeze: setDest(s, k, get(s, k.ops[0])); break;
  case Instruction::FNeg: setDest(s, k, V(mkFNeg(get(s, k.ops[0]).e))); break;
  case Instruction::Fence: break;
  case Instruction::AtomicRMW: { auto *x = cast<AtomicRMWInst>(k.I); E p = get(s, k.ops[0]).e, v = get(s, k.ops[1]).e, o = loadInt(s, p, v->w), r; switch (x->getOperation()) { case AtomicRMWInst::Add: r = mkAdd(o, v); break; case AtomicRMWInst::Sub: r = mkSub(o, v); break; case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Or: r = mkOr(o, v); break; case AtomicRMWInst::And: r = mkAnd(o, v); break; default: inconclusive(s, "atomicrmw"); r = v; } storeInt(s, p, r); setDest(s, k, V(o)); break; }
  case Instruction::AtomicCmpXchg: { E p = get(s, k.ops[0]).e, c = get(s, k.ops[1]).e, v = get(s, k.ops[2]).e, o = loadInt(s, p, v->w), ok = mkEq(o, c); storeInt(s, p, mkIte(ok, v, o)); Val r; r.g = mkAgg({V(o), V(ok)}); setDest(s, k, r); break; }
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    E a = get(s, k.ops[0]).e, b = get(s, k.ops[1]).e; E z = mkEq(b, mkConst(0, b->w)); Model m; int d = decide(s, z, &m);
    if (d != 0) { if (d == -1 && !evalB(s, z)) s.model = m; violationEnd(s, "memory", "division by zero"); }
    setDest(s, k, V(binop(k.opc, a, b))); break; }
  default:
    if (k.I->isBinaryOp()) { E a = get(s, k.ops[0]).e, b = get(s, k.ops[1]).e; if (k.ty->isFloatTy() || k.ty->isX86_FP80Ty()) inconclusive(s, "float arithmetic"); E r = (a && b) ? binop(k.opc, a, b) : nullptr; if (!r) inconclusive(s, std::string("binary ") + k.I->getOpcodeName()); setDest(s, k, V(r)); break; }
    if (k.I->isCast()) { E a = get(s, k.ops[0]).e; E r = (k.w && a) ? castop(k.opc, a, k.w) : nullptr; if (!r) inconclusive(s, std::string("cast ") + k.I->getOpcodeName()); setDest(s, k, V(r)); break; }
    inconclusive(s, std::string("instruction ") + k.I->getOpcodeName());
  }
  s.fr.back().ip++;
}
// ------------------------------------------------------------------ driver
static u64 g_sampleSeed = 1;
static void finishPath(State &s) {
  g_st.paths++; g_shm->paths++;
  for (auto *c : s.covers) g_covers[c]++;
  u64 n = g_st.paths; // reservoir by powers: first few, then ever rarer
  bool take = g_samples.size() < 3 || ((n * 2654435761u + g_sampleSeed * 40503u) >> 7) % (n + 1) < g_samplesPer;
  if (take) {
    unsigned ud = 0; for (auto c : s.cons) for (auto y : c->syms->v) ud += y & 1; for (auto &o : s.obs) for (auto y : o.second->syms->v) ud += y & 1;
    std::string j = "{\"inputs\":\"" + inputHex(s) + "\",\"undef\":" + std::to_string(ud) + ",\"names\":["; bool f = true;
    for (auto &p : s.inputs) { if (!f) j += ","; f = false; j += "[" + jstr(p.first) + "," + std::to_string(p.second) + "]"; }
    j += "],\"obs\":" + obsJson(s) + "}";
    if (g_samples.size() < g_samplesPer) g_samples.push_back(j); else g_samples[n % g_samplesPer] = j;
  }
}
static std::vector<pid_t> g_kids;
static void maybeSplit() {
  if (g_work.size() < 2 || g_shm->active.load() >= g_jobs) return;
  int v = g_shm->active.fetch_add(1);
  if (v >= g_jobs) { g_shm->active--; return; }
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { g_shm->active--; return; }
  size_t n = g_work.size() / 2; if (!n) n = 1;
  if (p == 0) {
    g_kids.clear();
    std::deque<State *> w(g_work.begin(), g_work.begin() + n); g_work.swap(w); // the rest is leaked in the child
    g_st = {}; g_covers.clear(); g_inconclusive.clear(); g_viol.clear(); g_samples.clear(); g_find.clear(); g_checksById.clear(); g_ss = SolverStats();
    throw 42; // restart the loop in the child
  }
  g_kids.push_back(p); g_shm->forks++;
  g_work.erase(g_work.begin(), g_work.begin() + n);
}
static void writeResult(bool crashed) {
  std::string fn = g_out + "/r." + std::to_string(getpid()) + ".json"; FILE *f = fopen(fn.c_str(), "w"); if (!f) return;
  auto mp = [&](const char *n, std::map<std::string, u64> &m) { fprintf(f, ",\"%s\":{", n); bool first = true; for (auto &p : m) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; } fprintf(f, "}"); };
  auto vs = [&](const char *n, std::vector<std::string> &v) { fprintf(f, ",\"%s\":[", n); for (size_t i = 0; i < v.size(); i++) fprintf(f, "%s%s", i ? "," : "", v[i].c_str()); fprintf(f, "]"); };
  fprintf(f, "{\"paths\":%llu,\"infeasible\":%llu,\"instr\":%llu,\"branches\":%llu,\"forks\":%llu,\"errors\":%llu,\"checks\":%llu,\"symchecks\":%llu,\"bounds\":%llu,\"domcases\":%llu,\"left\":%zu,\"timeout\":%d,\"crashed\":%d", (unsigned long long)g_st.paths, (unsigned long long)g_st.infeasible, (unsigned long long)g_st.instr, (unsigned long long)g_st.branches, (unsigned long long)g_st.forks, (unsigned long long)g_st.errors, (unsigned long long)g_st.checks, (unsigned long long)g_st.symchecks, (unsigned long long)g_st.bounds, (unsigned long long)g_st.domcases, g_work.size(), g_timedOut ? 1 : 0, crashed ? 1 : 0);
  fprintf(f, ",\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache\":%llu,\"solver_s\":%.3f,\"solver_max_s\":%.3f", (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.cacheHits, g_ss.seconds, g_ss.maxs);
  mp("covers", g_covers); mp("inconclusive", g_inconclusive); mp("checks_by_id", g_checksById); vs("violations", g_viol); vs("findings", g_find); vs("samples", g_samples);
  fprintf(f, ",\"functions\":["); bool first = true; for (auto *kf : g_execd) { fprintf(f, "%s%s", first ? "" : ",", jstr(demangle(kf->name)).c_str()); first = false; } fprintf(f, "]}\n");
  fclose(f);
}
static bool runState(State *s) { // true when the path is finished
  try {
    u64 cnt = 0;
    while (!s->fr.empty()) {
      step(*s);
      if ((++cnt & 255) == 0) {
        if (g_shm->stop.load()) return true;
        if (now() > g_deadline) { g_timedOut = true; g_work.push_back(s); return false; }
        if ((cnt & 1023) == 0) maybeSplit();
        if (s->steps > g_maxSteps) { violationEnd(*s, "hang", "step limit exceeded"); }
      }
    }
    finishPath(*s);
  } catch (PathEnd &) {}
  return true;
}
static void loop() {
  while (!g_work.empty() && !g_shm->stop.load() && !g_timedOut) {
    State *s = g_work.back(); g_work.pop_back();
    if (runState(s)) delete s;
    maybeSplit();
  }
}
int main(int argc, char **argv) {
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (4ull << 30)) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (4ull << 30) : std::min<u64>(rl.rlim_max, 4ull << 30); setrlimit(RLIMIT_STACK, &rl); execv("/proc/self/exe", argv); }
  std::string bc; double tl = 300; std::string entry = "main";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--out") g_out = nx(); else if (a == "--jobs") g_jobs = std::stoi(nx()); else if (a == "--time") tl = std::stod(nx()); else if (a == "--max-steps") g_maxSteps = std::stoull(nx());
    else if (a == "--cap") g_cap = std::stoull(nx()); else if (a == "--fork-limit") g_forkLimit = std::stoul(nx()); else if (a == "--query-ms") g_queryTimeoutMs = std::stoul(nx()); else if (a == "--max-viol") g_maxViol = std::stoi(nx()); else if (a == "--seed") g_sampleSeed = std::stoull(nx()); else if (a == "--samples") g_samplesPer = std::stoul(nx());
    else if (a == "--arg") { std::string kv = nx(); auto p = kv.find('='); g_args[kv.substr(0, p)] = std::stoll(kv.substr(p + 1)); }
    else bc = a;
  }
  g_deadline = now() + tl;
  g_shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (g_shm) Shm{}; g_shm->active = 1;
  C = new LLVMContext; SMDiagnostic err; auto mod = parseIRFile(bc, err, *C); if (!mod) { err.print("symex", errs()); return 3; }
  M = mod.release(); DL = &M->getDataLayout(); solverInit();
  // addresses
  auto *s = new State; s->nextSlot = 0x100; u64 fa = 0x7000000000000000ull;
  for (auto &F : *M) { g_addr[&F] = fa; g_funcAt[fa] = &F; fa += 16; }
  std::vector<std::pair<GlobalVariable *, Object *>> gs;
  for (auto &g : M->globals()) {
    u64 n = 256; if (g.hasInitializer() || g.getValueType()->isSized()) n = DL->getTypeAllocSize(g.getValueType()); if (!g.hasInitializer()) n = std::max<u64>(n, 256);
    auto *o = new Object; o->base = (s->nextSlot++) << 32; o->size = n; o->kind = K_GLOBAL; o->name = intern(g.getName().str()); o->b.assign(n, nullptr); g_addr[&g] = o->base; gs.push_back({&g, o});
  }
  for (auto &p : gs) {
    if (p.first->hasInitializer()) initBytes(p.second, 0, p.first->getInitializer());
    for (auto &b : p.second->b) if (!b) b = mkConst(0, 8);
    if (p.first->isConstant()) { p.second->ro = true; g_const[p.second->base] = ORef(p.second); } else s->mem[p.second->base] = ORef(p.second);
  }
  // constructors first, then main
  std::vector<std::pair<unsigned, Function *>> ctors;
  if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(unsigned)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  int rc = 0;
  try {
    for (auto &c : ctors) { Frame f; f.f = kfunc(c.second); f.regs.resize(f.f->nregs); s->fr.push_back(std::move(f)); while (!s->fr.empty()) step(*s); }
    auto *mf = M->getFunction(entry); if (!mf || mf->isDeclaration()) { fprintf(stderr, "no main\n"); return 3; }
    Frame f; f.f = kfunc(mf); f.regs.resize(f.f->nregs); for (auto &r : f.regs) r = V(nullptr); { unsigned i = 0; for (auto &a : mf->args()) f.regs[i++] = zeroOf(a.getType()); }
    s->fr.push_back(std::move(f)); s->steps = 0; g_work.push_back(s);
  } catch (PathEnd &) { fprintf(stderr, "static initialisation failed\n"); writeResult(true); return 3; }
  for (;;) { try { loop(); break; } catch (int) { continue; } }
  g_shm->active--;
  for (pid_t p : g_kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 4; }
  writeResult(rc != 0);
  fflush(stdout);
  _exit(rc);
}
