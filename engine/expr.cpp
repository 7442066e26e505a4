#include "expr.hpp"
#include <algorithm>
#include <cmath>
#include <map>
uint64_t g_nexprs = 0;
// ---------------------------------------------------------------- symbol sets
static std::map<std::vector<uint32_t>, SymSet *> g_sets;
static std::unordered_map<uint64_t, const SymSet *> g_unionMemo;
static const SymSet *internSet(std::vector<uint32_t> v) {
  auto it = g_sets.find(v);
  if (it != g_sets.end()) return it->second;
  auto *s = new SymSet{v, (uint32_t)g_sets.size()};
  g_sets.emplace(std::move(v), s);
  return s;
}
static const SymSet *emptySet() { static const SymSet *s = internSet({}); return s; }
static const SymSet *unite(const SymSet *a, const SymSet *b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  if (a->id > b->id) std::swap(a, b);
  uint64_t k = ((uint64_t)a->id << 32) | b->id;
  auto it = g_unionMemo.find(k);
  if (it != g_unionMemo.end()) return it->second;
  std::vector<uint32_t> v;
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(v));
  auto *s = internSet(std::move(v));
  g_unionMemo[k] = s;
  return s;
}
// ---------------------------------------------------------------- interning
static std::vector<Expr *> g_tab(1 << 20, nullptr);
static size_t g_count = 0;
static inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h; }
static uint64_t hashE(const Expr &e) {
  uint64_t h = mix((uint64_t)e.op * 1315423911u + e.w + ((uint64_t)e.aux << 24));
  h = mix(h ^ (uint64_t)e.val) + (uint64_t)(e.val >> 64);
  h = mix(h ^ (uint64_t)(uintptr_t)e.a);
  h = mix(h + (uint64_t)(uintptr_t)e.b * 3);
  h = mix(h + (uint64_t)(uintptr_t)e.c * 7);
  return h;
}
static uint64_t topMask(uint64_t m) { return m ? (~0ull >> __builtin_clzll(m)) : 0; }
static void computeRange(Expr &e) {
  uint64_t M = mask64(e.w);
  e.umin = 0; e.umax = M; e.pm = M;
  if (e.w > 64) { e.umax = ~0ull; e.pm = ~0ull; return; }
  auto A = e.a, B = e.b, C = e.c;
  switch (e.op) {
  case O_CONST: e.umin = e.umax = e.pm = (uint64_t)e.val; return;
  case O_SYM: return;
  case O_CONCAT:
    e.umin = (A->umin << B->w) | B->umin; e.umax = (A->umax << B->w) | B->umax; e.pm = (A->pm << B->w) | B->pm; break;
  case O_EXTRACT:
    if (A->w <= 64) { e.pm = (A->pm >> e.aux) & M; uint64_t hi = A->umax >> e.aux; if (hi <= M) { e.umin = A->umin >> e.aux; e.umax = hi; } }
    break;
  case O_RNG: e.umin = A->umin; e.umax = std::min<uint64_t>(A->umax, (uint64_t)e.val); e.pm = A->pm; break;
  case O_ZEXT: e.umin = A->umin; e.umax = A->umax; e.pm = A->pm; break;
  case O_SEXT:
    if (A->umax < (1ull << (A->w - 1))) { e.umin = A->umin; e.umax = A->umax; e.pm = A->pm; }
    else if (A->umin >= (1ull << (A->w - 1))) { uint64_t x = M & ~mask64(A->w); e.umin = A->umin | x; e.umax = A->umax | x; }
    break;
  case O_ADD: {
    u128 hi = (u128)A->umax + B->umax, lo = (u128)A->umin + B->umin;
    if (hi <= M) { e.umin = (uint64_t)lo; e.umax = (uint64_t)hi; }
    else if (lo > M && (hi >> e.w) == (lo >> e.w)) { e.umin = (uint64_t)lo & M; e.umax = (uint64_t)hi & M; }
    break; }
  case O_MUL: { u128 hi = (u128)A->umax * B->umax; if (hi <= M) { e.umin = A->umin * B->umin; e.umax = (uint64_t)hi; } break; }
  case O_UDIV: if (B->umin > 0) { e.umin = A->umin / B->umax; e.umax = A->umax / B->umin; } break;
  case O_UREM: if (B->umin > 0) { e.umax = std::min(A->umax, B->umax - 1); if (A->umax < B->umin) e.umin = A->umin; } break;
  case O_AND: e.pm = A->pm & B->pm; e.umax = std::min({A->umax, B->umax, e.pm}); break;
  case O_OR: e.pm = A->pm | B->pm; e.umin = std::max(A->umin, B->umin); e.umax = std::min(e.pm, topMask(A->umax | B->umax)); break;
  case O_XOR: e.pm = A->pm | B->pm; e.umax = topMask(A->umax | B->umax) & M; break;
  case O_SHL: if (B->isConst() && B->u64() < e.w) { e.pm = (A->pm << B->u64()) & M; if ((((u128)A->umax) << B->u64()) <= M) { e.umin = A->umin << B->u64(); e.umax = A->umax << B->u64(); } } break;
  case O_LSHR: e.umax = A->umax; e.pm = topMask(A->pm); if (B->isConst() && B->u64() < e.w) { e.umin = A->umin >> B->u64(); e.umax = A->umax >> B->u64(); e.pm = A->pm >> B->u64(); } break;
  case O_ITE: e.umin = std::min(B->umin, C->umin); e.umax = std::max(B->umax, C->umax); e.pm = B->pm | C->pm; break;
  default: break;
  }
  e.pm &= topMask(e.umax);
  if (e.umax > e.pm) e.umax = e.pm;
  if (e.umin > e.umax) e.umin = e.umax; // only on dead combinations
}
static E intern(Op op, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, u128 val = 0, uint32_t aux = 0) {
  Expr k{};
  k.op = op; k.w = w; k.a = a; k.b = b; k.c = c; k.val = val; k.aux = aux;
  uint64_t h = hashE(k);
  if (g_count * 2 > g_tab.size()) {
    std::vector<Expr *> nt(g_tab.size() * 2, nullptr);
    for (auto *e : g_tab) if (e) { size_t i = hashE(*e) & (nt.size() - 1); while (nt[i]) i = (i + 1) & (nt.size() - 1); nt[i] = e; }
    g_tab.swap(nt);
  }
  size_t i = h & (g_tab.size() - 1);
  while (Expr *e = g_tab[i]) {
    if (e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->val == val && e->aux == aux) return op != O_CONST && op != O_SYM && w <= 64 && e->umin == e->umax ? mkConst(e->umin, w) : e;
    i = (i + 1) & (g_tab.size() - 1);
  }
  auto *e = new Expr(k);
  e->id = ++g_nexprs;
  const SymSet *s = emptySet();
  if (op == O_SYM) s = internSet({aux});
  if (a) s = unite(s, a->syms);
  if (b) s = unite(s, b->syms);
  if (c) s = unite(s, c->syms);
  e->syms = s;
  computeRange(*e);
  g_tab[i] = e; ++g_count;
  if (op != O_CONST && w <= 64 && e->umin == e->umax && op != O_SYM) { // range says constant
    return mkConst(e->umin, w);
  }
  return e;
}
E mkConst(u128 v, unsigned w) { return intern(O_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
E mkSym(uint32_t id) { return intern(O_SYM, 8, nullptr, nullptr, nullptr, 0, id); }
static E mergeConcat(E hi, E lo) { // hi:lo as one simpler expression, or null
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, w);
  if (hi->op == O_EXTRACT) {
    if (lo->op == O_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtract(hi->a, lo->aux, w);
    if (hi->a == lo && hi->aux == lo->w) return mkExtract(lo, 0, w);
    if (lo->isConst() && hi->aux >= lo->w && mkExtract(hi->a, hi->aux - lo->w, lo->w) == lo) return mkExtract(hi->a, hi->aux - lo->w, w);
  }
  if (hi->isConst() && lo->op == O_EXTRACT && lo->aux + w <= lo->a->w && mkExtract(lo->a, lo->aux + lo->w, hi->w) == hi) return mkExtract(lo->a, lo->aux, w);
  return nullptr;
}
E mkRng(E x, uint64_t hi) { return x->w > 64 || x->umax <= hi ? x : intern(O_RNG, x->w, x, nullptr, nullptr, hi); }
static bool iteLeaves(E x, int &n) { while (x->op == O_ITE) { if (!iteLeaves(x->b, n)) return false; x = x->c; } return x->isConst() && --n >= 0; }
bool constIte(E x) { int n = 12; return x->op == O_ITE && iteLeaves(x, n); } // a choice among a few constants
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (E m = mergeConcat(hi, lo)) return m;
  if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
  // right-associate: concat(concat(x,y),z) -> concat(x,concat(y,z)) to expose merges
  if (hi->op == O_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (lo->op == O_CONCAT) if (E m = mergeConcat(hi, lo->a)) return mkConcat(m, lo->b);
  return intern(O_CONCAT, w, hi, lo);
}
E mkExtract(E x, unsigned lo, unsigned w) {
  if (lo == 0 && w == x->w) return x;
  if (x->isConst()) return mkConst(x->val >> lo, w);
  switch (x->op) {
  case O_EXTRACT: return mkExtract(x->a, x->aux + lo, w);
  case O_CONCAT:
    if (lo >= x->b->w) return mkExtract(x->a, lo - x->b->w, w);
    if (lo + w <= x->b->w) return mkExtract(x->b, lo, w);
    return mkConcat(mkExtract(x->a, 0, lo + w - x->b->w), mkExtract(x->b, lo, x->b->w - lo));
  case O_ZEXT:
    if (lo >= x->a->w) return mkConst(0, w);
    if (lo + w <= x->a->w) return mkExtract(x->a, lo, w);
    return mkZExt(mkExtract(x->a, lo, x->a->w - lo), w);
  case O_SEXT:
    if (lo + w <= x->a->w) return mkExtract(x->a, lo, w);
    if (lo == 0) return mkSExt(x->a, w);
    break;
  case O_ITE: if ((x->b->isConst() || x->c->isConst() || constIte(x))) return mkIte(x->a, mkExtract(x->b, lo, w), mkExtract(x->c, lo, w)); break;
  case O_ADD: case O_MUL: // low bits only depend on low bits
    if (lo == 0 && x->w > w) { E p = mkExtract(x->a, 0, w), q = mkExtract(x->b, 0, w); return x->op == O_ADD ? mkAdd(p, q) : mkMul(p, q); }
    break;
  case O_AND: return mkAnd(mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
  case O_OR: return mkOr(mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
  case O_XOR: return mkXor(mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
  default: break;
  }
  return intern(O_EXTRACT, w, x, nullptr, nullptr, 0, lo);
}
E mkZExt(E x, unsigned w) {
  if (w == x->w) return x;
  if (x->isConst()) return mkConst(x->val, w);
  if (x->op == O_ZEXT) return mkZExt(x->a, w);
  if (constIte(x)) return mkIte(x->a, mkZExt(x->b, w), mkZExt(x->c, w));
  if (x->op == O_EXTRACT && x->aux == 0 && x->a->w == w && w <= 64 && x->a->umax <= mask64(x->w)) return x->a;
  return intern(O_ZEXT, w, x);
}
E mkSExt(E x, unsigned w) {
  if (w == x->w) return x;
  if (x->isConst()) return mkConst((u128)sxt(x->val, x->w), w);
  if (constIte(x)) return mkIte(x->a, mkSExt(x->b, w), mkSExt(x->c, w));
  if (x->w <= 64 && x->w > 1 && x->umax < (1ull << (x->w - 1))) return mkZExt(x, w);
  if (x->op == O_SEXT) return mkSExt(x->a, w);
  if (x->op == O_ZEXT) return mkZExt(x->a, w);
  if (x->op == O_ITE && (x->b->isConst() && x->c->isConst())) return mkIte(x->a, mkSExt(x->b, w), mkSExt(x->c, w));
  return intern(O_SEXT, w, x);
}
E mkNot(E a) { return mkXor(a, mkConst(maskw(a->w), a->w)); }
static bool isNot(E a) { return a->w == 1 && a->op == O_XOR && a->b->isConst(); }
static E bytewiseOr(E a, E b) {
  // both w<=64, multiple of 8, disjoint at byte granularity
  unsigned n = a->w / 8; E r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    uint64_t m = 0xffull << (8 * i);
    if ((a->pm & m) && (b->pm & m)) return nullptr;
  }
  for (int i = n - 1; i >= 0; i--) {
    uint64_t m = 0xffull << (8 * i);
    E x = (a->pm & m) ? mkExtract(a, 8 * i, 8) : (b->pm & m) ? mkExtract(b, 8 * i, 8) : mkConst(0, 8);
    r = r ? mkConcat(r, x) : x;
  }
  return r;
}
E mkAdd0(E a, E b);
// ---------------------------------------------------------------- linear forms
// e = c + sum k_i * t_i modulo 2^w, with t_i unsigned terms of known range. When [lo,hi] fits the signed range
// of e, the signed value of e is exactly that sum.
struct Lin { i128 c; std::vector<std::pair<E, i128>> t; i128 lo, hi; bool ok, exact; };
static const Lin &linOf(E e);
static void linRange(Lin &l) {
  l.lo = l.hi = l.c;
  for (auto &p : l.t) { i128 a = p.second * (i128)p.first->umin, b = p.second * (i128)p.first->umax; l.lo += std::min(a, b); l.hi += std::max(a, b); }
}
static bool linAdd(Lin &r, const Lin &b, i128 k) {
  const i128 LIM = (i128)1 << 62;
  if (k > LIM || k < -LIM) return false;
  r.c += b.c * k; if (r.c > LIM * 4 || r.c < -LIM * 4) return false;
  for (auto &p : b.t) {
    i128 q = p.second * k; if (q > LIM || q < -LIM) return false;
    bool f = false;
    for (size_t i = 0; i < r.t.size(); i++) if (r.t[i].first == p.first) { r.t[i].second += q; if (!r.t[i].second) r.t.erase(r.t.begin() + i); f = true; break; }
    if (!f) { if (r.t.size() >= 24) return false; r.t.push_back({p.first, q}); }
  }
  return true;
}
static bool linUnsigned(Lin &a, unsigned w) { // pick the representative whose value lies in [0,2^w)
  if (!a.ok) return false;
  i128 M = (i128)1 << w, k = a.lo >= 0 ? a.lo / M : -((-a.lo + M - 1) / M);
  a.c -= k * M; a.lo -= k * M; a.hi -= k * M; return a.hi < M;
}
static std::unordered_map<E, Lin> g_lin;
static const Lin &linOf(E e) {
  auto it = g_lin.find(e); if (it != g_lin.end()) return it->second;
  unsigned w = e->w; Lin r{0, {}, 0, 0, true, false}; bool ok = true;
  auto atom = [&]() { r.c = 0; r.t.clear(); r.t.push_back({e, 1}); };
  auto sub = [&](const Lin &x, i128 k) { ok = ok && x.ok && linAdd(r, x, k); };
  if (w > 64 || w < 8) { r.ok = false; return g_lin[e] = r; }
  switch (e->op) {
  case O_CONST: r.c = sxt(e->val, w); break;
  case O_OR: if (e->a->pm & e->b->pm) { ok = false; break; } [[fallthrough]];
  case O_ADD: { Lin a = linOf(e->a), b = linOf(e->b); sub(a, 1); sub(b, 1); break; }
  case O_MUL: if (e->b->isConst()) { Lin a = linOf(e->a); sub(a, sxt(e->b->val, w)); } else ok = false; break;
  case O_CONCAT:
    if (e->b->isConst() && e->b->w <= 32 && e->a->w >= 8) { Lin a = linOf(e->a); sub(a, (i128)1 << e->b->w); r.c += (i128)e->b->val; }
    else if (e->a->isConst() && e->b->w >= 8) { Lin b = linOf(e->b); if (linUnsigned(b, e->b->w)) { sub(b, 1); r.c += sxt(e->a->val, e->a->w) << e->b->w; } else ok = false; }
    else ok = false;
    break;
  case O_ZEXT: { Lin a = linOf(e->a); if (linUnsigned(a, e->a->w)) sub(a, 1); else ok = false; break; }
  case O_SEXT: { Lin a = linOf(e->a); if (a.ok && a.exact) sub(a, 1); else ok = false; break; }
  case O_EXTRACT: if (e->aux == 0) { Lin a = linOf(e->a); sub(a, 1); } else ok = false; break;
  default: ok = false;
  }
  if (!ok) atom();
  linRange(r); i128 S = (i128)1 << (w - 1);
  r.exact = r.lo >= -S && r.hi < S; r.ok = true;
  return g_lin[e] = r;
}
static E linExpr(const Lin &l, unsigned w) {
  E r = mkConst((u128)l.c, w);
  for (auto &p : l.t) { E t = p.first; if (t->w > w) t = mkExtract(t, 0, w); r = mkAdd(r, mkMul(mkZExt(t, w), mkConst((u128)p.second, w))); }
  return r;
}
// sign of a-b when the ranges tell: 0 unknown, bit 0 may be negative, bit 1 may be zero, bit 2 may be positive
static bool linDiff(E a, E b, bool sgn, Lin &d) {
  if (a->w > 64 || a->w < 16) return false;
  if (a->op != O_ADD && a->op != O_MUL && b->op != O_ADD && b->op != O_MUL && a->op != O_CONCAT && b->op != O_CONCAT && a->op != O_SEXT && b->op != O_SEXT && a->op != O_ZEXT && b->op != O_ZEXT) return false;
  Lin x = linOf(a), y = linOf(b);
  if (!x.exact || !y.exact) return false;
  if (!sgn && (x.lo < 0 || y.lo < 0)) return false;
  d = x; if (!linAdd(d, y, -1)) return false;
  linRange(d); return true;
}
static i128 floorDiv(i128 a, i128 b) { i128 q = a / b; return a % b && ((a < 0) != (b < 0)) ? q - 1 : q; }
static E linCmp(E a, E b, bool sgn, bool orEq) { // a < b (or a <= b)
  Lin d; if (!linDiff(a, b, sgn, d)) return nullptr;
  if (orEq ? d.hi <= 0 : d.hi < 0) return mkConst(1, 1);
  if (orEq ? d.lo > 0 : d.lo >= 0) return mkConst(0, 1);
  if (d.t.size() == 1 && d.t[0].first->w <= 32 && d.t[0].first->op != O_ADD && d.t[0].first != a && d.t[0].first != b) { // k*t + c < 0
    E t = d.t[0].first; i128 k = d.t[0].second, c = orEq ? d.c - 1 : d.c; // < 0
    // k>0: t < -c/k  <=> t <= floor((-c-1)/k);  k<0: t > c/(-k) <=> t >= floor(c/-k)+1
    if (k > 0) return mkUle(t, mkConst((u128)floorDiv(-c - 1, k), t->w));
    return mkUle(mkConst((u128)(floorDiv(c, -k) + 1), t->w), t);
  }
  return nullptr;
}
static E linEq(E a, E b) {
  Lin d; if (!linDiff(a, b, true, d)) return nullptr;
  if (d.t.empty()) return mkConst(d.c == 0, 1);
  if (d.lo > 0 || d.hi < 0) return mkConst(0, 1);
  i128 g = 0; for (auto &p : d.t) { i128 x = p.second < 0 ? -p.second : p.second; while (x) { i128 r = g % x; g = x; x = r; } }
  if (g > 1 && d.c % g) return mkConst(0, 1);
  if (d.t.size() == 1) { E t = d.t[0].first; i128 v = -d.c / d.t[0].second; if (v < 0 || v > (i128)mask64(t->w)) return mkConst(0, 1); if (t != a && t != b) return mkEq(t, mkConst((u128)v, t->w)); }
  return nullptr;
}
// e = D*q + r with r within [rlo, rlo+D): quotient parts divisible by D
static bool linSplit(E e, i128 D, Lin &q, Lin &r) {
  if (e->w > 64 || e->w < 16 || D < 3) return false;
  if (e->op != O_ADD && e->op != O_MUL && e->op != O_SEXT && e->op != O_ZEXT && e->op != O_CONCAT && e->op != O_OR) return false;
  Lin x = linOf(e); if (!x.exact || x.t.empty()) return false;
  q = Lin{0, {}, 0, 0, true, false}; r = q;
  for (auto &p : x.t) { if (p.second % D == 0) q.t.push_back({p.first, p.second / D}); else r.t.push_back(p); }
  linRange(r); i128 k = floorDiv(r.lo + x.c, D); q.c = k; r.c = x.c - D * k; linRange(q); linRange(r);
  return true;
}
static bool hasMul(E e) { return e->op == O_MUL || (e->op == O_ADD && (hasMul(e->a) || hasMul(e->b))) || ((e->op == O_ZEXT || e->op == O_SEXT) && hasMul(e->a)); }
E mkAdd(E a, E b) {
  if (a->w >= 16 && a->w <= 64 && !a->isConst() && !b->isConst() && (hasMul(a) || hasMul(b))) {
    Lin x = linOf(a), y = linOf(b);
    if (x.ok && y.ok && (x.t.size() + y.t.size() > 2 || x.t[0].first == y.t[0].first)) {
      Lin d = x; if (linAdd(d, y, 1) && d.t.size() < x.t.size() + y.t.size()) return linExpr(d, a->w);
    }
  }
  return mkAdd0(a, b);
}
// the value of a choice among constants, or of an extended condition, when condition c is known
static E under(E x, E c, bool v) {
  if (x->isConst()) return x;
  if (x->op == O_ITE && x->a == c) return v ? x->b : x->c;
  if ((x->op == O_SEXT || x->op == O_ZEXT) && x->a == c) return mkConst(v ? x->op == O_SEXT ? maskw(x->w) : 1 : 0, x->w);
  return nullptr;
}
E mkAdd0(E a, E b) {
  unsigned w = a->w;
  for (int i = 0; i < 2; i++, std::swap(a, b)) if (constIte(a) && !b->isConst()) {
    E p = under(b, a->a, true), q = under(b, a->a, false);
    if (p && q && p->isConst() && q->isConst()) return mkIte(a->a, mkAdd0(a->b, p), mkAdd0(a->c, q));
  }
  if (a->isConst()) std::swap(a, b);
  if (a->isConst()) return mkConst(a->val + b->val, w);
  if (b->isConst()) {
    if (b->val == 0) return a;
    if (w == 1) return mkXor(a, b);
    if (a->op == O_ADD && a->b->isConst()) return mkAdd(a->a, mkConst(a->b->val + b->val, w));
    if (constIte(a)) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->c, b));
    if (a->op == O_ZEXT && a->a->w < w && a->a->op == O_ADD && a->a->b->isConst() && w <= 64) {
      // zext(x+c1)+c2 where x+c1 cannot wrap: zext(x)+c1+c2
      E x = a->a->a; unsigned xw = x->w;
      if ((u128)x->umax + a->a->b->u64() <= mask64(xw)) return mkAdd(mkZExt(x, w), mkConst(a->a->b->val + b->val, w));
    }
    return intern(O_ADD, w, a, b);
  }
  if (a->op == O_ADD && a->b->isConst()) return mkAdd(mkAdd(a->a, b), a->b);
  if (b->op == O_ADD && b->b->isConst()) return mkAdd(mkAdd(a, b->a), b->b);
  // x + (-1*x) = 0
  auto neg1 = [&](E m, E x) { return m->op == O_MUL && m->b->isConst() && m->b->val == maskw(w) && m->a == x; };
  if (neg1(a, b) || neg1(b, a)) return mkConst(0, w);
  if (a->op == O_ADD) { if (neg1(a->a, b) || neg1(b, a->a)) return a->b; if (neg1(a->b, b) || neg1(b, a->b)) return a->a; }
  if (b->op == O_ADD) { if (neg1(b->a, a) || neg1(a, b->a)) return b->b; if (neg1(b->b, a) || neg1(a, b->b)) return b->a; }
  if (w <= 64 && w % 8 == 0 && (a->pm & b->pm) == 0) { if (E r = bytewiseOr(a, b)) return r; return mkOr(a, b); }
  if (a->id > b->id) std::swap(a, b);
  return intern(O_ADD, w, a, b);
}
E mkSub(E a, E b) {
  unsigned w = a->w;
  if (a == b) return mkConst(0, w);
  if (b->isConst()) return mkAdd(a, mkConst(-b->val, w));
  return mkAdd(a, mkMul(b, mkConst(maskw(w), w)));
}
E mkMul(E a, E b) {
  unsigned w = a->w;
  if (a->isConst()) std::swap(a, b);
  if (a->isConst()) return mkConst(a->val * b->val, w);
  if (w == 1) return mkAnd(a, b);
  if (b->isConst()) {
    if (b->val == 0) return b;
    if (b->val == 1) return a;
    if (a->op == O_MUL && a->b->isConst()) return mkMul(a->a, mkConst(a->b->val * b->val, w));
    if (a->op == O_ADD && a->b->isConst()) return mkAdd(mkMul(a->a, b), mkConst(a->b->val * b->val, w));
    if (b->val == maskw(w) && a->op == O_ADD) return mkAdd(mkMul(a->a, b), mkMul(a->b, b));
    u128 v = b->val;
    if ((v & (v - 1)) == 0) { unsigned k = 0; while (!((v >> k) & 1)) k++; return mkShl(a, mkConst(k, w)); }
    if (constIte(a)) return mkIte(a->a, mkMul(a->b, b), mkMul(a->c, b));
    return intern(O_MUL, w, a, b);
  }
  if (a->id > b->id) std::swap(a, b);
  return intern(O_MUL, w, a, b);
}
E mkUDiv(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(b->val ? a->val / b->val : maskw(a->w), a->w);
  if (b->isConst()) {
    if (b->val == 1) return a;
    u128 v = b->val;
    if (v && (v & (v - 1)) == 0) { unsigned k = 0; while (!((v >> k) & 1)) k++; return mkLShr(a, mkConst(k, a->w)); }
    { Lin q, r; if (a->w <= 64 && linSplit(a, (i128)b->u64(), q, r) && r.lo >= 0 && r.hi < (i128)b->u64() && q.lo >= 0) return linExpr(q, a->w); }
    // narrow the division when the operand is known small
    if (a->w <= 64 && a->w > 16 && b->w <= 64) {
      unsigned n = a->umax ? 64 - __builtin_clzll(a->umax) : 1; n = std::max(n, 8u);
      if (b->u64() > mask64(n)) return mkConst(0, a->w);
      if (n + 8 <= a->w) return mkZExt(intern(O_UDIV, n, mkExtract(a, 0, n), mkConst(b->val, n)), a->w);
    }
  }
  if (b->isConst() && a->w <= 64) { Lin q, r; if (linSplit(a, (i128)b->u64(), q, r) && r.lo >= 0 && r.hi < (i128)b->u64() && q.lo >= 0) return linExpr(q, a->w); }
  return intern(O_UDIV, a->w, a, b);
}
E mkURem(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(b->val ? a->val % b->val : a->val, a->w);
  if (b->isConst()) {
    u128 v = b->val;
    if (v && (v & (v - 1)) == 0) return mkAnd(a, mkConst(v - 1, a->w));
    if (a->w <= 64) {
      if (a->umax < b->u64()) return a;
      { Lin q, r; if (linSplit(a, (i128)b->u64(), q, r) && r.lo >= 0 && r.hi < (i128)b->u64() && q.lo >= 0) return linExpr(r, a->w); }
      unsigned n = a->umax ? 64 - __builtin_clzll(a->umax) : 1; n = std::max(n, 8u);
      if (n + 8 <= a->w) return mkZExt(intern(O_UREM, n, mkExtract(a, 0, n), mkConst(b->val, n)), a->w);
    }
  }
  if (b->isConst() && a->w <= 64) { Lin q, r; if (linSplit(a, (i128)b->u64(), q, r) && r.lo >= 0 && r.hi < (i128)b->u64() && q.lo >= 0) return linExpr(r, a->w); }
  return intern(O_UREM, a->w, a, b);
}
E mkSDiv(E a, E b) {
  unsigned w = a->w;
  if (a->isConst() && b->isConst() && b->val) return mkConst((u128)(sxt(a->val, w) / sxt(b->val, w)), w);
  if (w <= 64 && a->umax < (1ull << (w - 1)) && b->umax < (1ull << (w - 1))) return mkUDiv(a, b);
  if (b->isConst() && b->val == 1) return a;
  if (b->isConst() && w <= 64 && sxt(b->val, w) > 2) { // truncated: same as floored when the dividend is not negative
    Lin q, r, x = linOf(a); i128 D = sxt(b->val, w);
    if (x.exact && linSplit(a, D, q, r) && r.lo >= 0 && r.hi < D && x.lo >= 0) return linExpr(q, w);
  }
  return intern(O_SDIV, w, a, b);
}
E mkSRem(E a, E b) {
  unsigned w = a->w;
  if (a->isConst() && b->isConst() && b->val) return mkConst((u128)(sxt(a->val, w) % sxt(b->val, w)), w);
  if (w <= 64 && a->umax < (1ull << (w - 1)) && b->umax < (1ull << (w - 1))) return mkURem(a, b);
  if (b->isConst() && w <= 64 && sxt(b->val, w) > 2) {
    Lin q, r, x = linOf(a); i128 D = sxt(b->val, w);
    if (x.exact && linSplit(a, D, q, r) && r.lo >= 0 && r.hi < D && x.lo >= 0) return linExpr(r, w);
  }
  return intern(O_SREM, w, a, b);
}
E mkAnd(E a, E b) {
  unsigned w = a->w;
  if (a == b) return a;
  if (a->isConst()) std::swap(a, b);
  if (a->isConst()) return mkConst(a->val & b->val, w);
  if (b->isConst()) {
    if (b->val == 0) return b;
    if (b->val == maskw(w)) return a;
    if (w <= 64) {
      if ((a->pm & ~b->u64()) == 0) return a;
      uint64_t m = b->u64();
      if ((a->pm & m) == 0) return mkConst(0, w);
      if ((m & (m + 1)) == 0) { unsigned n = 64 - __builtin_clzll(m); return mkZExt(mkExtract(a, 0, n), w); }
      // mask of the form 1..10..0
      unsigned tz = __builtin_ctzll(m); uint64_t m2 = m >> tz;
      if ((m2 & (m2 + 1)) == 0) { unsigned n = 64 - __builtin_clzll(m2); E mid = mkExtract(a, tz, n); E r = mkConcat(mid, mkConst(0, tz)); return mkZExt(r, w); }
    }
    if (a->op == O_AND && a->b->isConst()) return mkAnd(a->a, mkConst(a->b->val & b->val, w));
    if (a->op == O_ITE && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkAnd(a->b, b), mkAnd(a->c, b));
    return intern(O_AND, w, a, b);
  }
  if (w == 1) {
    if (isNot(a) && a->a == b) return mkConst(0, 1);
    if (isNot(b) && b->a == a) return mkConst(0, 1);
    if (a->op == O_AND && (a->a == b || a->b == b)) return a;
    if (b->op == O_AND && (b->a == a || b->b == a)) return b;
  }
  if (a->id > b->id) std::swap(a, b);
  return intern(O_AND, w, a, b);
}
E mkOr(E a, E b) {
  unsigned w = a->w;
  if (a == b) return a;
  if (a->isConst()) std::swap(a, b);
  if (a->isConst()) return mkConst(a->val | b->val, w);
  if (b->isConst()) {
    if (b->val == 0) return a;
    if (b->val == maskw(w)) return b;
    if (a->op == O_ITE && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkOr(a->b, b), mkOr(a->c, b));
    if (a->op == O_CONCAT && a->b->isConst() && a->b->w <= 64 && (b->val >> a->b->w) == 0) return mkConcat(a->a, mkConst(a->b->val | b->val, a->b->w));
  }
  if (w == 1) {
    if (isNot(a) && a->a == b) return mkConst(1, 1);
    if (isNot(b) && b->a == a) return mkConst(1, 1);
    return mkNot(mkAnd(mkNot(a), mkNot(b)));
  }
  if (w <= 64 && w % 8 == 0 && (a->pm & b->pm) == 0) if (E r = bytewiseOr(a, b)) return r;
  if (!b->isConst() && a->id > b->id) std::swap(a, b);
  return intern(O_OR, w, a, b);
}
E mkXor(E a, E b) {
  unsigned w = a->w;
  if (a == b) return mkConst(0, w);
  if (a->isConst()) std::swap(a, b);
  if (a->isConst()) return mkConst(a->val ^ b->val, w);
  if (b->isConst()) {
    if (b->val == 0) return a;
    if (a->op == O_XOR && a->b->isConst()) return mkXor(a->a, mkConst(a->b->val ^ b->val, w));
    if (constIte(a)) return mkIte(a->a, mkXor(a->b, b), mkXor(a->c, b));
    if (w == 1 && a->op == O_ULT) return mkUle(a->b, a->a);
    if (w == 1 && a->op == O_ULE) return mkUlt(a->b, a->a);
    if (w == 1 && a->op == O_SLT) return mkSle(a->b, a->a);
    if (w == 1 && a->op == O_SLE) return mkSlt(a->b, a->a);
    return intern(O_XOR, w, a, b);
  }
  if (w == 1) return mkNot(mkEq(a, b));
  if (a->id > b->id) std::swap(a, b);
  return intern(O_XOR, w, a, b);
}
E mkShl(E a, E b) {
  unsigned w = a->w;
  if (b->isConst()) {
    if (b->val == 0) return a;
    if (b->val >= w) return mkConst(0, w);
    unsigned k = (unsigned)b->val;
    return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k));
  }
  if (a->isConst() && a->val == 0) return a;
  return intern(O_SHL, w, a, b);
}
E mkLShr(E a, E b) {
  unsigned w = a->w;
  if (b->isConst()) {
    if (b->val == 0) return a;
    if (b->val >= w) return mkConst(0, w);
    unsigned k = (unsigned)b->val;
    return mkZExt(mkExtract(a, k, w - k), w);
  }
  if (a->isConst() && a->val == 0) return a;
  return intern(O_LSHR, w, a, b);
}
E mkAShr(E a, E b) {
  unsigned w = a->w;
  if (b->isConst()) {
    if (b->val == 0) return a;
    unsigned k = b->val >= w ? w - 1 : (unsigned)b->val;
    return mkSExt(mkExtract(a, k, w - k), w);
  }
  return intern(O_ASHR, w, a, b);
}
static int iteDepthConst(E x) { // depth of an ITE tree with constant leaves, -1 when it is not one
  if (x->isConst()) return 0;
  if (x->op != O_ITE) return -1;
  int p = iteDepthConst(x->b); if (p < 0 || p > 4) return -1;
  int q = iteDepthConst(x->c); if (q < 0 || q > 4) return -1;
  return 1 + std::max(p, q);
}
E mkEq(E a, E b) {
  unsigned w = a->w;
  if (a == b) return mkConst(1, 1);
  if (a->isConst()) std::swap(a, b);
  if (a->isConst()) return mkConst(a->val == b->val, 1);
  if (w == 1) {
    if (b->isConst()) return b->val ? a : mkNot(a);
    if (isNot(a)) return mkNot(mkEq(a->a, b));
    if (isNot(b)) return mkNot(mkEq(a, b->a));
  }
  if (w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return mkConst(0, 1);
  if (b->isConst()) {
    if (w <= 64 && (b->u64() & ~a->pm)) return mkConst(0, 1);
    switch (a->op) {
    case O_ZEXT: return (b->val >> a->a->w) ? mkConst(0, 1) : mkEq(a->a, mkConst(b->val, a->a->w));
    case O_SEXT: { E t = mkConst(b->val, a->a->w); return mkSExt(t, w) == b ? mkEq(a->a, t) : mkConst(0, 1); }
    case O_CONCAT: return mkAnd(mkEq(a->a, mkExtract(b, a->b->w, a->a->w)), mkEq(a->b, mkExtract(b, 0, a->b->w)));
    case O_ADD: if (a->b->isConst()) return mkEq(a->a, mkConst(b->val - a->b->val, w)); break;
    case O_MUL: if (a->b->isConst() && a->b->val == maskw(w)) return mkEq(a->a, mkConst(-b->val, w)); break;
    case O_XOR: if (a->b->isConst()) return mkEq(a->a, mkConst(b->val ^ a->b->val, w)); break;
    case O_ITE:
      if (a->b->isConst() || a->c->isConst() || iteDepthConst(a) >= 0) {
        return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
      }
      break;
    default: break;
    }
  } else {
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->op == O_ADD && b->op == O_ADD) {
      if (a->b->isConst() && b->b->isConst() ) { if (a->b == b->b) return mkEq(a->a, b->a); return mkEq(mkAdd(a->a, mkConst(a->b->val - b->b->val, w)), b->a); }
      if (a->a == b->a) return mkEq(a->b, b->b);
      if (a->b == b->b) return mkEq(a->a, b->a);
    }
    if (a->op == O_ADD && a->a == b && a->b->isConst()) return mkConst(0, 1);
    if (b->op == O_ADD && b->a == a && b->b->isConst()) return mkConst(0, 1);
  }
  if (E r = linEq(a, b)) return r;
  if (!b->isConst() && a->id > b->id) std::swap(a, b);
  return intern(O_EQ, 1, a, b);
}
E mkUlt(E a, E b) {
  unsigned w = a->w;
  if (a == b) return mkConst(0, 1);
  if (a->isConst() && b->isConst()) return mkConst(a->val < b->val, 1);
  if (w <= 64) {
    if (a->umax < b->umin) return mkConst(1, 1);
    if (a->umin >= b->umax) return mkConst(0, 1);
    if (b->isConst() && b->val == 1) return mkEq(a, mkConst(0, w));
    if (a->isConst() && a->val == 0) return mkNot(mkEq(b, a));
  }
  if (w == 1) return mkAnd(mkNot(a), b);
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
  if (a->op == O_ZEXT && b->isConst()) { unsigned n = a->a->w; if (b->val >> n) return mkConst(1, 1); return mkUlt(a->a, mkConst(b->val, n)); }
  if (b->op == O_ZEXT && a->isConst()) { unsigned n = b->a->w; if (a->val >> n) return mkConst(0, 1); return mkUlt(mkConst(a->val, n), b->a); }
  if (a->op == O_ADD && a->b->isConst() && b->isConst() && w <= 64) { // x+c < d without wrap
    E x = a->a; uint64_t c = a->b->u64(), d = b->u64();
    if ((u128)x->umax + c <= mask64(w)) return d > c ? mkUlt(x, mkConst(d - c, w)) : mkConst(0, 1);
  }
  if (b->op == O_ADD && b->b->isConst() && a->isConst() && w <= 64) {
    E x = b->a; uint64_t c = b->b->u64(), d = a->u64();
    if ((u128)x->umax + c <= mask64(w)) return d >= c ? mkUlt(mkConst(d - c, w), x) : mkConst(1, 1);
  }
  if (a->op == O_ITE && b->isConst() && iteDepthConst(a) >= 0) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
  if (b->op == O_ITE && a->isConst() && iteDepthConst(b) >= 0) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
  if (b->op == O_ITE && b->b->isConst() && b->c->isConst()) { E p = mkUlt(a, b->b), q = mkUlt(a, b->c); if (p->isConst() || q->isConst()) return mkIte(b->a, p, q); }
  if (E r = linCmp(a, b, false, false)) return r;
  return intern(O_ULT, 1, a, b);
}
E mkUle(E a, E b) {
  unsigned w = a->w;
  if (a == b) return mkConst(1, 1);
  if (a->isConst() && b->isConst()) return mkConst(a->val <= b->val, 1);
  if (w <= 64) {
    if (a->umax <= b->umin) return mkConst(1, 1);
    if (a->umin > b->umax) return mkConst(0, 1);
    if (b->isConst()) return mkUlt(a, mkConst(b->val + 1, w)); // b<umax of a, so no wrap
    if (a->isConst() && a->val > 0) return mkUlt(mkConst(a->val - 1, w), b);
  }
  if (E r = linCmp(a, b, false, true)) return r;
  return intern(O_ULE, 1, a, b);
}
static bool nonNeg(E a) { return a->w <= 64 && a->w > 1 && a->umax < (1ull << (a->w - 1)); }
static bool allNeg(E a) { return a->w <= 64 && a->w > 1 && a->umin >= (1ull << (a->w - 1)); }
E mkSlt(E a, E b) {
  unsigned w = a->w;
  if (a == b) return mkConst(0, 1);
  if (a->isConst() && b->isConst()) return mkConst(sxt(a->val, w) < sxt(b->val, w), 1);
  if (w == 1) return mkAnd(a, mkNot(b));
  if ((nonNeg(a) && nonNeg(b)) || (allNeg(a) && allNeg(b))) return mkUlt(a, b);
  if (nonNeg(a) && allNeg(b)) return mkConst(0, 1);
  if (allNeg(a) && nonNeg(b)) return mkConst(1, 1);
  if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
  if (a->op == O_SEXT && b->isConst()) {
    unsigned n = a->a->w; i128 v = sxt(b->val, w), lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
    if (v > hi) return mkConst(1, 1); if (v <= lo) return mkConst(0, 1);
    return mkSlt(a->a, mkConst((u128)v, n));
  }
  if (b->op == O_SEXT && a->isConst()) {
    unsigned n = b->a->w; i128 v = sxt(a->val, w), lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
    if (v >= hi) return mkConst(0, 1); if (v < lo) return mkConst(1, 1);
    return mkSlt(mkConst((u128)v, n), b->a);
  }
  if (E r = linCmp(a, b, true, false)) return r;
  if (b->isConst() && b->val == 0) return mkExtract(a, w - 1, 1);
  return intern(O_SLT, 1, a, b);
}
E mkSle(E a, E b) {
  unsigned w = a->w;
  if (a == b) return mkConst(1, 1);
  if (a->isConst() && b->isConst()) return mkConst(sxt(a->val, w) <= sxt(b->val, w), 1);
  if (w == 1) return mkNot(mkAnd(b, mkNot(a)));
  if ((nonNeg(a) && nonNeg(b)) || (allNeg(a) && allNeg(b))) return mkUle(a, b);
  if (nonNeg(a) && allNeg(b)) return mkConst(0, 1);
  if (allNeg(a) && nonNeg(b)) return mkConst(1, 1);
  u128 smax = ((u128)1 << (w - 1)) - 1, smin = (u128)1 << (w - 1);
  if (b->isConst()) { if (b->val == smax) return mkConst(1, 1); return mkSlt(a, mkConst(b->val + 1, w)); }
  if (a->isConst()) { if (a->val == smin) return mkConst(1, 1); return mkSlt(mkConst(a->val - 1, w), b); }
  if (E r = linCmp(a, b, true, true)) return r;
  return intern(O_SLE, 1, a, b);
}
E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->val ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (a->isConst() && b->isConst()) return a->val ? c : mkNot(c);
    if (a->isConst()) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (a->op == O_ITE && a->a == c) a = a->b;
  if (b->op == O_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (b->op == O_ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
  if (a->op == O_ITE && a->c == b) return mkIte(mkAnd(c, a->a), a->b, b);
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkZExt(mkIte(c, a->a, b->a), a->w);
  return intern(O_ITE, a->w, c, a, b);
}
// ---------------------------------------------------------------- doubles
static double dbl(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static u128 bitsd(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static E mkD(double d) { return mkConst(bitsd(d), 64); }
struct Dy { E n; int j; int64_t lo, hi; bool ok; };
static const int64_t LIM53 = 1ll << 53;
static Dy dyOf(E x) {
  Dy d{nullptr, 0, 0, 0, false};
  if (x->isConst()) {
    double v = dbl(x->val);
    if (!std::isfinite(v) || (v == 0 && std::signbit(v))) return d;
    int j = 0;
    while (v != std::floor(v) && j < 40) { v *= 2; j++; }
    if (v != std::floor(v) || std::fabs(v) > 9e15) return d;
    int64_t n = (int64_t)v;
    return Dy{mkConst((u128)(i128)n, 64), j, n, n, true};
  }
  if (x->op == O_SI2F && x->val) return Dy{x->a, (int)x->aux, (int64_t)(uint64_t)(x->val >> 64), (int64_t)(uint64_t)x->val, true};
  return d;
}
// what a dyadic was rounded from: round(x) or round(x/c)*1
struct RoundInfo { E src; int64_t div; };
static std::unordered_map<E, RoundInfo> g_round;      // E dyadic (j=0) -> (dyadic source, integer divisor)
static std::unordered_map<E, RoundInfo> g_roundMul;   // E dyadic -> round(src/div)*div
E mkDyadic(E n, int j, int64_t lo, int64_t hi) {
  if (n->isConst()) return mkD(std::ldexp((double)(int64_t)sxt(n->val, 64), -j));
  u128 v = ((u128)(uint64_t)lo << 64) | (uint64_t)hi;
  if (v == 0) { hi = 1; v = 1; }
  Expr *e = const_cast<Expr *>(intern(O_SI2F, 64, n, nullptr, nullptr, v, j));
  return e;
}
static bool align(Dy &a, Dy &b) {
  while (a.j < b.j) { if (llabs(a.lo) > LIM53 || llabs(a.hi) > LIM53) return false; a.n = mkShl(a.n, mkConst(1, 64)); a.lo *= 2; a.hi *= 2; a.j++; }
  while (b.j < a.j) { if (llabs(b.lo) > LIM53 || llabs(b.hi) > LIM53) return false; b.n = mkShl(b.n, mkConst(1, 64)); b.lo *= 2; b.hi *= 2; b.j++; }
  return true;
}
static bool fits(i128 lo, i128 hi) { return lo > -LIM53 && hi < LIM53; }
static std::unordered_map<E, E> g_neg;
// negation of a dyadic stays a dyadic; the sign of a zero result is not modelled (DESIGN.md)
E mkFNeg(E a) {
  Dy x = dyOf(a);
  if (!x.ok || a->isConst()) return mkXor(a, mkConst((u128)1 << 63, 64));
  auto it = g_neg.find(a); if (it != g_neg.end()) return it->second;
  E r = mkDyadic(mkSub(mkConst(0, 64), x.n), x.j, -x.hi, -x.lo); g_neg[r] = a; return r;
}
E mkFAdd(E a, E b) {
  if (a->isConst() && b->isConst()) return mkD(dbl(a->val) + dbl(b->val));
  if (auto it = g_neg.find(b); it != g_neg.end()) return mkFSub(a, it->second);
  if (auto it = g_neg.find(a); it != g_neg.end()) return mkFSub(b, it->second);
  Dy x = dyOf(a), y = dyOf(b);
  if (x.ok && y.ok && align(x, y) && fits((i128)x.lo + y.lo, (i128)x.hi + y.hi)) return mkDyadic(mkAdd(x.n, y.n), x.j, x.lo + y.lo, x.hi + y.hi);
  return intern(O_FADD, 64, a, b);
}
E mkFSub(E a, E b) {
  if (a->isConst() && b->isConst()) return mkD(dbl(a->val) - dbl(b->val));
  Dy x = dyOf(a), y = dyOf(b);
  if (x.ok && y.ok && align(x, y) && fits((i128)x.lo - y.hi, (i128)x.hi - y.lo)) {
    int64_t lo = x.lo - y.hi, hi = x.hi - y.lo;
    auto it = g_round.find(b); auto im = g_roundMul.find(b); int64_t c = 0;
    if (it != g_round.end() && it->second.src == a && it->second.div == 1) c = 1;
    if (im != g_roundMul.end() && im->second.src == a) c = im->second.div;
    if (c) { int64_t h = (c << x.j) / 2 + 1; lo = std::max(lo, -h); hi = std::min(hi, h); } // |x - round(x/c)*c| <= c/2
    return mkDyadic(mkSub(x.n, y.n), x.j, lo, hi);
  }
  return intern(O_FSUB, 64, a, b);
}
E mkFMul(E a, E b) {
  if (a->isConst() && b->isConst()) return mkD(dbl(a->val) * dbl(b->val));
  if (a->isConst()) std::swap(a, b);
  if (auto it = g_neg.find(a); it != g_neg.end() && b->isConst()) return mkFNeg(mkFMul(it->second, b));
  Dy x = dyOf(a), y = dyOf(b);
  if (x.ok && y.ok) {
    i128 p[4] = {(i128)x.lo * y.lo, (i128)x.lo * y.hi, (i128)x.hi * y.lo, (i128)x.hi * y.hi};
    i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
    if (fits(lo, hi) && x.j + y.j < 60) {
      E r = mkDyadic(mkMul(x.n, y.n), x.j + y.j, (int64_t)lo, (int64_t)hi);
      auto it = g_round.find(a);
      if (it != g_round.end() && b->isConst() && y.j == 0 && y.lo == it->second.div) g_roundMul[r] = it->second;
      return r;
    }
  }
  return intern(O_FMUL, 64, a, b);
}
E mkFDiv(E a, E b) {
  if (a->isConst() && b->isConst()) return mkD(dbl(a->val) / dbl(b->val));
  return intern(O_FDIV, 64, a, b);
}
// round-half-away of n/D for a positive constant D
static E roundDivE(E n, int64_t D) {
  { Lin q, r; Lin x = linOf(n); // n = D*q + r with |r| < D/2
    if (x.exact && D > 2) {
      q = Lin{0, {}, 0, 0, true, false}; r = q;
      for (auto &p : x.t) { if (p.second % D == 0) q.t.push_back({p.first, p.second / D}); else r.t.push_back(p); }
      r.c = 0; linRange(r); q.c = floorDiv(2 * (x.c + (r.lo + r.hi) / 2) + D, 2 * (i128)D); r.c = x.c - D * q.c; linRange(r);
      if (2 * r.lo > -(i128)D && 2 * r.hi < (i128)D) return linExpr(q, 64);
      if (r.t.empty() && 2 * r.c == -(i128)D) { r.c += D; q.c -= 1; }
      if (r.t.empty() && 2 * r.c == (i128)D) { E e = linExpr(q, 64); return mkIte(mkSlt(n, mkConst(0, 64)), e, mkAdd(e, mkConst(1, 64))); }
    }
  }
  E neg = mkSlt(n, mkConst(0, 64));
  E m = mkIte(neg, mkSub(mkConst(0, 64), n), n);
  E q = mkUDiv(mkAdd(mkShl(m, mkConst(1, 64)), mkConst(D, 64)), mkConst((u128)2 * D, 64));
  return mkIte(neg, mkSub(mkConst(0, 64), q), q);
}
E mkFUn(Op op, E a) {
  if (a->isConst()) {
    double d = dbl(a->val);
    switch (op) { case O_FROUND: return mkD(std::round(d)); case O_FTRUNC: return mkD(std::trunc(d)); case O_FFLOOR: return mkD(std::floor(d)); case O_FCEIL: return mkD(std::ceil(d)); default: break; }
  }
  Dy x = dyOf(a);
  if (x.ok && x.j == 0) return a;
  if (op == O_FROUND) {
    const int64_t L52 = 1ll << 52;
    if (x.ok && x.lo > -L52 && x.hi < L52) {
      int64_t D = 1ll << x.j;
      E r = mkDyadic(roundDivE(x.n, D), 0, x.lo / D - 1, x.hi / D + 1);
      g_round[r] = {a, 1};
      return r;
    }
    if (a->op == O_FDIV) {
      Dy p = dyOf(a->a), q = dyOf(a->b);
      // |n| < 2^52 and integer divisor: the rounded quotient cannot be carried across a half integer (DESIGN.md)
      if (p.ok && q.ok && a->b->isConst() && q.j == 0 && q.lo > 0 && p.lo > -L52 && p.hi < L52 && q.lo < (1ll << 20) && p.j < 20) {
        int64_t D = q.lo << p.j;
        E r = mkDyadic(roundDivE(p.n, D), 0, p.lo / D - 1, p.hi / D + 1);
        g_round[r] = {a->a, q.lo};
        return r;
      }
    }
  }
  if (x.ok) {
    E n = x.n; E sh = mkConst(x.j, 64); int64_t D = 1ll << x.j;
    E fl = mkAShr(n, sh);
    if (op == O_FFLOOR) return mkDyadic(fl, 0, x.lo / D - 1, x.hi / D + 1);
    E inexact = mkNot(mkEq(mkExtract(n, 0, x.j), mkConst(0, x.j)));
    E up = mkAdd(fl, mkZExt(inexact, 64));
    if (op == O_FCEIL) return mkDyadic(up, 0, x.lo / D - 1, x.hi / D + 1);
    if (op == O_FTRUNC) return mkDyadic(mkIte(mkSlt(n, mkConst(0, 64)), up, fl), 0, x.lo / D - 1, x.hi / D + 1);
  }
  return intern(op, 64, a);
}
E mkFAbs(E a) {
  Dy x = dyOf(a);
  if (x.ok && !a->isConst()) {
    if (x.lo >= 0) return a;
    E neg = mkSub(mkConst(0, 64), x.n);
    if (x.hi <= 0) return mkDyadic(neg, x.j, -x.hi, -x.lo);
    return mkDyadic(mkIte(mkSlt(x.n, mkConst(0, 64)), neg, x.n), x.j, 0, std::max(-x.lo, x.hi));
  }
  return mkAnd(a, mkConst(((u128)1 << 63) - 1, 64));
}
E mkFIsNan(E a) {
  if (dyOf(a).ok) return mkConst(0, 1);
  return mkUlt(mkConst(0x7ff0000000000000ull, 63), mkExtract(a, 0, 63));
}
static E ordKey(E a) { // maps non-NaN doubles to unsigned integers in order, -0 below +0
  E s = mkExtract(a, 63, 1);
  return mkIte(s, mkNot(a), mkOr(a, mkConst((u128)1 << 63, 64)));
}
static E bothZero(E a, E b) { return mkAnd(mkEq(mkExtract(a, 0, 63), mkConst(0, 63)), mkEq(mkExtract(b, 0, 63), mkConst(0, 63))); }
E mkFOeq(E a, E b) {
  Dy x = dyOf(a), y = dyOf(b);
  if (x.ok && y.ok && x.j == y.j && (x.lo > y.hi || y.lo > x.hi)) return mkConst(0, 1);
  if (x.ok && y.ok && align(x, y)) return mkEq(x.n, y.n);
  return mkAnd(mkAnd(mkNot(mkFIsNan(a)), mkNot(mkFIsNan(b))), mkOr(mkEq(a, b), bothZero(a, b)));
}
E mkFOlt(E a, E b) {
  Dy x = dyOf(a), y = dyOf(b);
  if (x.ok && y.ok) { long double xl = ldexpl(x.lo, -x.j), xh = ldexpl(x.hi, -x.j), yl = ldexpl(y.lo, -y.j), yh = ldexpl(y.hi, -y.j); if (xh < yl) return mkConst(1, 1); if (xl >= yh) return mkConst(0, 1); }
  if (x.ok && y.ok && align(x, y)) return mkSlt(x.n, y.n);
  return mkAnd(mkAnd(mkNot(mkFIsNan(a)), mkNot(mkFIsNan(b))), mkAnd(mkUlt(ordKey(a), ordKey(b)), mkNot(bothZero(a, b))));
}
E mkFOle(E a, E b) { return mkOr(mkFOlt(a, b), mkFOeq(a, b)); }
E mkSI2F(E a) {
  unsigned w = a->w;
  if (a->isConst()) return mkD((double)(int64_t)sxt(a->val, w));
  if (w <= 53) return mkDyadic(mkSExt(a, 64), 0, -(1ll << (w - 1)), (1ll << (w - 1)) - 1);
  E e = mkSExt(a, 64);
  if (e->umax < (uint64_t)LIM53) return mkDyadic(e, 0, (int64_t)e->umin, (int64_t)e->umax);
  return intern(O_SI2F, 64, e, nullptr, nullptr, 0, 0);
}
E mkUI2F(E a) {
  unsigned w = a->w;
  if (a->isConst()) return mkD((double)(uint64_t)a->val);
  if (w <= 52) return mkDyadic(mkZExt(a, 64), 0, 0, (int64_t)mask64(w));
  E e = mkZExt(a, 64);
  if (e->umax < (uint64_t)LIM53) return mkDyadic(e, 0, (int64_t)e->umin, (int64_t)e->umax);
  return intern(O_UI2F, 64, e);
}
E mkF2SI(E a, unsigned w) {
  if (a->isConst()) {
    double d = dbl(a->val);
    if (std::isnan(d) || d >= 9.2233720368547758e18 || d < -9.2233720368547758e18) return mkConst((u128)1 << (w - 1), w);
    return mkConst((u128)(i128)(int64_t)d, w);
  }
  Dy x = dyOf(a);
  if (x.ok) {
    E t = x.j ? dyOf(mkFUn(O_FTRUNC, a)).n : x.n;
    if (!t && x.j) { Dy y = dyOf(mkFUn(O_FTRUNC, a)); t = y.n; }
    if (t) return w < 64 ? mkExtract(t, 0, w) : t;
  }
  return intern(O_F2SI, w, a);
}
E mkF2UI(E a, unsigned w) {
  if (a->isConst()) return mkConst((u128)(uint64_t)dbl(a->val), w);
  Dy x = dyOf(a);
  if (x.ok) return mkF2SI(a, w);
  return intern(O_F2UI, w, a);
}
// ---------------------------------------------------------------- evaluation
static uint64_t g_stamp = 0;
static u128 ev(E e, const Model &m) {
  if (e->op == O_CONST) return e->val;
  if (e->stamp == g_stamp) return e->ev;
  u128 r = 0; unsigned w = e->w;
  switch (e->op) {
  case O_SYM: r = e->aux < m.size() ? m[e->aux] : 0; break;
  case O_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
  case O_EXTRACT: r = ev(e->a, m) >> e->aux; break;
  case O_ZEXT: case O_RNG: r = ev(e->a, m); break;
  case O_SEXT: r = (u128)sxt(ev(e->a, m), e->a->w); break;
  case O_ADD: r = ev(e->a, m) + ev(e->b, m); break;
  case O_MUL: r = ev(e->a, m) * ev(e->b, m); break;
  case O_UDIV: { u128 d = ev(e->b, m); r = d ? ev(e->a, m) / d : maskw(w); break; }
  case O_UREM: { u128 d = ev(e->b, m); r = d ? ev(e->a, m) % d : ev(e->a, m); break; }
  case O_SDIV: { i128 d = sxt(ev(e->b, m), w), n = sxt(ev(e->a, m), w); r = d ? (u128)(n / d) : (n < 0 ? 1 : maskw(w)); break; }
  case O_SREM: { i128 d = sxt(ev(e->b, m), w), n = sxt(ev(e->a, m), w); r = d ? (u128)(n % d) : (u128)n; break; }
  case O_AND: r = ev(e->a, m); if (r || w > 1) r &= ev(e->b, m); break;
  case O_OR: r = ev(e->a, m) | ev(e->b, m); break;
  case O_XOR: r = ev(e->a, m) ^ ev(e->b, m); break;
  case O_SHL: { u128 k = ev(e->b, m); r = k >= w ? 0 : ev(e->a, m) << (unsigned)k; break; }
  case O_LSHR: { u128 k = ev(e->b, m); r = k >= w ? 0 : ev(e->a, m) >> (unsigned)k; break; }
  case O_ASHR: { u128 k = ev(e->b, m); i128 x = sxt(ev(e->a, m), w); r = (u128)(x >> (unsigned)(k >= w ? w - 1 : k)); break; }
  case O_EQ: r = ev(e->a, m) == ev(e->b, m); break;
  case O_ULT: r = ev(e->a, m) < ev(e->b, m); break;
  case O_ULE: r = ev(e->a, m) <= ev(e->b, m); break;
  case O_SLT: r = sxt(ev(e->a, m), e->a->w) < sxt(ev(e->b, m), e->a->w); break;
  case O_SLE: r = sxt(ev(e->a, m), e->a->w) <= sxt(ev(e->b, m), e->a->w); break;
  case O_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
  case O_FADD: r = bitsd(dbl(ev(e->a, m)) + dbl(ev(e->b, m))); break;
  case O_FSUB: r = bitsd(dbl(ev(e->a, m)) - dbl(ev(e->b, m))); break;
  case O_FMUL: r = bitsd(dbl(ev(e->a, m)) * dbl(ev(e->b, m))); break;
  case O_FDIV: r = bitsd(dbl(ev(e->a, m)) / dbl(ev(e->b, m))); break;
  case O_FROUND: r = bitsd(std::round(dbl(ev(e->a, m)))); break;
  case O_FTRUNC: r = bitsd(std::trunc(dbl(ev(e->a, m)))); break;
  case O_FFLOOR: r = bitsd(std::floor(dbl(ev(e->a, m)))); break;
  case O_FCEIL: r = bitsd(std::ceil(dbl(ev(e->a, m)))); break;
  case O_SI2F: r = bitsd(std::ldexp((double)(int64_t)sxt(ev(e->a, m), 64), -(int)e->aux)); break;
  case O_UI2F: r = bitsd((double)(uint64_t)ev(e->a, m)); break;
  case O_F2SI: r = mkF2SI(mkConst(ev(e->a, m), 64), w)->val; break;
  case O_F2UI: r = mkF2UI(mkConst(ev(e->a, m), 64), w)->val; break;
  default: abort();
  }
  r &= maskw(w);
  e->stamp = g_stamp; e->ev = r;
  return r;
}
u128 evalE(E e, const Model &m) { if (e->isConst()) return e->val; ++g_stamp; return ev(e, m); }
std::string showE(E e, int d) {
  static const char *nm[] = {"const", "sym", "concat", "extract", "zext", "sext", "add", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "rng", "fadd", "fsub", "fmul", "fdiv", "fround", "ftrunc", "ffloor", "fceil", "si2f", "ui2f", "f2si", "f2ui"};
  if (e->isConst()) { char b[40]; snprintf(b, 40, "%#llx", (unsigned long long)e->val); return std::string(b) + ":" + std::to_string(e->w); }
  if (e->op == O_SYM) return "s" + std::to_string(e->aux);
  if (d == 0) return "...";
  std::string s = std::string("(") + nm[e->op];
  if (e->op == O_EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + showE(x, d - 1);
  return s + ")";
}
