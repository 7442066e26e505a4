#include "solver.hpp"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <unistd.h>
SolverStats g_ss;
unsigned g_queryTimeoutMs = 60000;
static Z3_context Z;
static Z3_sort DBL;
static bool g_fp;
static void onErr(Z3_context z, Z3_error_code c) { fprintf(stderr, "z3 error %d %s\n", (int)c, Z3_get_error_msg(z, c)); fflush(stderr); _exit(97); }
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context(cfg); // every term lives as long as the context
  Z3_del_config(cfg);
  Z3_set_error_handler(Z, onErr);
  DBL = Z3_mk_fpa_sort_64(Z);
  Z3_inc_ref(Z, (Z3_ast)DBL);
}
static Z3_ast tr(E e);
static Z3_ast bv(E e) { // as bit-vector
  Z3_ast x = tr(e);
  if (e->w != 1) return x;
  Z3_sort s = Z3_mk_bv_sort(Z, 1);
  return Z3_mk_ite(Z, x, Z3_mk_unsigned_int64(Z, 1, s), Z3_mk_unsigned_int64(Z, 0, s));
}
static Z3_ast rne() { return Z3_mk_fpa_rne(Z); }
static Z3_ast fp(E e) { return Z3_mk_fpa_to_fp_bv(Z, bv(e), DBL); }
static Z3_ast num(u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(Z, w);
  if (w <= 64) return Z3_mk_unsigned_int64(Z, (uint64_t)v, s);
  Z3_ast hi = Z3_mk_unsigned_int64(Z, (uint64_t)(v >> 64), Z3_mk_bv_sort(Z, w - 64));
  Z3_ast lo = Z3_mk_unsigned_int64(Z, (uint64_t)v, Z3_mk_bv_sort(Z, 64));
  return Z3_mk_concat(Z, hi, lo);
}
static Z3_ast boolOfBit(Z3_ast b) { return Z3_mk_eq(Z, b, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1))); }
static Z3_ast tr(E e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r = nullptr;
  bool one = e->w == 1;
  switch (e->op) {
  case O_CONST: r = one ? (e->val ? Z3_mk_true(Z) : Z3_mk_false(Z)) : num(e->val, e->w); break;
  case O_SYM: r = Z3_mk_const(Z, Z3_mk_int_symbol(Z, e->aux), Z3_mk_bv_sort(Z, 8)); break;
  case O_CONCAT: r = Z3_mk_concat(Z, bv(e->a), bv(e->b)); break;
  case O_EXTRACT: r = Z3_mk_extract(Z, e->aux + e->w - 1, e->aux, bv(e->a)); if (one) r = boolOfBit(r); break;
  case O_ZEXT: if (e->a->w == 1) r = Z3_mk_ite(Z, tr(e->a), num(1, e->w), num(0, e->w)); else r = Z3_mk_zero_ext(Z, e->w - e->a->w, tr(e->a)); break;
  case O_SEXT: if (e->a->w == 1) r = Z3_mk_ite(Z, tr(e->a), num(maskw(e->w), e->w), num(0, e->w)); else r = Z3_mk_sign_ext(Z, e->w - e->a->w, tr(e->a)); break;
  case O_RNG: r = tr(e->a); break;
  case O_ADD: r = Z3_mk_bvadd(Z, bv(e->a), bv(e->b)); break;
  case O_MUL: r = (e->b->isConst() && e->b->val == maskw(e->w)) ? Z3_mk_bvneg(Z, bv(e->a)) : Z3_mk_bvmul(Z, bv(e->a), bv(e->b)); break;
  case O_UDIV: r = Z3_mk_bvudiv(Z, bv(e->a), bv(e->b)); break;
  case O_SDIV: r = Z3_mk_bvsdiv(Z, bv(e->a), bv(e->b)); break;
  case O_UREM: r = Z3_mk_bvurem(Z, bv(e->a), bv(e->b)); break;
  case O_SREM: r = Z3_mk_bvsrem(Z, bv(e->a), bv(e->b)); break;
  case O_AND: if (one) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_and(Z, 2, x); } else r = Z3_mk_bvand(Z, bv(e->a), bv(e->b)); break;
  case O_OR: if (one) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_or(Z, 2, x); } else r = Z3_mk_bvor(Z, bv(e->a), bv(e->b)); break;
  case O_XOR:
    if (one) r = e->b->isConst() ? Z3_mk_not(Z, tr(e->a)) : Z3_mk_xor(Z, tr(e->a), tr(e->b));
    else if (e->b->isConst() && e->b->val == maskw(e->w)) r = Z3_mk_bvnot(Z, bv(e->a));
    else r = Z3_mk_bvxor(Z, bv(e->a), bv(e->b));
    break;
  case O_SHL: r = Z3_mk_bvshl(Z, bv(e->a), bv(e->b)); break;
  case O_LSHR: r = Z3_mk_bvlshr(Z, bv(e->a), bv(e->b)); break;
  case O_ASHR: r = Z3_mk_bvashr(Z, bv(e->a), bv(e->b)); break;
  case O_EQ: r = Z3_mk_eq(Z, tr(e->a), tr(e->b)); break;
  case O_ULT: r = Z3_mk_bvult(Z, bv(e->a), bv(e->b)); break;
  case O_ULE: r = Z3_mk_bvule(Z, bv(e->a), bv(e->b)); break;
  case O_SLT: r = Z3_mk_bvslt(Z, bv(e->a), bv(e->b)); break;
  case O_SLE: r = Z3_mk_bvsle(Z, bv(e->a), bv(e->b)); break;
  case O_ITE: r = Z3_mk_ite(Z, tr(e->a), tr(e->b), tr(e->c)); break;
  case O_FADD: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_add(Z, rne(), fp(e->a), fp(e->b))); break;
  case O_FSUB: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_sub(Z, rne(), fp(e->a), fp(e->b))); break;
  case O_FMUL: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_mul(Z, rne(), fp(e->a), fp(e->b))); break;
  case O_FDIV: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_div(Z, rne(), fp(e->a), fp(e->b))); break;
  case O_FROUND: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rna(Z), fp(e->a))); break;
  case O_FTRUNC: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtz(Z), fp(e->a))); break;
  case O_FFLOOR: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtn(Z), fp(e->a))); break;
  case O_FCEIL: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtp(Z), fp(e->a))); break;
  case O_SI2F: {
    Z3_ast d = Z3_mk_fpa_to_fp_signed(Z, rne(), bv(e->a), DBL);
    if (e->aux) d = Z3_mk_fpa_mul(Z, rne(), d, Z3_mk_fpa_numeral_double(Z, __builtin_ldexp(1.0, -(int)e->aux), DBL));
    r = Z3_mk_fpa_to_ieee_bv(Z, d); break; }
  case O_UI2F: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_unsigned(Z, rne(), bv(e->a), DBL)); break;
  case O_F2SI: { // x86-style result on overflow and NaN
    Z3_ast d = fp(e->a);
    Z3_ast lo = Z3_mk_fpa_numeral_double(Z, -__builtin_ldexp(1.0, 63), DBL), hi = Z3_mk_fpa_numeral_double(Z, __builtin_ldexp(1.0, 63), DBL);
    Z3_ast in[2] = {Z3_mk_fpa_geq(Z, d, lo), Z3_mk_fpa_lt(Z, d, hi)};
    Z3_ast v = Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), d, 64);
    r = Z3_mk_ite(Z, Z3_mk_and(Z, 2, in), v, num((u128)1 << 63, 64));
    if (e->w < 64) r = Z3_mk_extract(Z, e->w - 1, 0, r);
    break; }
  case O_F2UI: r = Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), fp(e->a), e->w); break;
  }
  Z3_inc_ref(Z, r);
  e->z3 = r;
  return r;
}
static bool intersects(const SymSet *a, const std::vector<char> &in) { for (auto s : a->v) if (s < in.size() && in[s]) return true; return false; }
static void slice(const std::vector<E> &cons, E extra, std::vector<E> &out) {
  static std::vector<char> in; in.assign(in.size(), 0);
  auto add = [&](const SymSet *s) { for (auto x : s->v) { if (x >= in.size()) in.resize(x + 256, 0); in[x] = 1; } };
  add(extra->syms);
  std::vector<char> used(cons.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cons.size(); i++)
      if (!used[i] && intersects(cons[i]->syms, in)) { used[i] = 1; add(cons[i]->syms); ch = true; }
  }
  for (size_t i = 0; i < cons.size(); i++) if (used[i]) out.push_back(cons[i]);
}
struct CacheEnt { SolveR r; std::vector<std::pair<uint32_t, uint8_t>> vals; };
static std::unordered_map<uint64_t, std::vector<std::pair<std::vector<E>, CacheEnt>>> g_cache;
static bool usesFP(E e, std::set<E> &seen) {
  if (!e || e->isConst() || e->op == O_SYM || !seen.insert(e).second) return false;
  if (e->op >= O_FADD) return true;
  return usesFP(e->a, seen) || usesFP(e->b, seen) || usesFP(e->c, seen);
}
SolveR solve(const std::vector<E> &cons, E extra, Model &m) {
  if (extra->isConst() && !extra->val) return S_UNSAT;
  std::vector<E> q;
  slice(cons, extra, q);
  q.push_back(extra);
  std::sort(q.begin(), q.end(), [](E a, E b) { return a->id < b->id; });
  q.erase(std::unique(q.begin(), q.end()), q.end());
  uint64_t h = 1469598103934665603ull;
  for (auto e : q) h = (h ^ e->id) * 1099511628211ull;
  auto &bucket = g_cache[h];
  for (auto &p : bucket) if (p.first == q) {
    g_ss.cacheHits++;
    if (p.second.r == S_SAT) for (auto &v : p.second.vals) { if (v.first >= m.size()) m.resize(v.first + 64, 0); m[v.first] = v.second; }
    return p.second.r;
  }
  static bool dbg = getenv("SYMEX_Q"); if (dbg) { fprintf(stderr, "Q n=%zu", q.size()); for (auto e : q) if (e != extra) fprintf(stderr, "\n   C %s", showE(e, 9).c_str()); fprintf(stderr, "\n   X %s\n", showE(extra, 9).c_str()); }
  auto t0 = std::chrono::steady_clock::now();
  CacheEnt ce; bool done = false;
  std::set<uint32_t> syms;
  for (auto e : q) syms.insert(e->syms->v.begin(), e->syms->v.end());
  if (syms.size() == 1) { // one byte: decide by complete case distinction
    uint32_t id = *syms.begin(); Model t = m; if (id >= t.size()) t.resize(id + 64, 0);
    unsigned start = t[id]; ce.r = S_UNSAT;
    for (unsigned i = 0; i < 256; i++) { t[id] = (uint8_t)(start + i); bool ok = true; for (auto e : q) if (!evalE(e, t)) { ok = false; break; } if (ok) { ce.r = S_SAT; ce.vals.push_back({id, t[id]}); break; } }
    if (ce.r == S_SAT) { if (id >= m.size()) m.resize(id + 64, 0); m[id] = ce.vals[0].second; }
    done = true; g_ss.bytecases++;
  }
  if (!done) {
  std::set<E> seen; bool fpq = false;
  for (auto e : q) if (usesFP(e, seen)) { fpq = true; break; }
  static Z3_solver inc; static unsigned incN = 0;
  auto readModel = [&](Z3_solver s) {
    Z3_model zm = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, zm);
    for (auto id : syms) {
      Z3_ast v = nullptr; uint64_t x = 0;
      if (Z3_model_eval(Z, zm, tr(mkSym(id)), true, &v)) Z3_get_numeral_uint64(Z, v, &x);
      ce.vals.push_back({id, (uint8_t)x});
    }
    Z3_model_dec_ref(Z, zm);
  };
  auto setTimeout = [&](Z3_solver s, unsigned ms) { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), ms); Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p); };
  Z3_lbool r = Z3_L_UNDEF;
  if (!fpq) { // incremental core first: small queries take a fraction of a millisecond
    if (!inc || ++incN > 4000) { if (inc) Z3_solver_dec_ref(Z, inc); inc = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, inc); setTimeout(inc, std::min(g_queryTimeoutMs, 1500u)); incN = 0; }
    Z3_solver_push(Z, inc);
    for (auto e : q) Z3_solver_assert(Z, inc, tr(e));
    r = Z3_solver_check(Z, inc);
    if (r == Z3_L_TRUE) readModel(inc);
    Z3_solver_pop(Z, inc, 1);
  }
  if (r == Z3_L_UNDEF) {
    Z3_solver s = fpq ? Z3_mk_solver(Z) : Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
    Z3_solver_inc_ref(Z, s); setTimeout(s, g_queryTimeoutMs);
    for (auto e : q) Z3_solver_assert(Z, s, tr(e));
    r = Z3_solver_check(Z, s);
    if (r == Z3_L_TRUE) readModel(s);
    Z3_solver_dec_ref(Z, s);
  }
  ce.r = r == Z3_L_TRUE ? S_SAT : r == Z3_L_FALSE ? S_UNSAT : S_UNKNOWN;
  if (ce.r == S_SAT) {
    for (auto &v : ce.vals) { if (v.first >= m.size()) m.resize(v.first + 64, 0); m[v.first] = v.second; }
    for (auto e : q) if (!evalE(e, m)) { fprintf(stderr, "solver model does not satisfy: %s\n", showE(e, 8).c_str()); ce.r = S_UNKNOWN; break; }
  }
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.seconds += dt; g_ss.queries++; if (dt > g_ss.maxs) g_ss.maxs = dt;
  if (dt > 5 && getenv("SYMEX_SLOW")) { fprintf(stderr, "slow query %.1fs r=%d\n%s\n", dt, ce.r, showE(extra, 12).c_str()); }
  if (ce.r == S_SAT) g_ss.sat++; else if (ce.r == S_UNSAT) g_ss.unsat++; else g_ss.unknown++;
  if (ce.r != S_UNKNOWN) { if (g_cache.size() < 2000000) bucket.push_back({q, ce}); }
  return ce.r;
}
std::string dumpSmt2(const std::vector<E> &cons, E extra) {
  std::vector<E> q; slice(cons, extra, q); q.push_back(extra);
  Z3_solver s = Z3_mk_solver(Z); Z3_solver_inc_ref(Z, s);
  for (auto e : q) Z3_solver_assert(Z, s, tr(e));
  std::string r = Z3_solver_to_string(Z, s);
  Z3_solver_dec_ref(Z, s);
  return r + "\n(check-sat)\n";
}
