// Hash-consed bit-vector expressions over symbolic bytes; width 1 is bool.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <string>
#include <vector>
#include <unordered_map>
typedef unsigned __int128 u128;
typedef __int128 i128;
enum Op : uint8_t {
  O_CONST, O_SYM, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_RNG, // O_RNG: a, known to be at most val
  // IEEE doubles, on their 64-bit patterns
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FROUND, O_FTRUNC, O_FFLOOR, O_FCEIL, O_SI2F, O_UI2F, O_F2SI, O_F2UI
};
struct SymSet { std::vector<uint32_t> v; uint32_t id; };
struct Expr {
  Op op; uint16_t w; uint32_t id; uint32_t aux;   // aux: symbol id or extract offset
  const Expr *a, *b, *c;
  u128 val;
  uint64_t umin, umax, pm;                        // unsigned range and possibly-one mask (w<=64)
  const SymSet *syms;
  mutable void *z3; mutable uint64_t stamp; mutable u128 ev;
  bool isConst() const { return op == O_CONST; }
  uint64_t u64() const { return (uint64_t)val; }
};
typedef const Expr *E;
typedef std::vector<uint8_t> Model;               // value of symbol i
inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i128 sxt(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ s) - s); }

E mkConst(u128 v, unsigned w);
E mkSym(uint32_t id);
bool constIte(E x);
E mkRng(E x, uint64_t hi);
E mkConcat(E hi, E lo);
E mkExtract(E x, unsigned lo, unsigned w);
E mkZExt(E x, unsigned w);
E mkSExt(E x, unsigned w);
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b);
E mkUDiv(E a, E b); E mkSDiv(E a, E b); E mkURem(E a, E b); E mkSRem(E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b);
E mkShl(E a, E b); E mkLShr(E a, E b); E mkAShr(E a, E b);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkIte(E c, E a, E b);
E mkNot(E a);
inline E mkBool(bool b) { return mkConst(b ? 1 : 0, 1); }
inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
u128 evalE(E e, const Model &m);
std::string showE(E e, int depth = 6);
extern uint64_t g_nexprs;

// floating point (double, as 64-bit patterns)
E mkFAdd(E a, E b); E mkFSub(E a, E b); E mkFMul(E a, E b); E mkFDiv(E a, E b);
E mkFUn(Op op, E a);
E mkFIsNan(E a); E mkFAbs(E a); E mkFNeg(E a);
E mkFOeq(E a, E b); E mkFOlt(E a, E b); E mkFOle(E a, E b);
E mkSI2F(E a); E mkUI2F(E a); E mkF2SI(E a, unsigned w); E mkF2UI(E a, unsigned w);
// the double n*2^-j for a signed 64-bit n known to lie in [lo,hi]
E mkDyadic(E n, int j, int64_t lo, int64_t hi);
