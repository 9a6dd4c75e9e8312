// Hash-consed bit-vector expressions (width 1..64) with local simplification,
// concrete evaluation under a model and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

enum Kind : u8 {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_CONCAT,   // k0 high, k1 low
  K_EXTRACT,  // cval = low bit
  K_ZEXT, K_SEXT, K_ITE
};

struct Expr {
  Kind kind; u8 width; u8 nk; u8 flags;
  u32 id;
  u64 cval;        // constant / var index / extract offset
  const Expr* k[3];
  u64 umax;        // unsigned upper bound
  u64 z, o;        // bits known to be 0 / 1
  mutable Z3_ast z3;
  mutable u32 epoch; mutable u64 val;
  Expr* next;
};
typedef const Expr* E;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct VarInfo { std::string name; unsigned width; bool undef; E e; };
extern std::vector<VarInfo> g_vars;

E mkConst(u64 v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool undef);
E mkBin(Kind k, E a, E b);
E mkNot(E a);        // width-1 negation
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
extern bool g_keepArith;
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkConcat(E hi, E lo);
u64 evalBin(Kind k, u64 a, u64 b, unsigned w);
u64 evalE(E e, const std::vector<u64>& model);
void collectVars(E e, std::vector<u32>& out);
extern Z3_context g_z3;
Z3_ast toZ3(E e);
std::string exprStr(E e, int depth = 6);
extern u64 g_exprCount;
