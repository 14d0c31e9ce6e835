// symx: symbolic executor for the bytecode produced by `lower`.
// One process per path (fork at symbolic branches); z3 decides feasibility and assertions.
#include "sxformat.h"
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <regex.h>
#include <math.h>
#include <atomic>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <string>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16; typedef int64_t i64;
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

// ------------------------------------------------------------------ shared statistics
struct Shared {
  std::atomic<u64> paths, pruned, violations, unsupported, limits, timeouts, instrs, forks, branches,
      z3q, z3sat, z3unsat, z3unk, domq, cacheq, asserts, assertsSolver, assertsConcrete, z3ns, samples, inexact, loads;
  std::atomic<u64> maxdepth, maxinputs, stepmax;
  std::atomic<int> running;
  std::atomic<int> stop;
  std::atomic<u64> vtags[256];
  std::atomic<u64> nviol;
  std::atomic<u64> witness[64];
  char unsupMsg[512];
  char limitMsg[512];
  u8 covered[1 << 17];
};
static Shared* SH;
static double deadline; static u64 stepLimit = 400000000ull; static int maxProc = 8; static u64 maxViol = 40, maxSamples = 6, maxPaths = ~0ull; static int perTag = 3; static std::vector<std::string> onlyTags;
static std::string outDir; static int ubCheck = 1;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool walking = false; static u64 coins = 1; static double walkTime = 0; // after a time-out: random paths from the start, each decided by the solver
static bool isRoot = true; static u64 stepBase = 0; static u64 steps = 0; static u64 depth = 0;

// ------------------------------------------------------------------ expressions
enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT };
struct Expr { u8 op, w; u32 id; u64 val; Expr* k[3]; u32 sup; u32 epoch; u64 ev; Z3_ast z; int dom; };
static std::vector<Expr*> exprs;
static std::unordered_map<u64, std::vector<Expr*>> etab;
static std::vector<std::vector<u32>> sups; static std::map<std::vector<u32>, u32> supId; static std::unordered_map<u64, u32> supUnion;
struct VarInfo { std::string name; unsigned w; Expr* e; };
static std::vector<VarInfo> vars;
static std::vector<u64> model;
static char* earena = nullptr; static size_t eleft = 0;
static u32 supOf(const std::vector<u32>& v) { auto it = supId.find(v); if (it != supId.end()) return it->second; u32 i = sups.size(); sups.push_back(v); supId[v] = i; return i; }
static u32 unionSup(u32 a, u32 b) {
  if (a == b || b == 0) return a; if (a == 0) return b;
  u64 key = a < b ? ((u64)a << 32 | b) : ((u64)b << 32 | a);
  auto it = supUnion.find(key); if (it != supUnion.end()) return it->second;
  std::vector<u32> r; std::set_union(sups[a].begin(), sups[a].end(), sups[b].begin(), sups[b].end(), std::back_inserter(r));
  u32 i = supOf(r); supUnion[key] = i; return i;
}
static Expr* mkRaw(u8 op, unsigned w, u64 val, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr) {
  u64 h = op * 1099511628211ull ^ (w * 7919ull) ^ (val * 0x9E3779B97F4A7C15ull);
  if (a) h = (h ^ a->id) * 0x9E3779B97F4A7C15ull; if (b) h = (h ^ b->id) * 0xC2B2AE3D27D4EB4Full; if (c) h = (h ^ c->id) * 0x165667B19E3779F9ull;
  auto& bucket = etab[h];
  for (Expr* e : bucket) if (e->op == op && e->w == w && e->val == val && e->k[0] == a && e->k[1] == b && e->k[2] == c) return e;
  if (eleft < sizeof(Expr)) { eleft = 1 << 20; earena = (char*)malloc(eleft); }
  Expr* e = (Expr*)earena; earena += sizeof(Expr); eleft -= sizeof(Expr);
  memset(e, 0, sizeof *e); e->op = op; e->w = w; e->val = val; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->id = exprs.size() + 1; e->dom = -1;
  if (a) e->sup = unionSup(e->sup, a->sup); if (b) e->sup = unionSup(e->sup, b->sup); if (c) e->sup = unionSup(e->sup, c->sup);
  exprs.push_back(e); bucket.push_back(e); return e;
}
static Expr* mkConst(u64 v, unsigned w) { return mkRaw(E_CONST, w, v & mask(w)); }
static Expr* mkVar(const std::string& name, unsigned w) {
  u32 id = vars.size();
  Expr* e = mkRaw(E_VAR, w, id); e->sup = supOf({id}); vars.push_back({name, w, e}); model.push_back(0); return e;
}
static u64 foldOp(u8 op, unsigned w, u64 a, u64 b, unsigned kw) {
  u64 m = mask(w);
  switch (op) {
  case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? a / b : m; case E_UREM: return b ? a % b : a;
  case E_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
  case E_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : (a << b) & m; case E_LSHR: return b >= w ? 0 : a >> b;
  case E_ASHR: { i64 x = sx(a, w); return (u64)(b >= w ? (x < 0 ? -1 : 0) : x >> b) & m; }
  case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
  case E_SLT: return sx(a, kw) < sx(b, kw); case E_SLE: return sx(a, kw) <= sx(b, kw);
  }
  return 0;
}
static inline bool isC(Expr* e) { return e->op == E_CONST; }
static Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
static Expr* mkBin(u8 op, Expr* a, Expr* b);
static Expr* mkNot(Expr* a) {
  if (isC(a)) return mkConst(!a->val, 1);
  if (a->op == E_XOR && isC(a->k[1])) return a->k[0];
  if (a->op == E_ULT) return mkBin(E_ULE, a->k[1], a->k[0]);
  if (a->op == E_ULE) return mkBin(E_ULT, a->k[1], a->k[0]);
  if (a->op == E_SLT) return mkBin(E_SLE, a->k[1], a->k[0]);
  if (a->op == E_SLE) return mkBin(E_SLT, a->k[1], a->k[0]);
  return mkRaw(E_XOR, 1, 0, a, mkConst(1, 1));
}
static Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->val ? c : mkNot(c);
    if (isC(a)) return a->val ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot(c), b);
    if (isC(b)) return b->val ? mkBin(E_OR, mkNot(c), a) : mkBin(E_AND, c, a);
  }
  if (c->op == E_XOR && c->w == 1 && isC(c->k[1])) return mkIte(c->k[0], b, a);
  return mkRaw(E_ITE, a->w, 0, c, a, b);
}
static Expr* mkZext(Expr* a, unsigned w) {
  if (a->w == w) return a; if (isC(a)) return mkConst(a->val, w);
  if (a->op == E_ZEXT) return mkZext(a->k[0], w);
  if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->val, w), mkConst(a->k[2]->val, w));
  return mkRaw(E_ZEXT, w, 0, a);
}
static Expr* mkSext(Expr* a, unsigned w) {
  if (a->w == w) return a; if (isC(a)) return mkConst((u64)sx(a->val, a->w), w);
  if (a->op == E_ZEXT) return mkZext(a->k[0], w);
  if (a->op == E_SEXT) return mkSext(a->k[0], w);
  return mkRaw(E_SEXT, w, 0, a);
}
static Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst(hi->val << lo->w | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->val == lo->val + lo->w) return mkExtract(lo->k[0], lo->val, w);
  return mkRaw(E_CONCAT, w, 0, hi, lo);
}
static Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && a->w == w) return a;
  if (isC(a)) return mkConst(a->val >> lo, w);
  switch (a->op) {
  case E_EXTRACT: return mkExtract(a->k[0], a->val + lo, w);
  case E_ZEXT:
    if (lo >= a->k[0]->w) return mkConst(0, w);
    if (lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w);
    return mkZext(mkExtract(a->k[0], lo, a->k[0]->w - lo), w);
  case E_SEXT: if (lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w); if (lo == 0) return mkSext(a->k[0], w); break;
  case E_CONCAT: {
    unsigned lw = a->k[1]->w;
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
  case E_ITE: if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
  case E_AND: case E_OR: case E_XOR: if (isC(a->k[1])) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w)); break;
  case E_ADD: case E_SUB: case E_MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
  }
  return mkRaw(E_EXTRACT, w, lo, a);
}
static Expr* mkBin(u8 op, Expr* a, Expr* b) {
  bool cmp = op >= E_EQ && op <= E_SLE;
  unsigned w = cmp ? 1 : a->w;
  if (isC(a) && isC(b)) return mkConst(foldOp(op, w, a->val, b->val, a->w), w);
  bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
  if (comm && isC(a)) std::swap(a, b);
  u64 m = mask(a->w);
  if (isC(b)) {
    u64 v = b->val;
    switch (op) {
    case E_ADD: if (!v) return a; if (a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, a->k[0], mkConst(a->k[1]->val + v, w)); break;
    case E_SUB: if (!v) return a; return mkBin(E_ADD, a, mkConst(0 - v, w));
    case E_MUL: if (!v) return b; if (v == 1) return a; if ((v & (v - 1)) == 0) return mkBin(E_SHL, a, mkConst(__builtin_ctzll(v), w)); break;
    case E_UDIV: if (v == 1) return a; break;
    case E_AND: if (!v) return b; if (v == m) return a;
      if (a->op == E_ZEXT && (v & mask(a->k[0]->w)) == mask(a->k[0]->w)) return a;
      if ((v & (v + 1)) == 0 && a->op != E_ITE) { unsigned n = 64 - __builtin_clzll(v); return mkZext(mkExtract(a, 0, n), w); }
      break;
    case E_OR: if (!v) return a; if (v == m) return b; break;
    case E_XOR: if (!v) return a; if (w == 1) return mkNot(a); break;
    case E_SHL: case E_LSHR: case E_ASHR: if (!v) return a; if (v >= w && op != E_ASHR) return mkConst(0, w);
      if (op == E_LSHR) return mkZext(mkExtract(a, v, w - v), w);
      if (op == E_SHL) { return mkConcat(mkExtract(a, 0, w - v), mkConst(0, v)); }
      break;
    case E_EQ:
      if (a->w == 1) return v ? a : mkNot(a);
      if (a->op == E_ZEXT) { if (v > mask(a->k[0]->w)) return mkConst(0, 1); return mkBin(E_EQ, a->k[0], mkConst(v, a->k[0]->w)); }
      if (a->op == E_SEXT) { u64 t = v & mask(a->k[0]->w); if ((u64)(sx(t, a->k[0]->w)) % 1 == 0 && ((u64)sx(t, a->k[0]->w) & m) != v) return mkConst(0, 1); return mkBin(E_EQ, a->k[0], mkConst(t, a->k[0]->w)); }
      if (a->op == E_ITE) {
        if (isC(a->k[1]) && isC(a->k[2])) { bool t = a->k[1]->val == v, f = a->k[2]->val == v; if (t && f) return mkConst(1, 1); if (t) return a->k[0]; if (f) return mkNot(a->k[0]); return mkConst(0, 1); }
        if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkBin(E_EQ, a->k[1], b), mkBin(E_EQ, a->k[2], b));
      }
      if (a->op == E_ADD && isC(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(v - a->k[1]->val, a->w));
      if (a->op == E_XOR && isC(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(v ^ a->k[1]->val, a->w));
      if (a->op == E_CONCAT) { unsigned lw = a->k[1]->w; return mkBin(E_AND, mkBin(E_EQ, a->k[0], mkConst(v >> lw, a->k[0]->w)), mkBin(E_EQ, a->k[1], mkConst(v, lw))); }
      break;
    case E_ULT: if (v == 0) return mkConst(0, 1); if (v == 1) return mkBin(E_EQ, a, mkConst(0, a->w));
      if (a->op == E_ZEXT) { if (v > mask(a->k[0]->w)) return mkConst(1, 1); return mkBin(E_ULT, a->k[0], mkConst(v, a->k[0]->w)); }
      if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b)); break;
    case E_ULE: if (v == m) return mkConst(1, 1); return mkBin(E_ULT, a, mkConst(v + 1, a->w));
    case E_SLT: case E_SLE:
      if (a->op == E_ZEXT && a->w > a->k[0]->w) { i64 s = sx(v, a->w); if (s < 0) return mkConst(0, 1); return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b); }
      if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b)); break;
    }
  } else if (isC(a)) {
    u64 v = a->val;
    switch (op) {
    case E_ULT: if (b->op == E_ZEXT) { if (v >= mask(b->k[0]->w)) return mkConst(0, 1); return mkBin(E_ULT, mkConst(v, b->k[0]->w), b->k[0]); } if (v == m) return mkConst(0, 1); break;
    case E_ULE: if (v == 0) return mkConst(1, 1); return mkBin(E_ULT, mkConst(v - 1, b->w), b);
    case E_SLT: case E_SLE: if (b->op == E_ZEXT && b->w > b->k[0]->w) { i64 s = sx(v, b->w); if (s < 0) return mkConst(1, 1); return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b); } break;
    case E_SHL: case E_LSHR: case E_ASHR: case E_UDIV: case E_UREM: if (!v) return a; break;
    }
  }
  if (a == b) switch (op) {
    case E_SUB: case E_XOR: return mkConst(0, w); case E_AND: case E_OR: return a;
    case E_EQ: case E_ULE: case E_SLE: return mkConst(1, 1); case E_ULT: case E_SLT: return mkConst(0, 1); }
  if (op == E_EQ && a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_EQ, a->k[0], b->k[0]);
  if (op == E_EQ && a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_EQ, a->k[0], b->k[0]);
  if (w == 1 && !cmp) { if (op == E_ADD || op == E_SUB) op = E_XOR; if (op == E_MUL) op = E_AND;
    if (op == E_AND || op == E_OR) { if (mkNot(a) == b) return mkConst(op == E_OR, 1); } }
  if (comm && a->id > b->id && !isC(b)) std::swap(a, b);
  return mkRaw(op, w, 0, a, b);
}
// evaluation under the current model
static u32 epoch = 1;
static u64 evalRec(Expr* e, const std::vector<u64>& mdl) {
  if (e->op == E_CONST) return e->val;
  if (e->op == E_VAR) return mdl[e->val] & mask(e->w);
  if (e->epoch == epoch) return e->ev;
  u64 r;
  switch (e->op) {
  case E_ITE: r = evalRec(e->k[0], mdl) ? evalRec(e->k[1], mdl) : evalRec(e->k[2], mdl); break;
  case E_ZEXT: r = evalRec(e->k[0], mdl); break;
  case E_SEXT: r = (u64)sx(evalRec(e->k[0], mdl), e->k[0]->w) & mask(e->w); break;
  case E_EXTRACT: r = (evalRec(e->k[0], mdl) >> e->val) & mask(e->w); break;
  case E_CONCAT: r = evalRec(e->k[0], mdl) << e->k[1]->w | evalRec(e->k[1], mdl); break;
  default: r = foldOp(e->op, e->w, evalRec(e->k[0], mdl), evalRec(e->k[1], mdl), e->k[0]->w);
  }
  e->epoch = epoch; e->ev = r; return r;
}
static u64 eval(Expr* e) { epoch++; return evalRec(e, model); }

// ------------------------------------------------------------------ z3
static Z3_context Z; static Z3_solver ZS;
static Z3_ast zconst(u64 v, unsigned w) { return Z3_mk_unsigned_int64(Z, v, Z3_mk_bv_sort(Z, w)); }
static Z3_ast toZ3(Expr* e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr, a = nullptr, b = nullptr;
  bool kb = e->k[0] && e->k[0]->w == 1;
  if (e->op != E_CONST && e->op != E_VAR && e->op != E_ITE) { a = toZ3(e->k[0]); if (e->k[1]) b = toZ3(e->k[1]); }
  switch (e->op) {
  case E_CONST: r = e->w == 1 ? (e->val ? Z3_mk_true(Z) : Z3_mk_false(Z)) : zconst(e->val, e->w); break;
  case E_VAR: { Z3_symbol s = Z3_mk_int_symbol(Z, e->val); r = Z3_mk_const(Z, s, e->w == 1 ? Z3_mk_bool_sort(Z) : Z3_mk_bv_sort(Z, e->w)); break; }
  case E_ADD: r = Z3_mk_bvadd(Z, a, b); break; case E_SUB: r = Z3_mk_bvsub(Z, a, b); break; case E_MUL: r = Z3_mk_bvmul(Z, a, b); break;
  case E_UDIV: r = Z3_mk_bvudiv(Z, a, b); break; case E_SDIV: r = Z3_mk_bvsdiv(Z, a, b); break;
  case E_UREM: r = Z3_mk_bvurem(Z, a, b); break; case E_SREM: r = Z3_mk_bvsrem(Z, a, b); break;
  case E_AND: { Z3_ast x[2] = {a, b}; r = e->w == 1 ? Z3_mk_and(Z, 2, x) : Z3_mk_bvand(Z, a, b); break; }
  case E_OR: { Z3_ast x[2] = {a, b}; r = e->w == 1 ? Z3_mk_or(Z, 2, x) : Z3_mk_bvor(Z, a, b); break; }
  case E_XOR: r = e->w == 1 ? (isC(e->k[1]) ? Z3_mk_not(Z, a) : Z3_mk_xor(Z, a, b)) : Z3_mk_bvxor(Z, a, b); break;
  case E_SHL: r = Z3_mk_bvshl(Z, a, b); break; case E_LSHR: r = Z3_mk_bvlshr(Z, a, b); break; case E_ASHR: r = Z3_mk_bvashr(Z, a, b); break;
  case E_EQ: r = Z3_mk_eq(Z, a, b); break;
  case E_ULT: if (kb) { Z3_ast x[2] = {Z3_mk_not(Z, a), b}; r = Z3_mk_and(Z, 2, x); } else r = Z3_mk_bvult(Z, a, b); break;
  case E_ULE: if (kb) { Z3_ast x[2] = {Z3_mk_not(Z, a), b}; r = Z3_mk_or(Z, 2, x); } else r = Z3_mk_bvule(Z, a, b); break;
  case E_SLT: if (kb) { Z3_ast x[2] = {a, Z3_mk_not(Z, b)}; r = Z3_mk_and(Z, 2, x); } else r = Z3_mk_bvslt(Z, a, b); break;
  case E_SLE: if (kb) { Z3_ast x[2] = {a, Z3_mk_not(Z, b)}; r = Z3_mk_or(Z, 2, x); } else r = Z3_mk_bvsle(Z, a, b); break;
  case E_ITE: r = Z3_mk_ite(Z, toZ3(e->k[0]), toZ3(e->k[1]), toZ3(e->k[2])); break;
  case E_ZEXT: r = kb ? Z3_mk_ite(Z, a, zconst(1, e->w), zconst(0, e->w)) : Z3_mk_zero_ext(Z, e->w - e->k[0]->w, a); break;
  case E_SEXT: r = kb ? Z3_mk_ite(Z, a, zconst(mask(e->w), e->w), zconst(0, e->w)) : Z3_mk_sign_ext(Z, e->w - e->k[0]->w, a); break;
  case E_EXTRACT: r = Z3_mk_extract(Z, e->val + e->w - 1, e->val, a); if (e->w == 1) r = Z3_mk_eq(Z, r, zconst(1, 1)); break;
  case E_CONCAT: { auto bv = [&](Expr* x, Z3_ast z) { return x->w == 1 ? Z3_mk_ite(Z, z, zconst(1, 1), zconst(0, 1)) : z; };
    r = Z3_mk_concat(Z, bv(e->k[0], a), bv(e->k[1], b)); break; }
  }
  Z3_inc_ref(Z, r); e->z = r; return r;
}
static std::vector<Expr*> cons;                // path condition
static std::vector<std::vector<u32>> varCons;  // var -> constraint indexes
static std::vector<char> varMulti;             // var occurs in a multi-variable constraint
struct Bits { u64 b[4]; };
static std::vector<Bits> domTab;
static std::vector<Bits> varDom;               // conjunction of single-variable constraints
static void growVars() { while (varCons.size() < vars.size()) { varCons.emplace_back(); varMulti.push_back(0); varDom.push_back({{~0ull, ~0ull, ~0ull, ~0ull}}); } }
static const Bits& domOf(Expr* e) {            // e: single variable of <= 8 bits, width 1
  if (e->dom >= 0) return domTab[e->dom];
  u32 v = sups[e->sup][0]; Bits b = {{0, 0, 0, 0}};
  u64 save = model[v]; unsigned n = 1u << vars[v].w;
  for (unsigned i = 0; i < n; i++) { model[v] = i; epoch++; if (evalRec(e, model)) b.b[i >> 6] |= 1ull << (i & 63); }
  model[v] = save; e->dom = domTab.size(); domTab.push_back(b); return domTab.back();
}
static bool single8(Expr* e) { auto& s = sups[e->sup]; return s.size() == 1 && vars[s[0]].w <= 8; }
static void addCons(Expr* e) {
  if (isC(e)) return;
  if (e->op == E_AND && e->w == 1) { addCons(e->k[0]); addCons(e->k[1]); return; }
  growVars(); u32 i = cons.size(); cons.push_back(e);
  auto& s = sups[e->sup];
  for (u32 v : s) { varCons[v].push_back(i); if (s.size() > 1) varMulti[v] = 1; }
  if (single8(e)) { const Bits& d = domOf(e); Bits& t = varDom[s[0]]; for (int k = 0; k < 4; k++) t.b[k] &= d.b[k]; }
}
static std::unordered_map<u64, std::pair<int, std::vector<std::pair<u32, u64>>>> qcache;
enum { UNSAT = 0, SAT = 1, UNK = 2 };
// Decides path condition && q. On SAT the variables of the slice get values in `out`.
static int query(Expr* q, std::vector<std::pair<u32, u64>>& out, bool forceZ3 = false) {
  out.clear(); growVars();
  if (isC(q)) return q->val ? SAT : UNSAT;
  if (!forceZ3 && single8(q)) {
    u32 v = sups[q->sup][0];
    if (!varMulti[v]) {
      SH->domq++;
      const Bits& d = domOf(q); Bits& t = varDom[v];
      for (int k = 0; k < 4; k++) { u64 x = d.b[k] & t.b[k]; if (x) { out.push_back({v, k * 64 + __builtin_ctzll(x)}); return SAT; } }
      return UNSAT;
    }
  }
  // slice
  static std::vector<u32> mark; static u32 me = 0; me++; mark.resize(vars.size(), 0);
  std::vector<u32> work(sups[q->sup]); std::vector<u32> sl; static std::vector<u32> cmark; cmark.resize(cons.size(), 0);
  for (u32 v : work) mark[v] = me;
  for (size_t i = 0; i < work.size(); i++) for (u32 c : varCons[work[i]]) if (cmark[c] != me) {
    cmark[c] = me; sl.push_back(c); for (u32 x : sups[cons[c]->sup]) if (mark[x] != me) { mark[x] = me; work.push_back(x); } }
  u64 h = q->id * 0x9E3779B97F4A7C15ull + (forceZ3 ? 77 : 0); std::sort(sl.begin(), sl.end());
  for (u32 c : sl) h = (h ^ cons[c]->id) * 0xC2B2AE3D27D4EB4Full + 0x165667B19E3779F9ull;
  auto it = qcache.find(h);
  if (it != qcache.end()) { SH->cacheq++; out = it->second.second; return it->second.first; }
  double t0 = now();
  Z3_solver_push(Z, ZS);
  for (u32 c : sl) Z3_solver_assert(Z, ZS, toZ3(cons[c]));
  Z3_solver_assert(Z, ZS, toZ3(q));
  Z3_lbool r = Z3_solver_check(Z, ZS); SH->z3q++;
  int res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNK;
  if (res == SAT) {
    SH->z3sat++;
    Z3_model m = Z3_solver_get_model(Z, ZS); Z3_model_inc_ref(Z, m);
    for (u32 v : work) {
      Z3_ast o; u64 val = 0;
      if (Z3_model_eval(Z, m, toZ3(vars[v].e), true, &o)) {
        if (vars[v].w == 1) val = Z3_get_bool_value(Z, o) == Z3_L_TRUE; else Z3_get_numeral_uint64(Z, o, (uint64_t*)&val);
      }
      out.push_back({v, val});
    }
    Z3_model_dec_ref(Z, m);
  } else if (res == UNSAT) SH->z3unsat++; else SH->z3unk++;
  Z3_solver_pop(Z, ZS, 1);
  SH->z3ns += (u64)((now() - t0) * 1e9);
  qcache[h] = {res, out};
  return res;
}
static void install(const std::vector<std::pair<u32, u64>>& o) { for (auto& p : o) model[p.first] = p.second; }

// ------------------------------------------------------------------ path end / reporting
static void finish();
static void appendFile(const std::string& f, const std::string& s) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd >= 0) { if (write(fd, s.data(), s.size())) {} close(fd); } }
static std::string traceBuf; static u64 inputsCount = 0;
static std::vector<std::pair<std::string, u32>> inputs; // (name, var) in order of creation
static std::string inputDump() {
  std::string s; char b[64];
  for (auto& p : inputs) { snprintf(b, sizeof b, " %u %llu\n", vars[p.second].w, (unsigned long long)(model[p.second] & mask(vars[p.second].w))); s += "in " + p.first + b; }
  return s;
}
static std::string uninitDump() { std::string s; for (auto& v : vars) if (!v.name.compare(0, 6, "uninit")) s += "un " + v.name + " " + std::to_string((unsigned long long)model[&v - &vars[0]] & 255) + "\n"; return s; }
static std::string backtrace_();
static bool tagSeen(const std::string& tag) {
  u64 h = std::hash<std::string>()(tag) | 1;
  for (int i = 0; i < 256; i++) { u64 z = 0; if (SH->vtags[i].compare_exchange_strong(z, h)) return false; if (z == h) return true; }
  return true;
}
static bool wanted(const std::string& tag) { if (onlyTags.empty()) return true; for (auto& t : onlyTags) if (!tag.compare(0, t.size(), t)) return true; return false; }
static void report(const std::string& tag, const std::string& msg) {
  if (!wanted(tag)) return;
  SH->violations++;
  std::string key = tag + "|" + (tag.compare(0, 7, "assert:") ? std::string() : msg); bool fresh = false;
  for (int i = 0; i < perTag && !fresh; i++) fresh = !tagSeen(key + "#" + std::to_string(i));
  if (!fresh) return;
  u64 n = SH->nviol++;
  if (n >= maxViol) { SH->stop = 1; return; }
  std::string s = "tag " + tag + "\nmsg " + msg + "\nbt " + backtrace_() + "\n" + inputDump() + uninitDump();
  appendFile(outDir + "/viol-" + std::to_string(n) + ".txt", s);
}
[[noreturn]] static void endPath(std::atomic<u64>* ctr) { (*ctr)++; finish(); _exit(0); }
static void finish() {
  SH->instrs += steps - stepBase; stepBase = steps;
  u64 d = SH->maxdepth; while (depth > d && !SH->maxdepth.compare_exchange_weak(d, depth)) {}
  u64 m = SH->stepmax; while (steps > m && !SH->stepmax.compare_exchange_weak(m, steps)) {}
  if (!isRoot) { SH->running--; }
  else SH->running--;
  while (wait(nullptr) > 0) {}
  if (!isRoot) _exit(0);
}
[[noreturn]] static void unsupported(const std::string& s) {
  if (SH->unsupported++ == 0) { snprintf(SH->unsupMsg, sizeof SH->unsupMsg, "%s [%s]", s.c_str(), backtrace_().c_str()); }
  finish(); _exit(0);
}
[[noreturn]] static void limitHit(const std::string& s) {
  if (SH->limits++ == 0) snprintf(SH->limitMsg, sizeof SH->limitMsg, "%s [%s]", s.c_str(), backtrace_().c_str());
  finish(); _exit(0);
}
static bool doFork() { // true in the child
  if (SH->stop) { finish(); _exit(0); }
  if (now() > deadline) { SH->timeouts++; finish(); _exit(0); }
  SH->instrs += steps - stepBase; stepBase = steps;
  SH->forks++; depth++;
  if (walking) { coins ^= coins << 13; coins ^= coins >> 7; coins ^= coins << 17; return coins >> 40 & 1; }
  int r = SH->running.fetch_add(1);
  pid_t p;
  for (int k = 0; (p = fork()) < 0 && k < 200; k++) usleep(20000);
  if (p < 0) { SH->running--; unsupported("fork failed"); }
  if (p == 0) { isRoot = false; prctl(PR_SET_PDEATHSIG, SIGKILL); return true; }
  if (r >= maxProc) { // over capacity: the parent sleeps until the child's subtree is done
    SH->running--;
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { if (SH->unsupported++ == 0) snprintf(SH->unsupMsg, 500, "worker died with signal %d", WTERMSIG(st)); SH->running--; }
    SH->running++;
  }
  if (SH->stop) { finish(); _exit(0); }
  return false;
}
// Decide a symbolic condition, forking if both sides are feasible.
static bool branch(Expr* c) {
  if (isC(c)) return c->val;
  SH->branches++;
  bool cur = eval(c);
  Expr* other = cur ? mkNot(c) : c; Expr* same = cur ? c : mkNot(c);
  std::vector<std::pair<u32, u64>> o;
  int r = query(other, o);
  if (r == UNSAT) return cur;
  if (r == UNK) { SH->inexact++; return cur; }
  if (doFork()) { addCons(other); install(o); return !cur; }
  addCons(same); return cur;
}

// ------------------------------------------------------------------ guest memory
static const u64 A0 = 0x100000000000ull; static const u64 ASZ = 6ull << 30;
static u8* SHD; // shadow: 0 unaddressable, 1 uninitialised, 2 concrete, 3 symbolic
static u64 heapTop, stackTop; static const u64 STACK0 = A0 + (4ull << 30);
static std::unordered_map<u64, Expr*> symMem;
static std::unordered_map<u64, u64> heapObjs; // live heap objects
static std::unordered_map<u64, u64> freedObjs;
static u64 uninitCount = 0;
static inline bool inArena(u64 a, u64 n) { return a - A0 < ASZ && n <= ASZ && a - A0 + n <= ASZ; }
static u64 heapAlloc(u64 n, u8 state) {
  u64 a = heapTop; u64 sz = (n + 15) & ~15ull;
  heapTop += sz + 32; if (heapTop > STACK0 - (1 << 20)) limitHit("guest heap exhausted");
  memset(SHD + (a - A0), state, n); heapObjs[a] = n;
  if (state == 2) memset((void*)a, 0, n);
  return a;
}
[[noreturn]] static void memError(const std::string& kind, u64 addr, u64 n) {
  char b[96]; snprintf(b, sizeof b, " addr=0x%llx size=%llu", (unsigned long long)addr, (unsigned long long)n);
  std::string bt = backtrace_();
  std::string top = bt.substr(0, bt.find(" < "));
  report("mem:" + kind + ":" + top, kind + b); SH->paths++; finish(); _exit(0);
}
static std::string memKind(u64 addr, bool wr) {
  std::string k = wr ? "write" : "read";
  if (addr < 4096) return "null-" + k;
  if (!inArena(addr, 1)) return "wild-" + k;
  for (auto& f : freedObjs) if (addr >= f.first && addr < f.first + f.second) return "use-after-free-" + k;
  return "out-of-bounds-" + k;
}
static void checkAddr(u64 a, u64 n, bool wr) {
  if (!n) return;
  if (!inArena(a, n)) memError(memKind(a, wr), a, n);
  const u8* s = SHD + (a - A0);
  const void* z = memchr(s, 0, n);
  if (z) { u64 off = (const u8*)z - s; memError(memKind(a + off, wr), a, n); }
}
struct V { u64 c; Expr* e; };
static inline V vc(u64 c) { return {c, nullptr}; }
static inline V ve(Expr* e) { if (isC(e)) return {e->val, nullptr}; return {0, e}; }
static inline Expr* ex(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static Expr* byteExpr(u64 a) {
  u8 s = SHD[a - A0];
  if (s == 2) return mkConst(*(u8*)a, 8);
  if (s == 3) return symMem[a];
  Expr* v = mkVar("uninit" + std::to_string(uninitCount++), 8);
  symMem[a] = v; SHD[a - A0] = 3; return v;
}
static void setByte(u64 a, Expr* e) {
  if (isC(e)) { *(u8*)a = e->val; SHD[a - A0] = 2; } else { symMem[a] = e; SHD[a - A0] = 3; }
}
static V loadBits(u64 a, unsigned w) {
  unsigned n = (w + 7) / 8; checkAddr(a, n, false);
  const u8* s = SHD + (a - A0); bool conc = true;
  for (unsigned i = 0; i < n; i++) if (s[i] != 2) { conc = false; break; }
  if (conc) { u64 v = 0; memcpy(&v, (void*)a, n); return vc(v & mask(w)); }
  Expr* r = byteExpr(a);
  for (unsigned i = 1; i < n; i++) r = mkConcat(byteExpr(a + i), r);
  if (r->w != w) r = mkExtract(r, 0, w);
  return ve(r);
}
static void storeBits(u64 a, V v, unsigned w) {
  unsigned n = (w + 7) / 8; checkAddr(a, n, true);
  if (!v.e) { u64 c = v.c & mask(w); memcpy((void*)a, &c, n); memset(SHD + (a - A0), 2, n); return; }
  Expr* e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) setByte(a + i, mkExtract(e, i * 8, 8));
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return; checkAddr(s, n, false); checkAddr(d, n, true);
  const u8* ss = SHD + (s - A0); bool sy = memchr(ss, 3, n) != nullptr;
  if (!sy) { memmove((void*)d, (void*)s, n); memmove(SHD + (d - A0), ss, n); return; }
  std::vector<Expr*> t(n, nullptr); std::vector<u8> st(ss, ss + n);
  for (u64 i = 0; i < n; i++) if (st[i] == 3) t[i] = symMem[s + i];
  memmove((void*)d, (void*)s, n); memcpy(SHD + (d - A0), st.data(), n);
  for (u64 i = 0; i < n; i++) if (t[i]) symMem[d + i] = t[i];
}
// Concretise by exhaustive case split: every feasible value is explored.
static u64 concretize(V v, unsigned w) {
  if (!v.e) return v.c;
  u64 n = 0;
  for (;;) {
    u64 c = eval(v.e);
    Expr* eq = mkBin(E_EQ, v.e, mkConst(c, w));
    std::vector<std::pair<u32, u64>> o;
    int r = query(mkNot(eq), o);
    if (r == UNSAT) return c;
    if (r == UNK) { SH->inexact++; addCons(eq); return c; }
    if (++n > 100000) limitHit("concretization");
    if (doFork()) { addCons(mkNot(eq)); install(o); continue; }
    addCons(eq); return c;
  }
}
static void extent(u64 a, u64& lo, u64& hi) {
  if (!inArena(a, 1) || !SHD[a - A0]) { lo = hi = a; return; }
  lo = a; while (lo > A0 && SHD[lo - 1 - A0]) lo--;
  hi = a; while (hi < A0 + ASZ && SHD[hi - A0]) hi++;
}
// Symbolic load address: bounds are decided by the solver; small tables become ITE chains.
static V loadSym(V p, unsigned w) {
  unsigned n = (w + 7) / 8;
  for (;;) {
    u64 c = eval(p.e); u64 lo, hi; extent(c, lo, hi);
    if (hi - lo >= n) {
      Expr* in = mkBin(E_AND, mkBin(E_ULE, mkConst(lo, 64), p.e), mkBin(E_ULE, p.e, mkConst(hi - n, 64)));
      if (eval(in)) {
        if (!branch(in)) continue;
        // enumerate distinct addresses (bounded); otherwise case split
        std::vector<u64> addrs; std::vector<std::pair<u32, u64>> o; size_t base = cons.size(); (void)base;
        bool ok = true;
        if (single8(p.e) && !varMulti[sups[p.e->sup][0]]) {
          growVars(); u32 v = sups[p.e->sup][0]; u64 save = model[v]; std::set<u64> s;
          for (unsigned i = 0; i < (1u << vars[v].w); i++) if (varDom[v].b[i >> 6] >> (i & 63) & 1) { model[v] = i; epoch++; s.insert(evalRec(p.e, model)); }
          model[v] = save; epoch++; addrs.assign(s.begin(), s.end());
        } else ok = false;
        if (!ok || addrs.size() > 300) { u64 a = concretize(p, 64); return loadBits(a, w); }
        // group equal values
        std::map<u32, std::pair<Expr*, std::vector<u64>>> groups;
        for (u64 a : addrs) { V x = loadBits(a, w); Expr* e = ex(x, w); auto& g = groups[e->id]; g.first = e; g.second.push_back(a); }
        const std::pair<Expr*, std::vector<u64>>* big = nullptr;
        for (auto& g : groups) if (!big || g.second.second.size() > big->second.size()) big = &g.second;
        Expr* r = big->first;
        for (auto& g : groups) if (&g.second != big) {
          Expr* c2 = mkConst(0, 1);
          for (u64 a : g.second.second) c2 = mkBin(E_OR, c2, mkBin(E_EQ, p.e, mkConst(a, 64)));
          r = mkIte(c2, g.second.first, r);
        }
        return ve(r);
      }
    }
    u64 a = concretize(p, 64); return loadBits(a, w);
  }
}

// ------------------------------------------------------------------ program
struct Func { std::string name; bool ext, va; u32 np, nslots, start, len; int builtin; };
struct Global { std::string name; u64 size, addr; bool ext; };
static std::vector<Func> funcs; static std::vector<Global> globals; static std::vector<V> consts; static std::vector<std::string> strs;
static const Inst* code; static const int32_t* aux; static std::unordered_map<std::string, u32> fnByName;
static const u64 FUNC0 = 0x7f0000000000ull;
struct Frame { u32 f; u32 pc; V* r; u64 sp; const Inst* ci; u64 va; u64 uid; };
static std::vector<Frame> fr; static V* regBase; static V* regTop; static u64 frameUid = 0;
static u64 sp = STACK0;
static bool returned = false; // harness finished
static std::string demangleTop(u32 f) { return funcs[f].name; }
static std::string backtrace_() { std::string s; int n = 0; for (auto it = fr.rbegin(); it != fr.rend() && n < 8; ++it, ++n) { if (n) s += " < "; s += demangleTop(it->f); } return s; }
static u64 gstr(const char* s) { u64 n = strlen(s) + 1; u64 a = heapAlloc(n, 2); memcpy((void*)a, s, n); return a; }
static std::string readStr(u64 a) { // concretises
  std::string s;
  for (;; a++) { V b = loadBits(a, 8); u64 c = concretize(b, 8); if (!c) return s; s += (char)c; if (s.size() > 1 << 20) limitHit("string"); }
}
static std::unordered_map<u64, std::vector<u64>> regexMemo;

// exceptions
struct Exc { u64 obj, ti; };
static std::vector<Exc> caught; static std::unordered_map<u64, u64> excType; static u64 excInFlight = 0;
static std::unordered_map<u64, int> excHandlers;
static u64 siVt = 0, vmiVt = 0;
static std::string tiName(u64 ti) { V p = loadBits(ti + 8, 64); return readStr(p.c); }
static bool derivesFrom(u64 t, u64 want, u64& off) {
  if (t == want) return true;
  if (tiName(t) == tiName(want)) return true;
  u64 vp = loadBits(t, 64).c;
  if (vp == siVt) return derivesFrom(loadBits(t + 16, 64).c, want, off);
  if (vp == vmiVt) { u64 n = loadBits(t + 20, 32).c;
    for (u64 i = 0; i < n; i++) { u64 b = loadBits(t + 24 + i * 16, 64).c; i64 fl = loadBits(t + 32 + i * 16, 64).c; u64 o2 = off + (fl >> 8); if (!(fl & 1) && derivesFrom(b, want, o2)) { off = o2; return true; } } }
  return false;
}
static std::unordered_map<u64, int> selIds; static std::vector<u64> selTi;
static int selFor(u64 ti) { auto it = selIds.find(ti); if (it != selIds.end()) return it->second; selTi.push_back(ti); return selIds[ti] = selTi.size(); }

static inline V& reg(Frame& f, int32_t o) { return f.r[o]; }
static inline const V& opv(Frame& f, int32_t o) { return o >= 0 ? f.r[o] : consts[~o]; }

struct JmpRec { u64 uid; u32 pc; int32_t dst; size_t depth; u64 sp; size_t ncaught; };
static std::unordered_map<u64, JmpRec> jmps;

static void popFrame() { Frame& f = fr.back(); if (sp > f.sp) { memset(SHD + (f.sp - A0), 0, sp - f.sp); } sp = f.sp; regTop = f.r; if (f.va) {} fr.pop_back(); }
// matches clauses of a landingpad: returns 1 handler, 2 cleanup only, 0 none; sets selector
static int lpMatch(Frame& f, const Inst& lp, u64 obj, u64 ti, int& sel, u64& adj) {
  const int32_t* p = aux + lp.x; int cleanup = *p++; int n = *p++;
  for (int i = 0; i < n; i++) {
    if (*p++ == 0) { const V& c = opv(f, *p++); u64 off = 0; if (c.c == 0 || derivesFrom(ti, c.c, off)) { sel = selFor(c.c); adj = off; return 1; } }
    else { int k = *p++; bool any = false; for (int j = 0; j < k; j++) { u64 off = 0; if (derivesFrom(ti, opv(f, p[j]).c, off)) any = true; } p += k; if (!any) { sel = -1; return 1; } }
  }
  return cleanup ? 2 : 0;
}
static void unwind(u64 obj) {
  u64 ti = excType[obj]; excInFlight = obj;
  // phase 1: is there a handler?
  bool handler = false;
  for (size_t i = fr.size() - 1; i-- > 0 || false;) {
    // fr[i] is suspended in call instruction fr[i+1].ci
    const Inst* ci = fr[i + 1].ci;
    if (ci && ci->op == OP_INVOKE) { u32 up = aux[ci->x + 1 + aux[ci->x] + 1]; const Inst* k = code + up;
      while (k->op == OP_PHIS || k->op == OP_BR) { if (k->op == OP_BR) k = code + k->x; else k++; }
      int sel; u64 adj; while (k->op != OP_LANDINGPAD) k++;
      if (lpMatch(fr[i], *k, obj, ti, sel, adj) == 1) { handler = true; break; } }
    if (i == 0) break;
  }
  // the throwing instruction itself sits in the current top frame's caller when thrown from a builtin
  (void)handler;
  if (!handler) { report("uncaught:" + tiName(ti), "uncaught exception " + tiName(ti)); SH->paths++; finish(); _exit(0); }
  while (fr.size() > 1) {
    const Inst* ci = fr.back().ci; popFrame(); Frame& f = fr.back();
    if (ci && ci->op == OP_INVOKE) { u32 up = aux[ci->x + 1 + aux[ci->x] + 1]; f.pc = up; return; }
  }
}
[[noreturn]] static void violationEnd(const std::string& tag, const std::string& msg) { report(tag, msg); SH->paths++; finish(); _exit(0); }

// ---- builtins
enum Bi { B_NONE, B_MALLOC, B_FREE, B_CALLOC, B_REALLOC, B_NEW, B_DELETE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_STRLEN,
  B_SYM, B_SYMBYTES, B_ASSUME, B_ASSERT, B_WITNESS, B_TRACE, B_CONC, B_ISSYM, B_DONE, B_REGCOMP, B_REGMATCH, B_PARAM,
  B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_GETEXC, B_UNWRESUME, B_CXA_ATEXIT, B_PUREVIRT,
  B_ABORT, B_SETJMP, B_LONGJMP, B_GUARD_ACQ, B_GUARD_REL, B_TERMINATE, B_DYNCAST, B_UNCAUGHT, B_MSIZE, B_PUTS, B_FAIL, B_DISTINCT, B_EQSPLIT };
static const std::map<std::string, int> biTab = {
  {"malloc", B_MALLOC}, {"free", B_FREE}, {"cfree", B_FREE}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC},
  {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW},
  {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdaPvm", B_DELETE}, {"_ZdlPvRKSt9nothrow_t", B_DELETE}, {"_ZdaPvRKSt9nothrow_t", B_DELETE},
  {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN},
  {"sx_sym", B_SYM}, {"sx_sym_bytes", B_SYMBYTES}, {"sx_assume", B_ASSUME}, {"sx_assert_", B_ASSERT}, {"sx_witness", B_WITNESS},
  {"sx_trace_", B_TRACE}, {"sx_concretize", B_CONC}, {"sx_is_symbolic", B_ISSYM}, {"sx_done", B_DONE}, {"sx_param", B_PARAM},
  {"sx_host_regcomp", B_REGCOMP}, {"sx_host_regmatch", B_REGMATCH}, {"sx_puts", B_PUTS}, {"sx_fail_", B_FAIL},
  {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW},
  {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END}, {"__cxa_rethrow", B_CXA_RETHROW}, {"__cxa_get_exception_ptr", B_GETEXC},
  {"_Unwind_Resume", B_UNWRESUME}, {"__cxa_atexit", B_CXA_ATEXIT}, {"atexit", B_CXA_ATEXIT}, {"__cxa_pure_virtual", B_PUREVIRT},
  {"abort", B_ABORT}, {"__assert_fail", B_ABORT}, {"_setjmp", B_SETJMP}, {"setjmp", B_SETJMP}, {"__sigsetjmp", B_SETJMP}, {"longjmp", B_LONGJMP}, {"_longjmp", B_LONGJMP}, {"siglongjmp", B_LONGJMP},
  {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_GUARD_REL},
  {"_ZSt9terminatev", B_TERMINATE}, {"__clang_call_terminate", B_NONE}, {"__dynamic_cast", B_DYNCAST}, {"_ZSt18uncaught_exceptionv", B_UNCAUGHT},
  {"malloc_usable_size", B_MSIZE},
};
static std::map<std::string, std::string> params;
static void throwObj(u64 obj, u64 ti) { excType[obj] = ti; unwind(obj); }
static void doFree(u64 p, const char* what) {
  if (!p) return;
  auto it = heapObjs.find(p);
  if (it == heapObjs.end()) memError(freedObjs.count(p) ? std::string("double-free") : std::string("bad-free"), p, 0);
  memset(SHD + (p - A0), 0, it->second); freedObjs[p] = it->second; heapObjs.erase(it);
}
// returns true when control flow was transferred (no result to store)
static bool callBuiltin(int b, const Inst& in, Frame& f, V* a, unsigned na, V& ret) {
  ret = vc(0);
  auto C = [&](unsigned i, unsigned w = 64) { return concretize(a[i], w); };
  switch (b) {
  case B_MALLOC: { u64 n = C(0); if (n > (1ull << 31)) { ret = vc(0); return false; } ret = vc(heapAlloc(n, 1)); return false; }
  case B_NEW: { u64 n = C(0); if (n > (1ull << 31)) violationEnd("mem:huge-allocation", "allocation of more than 2 GiB"); ret = vc(heapAlloc(n, 1)); return false; }
  case B_CALLOC: { u64 n = C(0) * C(1); if (n > (1ull << 31)) return false; ret = vc(heapAlloc(n, 2)); return false; }
  case B_REALLOC: { u64 p = C(0), n = C(1); if (n > (1ull << 31)) return false; u64 q = heapAlloc(n, 1); if (p) { auto it = heapObjs.find(p); if (it == heapObjs.end()) memError("bad-realloc", p, n); u64 o = it->second; copyMem(q, p, std::min(o, n)); doFree(p, "realloc"); } ret = vc(q); return false; }
  case B_FREE: case B_DELETE: doFree(C(0), "free"); return false;
  case B_MSIZE: ret = vc(heapObjs[C(0)]); return false;
  case B_MEMCPY: case B_MEMMOVE: { u64 d = C(0), s = C(1), n = C(2); copyMem(d, s, n); ret = vc(d); return false; }
  case B_MEMSET: { u64 d = C(0), n = C(2); checkAddr(d, n, true); if (!a[1].e) { memset((void*)d, (int)a[1].c, n); memset(SHD + (d - A0), 2, n); } else { Expr* e = mkExtract(ex(a[1], 32), 0, 8); for (u64 i = 0; i < n; i++) setByte(d + i, e); } ret = vc(d); return false; }
  case B_MEMCMP: {
    u64 p = C(0), q = C(1), n = C(2); checkAddr(p, n, false); checkAddr(q, n, false);
    bool conc = true; for (u64 i = 0; i < n; i++) if (SHD[p + i - A0] != 2 || SHD[q + i - A0] != 2) { conc = false; break; }
    if (conc) { int r = memcmp((void*)p, (void*)q, n); ret = vc((u32)(r < 0 ? -1 : r > 0 ? 1 : 0)); return false; }
    Expr* r = mkConst(0, 32);
    for (u64 i = n; i-- > 0;) { Expr *x = byteExpr(p + i), *y = byteExpr(q + i); if (x == y) continue;
      r = mkIte(mkBin(E_EQ, x, y), r, mkIte(mkBin(E_ULT, x, y), mkConst(~0u, 32), mkConst(1, 32))); }
    ret = ve(r); return false; }
  case B_STRLEN: { u64 p = C(0), q = p;
    for (;; q++) { checkAddr(q, 1, false); if (SHD[q - A0] == 2) { if (!*(u8*)q) break; } else { Expr* e = byteExpr(q); if (branch(mkBin(E_EQ, e, mkConst(0, 8)))) break; } }
    ret = vc(q - p); return false; }
  case B_SYM: { std::string nm = readStr(C(0)); unsigned w = C(1, 32); Expr* v = mkVar(nm, w); inputs.push_back({nm, (u32)v->val}); inputsCount++;
    u64 m = SH->maxinputs; while (inputsCount > m && !SH->maxinputs.compare_exchange_weak(m, inputsCount)) {}
    ret = ve(w == 64 ? v : mkZext(v, 64)); return false; }
  case B_SYMBYTES: { u64 p = C(0), n = C(1); std::string nm = readStr(C(2)); checkAddr(p, n, true);
    for (u64 i = 0; i < n; i++) { Expr* v = mkVar(nm + "[" + std::to_string(i) + "]", 8); inputs.push_back({vars[v->val].name, (u32)v->val}); inputsCount++; setByte(p + i, v); }
    u64 m = SH->maxinputs; while (inputsCount > m && !SH->maxinputs.compare_exchange_weak(m, inputsCount)) {}
    return false; }
  case B_ASSUME: {
    Expr* c = mkNot(mkBin(E_EQ, ex(a[0], 32), mkConst(0, 32)));
    if (isC(c)) { if (!c->val) endPath(&SH->pruned); return false; }
    if (!eval(c)) { std::vector<std::pair<u32, u64>> o; int r = query(c, o); if (r != SAT) endPath(&SH->pruned); install(o); }
    addCons(c); return false; }
  // An assertion about another property neither costs a query nor ends the path: what comes after it still counts
  case B_FAIL: if (!wanted("assert:" + readStr(C(0)))) return false; else { std::string tag = readStr(C(0)), msg = readStr(C(1)); SH->asserts++; SH->assertsConcrete++; violationEnd("assert:" + tag, msg); }
  case B_ASSERT: {
    if (!wanted("assert:" + readStr(C(1)))) return false;
    SH->asserts++;
    Expr* c = mkNot(mkBin(E_EQ, ex(a[0], 32), mkConst(0, 32)));
    if (isC(c)) { SH->assertsConcrete++; if (!c->val) { std::string tag = readStr(C(1)), msg = readStr(C(2)); violationEnd("assert:" + tag, msg); } return false; }
    SH->assertsSolver++;
    std::vector<std::pair<u32, u64>> o; int r = query(mkNot(c), o, true);
    if (r == SAT) {
      std::vector<u64> save = model; install(o); report("assert:" + readStr(C(1)), readStr(C(2)));
      model = save; std::vector<std::pair<u32, u64>> o2;
      if (!eval(c)) { if (query(c, o2) != SAT) endPath(&SH->paths); install(o2); }
      addCons(c);
    } else if (r == UNK) SH->inexact++;
    return false; }
  case B_WITNESS: { u64 i = C(0, 32); if (i < 64) SH->witness[i]++; return false; }
  case B_TRACE: { // name, value  (concrete under the current model)
    std::string nm = readStr(C(0)); u64 v = a[1].e ? eval(a[1].e) : a[1].c; char t[64]; snprintf(t, sizeof t, " %llu\n", (unsigned long long)v);
    // symbolic values are traced as expressions so that later model changes are honoured
    traceBuf += "tr " + nm; if (a[1].e) { traceBuf += " @" + std::to_string(a[1].e->id) + "\n"; } else traceBuf += t; return false; }
  case B_CONC: { ret = vc(C(0)); return false; }
  case B_ISSYM: { ret = vc(a[0].e != nullptr); return false; }
  case B_PARAM: { std::string nm = readStr(C(0)); auto it = params.find(nm); ret = it == params.end() ? a[1] : vc(strtoull(it->second.c_str(), 0, 0)); return false; }
  case B_DONE: returned = true; return true;
  case B_PUTS: { std::string s = readStr(C(0)); if (getenv("SX_VERBOSE")) fprintf(stderr, "[%d] %s\n", getpid(), s.c_str()); return false; }
  case B_REGCOMP: { std::string p = readStr(C(0)); regex_t rx; int r = regcomp(&rx, p.c_str(), C(1, 32)); if (!r) regfree(&rx); ret = vc((u32)r); return false; }
  case B_REGMATCH: { std::string p = readStr(C(0)), s = readStr(C(1)); regex_t rx; if (regcomp(&rx, p.c_str(), C(2, 32))) { ret = vc(0); return false; } int r = regexec(&rx, s.c_str(), 0, 0, 0); regfree(&rx); ret = vc((u32)(r == 0)); return false; }
  case B_CXA_ALLOC: { u64 n = C(0); ret = vc(heapAlloc(n, 1)); return false; }
  case B_CXA_FREE: doFree(C(0), "exc"); return false;
  case B_CXA_THROW: { u64 o = C(0), t = C(1); 
    fr.push_back(Frame{fr.back().f, 0, regTop, sp, &in, 0, ++frameUid}); throwObj(o, t); return true; }
  case B_CXA_BEGIN: case B_GETEXC: { u64 o = C(0); if (b == B_CXA_BEGIN) caught.push_back({o, excType[o]}); ret = vc(o); return false; }
  case B_CXA_END: if (!caught.empty()) caught.pop_back(); return false;
  case B_CXA_RETHROW: { if (caught.empty()) violationEnd("terminate", "rethrow without exception"); Exc e = caught.back(); fr.push_back(Frame{fr.back().f, 0, regTop, sp, &in, 0, ++frameUid}); throwObj(e.obj, e.ti); return true; }
  case B_UNWRESUME: { u64 o = C(0); fr.push_back(Frame{fr.back().f, 0, regTop, sp, &in, 0, ++frameUid}); unwind(o); return true; }
  case B_CXA_ATEXIT: return false;
  case B_PUREVIRT: violationEnd("abort:pure-virtual", "pure virtual call");
  case B_TERMINATE: violationEnd("terminate", "std::terminate");
  case B_ABORT: violationEnd("abort", "abort()");
  case B_UNCAUGHT: return false;
  case B_GUARD_ACQ: { u64 g = C(0); V v = loadBits(g, 8); ret = vc(v.c ? 0 : 1); return false; }
  case B_GUARD_REL: { storeBits(C(0), vc(1), 8); return false; }
  case B_SETJMP: { u64 k = C(0); jmps[k] = {f.uid, f.pc, in.dst, fr.size(), sp, caught.size()}; return false; }
  case B_LONGJMP: { u64 k = C(0); V val = a[1]; auto it = jmps.find(k); if (it == jmps.end()) unsupported("longjmp without setjmp"); JmpRec j = it->second;
    while (fr.size() > j.depth) popFrame();
    if (fr.empty() || fr.back().uid != j.uid) unsupported("longjmp to dead frame");
    caught.resize(std::min(caught.size(), j.ncaught));
    fr.back().pc = j.pc; if (j.dst != NOOPND) fr.back().r[j.dst] = val.e || val.c ? val : vc(1); return true; }
  case B_DYNCAST: unsupported("dynamic_cast");
  }
  unsupported("builtin");
}
static double asD(u64 v, unsigned w) { if (w == 32) { float f; u32 x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = d; u32 x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }

static void pushCall(u32 fi, const Inst* ci, const V* args, unsigned na, unsigned nfixed) {
  Func& F = funcs[fi];
  if (fi < sizeof SH->covered) SH->covered[fi] = 1;
  if (fr.size() > 4000) violationEnd("stack-overflow", "call depth above 4000 in " + F.name);
  Frame n{fi, F.start, regTop, sp, ci, 0, ++frameUid};
  regTop += F.nslots;
  unsigned k = F.np < na ? F.np : na;
  for (unsigned i = 0; i < k; i++) n.r[i] = args[i];
  for (unsigned i = k; i < F.np; i++) n.r[i] = vc(0);
  if (F.va) { unsigned nv = na > F.np ? na - F.np : 0; u64 a = sp; sp += (nv + 1) * 8 + 32; memset(SHD + (a - A0), 1, nv * 8 + 8);
    for (unsigned i = 0; i < nv; i++) storeBits(a + 8 * i, args[F.np + i], 64); n.va = a; }
  fr.push_back(n);
}
static const u8 cvt[] = { E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR };
static Expr* cmpExpr(u16 op, Expr* a, Expr* b) {
  switch (op) {
  case OP_EQ: return mkBin(E_EQ, a, b); case OP_NE: return mkNot(mkBin(E_EQ, a, b));
  case OP_ULT: return mkBin(E_ULT, a, b); case OP_ULE: return mkBin(E_ULE, a, b); case OP_UGT: return mkBin(E_ULT, b, a); case OP_UGE: return mkBin(E_ULE, b, a);
  case OP_SLT: return mkBin(E_SLT, a, b); case OP_SLE: return mkBin(E_SLE, a, b); case OP_SGT: return mkBin(E_SLT, b, a); default: return mkBin(E_SLE, b, a);
  }
}
static void run(size_t baseDepth) {
  std::vector<V> argv;
  while (!returned) {
    Frame* fp = &fr.back();
  again:
    const Inst& in = code[fp->pc++];
    if ((++steps & 0xfffff) == 0) { if (SH->stop) { finish(); _exit(0); } if (now() > deadline) { SH->timeouts++; finish(); _exit(0); } }
    if (steps > stepLimit) { report("hang", "step limit: the operation does not terminate within the bound"); SH->limits++; finish(); _exit(0); }
    Frame& f = *fp;
    switch (in.op) {
    case OP_ADD: case OP_SUB: case OP_MUL: case OP_AND: case OP_OR: case OP_XOR: case OP_SHL: case OP_LSHR: case OP_ASHR: {
      const V &a = opv(f, in.a), &b = opv(f, in.b);
      if (!a.e && !b.e) { f.r[in.dst] = vc(foldOp(cvt[in.op], in.w, a.c, b.c, in.w)); goto again; }
      f.r[in.dst] = ve(mkBin(cvt[in.op], ex(a, in.w), ex(b, in.w))); goto again; }
    case OP_UDIV: case OP_SDIV: case OP_UREM: case OP_SREM: {
      V a = opv(f, in.a), b = opv(f, in.b);
      if (!b.e) { if (!b.c) violationEnd("div-by-zero", "division by zero"); }
      else if (branch(mkBin(E_EQ, b.e, mkConst(0, in.w)))) violationEnd("div-by-zero", "division by zero");
      if (!a.e && !b.e) { f.r[in.dst] = vc(foldOp(cvt[in.op], in.w, a.c, b.c, in.w)); goto again; }
      f.r[in.dst] = ve(mkBin(cvt[in.op], ex(a, in.w), ex(b, in.w))); goto again; }
    case OP_EQ: case OP_NE: case OP_ULT: case OP_ULE: case OP_UGT: case OP_UGE: case OP_SLT: case OP_SLE: case OP_SGT: case OP_SGE: {
      const V &a = opv(f, in.a), &b = opv(f, in.b);
      if (!a.e && !b.e) { u64 x = a.c, y = b.c; bool r;
        switch (in.op) { case OP_EQ: r = x == y; break; case OP_NE: r = x != y; break; case OP_ULT: r = x < y; break; case OP_ULE: r = x <= y; break; case OP_UGT: r = x > y; break; case OP_UGE: r = x >= y; break;
          case OP_SLT: r = sx(x, in.w) < sx(y, in.w); break; case OP_SLE: r = sx(x, in.w) <= sx(y, in.w); break; case OP_SGT: r = sx(x, in.w) > sx(y, in.w); break; default: r = sx(x, in.w) >= sx(y, in.w); }
        f.r[in.dst] = vc(r); goto again; }
      f.r[in.dst] = ve(cmpExpr(in.op, ex(a, in.w), ex(b, in.w))); goto again; }
    case OP_ZEXT: { const V& a = opv(f, in.a); f.r[in.dst] = a.e ? ve(mkZext(a.e, in.w)) : a; goto again; }
    case OP_SEXT: { const V& a = opv(f, in.a); f.r[in.dst] = a.e ? ve(mkSext(a.e, in.w)) : vc((u64)sx(a.c, in.w2) & mask(in.w)); goto again; }
    case OP_TRUNC: { const V& a = opv(f, in.a); f.r[in.dst] = a.e ? ve(mkExtract(a.e, 0, in.w)) : vc(a.c & mask(in.w)); goto again; }
    case OP_MOV: { V a = opv(f, in.a); f.r[in.dst] = a; goto again; }
    case OP_GEPC: { const V& a = opv(f, in.a); f.r[in.dst] = a.e ? ve(mkBin(E_ADD, a.e, mkConst(in.imm, 64))) : vc(a.c + in.imm); goto again; }
    case OP_GEPI: { const V &a = opv(f, in.a), &b = opv(f, in.b);
      if (!a.e && !b.e) { f.r[in.dst] = vc(a.c + (u64)sx(b.c, in.w2) * in.imm); goto again; }
      Expr* i = in.w2 < 64 ? mkSext(ex(b, in.w2), 64) : ex(b, 64);
      f.r[in.dst] = ve(mkBin(E_ADD, mkBin(E_MUL, i, mkConst(in.imm, 64)), ex(a, 64))); goto again; }
    case OP_LOAD: { V a = opv(f, in.a); f.r[in.dst] = a.e ? loadSym(a, in.w) : loadBits(a.c, in.w); goto again; }
    case OP_STORE: { V p = opv(f, in.b); u64 ad = concretize(p, 64); storeBits(ad, opv(f, in.a), in.w); goto again; }
    case OP_ALLOCA: { u64 n = in.imm; if (in.b != NOOPND) n *= concretize(opv(f, in.b), 64); u64 al = in.x < 16 ? 16 : in.x; u64 a = (sp + al - 1) & ~(al - 1); sp = a + ((n + 15) & ~15ull) + 32;
      if (sp > A0 + ASZ - (1 << 20)) violationEnd("stack-overflow", "guest stack exhausted"); memset(SHD + (a - A0), 1, n); f.r[in.dst] = vc(a); goto again; }
    case OP_BR: f.pc = in.x; goto again;
    case OP_CBR: { const V& a = opv(f, in.a); bool t = a.e ? branch(a.e) : (a.c & 1); f.pc = t ? in.x : (u32)in.imm; goto again; }
    case OP_SWITCH: { V a = opv(f, in.a); const int32_t* p = aux + in.x; int n = *p++; bool done = false;
      for (int i = 0; i < n; i++, p += 3) { u64 v = ((u64)(u32)p[1] << 32 | (u32)p[0]) & mask(in.w);
        if (!a.e) { if ((a.c & mask(in.w)) == v) { f.pc = p[2]; done = true; break; } }
        else if (branch(mkBin(E_EQ, a.e, mkConst(v, in.w)))) { f.pc = p[2]; done = true; break; } }
      if (!done) f.pc = aux[in.x + 1 + 3 * n]; goto again; }
    case OP_PHIS: { const int32_t* p = aux + in.x; int n = *p++; V t[64]; std::vector<V> big; V* tt = t; if (n > 64) { big.resize(n); tt = big.data(); }
      for (int i = 0; i < n; i++) tt[i] = opv(f, p[2 * i + 1]); for (int i = 0; i < n; i++) f.r[p[2 * i]] = tt[i]; goto again; }
    case OP_SELECT: { V c = opv(f, in.a); const V &a = opv(f, in.b), &b = opv(f, in.c);
      if (!c.e) { f.r[in.dst] = (c.c & 1) ? a : b; goto again; }
      if (in.w == 0 || in.w > 64) { f.r[in.dst] = branch(c.e) ? a : b; goto again; }
      f.r[in.dst] = ve(mkIte(c.e, ex(a, in.w), ex(b, in.w))); goto again; }
    case OP_CALL: case OP_INVOKE: {
      u32 fi;
      const int32_t* p = aux + in.x; unsigned na = *p++; argv.resize(na); for (unsigned i = 0; i < na; i++) argv[i] = opv(f, p[i]);
      if (in.w2) fi = in.a; else { u64 t = concretize(opv(f, in.a), 64); if (t < FUNC0 || t >= FUNC0 + 16 * funcs.size() || (t - FUNC0) % 16) violationEnd("mem:bad-call", "call through an invalid function pointer"); fi = (t - FUNC0) / 16; }
      Func& F = funcs[fi];
      if (!F.ext) { pushCall(fi, &in, argv.data(), na, in.b); break; }
      if (F.builtin) { V ret; bool xfer = callBuiltin(F.builtin, in, f, argv.data(), na, ret); if (xfer) break;
        if (in.dst != NOOPND) f.r[in.dst] = ret; if (in.op == OP_INVOKE) f.pc = aux[in.x + 1 + na]; goto again; }
      unsupported("external function " + F.name); }
    case OP_RET: { const int32_t* p = aux + in.x; int n = *p++; V t[16]; if (n > 16) unsupported("large aggregate return"); for (int i = 0; i < n; i++) t[i] = opv(f, p[i]);
      const Inst* ci = f.ci; popFrame();
      if (fr.size() == baseDepth) return;
      Frame& c = fr.back(); if (ci->dst != NOOPND) for (int i = 0; i < n && i < (int)ci->w; i++) c.r[ci->dst + i] = t[i];
      if (ci->op == OP_INVOKE) c.pc = aux[ci->x + 1 + aux[ci->x]];
      break; }
    case OP_LANDINGPAD: { int sel = 0; u64 adj = 0; u64 o = excInFlight; int r = lpMatch(f, in, o, excType[o], sel, adj); if (r == 2) sel = 0; f.r[in.dst] = vc(o); f.r[in.dst + 1] = vc((u32)sel); goto again; }
    case OP_RESUME: { u64 o = opv(f, in.a).c; const Inst* ci = f.ci; popFrame();
      fr.push_back(Frame{fr.back().f, 0, regTop, sp, ci, 0, ++frameUid}); unwind(o); break; }
    case OP_UNREACHABLE: violationEnd("unreachable:" + funcs[f.f].name, "undefined behaviour: unreachable code reached");
    case OP_MEMCPY: case OP_MEMMOVE: { u64 d = concretize(opv(f, in.a), 64), s = concretize(opv(f, in.b), 64), n = concretize(opv(f, in.c), 64); copyMem(d, s, n); goto again; }
    case OP_MEMSET: { V t[3] = {opv(f, in.a), opv(f, in.b), opv(f, in.c)}; if (t[1].e && t[1].e->w == 8) t[1].e = mkZext(t[1].e, 32); V r; callBuiltin(B_MEMSET, in, f, t, 3, r); goto again; }
    case OP_UADDO: case OP_USUBO: case OP_UMULO: case OP_SADDO: case OP_SSUBO: case OP_SMULO: {
      V a = opv(f, in.a), b = opv(f, in.b);
      if (!a.e && !b.e) {
        unsigned __int128 r; bool o = false; u64 v = 0; unsigned w = in.w;
        switch (in.op) {
        case OP_UADDO: r = (unsigned __int128)a.c + b.c; v = (u64)r & mask(w); o = r > mask(w); break;
        case OP_USUBO: v = (a.c - b.c) & mask(w); o = a.c < b.c; break;
        case OP_UMULO: r = (unsigned __int128)a.c * b.c; v = (u64)r & mask(w); o = r > mask(w); break;
        default: { __int128 x = sx(a.c, w), y = sx(b.c, w), z = in.op == OP_SADDO ? x + y : in.op == OP_SSUBO ? x - y : x * y; v = (u64)z & mask(w); o = z != (__int128)sx(v, w); } }
        f.r[in.dst] = vc(v); f.r[in.dst + 1] = vc(o); goto again; }
      Expr *x = ex(a, in.w), *y = ex(b, in.w); unsigned w = in.w;
      if (in.op == OP_UADDO) { Expr* s = mkBin(E_ADD, x, y); f.r[in.dst] = ve(s); f.r[in.dst + 1] = ve(mkBin(E_ULT, s, x)); goto again; }
      if (in.op == OP_USUBO) { f.r[in.dst] = ve(mkBin(E_SUB, x, y)); f.r[in.dst + 1] = ve(mkBin(E_ULT, x, y)); goto again; }
      if (in.op == OP_UMULO) { Expr* m = mkBin(E_MUL, x, y); f.r[in.dst] = ve(m);
        Expr* z = mkBin(E_EQ, x, mkConst(0, w)); Expr* q = mkBin(E_UDIV, m, mkIte(z, mkConst(1, w), x)); f.r[in.dst + 1] = ve(mkBin(E_AND, mkNot(z), mkNot(mkBin(E_EQ, q, y)))); goto again; }
      if (w <= 32) { Expr *X = mkSext(x, 64), *Y = mkSext(y, 64); Expr* r = mkBin(in.op == OP_SADDO ? E_ADD : in.op == OP_SSUBO ? E_SUB : E_MUL, X, Y); Expr* t = mkExtract(r, 0, w); f.r[in.dst] = ve(t); f.r[in.dst + 1] = ve(mkNot(mkBin(E_EQ, mkSext(t, 64), r))); goto again; }
      if (in.op == OP_SADDO) { Expr* s = mkBin(E_ADD, x, y); Expr* o = mkBin(E_AND, mkBin(E_XOR, x, s), mkBin(E_XOR, y, s)); f.r[in.dst] = ve(s); f.r[in.dst + 1] = ve(mkExtract(o, w - 1, 1)); goto again; }
      if (in.op == OP_SSUBO) { Expr* s = mkBin(E_SUB, x, y); Expr* o = mkBin(E_AND, mkBin(E_XOR, x, y), mkBin(E_XOR, x, s)); f.r[in.dst] = ve(s); f.r[in.dst + 1] = ve(mkExtract(o, w - 1, 1)); goto again; }
      { u64 ca = concretize(a, w), cb = concretize(b, w); __int128 z = (__int128)sx(ca, w) * sx(cb, w); u64 v = (u64)z & mask(w); f.r[in.dst] = vc(v); f.r[in.dst + 1] = vc(z != (__int128)sx(v, w)); goto again; } }
    case OP_UMIN: case OP_UMAX: case OP_SMIN: case OP_SMAX: { V a = opv(f, in.a), b = opv(f, in.b); Expr *x = ex(a, in.w), *y = ex(b, in.w);
      Expr* c = mkBin(in.op == OP_UMIN || in.op == OP_UMAX ? E_ULT : E_SLT, x, y); bool mn = in.op == OP_UMIN || in.op == OP_SMIN;
      f.r[in.dst] = ve(mn ? mkIte(c, x, y) : mkIte(c, y, x)); goto again; }
    case OP_ABS: { Expr* x = ex(opv(f, in.a), in.w); f.r[in.dst] = ve(mkIte(mkBin(E_SLT, x, mkConst(0, in.w)), mkBin(E_SUB, mkConst(0, in.w), x), x)); goto again; }
    case OP_UADDSAT: { Expr *x = ex(opv(f, in.a), in.w), *y = ex(opv(f, in.b), in.w); Expr* s = mkBin(E_ADD, x, y); f.r[in.dst] = ve(mkIte(mkBin(E_ULT, s, x), mkConst(~0ull, in.w), s)); goto again; }
    case OP_USUBSAT: { Expr *x = ex(opv(f, in.a), in.w), *y = ex(opv(f, in.b), in.w); f.r[in.dst] = ve(mkIte(mkBin(E_ULT, x, y), mkConst(0, in.w), mkBin(E_SUB, x, y))); goto again; }
    case OP_CTPOP: { u64 v = concretize(opv(f, in.a), in.w); f.r[in.dst] = vc(__builtin_popcountll(v)); goto again; }
    case OP_CTLZ: { V a = opv(f, in.a);
      if (!a.e) { f.r[in.dst] = vc(a.c ? (u64)__builtin_clzll(a.c) - (64 - in.w) : in.w); goto again; }
      Expr* r = mkConst(in.w, in.w); for (unsigned i = 0; i < in.w; i++) r = mkIte(mkExtract(a.e, i, 1), mkConst(in.w - 1 - i, in.w), r); f.r[in.dst] = ve(r); goto again; }
    case OP_CTTZ: { V a = opv(f, in.a);
      if (!a.e) { f.r[in.dst] = vc(a.c ? (u64)__builtin_ctzll(a.c) : in.w); goto again; }
      Expr* r = mkConst(in.w, in.w); for (unsigned i = in.w; i-- > 0;) r = mkIte(mkExtract(a.e, i, 1), mkConst(i, in.w), r); f.r[in.dst] = ve(r); goto again; }
    case OP_BSWAP: { Expr* x = ex(opv(f, in.a), in.w); Expr* r = mkExtract(x, 0, 8); for (unsigned i = 8; i < in.w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); f.r[in.dst] = ve(r); goto again; }
    case OP_FSHL: case OP_FSHR: { u64 s = concretize(opv(f, in.c), in.w) % in.w; Expr *x = ex(opv(f, in.a), in.w), *y = ex(opv(f, in.b), in.w);
      if (in.op == OP_FSHL) f.r[in.dst] = ve(s == 0 ? x : mkConcat(mkExtract(x, 0, in.w - s), mkExtract(y, in.w - s, s)));
      else f.r[in.dst] = ve(s == 0 ? y : mkConcat(mkExtract(x, 0, s), mkExtract(y, s, in.w - s))); goto again; }
    case OP_EHTYPEID: { f.r[in.dst] = vc((u32)selFor(opv(f, in.a).c)); goto again; }
    case OP_VASTART: { u64 p = opv(f, in.a).c; storeBits(p, vc(48), 32); storeBits(p + 4, vc(304), 32); storeBits(p + 8, vc(f.va), 64); storeBits(p + 16, vc(0), 64); goto again; }
    case OP_VACOPY: { copyMem(opv(f, in.a).c, opv(f, in.b).c, 24); goto again; }
    case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: case OP_FREM: { u64 a = concretize(opv(f, in.a), in.w), b = concretize(opv(f, in.b), in.w); double x = asD(a, in.w), y = asD(b, in.w), r;
      if (in.w == 32) { float p = x, q = y, t; switch (in.op) { case OP_FADD: t = p + q; break; case OP_FSUB: t = p - q; break; case OP_FMUL: t = p * q; break; case OP_FDIV: t = p / q; break; default: t = fmodf(p, q); } r = t; }
      else switch (in.op) { case OP_FADD: r = x + y; break; case OP_FSUB: r = x - y; break; case OP_FMUL: r = x * y; break; case OP_FDIV: r = x / y; break; default: r = fmod(x, y); }
      f.r[in.dst] = vc(fromD(r, in.w)); goto again; }
    case OP_FNEG: { u64 a = concretize(opv(f, in.a), in.w); f.r[in.dst] = vc(fromD(-asD(a, in.w), in.w)); goto again; }
    case OP_FCMP: { u64 a = concretize(opv(f, in.a), in.w), b = concretize(opv(f, in.b), in.w); double x = asD(a, in.w), y = asD(b, in.w); bool un = x != x || y != y; u32 p = in.x; bool r = false;
      if (un) r = p & 8; else if (x == y) r = p & 1; else if (x > y) r = p & 2; else r = p & 4; f.r[in.dst] = vc(r); goto again; }
    case OP_FPTOSI: { double x = asD(concretize(opv(f, in.a), in.w2), in.w2); f.r[in.dst] = vc((u64)(i64)x & mask(in.w)); goto again; }
    case OP_FPTOUI: { double x = asD(concretize(opv(f, in.a), in.w2), in.w2); f.r[in.dst] = vc((x < 0 ? (u64)(i64)x : (u64)x) & mask(in.w)); goto again; }
    case OP_SITOFP: { u64 a = concretize(opv(f, in.a), in.w2); f.r[in.dst] = vc(in.w == 32 ? fromD((float)sx(a, in.w2), 32) : fromD((double)sx(a, in.w2), 64)); goto again; }
    case OP_UITOFP: { u64 a = concretize(opv(f, in.a), in.w2); f.r[in.dst] = vc(in.w == 32 ? fromD((float)a, 32) : fromD((double)a, 64)); goto again; }
    case OP_FPEXT: case OP_FPTRUNC: { u64 a = concretize(opv(f, in.a), in.w2); f.r[in.dst] = vc(fromD(asD(a, in.w2), in.w)); goto again; }
    case OP_RMW: { u64 p = concretize(opv(f, in.a), 64); V o = loadBits(p, in.w), b = opv(f, in.b); Expr *x = ex(o, in.w), *y = ex(b, in.w), *r;
      switch (in.x) { case 0: r = y; break; case 1: r = mkBin(E_ADD, x, y); break; case 2: r = mkBin(E_SUB, x, y); break; case 3: r = mkBin(E_AND, x, y); break; case 5: r = mkBin(E_OR, x, y); break; case 6: r = mkBin(E_XOR, x, y); break; default: unsupported("atomicrmw"); }
      storeBits(p, ve(r), in.w); f.r[in.dst] = o; goto again; }
    case OP_CMPXCHG: { u64 p = concretize(opv(f, in.a), 64); V o = loadBits(p, in.w); u64 oc = concretize(o, in.w), cc = concretize(opv(f, in.b), in.w); if (oc == cc) storeBits(p, opv(f, in.c), in.w); f.r[in.dst] = vc(oc); f.r[in.dst + 1] = vc(oc == cc); goto again; }
    case OP_UNSUP: unsupported(strs[in.x]);
    case OP_NOP: goto again;
    default: unsupported("opcode " + std::to_string(in.op));
    }
  }
}

static void loadProgram(const char* file) {
  int fd = open(file, O_RDONLY); struct stat st; if (fd < 0 || fstat(fd, &st)) { perror(file); _exit(2); }
  char* m = (char*)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); Reader R{m, m + st.st_size}; char mg[4]; R.raw(mg, 4);
  u32 ng = R.u32(); struct Rl { u64 at; u32 kind, idx; u64 add; }; std::vector<Rl> rels; heapTop = A0 + 4096;
  for (u32 i = 0; i < ng; i++) {
    Global g; g.name = R.str(); g.size = R.u64(); g.ext = R.u32(); R.u32();
    u64 asz = g.size; if (g.ext && asz < 256) asz = 256;
    g.addr = (heapTop + 63) & ~63ull; heapTop = g.addr + ((asz + 15) & ~15ull) + 64;
    memset(SHD + (g.addr - A0), 2, asz);
    u32 zero = R.u32(); if (!zero) R.raw((void*)g.addr, g.size);
    u32 nr = R.u32(); for (u32 k = 0; k < nr; k++) { Rl r; r.at = g.addr + R.u64(); r.kind = R.u32(); r.idx = R.u32(); r.add = R.u64(); rels.push_back(r); }
    globals.push_back(g);
    if (g.name == "_ZTVN10__cxxabiv120__si_class_type_infoE") siVt = g.addr + 16;
    if (g.name == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vmiVt = g.addr + 16;
  }
  u32 nf = R.u32();
  for (u32 i = 0; i < nf; i++) { Func f{}; f.name = R.str(); f.ext = R.u32(); f.va = R.u32(); f.np = R.u32(); if (!f.ext) { f.nslots = R.u32(); f.start = R.u32(); f.len = R.u32(); }
    if (f.ext) { auto it = biTab.find(f.name); f.builtin = it == biTab.end() ? 0 : it->second; } fnByName[f.name] = i; funcs.push_back(f); }
  for (auto& r : rels) { u64 v = r.kind == 1 ? globals[r.idx].addr + r.add : FUNC0 + 16ull * r.idx; memcpy((void*)r.at, &v, 8); }
  u32 nc = R.u32(); for (u32 i = 0; i < nc; i++) { u32 k = R.u32(), x = R.u32(); u64 v = R.u64(); consts.push_back(vc(k == 0 ? v : k == 1 ? globals[x].addr + v : FUNC0 + 16ull * x)); }
  u32 ns = R.u32(); for (u32 i = 0; i < ns; i++) strs.push_back(R.str());
  u32 n = R.u32(); code = (const Inst*)malloc((size_t)n * sizeof(Inst)); R.raw((void*)code, (size_t)n * sizeof(Inst));
  u32 na = R.u32(); aux = (const int32_t*)malloc((size_t)na * 4 + 4); R.raw((void*)aux, (size_t)na * 4);
}
static std::string resolveTrace() { // replace @id by the value under the final model
  std::string o; size_t i = 0;
  while (i < traceBuf.size()) { size_t e = traceBuf.find('\n', i); std::string l = traceBuf.substr(i, e - i); i = e + 1; size_t at = l.rfind(" @");
    if (at != std::string::npos) { Expr* x = exprs[strtoul(l.c_str() + at + 2, 0, 10) - 1]; l = l.substr(0, at) + " " + std::to_string((unsigned long long)eval(x)); }
    o += l + "\n"; }
  return o;
}
int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: symx prog.sx entry outdir [key=value...]\n"); return 2; }
  double tmo = 60; outDir = argv[3]; std::string statFile = outDir + "/stats.json";
  for (int i = 4; i < argc; i++) { std::string a = argv[i]; size_t e = a.find('='); std::string k = a.substr(0, e), v = a.substr(e + 1);
    if (k == "timeout") tmo = atof(v.c_str()); else if (k == "walk") walkTime = atof(v.c_str()); else if (k == "seed") coins = strtoull(v.c_str(), 0, 0); else if (k == "procs") maxProc = atoi(v.c_str()); else if (k == "steps") stepLimit = strtoull(v.c_str(), 0, 0); else if (k == "maxviol") maxViol = atoi(v.c_str());
    else if (k == "only") { size_t p = 0; while (p <= v.size()) { size_t c = v.find(',', p); if (c == std::string::npos) c = v.size(); if (c > p) onlyTags.push_back(v.substr(p, c - p)); p = c + 1; } } else if (k == "pertag") perTag = atoi(v.c_str()); else if (k == "samples") maxSamples = atoi(v.c_str()); else params[k] = v; }
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  void* a = mmap((void*)A0, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != (void*)A0) { fprintf(stderr, "arena\n"); return 2; }
  SHD = (u8*)mmap(nullptr, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  regBase = (V*)mmap(nullptr, 1ull << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); regTop = regBase;
  supOf({});
  double t0 = now(); deadline = t0 + tmo; SH->running = 1;
  loadProgram(argv[1]);
  auto it = fnByName.find(argv[2]); if (it == fnByName.end()) { fprintf(stderr, "no entry %s\n", argv[2]); return 2; }
  fflush(nullptr);
  pid_t worker = fork();
  if (worker) { // supervisor: waits for the exploration and writes the statistics
    int st = 0; bool killed = false;
    for (;;) { pid_t p = waitpid(worker, &st, WNOHANG); if (p == worker) break; if (now() > deadline + 15) { killed = true; kill(worker, SIGKILL); waitpid(worker, &st, 0); break; } usleep(2000); }
    if ((SH->timeouts || killed) && walkTime > 0 && !SH->stop) { u64 t = SH->timeouts; deadline = now() + walkTime; for (int w = 0; w < maxProc; w++) if (!fork()) { walking = true; coins = coins * 1000003 + w + 1; goto explore; }
      while (wait(nullptr) > 0 || errno == EINTR) {} SH->timeouts = t; }
    std::string j = "{\n"; auto put = [&](const char* k, u64 v) { j += std::string("  \"") + k + "\": " + std::to_string((unsigned long long)v) + ",\n"; };
    put("paths", SH->paths); put("pruned", SH->pruned); put("violations", SH->violations); put("unsupported", SH->unsupported); put("limits", SH->limits); put("timeouts", SH->timeouts + (killed ? 1 : 0));
    put("instructions", SH->instrs); put("forks", SH->forks); put("symbolic_branches", SH->branches); put("z3_queries", SH->z3q); put("z3_sat", SH->z3sat); put("z3_unsat", SH->z3unsat); put("z3_unknown", SH->z3unk);
    put("domain_decisions", SH->domq); put("cache_hits", SH->cacheq); put("z3_ns", SH->z3ns); put("assertions", SH->asserts); put("assertions_by_solver", SH->assertsSolver); put("assertions_concrete_on_path", SH->assertsConcrete);
    put("inexact", SH->inexact); put("max_depth", SH->maxdepth); put("max_inputs", SH->maxinputs); put("max_steps_on_path", SH->stepmax); put("worker_status", st); put("stopped", SH->stop);
    auto esc = [](const char* s) { std::string o; for (; *s; s++) { if (*s == '"' || *s == '\\') o += '\\'; if ((u8)*s >= 32) o += *s; } return o; };
    j += "  \"unsupported_msg\": \"" + esc(SH->unsupMsg) + "\",\n  \"limit_msg\": \"" + esc(SH->limitMsg) + "\",\n";
    j += "  \"witness\": {"; bool first = true; for (int i = 0; i < 64; i++) if (SH->witness[i]) { j += std::string(first ? "" : ", ") + "\"" + std::to_string(i) + "\": " + std::to_string((unsigned long long)SH->witness[i]); first = false; }
    j += "},\n  \"functions\": ["; first = true; for (size_t i = 0; i < funcs.size() && i < sizeof SH->covered; i++) if (SH->covered[i]) { j += std::string(first ? "" : ", ") + "\"" + esc(funcs[i].name.c_str()) + "\""; first = false; }
    j += "],\n  \"wall_s\": " + std::to_string(now() - t0) + "\n}\n";
    FILE* o = fopen(statFile.c_str(), "w"); if (!o) return 2; fputs(j.c_str(), o); fclose(o); return 0;
  }
explore:
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_del_config(cfg);
  ZS = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, ZS);
  fr.reserve(5000);
  // static initialisers in priority order
  fr.push_back(Frame{it->second, 0, regTop, sp, nullptr, 0, ++frameUid});
  for (auto& g : globals) if (g.name == "llvm.global_ctors") {
    std::vector<std::pair<u32, u64>> v; for (u64 o = 0; o + 24 <= g.size; o += 24) { u32 pr; u64 fn; memcpy(&pr, (void*)(g.addr + o), 4); memcpy(&fn, (void*)(g.addr + o + 8), 8); v.push_back({pr, fn}); }
    std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
    for (auto& p : v) { pushCall((p.second - FUNC0) / 16, nullptr, nullptr, 0, 0); run(1); }
  }
  if (walking) { u64 n = 0; for (;;) { if (SH->stop || now() > deadline) _exit(0); coins = coins * 6364136223846793005ull + 1442695040888963407ull + n++; SH->running++; pid_t p = fork(); if (p < 0) _exit(0); if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); isRoot = false; stepBase = steps; if (!coins) coins = 1; break; } waitpid(p, nullptr, 0); } }
  pushCall(it->second, nullptr, nullptr, 0, 0); run(1);
  SH->paths++; // a path completed
  if (SH->samples.fetch_add(1) < maxSamples) appendFile(outDir + "/sample-" + std::to_string(getpid()) + ".txt", "tag sample\n" + inputDump() + resolveTrace());
  finish(); _exit(0);
}
