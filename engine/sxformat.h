// Bytecode shared by the lowering pass (LLVM IR -> .sx) and the symbolic executor.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

enum Op : uint16_t {
  OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_AND, OP_OR, OP_XOR,
  OP_SHL, OP_LSHR, OP_ASHR,
  OP_EQ, OP_NE, OP_ULT, OP_ULE, OP_UGT, OP_UGE, OP_SLT, OP_SLE, OP_SGT, OP_SGE,
  OP_ZEXT, OP_SEXT, OP_TRUNC, OP_MOV,
  OP_GEPC,            // dst = a + imm
  OP_GEPI,            // dst = a + sext(b, w2)*imm
  OP_LOAD, OP_STORE,  // w = bits; LOAD dst,[a]; STORE a->[b]
  OP_ALLOCA,          // dst, imm = size, b = count operand (or NOOP), x = align
  OP_BR, OP_CBR,      // BR x ; CBR a, x=true, imm=false
  OP_SWITCH,          // a, x = aux index: n, {const lo32, hi32, target}*, default
  OP_PHIS,            // x = aux index: n, {dst, src}*
  OP_CALL, OP_INVOKE, // a = callee func idx (w2=1 direct) or operand; x = aux: nargs, args..., [normal, unwind]; dst, w=nret leaves
  OP_RET,             // x = aux: n, ops
  OP_SELECT,          // dst = a ? b : c
  OP_LANDINGPAD,      // dst(2), x = aux: cleanup, nclauses, {kind(0 catch,1 filter), op or n ops}
  OP_RESUME,          // a,b
  OP_UNREACHABLE,
  OP_MEMCPY, OP_MEMMOVE, OP_MEMSET, // a dst, b src/val, c len
  OP_UADDO, OP_USUBO, OP_UMULO, OP_SADDO, OP_SSUBO, OP_SMULO, // dst, dst+1
  OP_UMIN, OP_UMAX, OP_SMIN, OP_SMAX, OP_ABS, OP_CTPOP, OP_CTLZ, OP_CTTZ, OP_BSWAP, OP_FSHL, OP_FSHR,
  OP_UADDSAT, OP_USUBSAT,
  OP_EHTYPEID, OP_VASTART, OP_VACOPY,
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM, OP_FNEG, OP_FCMP, // w=32/64, x=pred
  OP_FPTOSI, OP_FPTOUI, OP_SITOFP, OP_UITOFP, OP_FPEXT, OP_FPTRUNC,
  OP_RMW,             // dst=[a], op x, b
  OP_CMPXCHG,         // dst,dst+1 ; a ptr, b cmp, c new
  OP_UNSUP,           // x = string index
  OP_NOP,
};
static const int32_t NOOPND = INT32_MIN;

struct Inst {
  uint16_t op; uint16_t w; uint16_t w2; uint16_t fl;
  int32_t dst, a, b, c;
  uint32_t x; uint32_t pad;
  uint64_t imm;
};
struct ConstRec { uint32_t kind; uint32_t idx; uint64_t val; }; // 0 int, 1 global+val, 2 func

struct Writer {
  std::vector<char> buf;
  void raw(const void* p, size_t n) { buf.insert(buf.end(), (const char*)p, (const char*)p + n); }
  void u32(uint32_t v) { raw(&v, 4); }
  void u64(uint64_t v) { raw(&v, 8); }
  void str(const std::string& s) { u32(s.size()); raw(s.data(), s.size()); }
};
struct Reader {
  const char* p; const char* e;
  void raw(void* d, size_t n) { if (p + n > e) { fprintf(stderr, "sx: truncated\n"); _Exit(3); } memcpy(d, p, n); p += n; }
  uint32_t u32() { uint32_t v; raw(&v, 4); return v; }
  uint64_t u64() { uint64_t v; raw(&v, 8); return v; }
  std::string str() { uint32_t n = u32(); std::string s(p, n); p += n; return s; }
};
