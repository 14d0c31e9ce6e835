// Harness API. Under the symbolic executor these are engine primitives; in the native
// replay build (rt/native.cpp) they read the recorded counterexample.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint64_t sx_sym(const char* name, int bits);
void sx_sym_bytes(void* p, size_t n, const char* name);
void sx_assume(int cond);
void sx_assert_(int cond, const char* tag, const char* msg);
void sx_fail_(const char* tag, const char* msg);
void sx_witness(int id);
void sx_trace_(const char* name, uint64_t v);
uint64_t sx_concretize(uint64_t v);
int sx_is_symbolic(uint64_t v);
uint64_t sx_param(const char* name, uint64_t dflt);
void sx_done(void) __attribute__((noreturn));
int sx_host_regcomp(const char* pat, int flags);
int sx_host_regmatch(const char* pat, const char* s, int flags);
void sx_puts(const char* s);
}
static inline bool sx_bool(const char* n) { return sx_sym(n, 1) & 1; }
static inline unsigned char sx_u8(const char* n) { return (unsigned char)sx_sym(n, 8); }
static inline uint32_t sx_u32(const char* n) { return (uint32_t)sx_sym(n, 32); }
static inline uint64_t sx_u64(const char* n) { return sx_sym(n, 64); }
// value in [lo, hi], explored by case split
static inline unsigned sx_range(const char* n, unsigned lo, unsigned hi) {
  uint64_t v = sx_sym(n, 8); sx_assume(v >= lo); sx_assume(v <= hi); return (unsigned)sx_concretize(v);
}
#define SX_ASSERT(c, tag, msg) sx_assert_((c) ? 1 : 0, tag, msg)
#define SX_FAIL(tag, msg) sx_fail_(tag, msg)
#define SX_TRACE(name, v) sx_trace_(name, (uint64_t)(v))
