// The orders and trees of ports (C21): "cards level", "depends", "deptree", "dependent" on every dependency graph within the bounds.
#include "pkgworld.h"
static unsigned N; static char nm[5]; static unsigned np_[5]; static char dep[5][4]; static unsigned nd[5]; static bool suf[5][4]; static char ver[5], rel[5]; static const char* coll(unsigned i) { return i & 1 ? "extra" : "base"; }
static int idx(char c) { for (unsigned i = 0; i < N; i++) if (nm[i] == c) return (int)i; return -1; }
static bool edge[5][5]; static int lvl[5]; static bool cyc[5];
static const char* depName(unsigned i, unsigned k) { static char b[4][12]; static int r; r = (r + 1) & 3; b[r][0] = dep[i][k]; b[r][1] = 0; if (suf[i][k]) strcat(b[r], ".devel"); return b[r]; }
static Buf W; static char seen[16]; static unsigned ns; static bool sfx;
static void tree(char c, unsigned depth) { for (unsigned k = 0; k < 2 * depth; k++) W.c(' '); W.c((char)('0' + depth)).s(") ").c(c); int i = idx(c); for (unsigned k = 0; k < ns; k++) if (seen[k] == c) { if (i >= 0 && nd[i]) W.s(" -->"); W.c('\n'); return; } W.c('\n'); seen[ns++] = c; if (i < 0) return; char d[4]; unsigned n = 0; for (unsigned k = 0; k < nd[i]; k++) { bool dup = false; for (unsigned m = 0; m < n; m++) if (d[m] == dep[i][k]) dup = true; if (!dup) d[n++] = dep[i][k]; } for (unsigned a = 0; a < n; a++) for (unsigned b = a + 1; b < n; b++) if (d[b] < d[a]) { char t = d[a]; d[a] = d[b]; d[b] = t; } for (unsigned k = 0; k < n; k++) if (d[k] != c) tree(d[k], depth + 1); }
static char* g; static bool shows(const Buf& b) { size_t k = strlen(g); if (k != b.n) return false; unsigned d = 0; for (size_t i = 0; i < k; i++) d |= (unsigned)(unsigned char)(g[i] ^ b.d[i]); return d == 0; }
extern "C" void harness() {
  world(); unsigned cmd = (unsigned)sx_param("cmd", 0); N = (unsigned)sx_param("n", 3); unsigned slots = (unsigned)sx_param("slots", 2), style = sx_param("styles", 0) ? sx_range("style", 0, 4) : 0; sfx = sx_param("suffix", 0); unsigned known = (unsigned)sx_param("known", 0); bool vers = cmd == 3 && sx_param("vers", 1);
  env_text("/etc/cards.conf", "dir /x/base\ndir /x/none\ndir /x/extra\n"); env_dir("/p/base/.hidden"); env_dir("/p/base/empty"); env_text("/p/base/zfile", "x"); env_dir("/p/extra"); env.cwd = env_node("/p");
  for (unsigned i = 0; i < N; i++) { char t[24]; nm[i] = (char)('b' + 2 * i); nd[i] = 0; Buf b; char p[48]; snprintf(p, 48, "/p/%s/%c/Pkgfile", coll(i), nm[i]); b.s("# description=no\ndescription=d # c\n"); ver[i] = rel[i] = 0; if (vers) { snprintf(t, 24, "noVersion%u", i); if (!sx_bool(t)) { snprintf(t, 24, "version%u", i); ver[i] = (char)sx_u8(t); sx_assume(ver[i] >= '0'); sx_assume(ver[i] <= '9'); b.s("version=").c(ver[i]).c('\n'); } snprintf(t, 24, "noRelease%u", i); if (!sx_bool(t)) { rel[i] = '4'; b.s(" release=4\n"); } }
    for (unsigned k = 0; k < slots; k++) { snprintf(t, 24, "has%u_%u", i, k); if (!sx_bool(t)) break; snprintf(t, 24, "dep%u_%u", i, k); unsigned char c; if (known) c = (unsigned char)("bdfhj"[sx_range(t, 0, N - (known < 2))]); else c = sx_u8(t); if (known) ; else { sx_assume(c >= 'a'); sx_assume(c <= 'z'); } dep[i][k] = (char)c; if (sfx) { snprintf(t, 24, "suf%u_%u", i, k); suf[i][k] = sx_bool(t); } nd[i] = k + 1; }
    if (style == 0) { if (nd[i]) { b.s("run=("); for (unsigned k = 0; k < nd[i]; k++) b.s(k ? " " : "").s(depName(i, k)); b.s(")\n"); } }
    if (style == 1) { b.s("makedepends=("); for (unsigned k = 0; k < nd[i]; k++) { if (k) b.s(",\\\n\t"); b.s(depName(i, k)); } b.s("\n)\nrun=()\n"); }
    if (style == 2) { if (nd[i]) { b.s("makedepends=(").s(depName(i, 0)).s(")  # needs it\n"); b.s("run=("); for (unsigned k = 1; k < nd[i]; k++) b.c('\n').s(depName(i, k)); b.s(")\n"); } }
    if (style == 3) { b.s("run=(").s(nd[i] ? depName(i, 0) : "").s("\n# comment\n"); for (unsigned k = 1; k < nd[i]; k++) b.s("  ").s(depName(i, k)).s("\t"); b.s(")\nbuild() {\n make ) q\n}\n"); }
    if (style == 4) { b.s("run=("); for (unsigned k = 0; k < nd[i]; k++) b.s(k ? "\t" : "").s(depName(i, k)); if (i % 2) b.s(")\n"); else b.s("\n"); /* an unterminated list */ }
    b.s("source=(a z)\n"); if (style == 4 && i % 2 == 0) { b.n -= 13; b.d[b.n] = 0; } char* pp = (char*)malloc(48); strcpy(pp, p); env_file(pp, b.d, b.n); }
  for (unsigned i = 0; i < N; i++) for (unsigned k = 0; k < nd[i]; k++) { int j = idx(dep[i][k]); if (j >= 0 && j != (int)i) edge[i][j] = true; }
  // longest path by relaxation; a port that can still grow after N rounds is on or above a cycle
  for (unsigned r = 0; r < 2 * N + 2; r++) for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < N; j++) if (edge[i][j] && lvl[i] < lvl[j] + 1) { lvl[i] = lvl[j] + 1; if (r > N) cyc[i] = true; } for (unsigned r = 0; r < N; r++) for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < N; j++) if (edge[i][j] && cyc[j]) cyc[i] = true; bool anyCyc = false; for (unsigned i = 0; i < N; i++) anyCyc = anyCyc || cyc[i];
  unsigned arg = cmd ? sx_range("arg", 0, N - 1) : 0; char a[2] = {nm[arg], 0}; Node* before = env_snapshot(); env_out_reset(); int rc = cmd == 0 ? CARDS("level") : cmd == 1 ? CARDS("depends", a) : cmd == 2 ? CARDS("deptree", a) : CARDS("dependent", a); g = (char*)malloc(env.nout + 1); memcpy(g, env.out, env.nout); g[env.nout] = 0; SX_TRACE("rc", rc); if (sx_param("dbg", 0)) sx_puts(g);
  SX_ASSERT(rc == 0, "C21", "the order of the ports cannot be shown"); SX_ASSERT(diffs(before) == 0, "C21", "showing the order of the ports changed something"); if (rc) return; sx_witness(anyCyc ? 2 : 1);
  if (cmd == 0) { unsigned warn = 0; for (unsigned i = 0; i < N; i++) { char t[48]; if (!cyc[i]) { sx_witness(3 + (lvl[i] > 1)); snprintf(t, 48, "%d: %s/%c\n", lvl[i], coll(i), nm[i]); const char* q = strstr(g, t); SX_ASSERT(q && (q == g || q[-1] == '\n'), "C21", "a port has another level than its dependencies give it"); } snprintf(t, 48, ": %s/%c\n", coll(i), nm[i]); const char* q = strstr(g, t); SX_ASSERT(q && !strstr(q + 1, t), "C21", "a port is not listed exactly once"); for (unsigned j = 0; j < N; j++) if (edge[i][j] && !cyc[i]) { char u[48]; snprintf(u, 48, ": %s/%c\n", coll(j), nm[j]); const char* z = strstr(g, u); SX_ASSERT(z && z < q, "C21", "a port is listed before one it needs"); }
      for (unsigned k = 0; k < nd[i]; k++) if (idx(dep[i][k]) < 0) { snprintf(t, 48, "WARNING %c from %c", dep[i][k], nm[i]); SX_ASSERT(strstr(g, t), "C21", "a missing dependency is not reported"); warn++; } } if (warn) sx_witness(5); else SX_ASSERT(!strstr(g, "WARNING"), "C21", "a dependency that exists is reported missing"); return; }
  if (cmd == 1) { if (cyc[arg]) return; bool in[5] = {}; in[arg] = true; for (unsigned r = 0; r < N; r++) for (unsigned i = 0; i < N; i++) if (in[i]) for (unsigned j = 0; j < N; j++) if (edge[i][j]) in[j] = true; const char* q = g; for (int l = 0; l <= lvl[arg]; l++) for (unsigned i = 0; i < N; i++) if (in[i] && lvl[i] == l) { char t[16]; snprintf(t, 16, "%d: %c\n", l, nm[i]); const char* z = strstr(g, t); SX_ASSERT(z && z >= q && !strstr(z + 1, t), "C21", "the dependencies of a port are not all listed in the order they must be built"); if (!z) return; q = z; sx_witness(3); } for (unsigned i = 0; i < N; i++) if (!in[i]) { char t[16]; snprintf(t, 16, ": %c\n", nm[i]); SX_ASSERT(!strstr(g, t), "C21", "a port is listed that is not needed"); } return; }
  if (cmd == 2) { W.s("  dependencies ( '-->' = listed already)\n"); tree(nm[arg], 0); SX_ASSERT(shows(W), "C21", "the tree is not that of the dependencies"); return; }
  for (unsigned r = 0; r < 2; r++) for (unsigned i = 0; i < N; i++) { if ((coll(i)[0] == 'e') != (r == 1)) continue; bool d = false; for (unsigned k = 0; k < nd[i]; k++) if (dep[i][k] == nm[arg]) d = true; if (!d) continue; sx_witness(3); W.s("(").s(coll(i)).s(") ").c(nm[i]).c(' '); if (ver[i]) W.c(ver[i]); W.c('-').c(rel[i] ? rel[i] : '1').c('\n'); } SX_ASSERT(shows(W), "C21", "the ports that need one are not those which name it");
}
