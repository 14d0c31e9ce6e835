// "cards create COLLECTION" (C47): exactly the ports without an up to date binary are built, each once and after those it needs; binaries without a port are removed.
// Ports t, x, y of collection base (x may need t, y may need x or t), z of collection extra; binaries with a symbolic version and release each, listed or not, archive there or not; binary q has no port
#include "pkgworld.h"
static bool listed[4], there[4], dep[4][4], built[4], libs; static char ver[4], rel[4], pv[4], prl[4]; static unsigned n = 3, order[16], nb; static bool dry, inKid, tooMany; static const char* P4[4] = {"t", "x", "y", "z"}; static Buf fixed_; static Buf ent[4]; static bool qThere, zBin;
static void bin(unsigned i, char v, char r, bool arch) { Arc& a = *new Arc; char m[64]; snprintf(m, 64, "\nV%c\nr%c\nax86_64\nB1700000005\nc%s\n", v, r, i == 3 ? "extra" : "base"); a.meta.s("N").s(P4[i]).s(m); if (libs && i == 1) a.meta.s("Llibno.so\n"); arcDir(a); char* f = (char*)malloc(32); snprintf(f, 32, "u/f%s", P4[i]); a.mtree.s(f).c('\n'); arcAdd(a, f, S_IFREG | 0644, "x", 1); char* p = (char*)malloc(80); snprintf(p, 80, "/x/%s/%s.cards-x86_64.tar.xz", i == 3 ? "extra" : "base", P4[i]); if (arch) arcDone(a, p); ent[i] = Buf(); ent[i].c('@').s(strrchr(p, '/') + 1).c('\n').b(a.meta.d, a.meta.n).c('\n'); }
static void writeRepo() { static Buf* keep[16]; static int k; Buf* r = keep[k++ & 15] = new Buf; r->b(fixed_.d, fixed_.n); for (unsigned i = 0; i < 3; i++) r->b(ent[i].d, ent[i].n); env_file("/x/base/.REPO", r->d, r->n); env_file("/x/extra/.REPO", ent[3].d, ent[3].n); }
static void onFork() { int i = -1; for (unsigned k = 0; k < 4; k++) { char d[32]; snprintf(d, 32, "/p/%s/%s", k == 3 ? "extra" : "base", P4[k]); if (env.cwd == env_node(d)) i = (int)k; } SX_ASSERT(i >= 0, "C47", "a build runs outside of the directories of the ports"); if (i < 0) return; if (nb < 16) order[nb++] = (unsigned)i; else tooMany = true; built[i] = true; bin((unsigned)i, pv[i], prl[i], true); writeRepo(); }
static char* g; 
extern "C" void harness() {
  world(); env_dir("/u"); dry = sx_param("dry", 0); bool oth = sx_param("other", 0); libs = sx_param("libs", 0); env_dir("/tmp/setup"); env_text("/etc/cards.conf", "dir /x/base\ndir /x/extra\n"); env_dir("/x/base"); env_dir("/x/extra"); env_dir("/p/base"); env_dir("/p/extra"); env.cwd = env_node("/p");
  if (sx_param("few", 0)) { unsigned v = sx_range("deps", 0, 2); if (v == 1) dep[1][0] = dep[2][1] = true; if (v == 2) dep[0][1] = dep[0][2] = dep[1][2] = true; } else for (unsigned i = 0; i < 3; i++) for (unsigned k = 0; k < i; k++) { char t[16]; snprintf(t, 16, "dep%u_%u", i, k); dep[i][k] = sx_bool(t); }
  for (unsigned i = 0; i < 4; i++) { char t[24]; pv[i] = '5'; prl[i] = '2'; if (sx_param("ports", 0) && i == 0) { unsigned char c = sx_u8("portVersion"); sx_assume(c >= '0'); sx_assume(c <= '9'); pv[i] = (char)c; } if (i < 3) { snprintf(t, 24, "listed%u", i); listed[i] = sx_bool(t); } if (listed[i]) { snprintf(t, 24, "archive%u", i); there[i] = !sx_param("arch", 1) || sx_bool(t); snprintf(t, 24, "version%u", i); unsigned char c = sx_u8(t); sx_assume(c >= '0'); sx_assume(c <= '9'); ver[i] = (char)c; snprintf(t, 24, "release%u", i); c = sx_u8(t); sx_assume(c >= '1'); sx_assume(c <= '9'); rel[i] = (char)c; bin(i, ver[i], rel[i], there[i]); }
    Buf b; b.s("description=d\nrun=("); for (unsigned k = 0; k < 4; k++) if (dep[i][k]) b.s(P4[k]).c(' '); b.s(")\nversion=").c(pv[i]).s("\nrelease=").c(prl[i]).c('\n'); char* p = (char*)malloc(48); snprintf(p, 48, "/p/%s/%s/Pkgfile", i == 3 ? "extra" : "base", P4[i]); if (i != 3 || !oth) env_file(p, b.d, b.n); }
  qThere = sx_bool("orphan"); { Arc& a = *new Arc; a.meta.s("Ncards.devel\nV1\nr1\nax86_64\nB1700000005\ncbase\ngdevel\nsdevel\n"); arcDir(a); a.mtree.s("u/cd\n"); arcAdd(a, "u/cd", S_IFREG | 0644, "x", 1); arcDone(a, "/x/base/cards.devel.cards-x86_64.tar.xz"); fixed_.s("@cards.devel.cards-x86_64.tar.xz\n").b(a.meta.d, a.meta.n).c('\n'); }
  if (qThere) { for (const char* q : {"q", "q.devel"}) { Arc& a = *new Arc; a.meta.s("N").s(q).s("\nV1\nr1\nax86_64\nB1700000005\ncbase\n"); if (q[1]) a.meta.s("gdevel\n"); arcDir(a); char* p = (char*)malloc(64); snprintf(p, 64, "/x/base/%s.cards-x86_64.tar.xz", q); arcDone(a, p); fixed_.c('@').s(p + 8).c('\n').b(a.meta.d, a.meta.n).c('\n'); } }
  if (oth) { zBin = true; bin(3, '1', '1', true); } writeRepo(); env_text("/x/base/.FILES", ""); env_text("/x/extra/.FILES", ""); env_text("/x/base/readme", "r");
  env.waitMode = sx_param("fail", 0); env.onfork = onFork; Node* before = env_snapshot(); env_out_reset(); int rc = dry ? CARDS("create", "--dry", "base") : CARDS("create", "base"); env.onfork = nullptr; SX_TRACE("rc", rc); SX_TRACE("nb", nb); g = (char*)malloc(env.nout + 1); memcpy(g, env.out, env.nout); g[env.nout] = 0;
  if (sx_param("dbg", 0)) { static char t[99]; snprintf(t, 99, "rc %d run %d builds %u", rc, g_lastRun, nb); sx_puts(t); sx_puts(g); if (env.nerr) { env.err[env.nerr < env.caperr ? env.nerr : env.caperr - 1] = 0; sx_puts(env.err); } }
  SX_ASSERT(rc != -3 && rc != -2 && !tooMany, "C47", "the command ended abnormally"); bool todo[4] = {}; for (unsigned i = 0; i < 3; i++) todo[i] = !listed[i] || !there[i] || ver[i] != pv[i] || rel[i] != prl[i]; int bad = -1; for (int k = 0; k < env.nwst; k++) if (env.wst[k] && bad < 0) bad = k;
  if (oth) SX_ASSERT(env_exists("/x/extra/z.cards-x86_64.tar.xz"), "C47", "a binary of another collection was removed"); SX_ASSERT(textIs("/x/base/readme", "r") && env_exists("/x/base/cards.devel.cards-x86_64.tar.xz"), "C47", "something that is no binary of the collection was removed");
  if (dry) { SX_ASSERT(rc == 0 && diffs(before) == 0 && !env.forks, "C47", "a dry run changed the system"); for (unsigned i = 0; i < 3; i++) { char t[32]; const char* q = nullptr; for (const char* s = g; *s; ) { const char* e = strchr(s, '\n'); if (!e) break; if (s[0] == P4[i][0] && (s[1] == ' ' || s[1] == ':')) { Buf l; l.b(s, e - s < 200 ? e - s : 200); if (strstr(l.d, "SHOULD BE BUILD")) q = s; } s = e + 1; } (void)t; sx_witness(todo[i] ? 1 : 2); SX_ASSERT((q != nullptr) == todo[i], "C47", todo[i] ? "a port without an up to date binary is not shown" : "a port with an up to date binary is shown"); } return; }
  if (qThere) { sx_witness(3); SX_ASSERT(!env_exists("/x/base/q.cards-x86_64.tar.xz"), "C47", "a binary whose port is gone was not removed"); } else SX_ASSERT(!env_exists("/x/base/q.cards-x86_64.tar.xz"), "C47", "?");
  for (unsigned i = 0; i < 3; i++) if (listed[i] && there[i]) { char p[64]; snprintf(p, 64, "/x/base/%s.cards-x86_64.tar.xz", P4[i]); SX_ASSERT(env_exists(p), "C47", "a binary whose port exists was removed"); }
  for (unsigned a = 0; a < nb; a++) for (unsigned b = 0; b < a; b++) SX_ASSERT(order[a] != order[b], "C47", "a port was built twice"); for (unsigned a = 0; a < nb; a++) { for (unsigned b = a + 1; b < nb; b++) SX_ASSERT(!dep[order[a]][order[b]], "C47", "a port was built before one it needs"); SX_ASSERT(order[a] < 3 && todo[order[a]], "C47", "a port with an up to date binary was built again"); }
  if (bad >= 0) { sx_witness(5); SX_ASSERT(rc != 0, "C47", "a failed build is taken for a success"); SX_ASSERT((int)nb == bad + 1, "C47", "another port was built after a build failed"); return; }
  SX_ASSERT(rc == 0, "C47", "the command failed"); for (unsigned i = 0; i < 3; i++) { if (todo[i]) sx_witness(4); SX_ASSERT(built[i] == todo[i], "C47", "a port without an up to date binary was not built"); } SX_ASSERT(env.exLocks == 0, "C11", "the database lock is still held after the command");
}
