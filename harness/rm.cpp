// Removal of package pp with pkgrm while qq and rr stay. C01: nothing another package owns is touched; C02: everything pp alone owns goes, nothing else does.
#include "pkgworld.h"
struct Lst { char e[24][40]; int n = 0; void add(const char* s) { strcpy(e[n++], s); } bool has(const char* s) const { for (int i = 0; i < n; i++) if (!strcmp(e[i], s)) return true; return false; } };
static Lst P, Q, R;
static int g_bad;
static void onDiff(char k, const char* p) {
  const char* q = p + strlen(G_ROOT); if (strncmp(p, G_ROOT, strlen(G_ROOT))) { g_bad++; return; }
  if (k == '-' && !strncmp(q, DB "/pp", strlen(DB) + 3) && (q[strlen(DB) + 3] == 0 || q[strlen(DB) + 3] == '/')) return;
  char t[96]; snprintf(t, sizeof t, "%s/", q + 1);
  if (k == '-' && (P.has(q + 1) || P.has(t))) return;
  g_bad++;
}
static void text(Buf& b, const Lst& l) { // a files list is sorted by name
  int idx[24]; for (int i = 0; i < l.n; i++) idx[i] = i;
  for (int i = 1; i < l.n; i++) for (int k = i; k > 0 && strcmp(l.e[idx[k - 1]], l.e[idx[k]]) > 0; k--) { int t = idx[k]; idx[k] = idx[k - 1]; idx[k - 1] = t; }
  for (int i = 0; i < l.n; i++) b.s(l.e[idx[i]]).c('\n'); }
extern "C" void harness() {
  static char rootp[32]; if (sx_param("root", 0)) { G_ROOT = "/mnt"; }
  world(); if (*G_ROOT) world(G_ROOT); hostWorld();
  unsigned np = (unsigned)sx_param("np", 2), nq = (unsigned)sx_param("nq", 2), nr = (unsigned)sx_param("nr", 1), sub = (unsigned)sx_param("sub", 0), kinds = (unsigned)sx_param("kinds", 0), metas = (unsigned)sx_param("metas", 0), bulk = (unsigned)sx_param("bulk", 0), lng = (unsigned)sx_param("long", 0);
  NameSet A, B, C; symNames(A, np, "p"); symNames(B, nq, "q"); symNames(C, nr, "r");
  char t[200];
  auto real = [&](const char* rel) { static char b[4][128]; static int k; k = (k + 1) & 3; snprintf(b[k], 128, "%s/%s", G_ROOT, rel); return b[k]; };
  const char* pre = lng ? "u/a-rather-long.directory/" : "u/";
  P.add("u/"); Q.add("u/"); env_dir(real("u")); if (lng) { P.add(pre); R.add("u/"); R.add(pre); }
  auto add = [&](Lst& l, char c, const char* data) { snprintf(t, sizeof t, "%s%c", pre, c); l.add(t); if (!env_exists(real(t))) env_text(real(t), data); };
  for (unsigned i = 0; i < nq; i++) add(Q, B.c[i], "q");
  for (unsigned i = 0; i < nr; i++) add(R, C.c[i], "r");
  for (unsigned i = 0; i < np; i++) {
    snprintf(t, sizeof t, "%s%c", pre, A.c[i]);
    if (i == 0 && kinds && !env_exists(real(t))) { P.add(t); env_dir(real("v")); env_text(real("v/f"), "v"); switch (sx_range("kind", 0, 4)) { case 0: env_text(real(t), "p"); break; case 1: env_symlink(real(t), "nowhere"); break; case 2: env_symlink(real(t), "/v"); break; case 3: env_special(real(t), S_IFIFO | 0644, 0); break; case 4: break; } }
    else add(P, A.c[i], "p"); }
  if (sub) { // a directory of pp, with or without company
    P.add("u/d/"); P.add("u/d/f"); env_dir(real("u/d")); env_text(real("u/d/f"), "p"); P.add("u/d/e/"); env_dir(real("u/d/e"));
    if (sx_bool("foreign")) env_text(real("u/d/zz"), "z");
    if (sx_bool("sharedDir")) Q.add("u/d/"); if (sx_bool("sharedSub")) R.add("u/d/e/"); if (sx_bool("prefix")) { Q.add("u/d/ff"); env_text(real("u/d/ff"), "q"); } }
  for (unsigned i = 0; i < bulk; i++) { snprintf(t, sizeof t, "b%02u", i); (i & 1 ? Q : R).add(t); P.add(t); env_text(real(t), "b"); }
  for (int i = 0; i < P.n; i++) for (int k = 0; k < i; k++) sx_assume(strcmp(P.e[i], P.e[k]) != 0); // d is a sub-directory name
  if (sub) for (unsigned i = 0; i < np; i++) sx_assume(A.c[i] != 'd'); if (sub) for (unsigned i = 0; i < nq; i++) sx_assume(B.c[i] != 'd'); if (sub) for (unsigned i = 0; i < nr; i++) sx_assume(C.c[i] != 'd');
  Buf fp, fq, fr; text(fp, P); text(fq, Q); text(fr, R);
  static const char* qn[4] = {"qq", "pp.devel", "ppq", "p"}; const char* QN = qn[metas ? sx_range("qname", 0, 3) : 0];
  const char* ms[5] = {"", "d1\n", "gdevel\n", "Aalso\n", "Rpp1700000000\n"};
  unsigned mv = metas ? sx_range("meta", 0, 4) : 0, mp = metas ? sx_range("pmeta", 0, 3) : 0; Buf mq, mpp; mq.s("B1700000000\nN").s(QN).s("\nV1\nax86_64\n").s(ms[mv]).s("r1\n"); mpp.s("B1700000000\nNpp\nV1\nax86_64\ncextra\n").s(ms[mp]).s("r1\n");
  dbPkg(G_ROOT, "pp", mpp.d, fp.d, fp.n); dbPkg(G_ROOT, QN, mq.d, fq.d, fq.n); dbPkg(G_ROOT, "rr", "B1700000000\nNrr\nV1\nax86_64\nr1\n", fr.d, fr.n);
  hostNames(A); hostNames(B); hostNames(C); if (*G_ROOT) { env_text("/u/d/f", "host"); env_text("/b00", "host"); } Node* before = env_snapshot();
  int rc = *G_ROOT ? TOOLS("pkgrm", "-r", G_ROOT, "pp") : TOOLS("pkgrm", "pp");
  SX_TRACE("rc", rc); contained(before);
  SX_ASSERT(rc == 0, "C02", "removing an installed package fails");
  sx_witness(1);
  for (int o = 0; o < 2; o++) { Lst& L = o ? R : Q; for (int i = 0; i < L.n; i++) { strcpy(t, L.e[i]); size_t k = strlen(t); bool dir = t[k - 1] == '/'; if (dir) t[k - 1] = 0;
    SX_ASSERT(env_exists(real(t)), "C01", dir ? "a directory another package owns was deleted" : "a file another package owns was deleted"); if (!dir) SX_ASSERT(unchanged(before, real(t)), "C01", "a file another package owns was modified"); } }
  for (int i = 0; i < P.n; i++) { strcpy(t, P.e[i]); size_t k = strlen(t); bool dir = t[k - 1] == '/'; if (dir) t[k - 1] = 0;
    if (Q.has(P.e[i]) || R.has(P.e[i])) { sx_witness(3); continue; }
    Node* n = env_node(real(t)); if (dir && n) { sx_witness(4); SX_ASSERT(n->isdir() && n->ents, "C02", "an empty directory of the removed package is still there"); continue; }
    sx_witness(dir ? 5 : 2); SX_ASSERT(!n, "C02", "a file of the removed package is still there"); }
  SX_ASSERT(!env_exists(dbPath("pp", "")), "C02", "the record of the removed package is still there");
  g_bad = 0; env_diff(before, env.root, onDiff); SX_ASSERT(g_bad == 0, "C02", "removing a package changed something it does not own");
  SX_ASSERT(unchanged(before, dbPath(QN, "files")) && unchanged(before, dbPath(QN, "META")) && unchanged(before, dbPath("rr", "files")), "C01", "the record of another package changed");
  SX_ASSERT(env.exLocks == 0, "C11", "the database lock is still held after the command");
  SX_TRACE("nops", env.nops); SX_TRACE("diffs", diffs(before));
}
