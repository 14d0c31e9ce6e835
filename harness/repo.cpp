// "cards install NAME..." and "cards upgrade" from a local repository: dependency resolution (C20), marks (C08), differences (C23).
// n packages named by nm(); dep[i][j]: i needs j at run time; state of each: not installed, or installed with a symbolic build date
// cmd: 0 install the first package, 1 install the first two, 2 install the collection, 3 upgrade, 4 upgrade --proceed, 5 install a set
#include "pkgworld.h"
static bool dep[6][6]; static unsigned n, cmd; static bool autom[6], inst[6], inRepo[6]; static char oldB[6], newB[6];
static bool shortN, same;
static const char* nm(unsigned i) { static const char* s[] = {"bb", "aaaa", "bbbb", "c", "bbbc", "dd"}; static const char* l[] = {"bbba", "aaaa", "bbbb", "cccc", "bbbc", "dddd"}; return shortN ? s[i] : l[i]; }
static char order[64]; static int nOrder;
static const char* fileOf(unsigned i) { static char b[4][64]; static int k; k = (k + 1) & 3; snprintf(b[k], 64, "u/f%s", nm(i)); return b[k]; }
static int idx(const char* p) { size_t k = strlen(G_ROOT); if (strncmp(p, G_ROOT, k)) return -1; p += k; for (unsigned i = 0; i < n; i++) if (p[0] == '/' && !strcmp(p + 1, fileOf(i))) return (int)i; return -1; }
static void onMut(const char* op, const char* path, const char*, Node*) { int i = idx(path); if (i < 0) return; SX_ASSERT(env.exLocks > 0, "C11", "the system is changed without holding the exclusive lock of the database"); if (strcmp(op, "unlink") && strcmp(op, "remove") && nOrder < 60 && (!nOrder || order[nOrder - 1] != (char)i)) order[nOrder++] = (char)i; }
static void meta(Buf& m, unsigned i, bool repo) { char b[12] = "170000000"; b[9] = repo ? newB[i] : oldB[i]; b[10] = 0; m.s("N").s(nm(i)).s("\nV").s(repo || same ? "2" : "1").s("\nr1\nax86_64\nB").s(b).s("\ncbase\n"); if (sx_param("sets", 0) && i != n - 1) m.s("smy\n");
  for (unsigned k = 0; k < n; k++) if (dep[i][k] && (inRepo[k] || (repo && sx_param("miss", 0)))) { b[9] = newB[k]; m.s("R").s(nm(k)).s(b).c('\n'); } }
static bool fresh(unsigned i) { return inst[i] && (unsigned char)oldB[i] >= (unsigned char)newB[i]; }
extern "C" void harness() {
  if (sx_param("root", 0)) G_ROOT = "/mnt"; world(); if (*G_ROOT) world(G_ROOT); hostWorld(); env_dir(atRoot("u"));
  n = (unsigned)sx_param("n", 3); cmd = (unsigned)sx_param("cmd", 0); shortN = sx_param("short", 0); same = sx_param("same", 0); bool full = sx_param("full", 0), acyc = sx_param("acyclic", 0), dates = sx_param("dates", 1), marks = sx_param("marks", 1), gaps = sx_param("gaps", 0), decor = sx_param("decor", 0);
  for (unsigned i = 0; i < n; i++) { char t[16]; snprintf(t, sizeof t, "gap%u", i); inRepo[i] = !(gaps && i >= 1 && sx_bool(t)); }
  for (unsigned i = 0; i < n; i++) { char t[16]; if (full) for (unsigned k = 0; k < n; k++) { if (k == i || (acyc && k < i)) continue; snprintf(t, sizeof t, "dep%u_%u", i, k); dep[i][k] = sx_bool(t); } else { snprintf(t, sizeof t, "dep%u", i); unsigned v = sx_range(t, 0, n); if (v < n && v != i) dep[i][v] = true; else sx_assume(v == n); }
    snprintf(t, sizeof t, "inst%u", i); inst[i] = sx_bool(t); newB[i] = '5'; oldB[i] = '5'; if (inst[i]) { snprintf(t, sizeof t, "built%u", i); if (dates) { unsigned char c = sx_u8(t); sx_assume(c >= '0'); sx_assume(c <= '9'); oldB[i] = (char)c; } else oldB[i] = sx_bool(t) ? '3' : '5'; if (marks) { snprintf(t, sizeof t, "auto%u", i); autom[i] = sx_bool(t); } } }
  unsigned groups = (unsigned)sx_param("groups", 0); env_text("/etc/cards.conf", groups ? "dir /cards/base\ngroup devel\n" : "dir /cards/base\n"); env_dir("/cards/base");
  Buf repo; 
  for (unsigned i = 0; i < n; i++) { Buf m; if (inst[i]) { meta(m, i, false); if (autom[i]) m.s("d1\n"); char t[64]; if (decor && i) { snprintf(t, sizeof t, "decor%u", i); static const char* D[] = {"", "gdevel\n", "Azz\n", "smy\n"}; m.s(D[sx_range(t, 0, 3)]); } snprintf(t, sizeof t, sx_param("move", 0) && i == 0 ? "u/\n%s\nu/mv\n" : "u/\n%s\n", fileOf(i)); if (i == 0 && sx_param("move", 0)) env_text(atRoot("u/mv"), "old"); dbPkg(G_ROOT, nm(i), m.d, t, strlen(t)); env_text(atRoot(fileOf(i)), "old"); }
    if (!inRepo[i]) continue; Arc& a = *new Arc; meta(a.meta, i, true); arcDir(a); a.mtree.s(fileOf(i)).c('\n'); arcAdd(a, fileOf(i), S_IFREG | 0644, "new", 3); if (i == 1 && sx_param("move", 0)) { a.mtree.s("u/mv\n"); arcAdd(a, "u/mv", S_IFREG | 0644, "new", 3); } char* p = (char*)malloc(96); snprintf(p, 96, "/cards/base/%s.cards-2-x86_64-1.tar.xz", nm(i)); arcDone(a, p);
    repo.c('@').s(p + 12).c('\n').b(a.meta.d, a.meta.n).c('\n'); }
  bool subs[6] = {}; if (sx_param("move", 0)) sx_assume(inst[0] && oldB[0] < newB[0]); bool mv = sx_param("move", 0);
  for (unsigned g = 0; g < groups; g++) { char sb[16]; snprintf(sb, sizeof sb, "sub%u", g); bool sub = subs[g] = sx_bool(sb) && inRepo[g]; if (sub) { Arc& a = *new Arc; a.meta.s("N").s(nm(g)).s(".devel\nV2\nr1\nax86_64\nB1700000005\ncbase\ngdevel\n"); arcDir(a); char* u = (char*)malloc(16); snprintf(u, 16, "u/sub%u", g); a.mtree.s(u).c('\n'); arcAdd(a, u, S_IFREG | 0644, "new", 3); char* p = (char*)malloc(96); snprintf(p, 96, "/cards/base/%s.devel.cards-2-x86_64-1.tar.xz", nm(g)); arcDone(a, p); repo.c('@').s(p + 12).c('\n').b(a.meta.d, a.meta.n).c('\n'); } }
  bool nls = sx_param("nls", 0), loc = nls && sx_bool("locale"); if (nls) { env_text("/etc/cards.conf", loc ? "dir /cards/base\nlocale fr\n" : "dir /cards/base\n"); for (const char* x : {"fr", "doc"}) { Arc& a = *new Arc; a.meta.s("N").s(nm(0)).s(".").s(x).s("\nV2\nr1\nax86_64\nB1700000005\ncbase\n").s(*x == 'f' ? "nfr\n" : "gdoc\n"); arcDir(a); char* u = (char*)malloc(16); snprintf(u, 16, "u/%s", x); a.mtree.s(u).c('\n'); arcAdd(a, u, S_IFREG | 0644, "new", 3); char* p = (char*)malloc(96); snprintf(p, 96, "/cards/base/%s.%s.cards-2-x86_64-1.tar.xz", nm(0), x); arcDone(a, p); repo.c('@').s(p + 12).c('\n').b(a.meta.d, a.meta.n).c('\n'); } }
  unsigned pad = (unsigned)sx_param("pad", 0); for (unsigned i = 0; i < pad; i++) { Buf m; char t[16]; snprintf(t, 16, "pad%u", i); m.s("N").s(t).s("\nV1\nr1\nax86_64\nB1600000000\ncbase\n"); dbPkg(G_ROOT, t, m.d, "u/\n", 3); repo.c('@').s(t).s(".cards-1-x86_64-1.tar.xz\n").b(m.d, m.n).c('\n'); }
  env_file("/cards/base/.REPO", repo.d, repo.n); const char* ARC = "/root/zy.cards.tar"; unsigned mix = cmd == 6 ? sx_range("mix", 0, 3) : cmd == 7 ? sx_range("mix", 0, 1) : 0;
  if (cmd == 6 || cmd == 7) { Arc& a = *new Arc; arcDefault(a, "zy", "3"); arcDir(a); a.mtree.s("u/zy\n"); arcAdd(a, "u/zy", S_IFREG | 0644, "new", 3); arcDone(a, ARC); if (sx_bool("wasArchive")) { dbPkg(G_ROOT, "zy", "Nzy\nV1\nr1\nax86_64\nB1600000000\n", "u/\nu/zy\n", 8); env_text(atRoot("u/zy"), "old"); } }
  Node* before = env_snapshot(); env.onmut = onMut; int rc = -9; if (sx_param("uid", 0)) { unsigned u = sx_u32("uid"); sx_assume(u != 0); env.uid = u; } const char* R = "--root=/mnt"; bool alt = *G_ROOT;
  switch (cmd) {
    case 0: rc = alt ? CARDS("install", R, nm(0)) : CARDS("install", nm(0)); break;
    case 1: rc = alt ? CARDS("install", R, nm(0), nm(1)) : CARDS("install", nm(0), nm(1)); break;
    case 2: rc = alt ? CARDS("install", R, "base") : CARDS("install", "base"); break;
    case 5: rc = alt ? CARDS("install", R, "my") : CARDS("install", "my"); break;
    case 3: rc = alt ? CARDS("upgrade", R) : CARDS("upgrade"); break;
    case 6: case 7: { const char* o[2] = {mix & 2 ? ARC : nm(0), cmd == 6 ? "zzz" : mix & 2 ? nm(0) : ARC}; if (mix & 1) { const char* t = o[0]; o[0] = o[1]; o[1] = t; } rc = alt ? CARDS("install", R, o[0], o[1]) : CARDS("install", o[0], o[1]); break; }
    case 4: rc = alt ? CARDS("upgrade", "--proceed", R) : CARDS("upgrade", "--proceed"); break; }
  env.onmut = nullptr; SX_TRACE("rc", rc); contained(before);
  if (sx_param("dbg", 0)) { static char t[99]; snprintf(t, 99, "rc %d run %d", rc, g_lastRun); sx_puts(t); if (env.nerr) { env.err[env.nerr < env.caperr ? env.nerr : env.caperr - 1] = 0; sx_puts(env.err); } if (env.nout) { env.out[env.nout < env.capout ? env.nout : env.capout - 1] = 0; sx_puts(env.out); } }
  if (env.uid) { SX_ASSERT(diffs(before) == 0 && env.forks == 0, "C30", "a user who is not root changed the system"); bool todo = cmd < 2 || cmd == 5; if (cmd == 4) { bool k = false, st = false; for (unsigned i = 0; i < n; i++) if (inst[i]) { if (inRepo[i]) { k = true; st |= !fresh(i); } else st |= autom[i]; } todo = k && st; } if (todo) { sx_witness(1); SX_ASSERT(rc != 0, "C30", "a user who is not root was not refused"); } return; }
  if (cmd == 6) { sx_witness(1); SX_ASSERT(rc != 0, "C20", "a request that names something unknown was not refused"); SX_ASSERT(diffs(before) == 0, "C20", "a request that names something unknown changed the system"); return; }
  unsigned padN = (unsigned)sx_param("pad", 0); bool isUp = cmd == 3 || cmd == 4, req[6] = {}, want[6] = {}, del[6] = {}; unsigned nInst = 0, nOk = 0, known = 0; for (unsigned i = 0; i < n; i++) { nInst += inst[i]; known += inst[i] && inRepo[i]; nOk += inst[i] && inRepo[i] && fresh(i); } nInst += padN; known += padN; nOk += padN;
  const char* T = isUp ? "C23" : "C20";
  if (isUp && (!nInst || !known)) { bool refused = nInst && (cmd == 4 || nOk * 100 >= nInst * 80); if (refused) { sx_witness(1); SX_ASSERT(rc != 0, "C23", "an upgrade without a matching repository was not refused"); } SX_ASSERT(diffs(before) == 0, "C23", "an upgrade without anything to do changed the system"); return; }
  if (cmd == 3 && nOk * 100 < nInst * 80) { sx_witness(2); SX_ASSERT(rc == 0 && diffs(before) == 0, "C23", "an upgrade of many packages went ahead without being confirmed"); return; }
  bool miss = sx_param("miss", 0);
  for (unsigned i = 0; i < n; i++) { if (cmd == 0 || cmd == 7) req[i] = i == 0; if (cmd == 1) req[i] = i < 2; if (cmd == 2) req[i] = !inst[i] && inRepo[i]; if (cmd == 5) req[i] = !inst[i] && inRepo[i] && i != n - 1; if (isUp) { req[i] = inst[i] && inRepo[i] && !fresh(i); del[i] = inst[i] && !inRepo[i] && autom[i]; } want[i] = req[i]; }
  for (unsigned it = 0; it < n; it++) for (unsigned i = 0; i < n; i++) if (want[i] && !(same && fresh(i))) for (unsigned k = 0; k < n; k++) if (dep[i][k] && (inRepo[k] || miss) && !fresh(k)) want[k] = true;
  if (miss) { bool lacks = false; for (unsigned i = 0; i < n; i++) lacks |= want[i] && !inRepo[i]; if (lacks) { sx_witness(2); SX_ASSERT(rc != 0, T, "the command succeeded although a package that is needed does not exist"); SX_ASSERT(diffs(before) == 0, T, "the command changed the system although a package that is needed does not exist"); return; } }
  SX_ASSERT(rc == 0, T, "the command failed"); if (rc) return;
  if (cmd == 7) { sx_witness(1); Node* f = env_node(dbPath("zy", "META")); SX_ASSERT(f && env_contains((const char*)f->data, f->size, "V3\n") && textIs(atRoot("u/zy"), "new"), "C20", "the archive given with a name was not installed"); }
  bool reach[6][6]; memcpy(reach, dep, sizeof dep); for (unsigned k = 0; k < n; k++) for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) if (reach[i][k] && reach[k][j]) reach[i][j] = true;
  int pos[6]; for (unsigned i = 0; i < n; i++) { pos[i] = -1; int times = 0; for (int k = 0; k < nOrder; k++) if (order[k] == (char)i) { pos[i] = k; times++; } SX_ASSERT(times <= 1, T, "a package was installed twice"); }
  for (unsigned i = 0; i < n; i++) { bool db = env_exists(dbPath(nm(i), "META"));
    if (want[i]) { sx_witness(req[i] ? 3 : 4); SX_ASSERT(db && textIs(atRoot(fileOf(i)), "new") && pos[i] >= 0, T, req[i] ? "a requested package was not installed" : "a missing or outdated dependency was not installed");
      for (unsigned k = 0; k < n; k++) if (want[k] && dep[i][k] && !reach[k][i] && !fresh(k)) { sx_witness(5); SX_ASSERT(pos[k] < pos[i], T, "a package was installed before one it needs"); }
      Node* m = env_node(dbPath(nm(i), "META")); bool a = m && env_contains((const char*)m->data, m->size, "d1\n"); if (inst[i]) { sx_witness(6); SX_ASSERT(a == autom[i], "C08", "an upgrade changed the manual or automatic mark"); } else { sx_witness(req[i] ? 7 : 8); SX_ASSERT(a == !req[i], "C08", req[i] ? "a requested package is recorded as automatic" : "a dependency is recorded as requested"); } }
    else if (del[i]) { sx_witness(9); SX_ASSERT(!db && !env_exists(atRoot(fileOf(i))), "C23", "an automatic package that left the repository was not removed"); }
    else { if (inst[i]) sx_witness(10); SX_ASSERT(unchanged(before, dbPath(nm(i), "META")) && unchanged(before, dbPath(nm(i), "files")) && unchanged(before, atRoot(fileOf(i))) && pos[i] < 0, T, inst[i] ? "a package that is up to date or not concerned was changed" : "a package nobody asked for was installed"); } }
  auto hasMv = [&](unsigned i) { Node* f = env_node(dbPath(nm(i), "files")); return f && env_contains((const char*)f->data, f->size, "u/mv\n"); };
  if (mv) { if (want[1]) { sx_witness(12); SX_ASSERT(textIs(atRoot("u/mv"), "new") && hasMv(1), T, "a file that moved to another package is missing"); } else SX_ASSERT(!env_exists(atRoot("u/mv")), T, "a file no package has any more is still there"); SX_ASSERT(!hasMv(0), T, "a file is recorded for a package that has it no more"); }
  for (unsigned g = 0; g < groups; g++) { bool w = subs[g] && want[g]; if (w) sx_witness(11 + 2 * g); char u[16]; snprintf(u, 16, "u/sub%u", g); SX_ASSERT(env_exists(atRoot(u)) == w, T, w ? "the sub package of a configured group was not installed" : "a sub package nobody asked for was installed"); }
  if (nls) { bool w = loc && want[0]; if (w) sx_witness(14); SX_ASSERT(env_exists(atRoot("u/fr")) == w, T, w ? "the sub package of the configured language was not installed" : "a sub package nobody asked for was installed"); SX_ASSERT(!env_exists(atRoot("u/doc")), T, "a sub package nobody asked for was installed"); }
  SX_ASSERT(env.exLocks == 0, "C11", "the database lock is still held after the command"); SX_TRACE("norder", nOrder); SX_TRACE("diffs", diffs(before));
}
