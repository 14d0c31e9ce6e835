// Another process changes the packages between the start of a command and the moment it gets the lock of the database (C48).
// cmd: 0 pkgadd, 1 pkgadd -f, 2 pkgadd -u, 3 pkgadd -u -f, 4 pkgrm, 5 cards remove, 6 cards install FILE, 7 cards install FILE (upgrade), 8 cards install FILE FILE, the other process acts before the second, 9 cards upgrade, which removes a package that no collection has any more
#include "pkgworld.h"
extern "C" int m_unlink(const char*); extern "C" int m_rmdir(const char*);
static void env_remove(const char* p) { Node* n = env_node(p); if (!n) return; if (n->isdir()) m_rmdir(p); else m_unlink(p); }
static unsigned cmd, ev; static char O, Q, E, X; static bool newer; static const char* pk = "/root/pp.cards.tar.xz"; static const char* pk1 = "/root/ff.cards.tar.xz";
static bool upg() { return cmd == 2 || cmd == 3 || cmd == 7 || cmd == 9; } static bool rmCmd() { return cmd == 4 || cmd == 5; }
static void meta(const char* n, const char* v) { Buf m; m.s("N").s(n).s("\nV").s(v).s("\nB1\nax86_64\nr1\nccc\n"); if ((cmd == 9 || sx_param("mark", 0) == (strcmp(v, "1.5") ? 1 : 2)) && !strcmp(n, "pp")) m.s("d1\n"); env_text(dbPath(n, "META"), m.d); }
static void record(const char* n, const char* v, char f) { env_dir(dbPath(n, "")); meta(n, v); char t[16]; snprintf(t, 16, "u/\nu/%c\n", f); env_text(dbPath(n, "files"), t); }
static void gone(const char* n) { env_remove(dbPath(n, "META")); env_remove(dbPath(n, "files")); env_remove(dbPath(n, "")); }
static void disown(const char* n, char c) { if (env_exists(dbPath(n, "files")) && lists(n, c)) env_text(dbPath(n, "files"), "u/\n"); }
static void touchDb() { env_node(dbPath("", ""))->mtime++; }
// what one complete command of the other process leaves behind
static void event() {
  if (!ev) return; bool has = env_exists(dbPath("pp", "")); touchDb();
  if (ev == 1) { disown("pp", E); disown("qq", E); record("ee", "1", E); env_text(up(E), "eee"); }             // pkgadd -f ee
  else if (ev == 2) { if (!(has && lists("pp", Q))) env_remove(up(Q)); gone("qq"); }                             // pkgrm qq
  else if (ev == 3) { if (has && lists("pp", O) && O != E && !lists("qq", O)) env_remove(up(O)); disown("qq", E); record("pp", "1.5", E); env_text(up(E), "mid"); } // pkgadd -f pp, pkgadd -u -f pp
  else if (has) { if (lists("pp", O) && !lists("qq", O)) env_remove(up(O)); gone("pp"); } }                       // pkgrm pp
static int at, seen; static void onLock() { if (seen++ == at) { sx_witness(1); auto m = env.onmut; env.onmut = nullptr; event(); env.onmut = m; } }
static int run(bool second = false) { const char* r = *G_ROOT ? G_ROOT : "/";
  switch (cmd) { case 0: return TOOLS("pkgadd", "-r", r, pk); case 1: return TOOLS("pkgadd", "-f", "-r", r, pk); case 2: return TOOLS("pkgadd", "-u", "-r", r, pk); case 3: return TOOLS("pkgadd", "-u", "-f", "-r", r, pk);
    case 4: return TOOLS("pkgrm", "-r", r, "pp"); case 5: return *G_ROOT ? CARDS("remove", "--root=/mnt", "pp") : CARDS("remove", "pp"); case 9: return *G_ROOT ? CARDS("upgrade", "--proceed", "--root=/mnt") : CARDS("upgrade", "--proceed");
    case 8: if (second) return CARDS("install", pk); return CARDS("install", pk1, pk);
    default: return *G_ROOT ? CARDS("install", "--root=/mnt", pk) : CARDS("install", pk); } }
static long last; static void onMut(const char*, const char* path, const char*, Node*) { const char* d = dbPath("", ""); size_t n = strlen(d) - 1; if (!strncmp(path, d, n)) last = env_node(d)->mtime; }
static Node* start; static void restart() { env.root = start; start = env_snapshot(); env.cwd = env.root; env.exitCode = 0; env.exited = 0; }
extern "C" void harness() {
  if (sx_param("root", 0)) G_ROOT = "/mnt"; world(); if (*G_ROOT) world(G_ROOT); hostWorld(); env_dir(atRoot("u")); cmd = (unsigned)sx_param("cmd", 0); bool dbg = sx_param("dbg", 0);
  env_text("/etc/cards.conf", "dir /usr/ports/x\n"); env_dir("/usr/ports/x");
  O = nameByte("old"); Q = nameByte("theirs"); E = nameByte("event"); X = nameByte("new"); sx_assume(O != Q); bool two = sx_param("two", 0); ev = sx_range("what", sx_param("none", 0) ? 0 : 1, 4);
  env_text(up(Q), "qqq"); record("qq", "1", Q); if (upg() || rmCmd()) { env_text(up(O), "old"); record("pp", "1", O); }
  if (cmd == 9) { env_text("/usr/ports/x/.REPO", "@qq.cards-1-x86_64-1.tar.xz\nNqq\nV1\nr1\nB1\nax86_64\n\n@rr.cards-1-x86_64-1.tar.xz\nNrr\nV1\nr1\nB1\nax86_64\n\n@ee.cards-1-x86_64-1.tar.xz\nNee\nV1\nr1\nB1\nax86_64\n\n"); record("rr", "1", Q); env_text(up(Q), "qqq"); }
  Arc a, b; arcDefault(a, "pp", "2"); arcDir(a); arcFile(a, X, "new"); if (two) { char y = nameByte("new2"); sx_assume((unsigned char)X < (unsigned char)y); arcFile(a, y, "ne2"); } arcDone(a, pk);
  if (cmd == 8) { arcDefault(b, "ff", "1"); arcDir(b); G_PRE = "u/"; b.mtree.s("f\n"); arcAdd(b, "f", S_IFREG | 0644, "fff", 3); arcDone(b, pk1); }
  start = env_snapshot(); restart();
  // one after the other
  int rs = 0; if (cmd == 8) { rs = CARDS("install", pk1); SX_ASSERT(rs == 0, "C48", "an admissible command failed"); } event(); Node* onlyEv = env_snapshot(); int rcA = run(true); if (dbg && env.nerr) { env.err[env.nerr < env.caperr ? env.nerr : env.caperr - 1] = 0; sx_puts(env.err); } Node* serial = env_snapshot();
  // at the same time
  restart(); if (sx_param("half", 0)) { sx_assume(ev == 1); env_dir(dbPath("ee", "")); touchDb(); } at = cmd == 8 ? 1 : 0; seen = 0; env.onlock = onLock; env.onmut = onMut; int rcB = run(); env.onlock = nullptr; env.onmut = nullptr; contained(start);
  if (dbg) { static char t[99]; snprintf(t, 99, "ev %u rc %d %d", ev, rcA, rcB); sx_puts(t); if (env.nerr) { env.err[env.nerr < env.caperr ? env.nerr : env.caperr - 1] = 0; sx_puts(env.err); } }
  SX_TRACE("rc", rcB);
  if (seen <= at) { sx_witness(2); SX_ASSERT(rcB != 0, "C48", "a command succeeded without the lock"); SX_ASSERT(diffs(start) == 0, "C48", "a refused command changed the system"); return; }
  bool same = diffs(serial) == 0; if (dbg && !same) sx_puts(g_firstDiff);
  if (!rcB && last) SX_ASSERT(env_node(dbPath("", ""))->mtime > last, "C48", "another process cannot see that the database has changed");
  if (rcB) { sx_witness(3); SX_ASSERT(same || diffs(onlyEv) == 0, "C48", "a refused command changed what another process left"); return; }
  sx_witness(4); SX_ASSERT(rcA == 0, "C48", "a command succeeded that has to be refused after what another process did meanwhile"); 
  SX_ASSERT(same, "C48", "the outcome is not that of the commands one after the other");
}
