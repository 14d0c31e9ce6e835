// The guards around every change of the system: root only (C30), exclusive lock (C11), package scripts (C28).
// cmd: 0 pkgadd, 1 pkgadd -f, 2 pkgadd -u, 3 pkgadd -u -f, 4 pkgrm, 5 cards remove, 6 cards install FILE, 7 cards install FILE (upgrade)
#include "pkgworld.h"
#include <signal.h>
static bool hasPre, hasPost, ignoring; static unsigned cmd; static Node* before; static bool child;
static bool isMeta(const char* p) { size_t k = strlen(G_ROOT); if (strncmp(p, G_ROOT, k) || p[k] != '/') return false; p += k + 1; return *p == '.' && !strchr(p, '/'); }
static bool isScript(const char* p) { size_t k = strlen(G_ROOT); return isMeta(p) && (!strcmp(p + k, "/.PRE") || !strcmp(p + k, "/.POST")); }
static int g_real; static void cbReal(char, const char* p) { if (!isScript(p)) g_real++; }
static int real() { g_real = 0; env_diff(before, env.root, cbReal); return g_real; }
static bool upg() { return cmd == 2 || cmd == 3 || cmd == 7; } static bool rmCmd() { return cmd == 4 || cmd == 5; }
static void onMut(const char* op, const char* path, const char* path2, Node*) { if (isScript(path) && !(path2 && !isScript(path2))) return; SX_ASSERT(env.exLocks > 0, "C11", "the system is changed without holding the exclusive lock of the database"); for (int s : {SIGHUP, SIGINT, SIGQUIT, SIGTERM}) SX_ASSERT(env.sigH[s] || ((env.sigBlk >> (s - 1)) & 1), "C11", "the system is changed while a signal can end the command"); }
static void onExec(const char*, char* const* argv, int argc) {
  child = true; const char* c = argc > 2 ? argv[2] : ""; size_t n = strlen(c);
  SX_ASSERT(!ignoring, "C28", "a script of the package was run although scripts are disabled");
  if (rmCmd()) { if (env_contains(c, n, "PRER")) { sx_witness(5); SX_ASSERT(hasPre && real() == 0, "C28", "the system was changed before the pre-remove script ran"); SX_ASSERT(env_contains(c, n, dbPath("pp", "PRER")), "C28", "another script was run instead of the pre-remove script of the package"); }
    else { sx_witness(6); SX_ASSERT(hasPost && env_contains(c, n, dbPath("pp", "POSTR")), "C28", "another script was run instead of the post-remove script of the package"); SX_ASSERT(!env_exists(up('o')), "C28", "the post-remove script ran before the files were removed"); SX_ASSERT(env_exists(dbPath("pp", "POSTR")), "C28", "the post-remove script is gone when it should run"); } }
  else if (env_contains(c, n, ".PRE")) { sx_witness(5); SX_ASSERT(hasPre && real() == 0, "C28", "the system was changed before the pre-install script ran"); SX_ASSERT(textIs(atRoot(".PRE"), "pre") && env.cwd == env_node(*G_ROOT ? G_ROOT : "/"), "C28", "the pre-install script of the package is not in place when it should run"); }
  else { sx_witness(6); SX_ASSERT(hasPost && textIs(atRoot(".POST"), "post") && env.cwd == env_node(*G_ROOT ? G_ROOT : "/"), "C28", "the post-install script of the package is not in place when it should run"); SX_ASSERT(textIs(up('x'), "new") && env_exists(dbPath("pp", "META")) && lists("pp", 'x'), "C28", "the post-install script ran before the package was installed"); }
}
extern "C" void harness() {
  if (sx_param("root", 0)) G_ROOT = "/mnt"; world(); if (*G_ROOT) world(G_ROOT); hostWorld(); env_dir(atRoot("u")); cmd = (unsigned)sx_param("cmd", 0);
  bool dbg = sx_param("dbg", 0);
  if (sx_param("scripts", 0)) { hasPre = sx_bool("pre"); hasPost = sx_bool("post"); }
  ignoring = sx_param("ignore", 0);
  // What an interrupted installation of another package left in the root directory, and scripts for the removal
  bool left = sx_param("left", 0) && sx_bool("left"), rem = sx_param("left", 0) && sx_bool("rem");
  if (left) for (const char* f : {".META", ".MTREE", ".PRE", ".POST", ".PRER", ".POSTR"}) env_text(atRoot(f), "left");
  env_text("/etc/cards.conf", "dir /usr/ports/x\n");
  env_text(up('o'), "old"); env_text(up('q'), "qqq");
  dbPkg(G_ROOT, "qq", "Nqq\nV1\nB1\nax86_64\nr1\n", "u/\nu/q\n", 7);
  if (upg() || rmCmd()) { dbPkg(G_ROOT, "pp", "Npp\nV1\nB1\nax86_64\nr1\n", "u/\nu/o\n", 7); if (hasPre && rmCmd()) env_text(dbPath("pp", "PRER"), "pre"); if (hasPost && rmCmd()) env_text(dbPath("pp", "POSTR"), "post"); }
  Arc a; arcDefault(a, "pp", "2"); if (!rmCmd()) { if (hasPre) arcAdd(a, ".PRE", S_IFREG | 0755, "pre", 3); if (hasPost) arcAdd(a, ".POST", S_IFREG | 0755, "post", 4); if (rem) { arcAdd(a, ".PRER", S_IFREG | 0755, "prer", 4); arcAdd(a, ".POSTR", S_IFREG | 0755, "postr", 5); } }
  arcDir(a); arcFile(a, 'x', "new"); if (cmd == 1 || cmd == 3) arcFile(a, 'q', "new"); arcDone(a, "/root/pp.cards.tar.xz");
  if (sx_param("uid", 0)) { unsigned u = sx_u32("uid"); env.uid = u; }
  env.lockConflict = sx_param("lock", 0); env.waitMode = sx_param("scripts", 0) ? 1 : 0; env.forkMode = (int)sx_param("fork", 0); env.onexec = onExec; env.onmut = onMut;
  before = env_snapshot(); if (sx_param("sfault", 0)) { env.faultMask = (int)sx_param("sfault", 0); env.faultBudget = 1; }
  const char* pk = "/root/pp.cards.tar.xz"; const char* r = *G_ROOT ? G_ROOT : "/"; int rc = -9;
  switch (cmd) {
    case 0: rc = ignoring ? TOOLS("pkgadd", "-i", "-r", r, pk) : TOOLS("pkgadd", "-r", r, pk); break; case 1: rc = TOOLS("pkgadd", "-f", "-r", r, pk); break;
    case 2: rc = ignoring ? TOOLS("pkgadd", "-u", "--ignore", "-r", r, pk) : TOOLS("pkgadd", "-u", "-r", r, pk); break; case 3: rc = TOOLS("pkgadd", "-u", "-f", "-r", r, pk); break;
    case 4: rc = TOOLS("pkgrm", "-r", r, "pp"); break; case 5: rc = *G_ROOT ? CARDS("remove", "--root=/mnt", "pp") : CARDS("remove", "pp"); break;
    default: rc = *G_ROOT ? (ignoring ? CARDS("install", "--disable", "--root=/mnt", pk) : CARDS("install", "--root=/mnt", pk)) : ignoring ? CARDS("install", "-d", pk) : CARDS("install", pk); break; }
  env.onmut = nullptr; SX_TRACE("rc", rc); contained(before); if (child) return;
  if (dbg) { static char t[99]; snprintf(t, 99, "rc %d run %d", rc, g_lastRun); sx_puts(t); if (env.nerr) { env.err[env.nerr < env.caperr ? env.nerr : env.caperr - 1] = 0; sx_puts(env.err); } }
  if (env.uid) { sx_witness(1); SX_ASSERT(rc != 0, "C30", "a user who is not root was not refused"); SX_ASSERT(diffs(before) == 0 && env.forks == 0, "C30", "a user who is not root changed the system"); return; }
  SX_ASSERT(env.lockTries > 0 || env.forks > 0, "C11", "the lock of the database was never taken");
  if (env.lockDenied) { sx_witness(2); SX_ASSERT(rc != 0, "C11", "a command went on although another process holds the lock"); SX_ASSERT(real() == 0 && (left || diffs(before) == 0), "C11", "a command changed the system although another process holds the lock"); return; }
  if (env.faults) { sx_witness(9); SX_ASSERT(rc != -3 && rc != -2, "C28", "the command ended abnormally"); if (rc == 0) SX_ASSERT(env.forks == (hasPre ? 1 : 0) + (hasPost ? 1 : 0), "C28", "the command succeeded although a script of the package was not run"); return; }
  if (ignoring) SX_ASSERT(env.forks == 0, "C28", "a script of the package was run although scripts are disabled");
  else SX_ASSERT(hasPre || !env.forks || hasPost, "C28", "a script was run for a package that has none");
  bool preFailed = hasPre && !ignoring && (env.nwst ? env.wst[0] != 0 : true); if (hasPre && !ignoring && env.forkFails && env.nwst + env.forkFails >= 1 && env.nwst < (hasPost ? 2 : 1)) { if (env.forks == 1) preFailed = true; }
  if (preFailed) { sx_witness(3); SX_ASSERT(rc != 0, "C28", "the command succeeded although the script that runs before it failed"); SX_ASSERT(diffs(before) == 0 || (left && real() == 0), "C28", "the system was changed although the script that runs before it failed"); SX_ASSERT(env.forks == 1, "C28", "a second script was run after the first one failed"); return; }
  sx_witness(4); SX_ASSERT(rc == 0, "C28", "an admissible command failed"); SX_ASSERT(rc == 0, "C11", "an admissible command failed"); SX_ASSERT(rc == 0, "C30", "root was refused"); if (rc) return;
  SX_ASSERT(env.exLocks == 0 && env.shLocks == 0, "C11", "the database lock is still held after the command");
  for (int s : {SIGHUP, SIGINT, SIGQUIT, SIGTERM}) SX_ASSERT(!env.sigIgn[s] && !((env.sigBlk >> (s - 1)) & 1), "C11", "the command ends with signals still ignored");
  if (!ignoring) SX_ASSERT(env.forks == (hasPre ? 1 : 0) + (hasPost ? 1 : 0), "C28", "a script of the package was not run, or run twice");
  if (!ignoring && hasPost) { bool failed = env.forkFails > 0 || env.nwst < (hasPre ? 2 : 1) || env.wst[env.nwst - 1] != 0; bool told = false; for (size_t i = 0; i + 4 < env.nerr && i + 4 < env.caperr; i++) told |= !memcmp(env.err + i, "post", 4); if (told) SX_ASSERT(failed, "C28", "a script that succeeded is reported as failed"); else SX_ASSERT(!failed, "C28", "nothing tells that the script that runs after a command failed"); }
  if (rmCmd()) { SX_ASSERT(!env_exists(up('o')) && !env_exists(dbPath("pp", "")), "C28", "the package was not removed"); }
  else { SX_ASSERT(textIs(up('x'), "new") && lists("pp", 'x'), "C28", "the package was not installed"); SX_ASSERT(!env_exists(atRoot(".PRE")) && !env_exists(atRoot(".POST")), "C28", "a script of the package was left in the root directory");
    if (sx_param("left", 0)) { sx_witness(left ? 7 : 8); SX_ASSERT(env_exists(dbPath("pp", "PRER")) == rem && env_exists(dbPath("pp", "POSTR")) == rem && (!rem || (textIs(dbPath("pp", "PRER"), "prer") && textIs(dbPath("pp", "POSTR"), "postr"))), "C28", "the package has other scripts for its removal than those of its archive"); } }
  SX_TRACE("diffs", diffs(before));
}
