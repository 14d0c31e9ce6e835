// "cards create PORT" (C46): the build runs in a system with exactly the base sets and the dependencies of the port, and its result is installed.
// Packages: k (set chroot), cards.devel (set devel), x, y and t with ports, x.devel (configured group), x.doc (not configured), j (junk)
#include "pkgworld.h"
static bool dep[3][3], have[3], dry, log_, failed; static unsigned builds, inKid; static Node* before; static bool hasDoc, tdev, built0, jset, tset; static const char* P3[3] = {"t", "x", "y"};
static Buf repo; static bool need[3];
static bool is(const char* n) { char f[32]; snprintf(f, 32, "/u/f%s", n); bool d = env_exists(dbPath(n, "META")), w = env_exists(f); SX_ASSERT(d == w && env_exists(dbPath(n, "files")) == d, "C46", "a package is installed but not recorded, or the other way round"); return d; }
static char cont[16][8]; static void pkg(const char* n, const char* meta, const char* ver, bool script = false) { Arc& a = *new Arc; a.meta.s("N").s(n).s("\nV").s(ver).s("\nr1\nax86_64\nB1700000005\ncbase\n").s(meta); if (script) { a.mtree.s(".PRE\n"); arcAdd(a, ".PRE", S_IFREG | 0755, "pre", 3); } arcDir(a); char* f = (char*)malloc(32); snprintf(f, 32, "u/f%s", n); a.mtree.s(f).c('\n'); arcAdd(a, f, S_IFREG | 0644, ver, strlen(ver)); char* p = (char*)malloc(80); snprintf(p, 80, "/x/base/%s.cards-%s-x86_64-1.tar.xz", n, ver); arcDone(a, p); repo.c('@').s(p + 8).c('\n').b(a.meta.d, a.meta.n).c('\n'); }
static void inst(const char* n, const char* meta) { char f[32], m[160]; snprintf(f, 32, "u/\nu/f%s\n", n); snprintf(m, 160, "N%s\nV1\nr1\nax86_64\nB1700000005\ncbase\n%s", n, meta); dbPkg("", n, m, f, strlen(f)); char* p = (char*)malloc(32); snprintf(p, 32, "/u/f%s", n); env_text(p, "1"); }
static void clean(bool during) { const char* w = during ? "the system of a build is not that of the base sets and the dependencies of the port" : "after a build the system is not that of the build and its result";
  SX_ASSERT(is("k") && is("cards.devel"), "C46", w); SX_ASSERT(is("j") == jset, "C46", w); SX_ASSERT(is("x") == (need[1] && have[1]), "C46", w); SX_ASSERT(is("y") == (need[2] && have[2]), "C46", w); SX_ASSERT(is("x.devel") == (need[1] && have[1]), "C46", w); SX_ASSERT(!hasDoc || !is("x.doc"), "C46", w); if (sx_param("near", 0)) SX_ASSERT(!is("xa") && !is("ta") && !is("tx.devel"), "C46", w); }
static void onFork() { if (!strncmp(env.cwd == env_node("/") ? "/" : "", "/", 1)) { SX_ASSERT(textIs("/.PRE", "pre"), "C46", "a command is run outside of the directory of the port"); return; } builds++; sx_witness(2); SX_ASSERT(env.cwd == env_node("/p/base/t"), "C46", "the build does not run in the directory of the port"); SX_ASSERT(env.exLocks == 0, "C46", "the database is locked while a package is built"); clean(true); SX_ASSERT(is("t") == tset, "C46", "the system of a build has the package that is built");
  for (int i = 1; i < 3; i++) if (need[i] && have[i]) sx_witness(2 + i); pkg("t", "", "7"); if (tdev) pkg("t.lib", "glib\n", "7"); env_file("/x/base/.REPO", repo.d, repo.n); }
static void onExec(const char* f, char* const* a, int n) { inKid = 1; if (n > 2 && strstr(a[2], ".PRE")) return; sx_witness(7); SX_ASSERT(n == 3 && !strcmp(f, "/usr/bin/sh") && !strcmp(a[1], "-c") && !strncmp(a[2], "pkgmk -d", 8) , "C46", "the build is not run with pkgmk -d"); }
static void onMut(const char*, const char* path, const char*, Node*) { if (strncmp(path, "/u/", 3) && strncmp(path, DB "/", strlen(DB) + 1)) return; SX_ASSERT(env.exLocks > 0, "C11", "the system is changed without holding the exclusive lock of the database"); SX_ASSERT(env.exLocks > 0, "C46", "the system is changed without holding the exclusive lock of the database"); }
extern "C" void harness() {
  world(); env_dir("/u"); dry = sx_param("dry", 0); log_ = sx_param("log", 0); bool chroot_ = !sx_param("nochroot", 0) || !sx_bool("noChroot"); if (chroot_) env_dir("/tmp/setup");
  env_text("/etc/cards.conf", log_ ? "dir /x/base\ngroup devel\nlogdir /log\n" : "dir /x/base\ngroup devel\n"); env_dir("/x/base"); env_dir("/usr/bin"); env_dir("/p/base"); env.cwd = env_node("/p");
  for (int i = 0; i < 3; i++) { char t[24]; have[i] = true; if (i) { snprintf(t, 24, "noBinary%d", i); have[i] = !(sx_param("gaps", 0) && sx_bool(t)); } for (int k = 0; k < 3; k++) { if (k == i || (k == 0 && !sx_param("cyc", 0))) continue; if (i == 2 && k == 1 && !sx_param("cyc", 0)) continue; snprintf(t, 24, "dep%d_%d", i, k); dep[i][k] = sx_bool(t); }
    Buf b; b.s("description=d\n"); if (i != 2) b.s("run=("); else b.s("makedepends=("); bool f = true; for (int k = 0; k < 3; k++) if (dep[i][k]) { b.s(f ? "" : " ").s(P3[k]); f = false; } b.s(")\nversion=7\nrelease=1\n"); char* p = (char*)malloc(48); snprintf(p, 48, "/p/base/%s/Pkgfile", P3[i]); env_file(p, b.d, b.n); }
  need[1] = dep[0][1] || (dep[0][2] && dep[2][1]); need[2] = dep[0][2] || (dep[0][1] && dep[1][2]); need[0] = true;
  hasDoc = sx_param("doc", 0); tdev = sx_param("sub", 0) && sx_bool("subPackage"); jset = sx_param("junkSets", 0) && sx_bool("junkInSet");
  pkg("k", "schroot\n", "1"); pkg("cards.devel", "gdevel\nsdevel\n", "1"); if (have[1]) { pkg("x", "", "1", sx_param("script", 0)); pkg("x.devel", "gdevel\n", "1"); if (hasDoc) pkg("x.doc", "gdoc\n", "1"); } if (have[2]) pkg("y", "", "1"); if (sx_param("jrepo", 0)) pkg("j", "", "1"); if (sx_param("near", 0)) { pkg("xa", "", "1"); pkg("ta", "", "1"); pkg("tx.devel", "gdevel\n", "1"); } env_file("/x/base/.REPO", repo.d, repo.n);
  if (sx_bool("kInstalled")) inst("k", "schroot\n"); if (sx_bool("xInstalled")) inst("x", "d1\n"); if (sx_bool("jInstalled") || jset) inst("j", jset ? "sdevel\n" : ""); if (sx_param("told", 0) && sx_bool("tInstalled")) inst("t", ""); tset = sx_param("tset", 0); if (tset) { dbPkg("", "t", "Nt\nV1\nr1\nax86_64\nB1700000000\nsdevel\nd1\n", "u/\nu/ft\nu/old\n", 14); env_text("/u/ft", "1"); env_text("/u/old", "1"); }
  if (sx_param("uid", 0)) { env.uid = sx_u32("uid"); } env.waitMode = sx_param("script", 0) ? 0 : 1; env.forkMode = (int)sx_param("fork", 0); env.onfork = onFork; env.onexec = onExec; env.onmut = onMut; before = env_snapshot();
  int rc = dry ? CARDS("create", "--dry", "t") : CARDS("create", "t"); env.onmut = nullptr; env.onfork = nullptr; if (inKid) return; SX_TRACE("rc", rc);
  if (sx_param("dbg", 0)) { static char t[99]; snprintf(t, 99, "rc %d run %d builds %u", rc, g_lastRun, builds); sx_puts(t); if (env.nerr) { env.err[env.nerr < env.caperr ? env.nerr : env.caperr - 1] = 0; sx_puts(env.err); } if (env.nout) { env.out[env.nout < env.capout ? env.nout : env.capout - 1] = 0; sx_puts(env.out); } }
  SX_ASSERT(rc != -3 && rc != -2, "C46", "the command ended abnormally"); SX_ASSERT(env.exLocks == 0 && env.shLocks == 0, "C46", "the database lock is still held after the command");
  if (env.uid) { sx_witness(8); SX_ASSERT(rc != 0 && diffs(before) == 0 && !env.forks, "C46", "a user who is not root was not refused"); SX_ASSERT(rc != 0 && diffs(before) == 0, "C30", "a user who is not root was not refused"); return; }
  if (!chroot_) { sx_witness(9); SX_ASSERT(rc != 0 && diffs(before) == 0 && !env.forks, "C46", "a build outside of a build system was not refused"); return; }
  if (dry) { sx_witness(10); SX_ASSERT(rc == 0 && diffs(before) == 0 && !env.forks, "C46", "a dry run changed the system"); return; }
  if (env.forkFails) { sx_witness(6); SX_ASSERT(rc != 0 && is("t") == tset && (!tset || textIs("/u/ft", "1")), "C46", "a build that could not be started is taken for a success"); return; }
  SX_ASSERT(builds == 1, "C46", "the package was not built exactly once"); if (builds != 1) return; clean(false);
  if (env.nwst && env.wst[env.nwst - 1]) { sx_witness(1); SX_ASSERT(rc != 0, "C46", "a failed build is taken for a success"); SX_ASSERT(is("t") == tset && (!tset || textIs("/u/ft", "1")) && (!tdev || !is("t.lib")), "C46", "the package of a failed build was installed"); return; }
  sx_witness(5); if (tdev) sx_witness(12); SX_ASSERT(rc == 0, "C46", "a build that succeeded failed"); SX_ASSERT(is("t") && textIs("/u/ft", "7") && (!tdev || is("t.lib")), "C46", "the package that was built is not installed"); if (tset) { sx_witness(11); SX_ASSERT(!env_exists("/u/old"), "C46", "a file the package has no more is still there"); } for (const char* n : {"k", "t"}) { if (tset && *n == 't') continue; Node* m = env_node(dbPath(n, "META")); SX_ASSERT(m && !env_contains((const char*)m->data, m->size, "d1\n"), "C46", "a package is marked as a dependency"); }
}
