// How a path is written does not matter (C42): roots and archives absolute or relative, with . and .. and repeated slashes; several archives in one command.
// tool: 0 pkgadd, 1 pkgadd -u, 2 pkgrm, 3 pkginfo, 4 cards install FILE.., 5 cards remove, 6 cards install PACKAGE, 7 cards upgrade, 8 cards diff; k: archives of tool 4; rules: post install rules
#include "pkgworld.h"
static char* outOf() { char* t = (char*)malloc(env.nout + 1); memcpy(t, env.out, env.nout); t[env.nout] = 0; return t; }
static const char* CWD[] = {"/", "/x", "/x/y", "/mnt", "/mnt/etc"};
static const char* UPS[] = {"", "../", "../../", "../", "../../"};
static int run(const char* cwd, unsigned tool, const char* root, const char** ar, unsigned k, const char* conf) { char ro[80]; snprintf(ro, 80, "--root=%s", root); char co[80]; snprintf(co, 80, "--conf=%s", conf); env.cwd = env_node(cwd); env_out_reset();
  switch (tool) { case 0: return TOOLS("pkgadd", "-r", root, ar[0]); case 1: return TOOLS("pkgadd", "-u", "-r", root, ar[0]); case 2: return TOOLS("pkgrm", "-r", root, "pp"); case 3: return TOOLS("pkginfo", "-r", root, "-l", "pp");
    case 4: return k == 1 ? CARDS("install", ro, co, ar[0]) : k == 2 ? CARDS("install", ro, co, ar[0], ar[1]) : CARDS("install", ro, co, ar[0], ar[1], ar[2]); case 5: return CARDS("remove", ro, co, "pp"); case 6: return CARDS("install", ro, co, ar[0], "nn"); case 7: return CARDS("upgrade", ro, co, "--proceed"); default: return CARDS("diff", ro, co); } }
static const char* spell(const char* what, const char* abs, unsigned cwd, unsigned n) { char* t = (char*)malloc(80); unsigned s = sx_range(what, 0, n); const char* rel = cwd == 3 && !strncmp(abs, "/mnt", 4) ? (abs[4] ? abs + 5 : ".") : nullptr;
  switch (s) { case 0: snprintf(t, 80, "%s", abs); break; case 1: snprintf(t, 80, "/%s", abs); break; case 2: snprintf(t, 80, "%s%s", UPS[cwd], abs + 1); break; case 3: snprintf(t, 80, "./%s%s", UPS[cwd], abs + 1); break; case 4: snprintf(t, 80, "%s%s", rel ? rel : "/x/..", rel ? "" : abs); break; default: snprintf(t, 80, "%s/", abs); } return t; }
struct Ex { char file[64]; char arg[160]; }; static Ex g_ex[2][16]; static int g_nex[2], g_side;
extern "C" void harness() {
  G_ROOT = "/mnt"; world(); world(G_ROOT); hostWorld("zz"); env_dir("/mnt/u"); env_dir("/x"); env_dir("/x/y"); env_dir("/x/base"); unsigned tool = (unsigned)sx_param("tool", 0), k = (unsigned)sx_param("k", 1); env_text("/x/cards.conf", "dir /x/base\n"); env_text("/x/y/p0.tar", "not the archive");
  char nm[4]; for (unsigned i = 0; i < k; i++) { char t[16]; snprintf(t, 16, "name%u", i); nm[i] = nameByte(t); for (unsigned j = 0; j < i; j++) sx_assume(nm[i] != nm[j]); }
  char o = nameByte("old"); bool inst = tool == 1 || tool == 2 || tool == 3 || tool == 5; if (inst) { Buf f; f.s("u/\nu/").c(o).c('\n'); dbPkg(G_ROOT, "pp", "B1600000000\nNpp\nV1\nax86_64\nr1\n", f.d, f.n); env_text(up(o), "old"); }
  static const char* PN[] = {"pp", "qq", "rr"}; for (unsigned i = 0; i < k; i++) { Arc& a = *new Arc; arcDefault(a, PN[i], "2"); if (sx_param("scripts", 0)) arcAdd(a, ".POST", S_IFREG | 0755, "post", 4); arcDir(a); arcFile(a, nm[i], PN[i]); char* t = (char*)malloc(32); snprintf(t, 32, "/x/a/p%u.tar", i); env_dir("/x/a"); arcDone(a, t); }
  if (sx_param("rules", 0)) { env_text("/mnt/var/lib/pkg/pkgadd.conf", "INFO ^u/.$ YES\n"); env.regexMode = 1; env_text("/mnt/usr/bin/install-info", "x", 0755); }
  Node* before = env_snapshot(); static const char* AB[] = {"/x/a/p0.tar", "/x/a/p1.tar", "/x/a/p2.tar"}; int rc = run("/", tool, "/mnt", AB, k, "/x/cards.conf"); char* o1 = outOf(); Node* t1 = env.root; int f1 = env.forks; SX_TRACE("rc", rc); if (sx_param("dbg", 0)) { env.err[env.nerr < env.caperr ? env.nerr : env.caperr - 1] = 0; sx_puts(env.err); }
  if (tool != 5) SX_ASSERT(rc == 0, "C42", "a command was refused"); if (rc == 0 && tool == 4) for (unsigned i = 0; i < k; i++) { SX_ASSERT(env_exists(dbPath(PN[i], "META")) && lists(PN[i], nm[i]) && textIs(up(nm[i]), PN[i]), "C42", "one of several packages was not installed"); }
  env.root = before; env_reboot(); before = env_snapshot(); unsigned cwd = sx_range("cwd", 0, 4); const char* r = spell("rootAs", "/mnt", cwd, 5); const char* ar[3]; for (unsigned i = 0; i < k; i++) { char t[16]; snprintf(t, 16, "archiveAs%u", i); ar[i] = spell(t, AB[i], cwd, 4); } const char* co = spell("confAs", "/x/cards.conf", cwd, sx_param("conf", 0) ? 3 : 0);
  if (sx_param("dbg", 0)) { sx_puts(CWD[cwd]); sx_puts(r); sx_puts(ar[0]); }
  int rc2 = run(CWD[cwd], tool, r, ar, k, co); if (sx_param("dbg", 0)) { env.err[env.nerr < env.caperr ? env.nerr : env.caperr - 1] = 0; sx_puts(env.err); } SX_TRACE("rc2", rc2); sx_witness(rc ? 2 : 1); if (cwd > 0) sx_witness(3);
  SX_ASSERT(rc2 == rc, "C42", "a command has another result when its paths are written in another way"); g_diffs = 0; env_diff(t1, env.root, countDiff); if (g_diffs && sx_param("dbg", 0)) sx_puts(g_firstDiff); SX_ASSERT(g_diffs == 0, "C42", "a command has another effect when its paths are written in another way"); SX_ASSERT(env.forks - f1 == f1, "C42", "a command runs other scripts or tools when its paths are written in another way"); if (tool == 3) { char* o2 = outOf(); SX_ASSERT(!strcmp(o1, o2), "C42", "a command shows something else when its paths are written in another way"); } SX_ASSERT(env.exLocks == 0 && env.shLocks == 0, "C11", "the database lock is still held after the command"); }
