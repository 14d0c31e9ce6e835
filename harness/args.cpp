// Command lines (C29): options mean the same in every position and spelling; what is not understood is refused without effect.
// tool: 0 pkgadd, 1 pkgrm, 2 pkginfo, 3 cards install, 4 cards remove, 5 every option with every command that changes something, 6 number of arguments, 7 unknown commands
#include "pkgworld.h"
struct O { char s; const char* l; char flag; char val; };  // val: 1 the next argument, 2 after '='
static const O ADD[] = {{'u', "upgrade", 'u', 0}, {'f', "force", 'f', 0}, {'i', "ignore", 'i', 0}, {'p', "progress", 'p', 0}, {'r', "root", 'r', 1}, {'h', "help", 'h', 0}, {'v', "version", 'h', 0}, {0, 0, 0, 0}};
static const O RM[] = {{'p', "progress", 'p', 0}, {'r', "root", 'r', 1}, {'h', "help", 'h', 0}, {'v', "version", 'h', 0}, {0, 0, 0, 0}};
static const O INFO[] = {{'i', "installed", 'i', 0}, {'n', "number", 'n', 0}, {'l', "list", 'l', 1}, {'o', "owner", 'o', 1}, {'d', "details", 'd', 1}, {'r', "root", 'r', 1}, {'h', "help", 'h', 0}, {'v', "version", 'h', 0}, {0, 0, 0, 0}};
static const O CIN[] = {{'u', "upgrade", 'u', 0}, {'f', "force", 'f', 0}, {'d', "disable", 'd', 0}, {0, "nolog", 'g', 0}, {0, "root", 'r', 2}, {'h', "help", 'h', 0}, {0, "conf", 'c', 2}, {0, 0, 0, 0}};
static const O CRM[] = {{'f', "force", 'f', 0}, {0, "root", 'r', 2}, {'h', "help", 'h', 0}, {0, "conf", 'c', 2}, {0, 0, 0, 0}};
static const O* OP; static char* av[16]; static int ac; static void add(const char* s) { char* c = (char*)malloc(strlen(s) + 1); strcpy(c, s); av[ac++] = c; }
static int run(bool cards, char** v, int n) { char** c = (char**)malloc((n + 1) * sizeof(char*)); for (int i = 0; i < n; i++) { c[i] = (char*)malloc(strlen(v[i]) + 1); strcpy(c[i], v[i]); } c[n] = nullptr; g_argc = n; g_argv = c; g_main = cards ? cards_main : tools_main; g_rc = -99; env.now = 1700000000; int k = env_run(runMain_); g_lastRun = k; return k == 0 ? g_rc : k == 1 ? env.exitCode : k == 2 ? -2 : -3; }
static bool isLong(const char* a, const O& o) { size_t k = strlen(o.l); return a[0] == '-' && a[1] == '-' && !strncmp(a + 2, o.l, k) && (!a[2 + k] || (o.val == 2 && a[2 + k] == '=')); }
static bool isShort(const char* a, const O& o) { return o.s && a[0] == '-' && a[1] == o.s && !a[2]; }
static bool flags[128]; static const char* val[128]; static unsigned cnt[128]; static const char* pos[8]; static unsigned np;
// what the command line means; false if it means nothing
static bool meaning(bool cards, unsigned maxPos) {
  int cmdAt = -1; if (cards) { for (int i = 1; i < ac; i++) if (av[i][0] != '-') { cmdAt = i; break; } if (cmdAt < 0) return false; }
  else for (int i = 1; i < ac; i++) for (const O* o = OP; o->flag; o++) if (o->flag == 'h' && (isShort(av[i], *o) || isLong(av[i], *o))) { flags['h'] = true; return true; }
  for (int i = 1; i < ac; i++) { if (i == cmdAt) continue; const char* a = av[i]; if (a[0] != '-') { if (np >= maxPos) return false; pos[np++] = a; continue; } const O* f = nullptr; for (const O* o = OP; o->flag; o++) if (isShort(a, *o) || isLong(a, *o)) { f = o; break; } if (!f) return false; int w = f->flag; flags[w] = true; cnt[w]++; if (f->val == 1) { if (i + 1 >= ac) return false; val[w] = av[++i]; } if (f->val == 2) { const char* e = strchr(a, '='); if (!e || !e[1]) return false; val[w] = e + 1; } }
  return true; }
static char* outOf() { char* t = (char*)malloc(env.nout + 1); memcpy(t, env.out, env.nout); t[env.nout] = 0; return t; }
static int nReal; static void cbReal(char k, const char* p) { const char* q = !strncmp(p, "/mnt/", 5) ? p + 4 : p; if (q[1] == '.' && !strchr(q + 1, '/')) return; /* left over files of packages in the root are put away */ if (!nReal) snprintf(g_firstDiff, 128, "%c %s", k, p); nReal++; }
static int real(Node* a) { nReal = 0; env_diff(a, env.root, cbReal); return nReal; }
static void refused(Node* before, int rc, const char* m) { if (sx_param("dbg", 0)) { real(before); sx_puts(g_firstDiff); } sx_witness(1); SX_ASSERT(rc != 0 && rc != -3, "C29", "a command line that means nothing was not refused"); SX_ASSERT(real(before) == 0, "C29", m); SX_ASSERT(env.nerr > 0, "C29", "a command line was refused without a message"); }
static void setup() {
  world(); G_ROOT = "/mnt"; world("/mnt"); hostWorld("zz"); env_dir("/mnt/u"); env_text("/etc/cards.conf", "dir /x/base\n"); env_text("/mnt/etc/c2", "dir /x/base\n"); env_dir("/x/base"); }
extern "C" void harness() {
  unsigned tool = (unsigned)sx_param("tool", 0), nt = (unsigned)sx_param("n", 2), sl = (unsigned)sx_param("sym", 2); setup(); bool cards = tool >= 3; bool inst = tool == 0 ? sx_bool("installed") : true, conf = tool == 0 || tool == 3 ? sx_bool("conflict") : false;
  for (const char* r : {"", "/mnt"}) { char t[64]; if (inst) { dbPkg(r, "pp", "Npp\nV1\nB1\nax86_64\nr1\ncbase\n", "u/\nu/o\n", 7); snprintf(t, 64, "%s/u/o", r); env_text(t, "old"); } if (conf) { snprintf(t, 64, "%s/u/x", r); env_text(t, "mine"); } }
  Arc a; arcDefault(a, "pp", "2"); if (tool == 0 || tool == 3) arcAdd(a, ".PRE", S_IFREG | 0755, "pre", 3); arcDir(a); arcFile(a, 'x', "new"); arcDone(a, "/root/p.tar"); env.cwd = env_node("/root");
  if (tool == 5) {
    static const char* C[] = {"install", "remove", "upgrade", "sync", "purge", "create", "diff", "list", "info", "search"}; static const char* OWN[] = {"ufdhRCg", "fhRC", "fhRCscpxyzN", "hCN", "hC", "hRDm", "hRCN", "bSCh", "bSCh", "nCh"};
    static const struct { char k; const char* s; } ALL[] = {{'u', "-u"}, {'u', "--upgrade"}, {'f', "-f"}, {'f', "--force"}, {'d', "-d"}, {'d', "--disable"}, {'g', "--nolog"}, {'R', "--root=/mnt"}, {'C', "--conf=etc/c2"}, {'s', "-s"}, {'s', "--size"}, {'c', "-c"}, {'c', "--check"}, {'p', "-p"}, {'p', "--proceed"}, {'x', "--download-only"}, {'y', "--ready"}, {'z', "--no-sync"}, {'N', "--no-progress"}, {'D', "--dry"}, {'m', "--no-meta"}, {'b', "-b"}, {'b', "--binaries"}, {'S', "-S"}, {'S', "--sets"}, {'n', "-n"}, {'n', "--name"}, {'F', "-F"}, {'i', "-i"}, {'r', "-r"}, {'?', "--remove"}, {'?', "--full"}, {'?', "--installed"}};
    unsigned c = sx_range("command", 0, 9), o = sx_range("option", 0, sizeof ALL / sizeof *ALL - 1); if (strchr(OWN[c], ALL[o].k)) { sx_witness(2); return; } bool first = sx_bool("first"); add("cards"); if (first) add(ALL[o].s); add(C[c]); if (c < 2) add(c ? "pp" : "/root/p.tar"); if (c == 5 || c > 7) add("pp"); if (!first) add(ALL[o].s); Node* before = env_snapshot(); int rc = run(true, av, ac); SX_TRACE("rc", rc); refused(before, rc, "an option the command does not have was ignored and the command executed"); return; }
  if (tool == 6) { static const struct { const char* c; unsigned lo, hi; } C[] = {{"files", 1, 1}, {"query", 1, 1}, {"info", 1, 1}, {"search", 1, 1}, {"depends", 1, 1}, {"deptree", 1, 1}, {"dependent", 1, 1}, {"create", 1, 1}, {"install", 1, 9}, {"remove", 1, 9}}; unsigned c = sx_range("command", 0, 9), k = sx_range("arguments", 0, 3); add("cards"); add(C[c].c); for (unsigned i = 0; i < k; i++) add(i ? "qq" : "pp"); if (k >= C[c].lo && k <= C[c].hi) { sx_witness(2); return; } Node* before = env_snapshot(); int rc = run(true, av, ac); SX_TRACE("rc", rc); refused(before, rc, "a command with a wrong number of arguments was executed"); return; }
  if (tool == 7) { add("cards"); unsigned k = sx_range("words", 0, 2); for (unsigned i = 0; i < k; i++) { char w[8] = {}; unsigned l = sx_range(i ? "length1" : "length0", 0, sl); for (unsigned j = 0; j < l; j++) { char t[16]; snprintf(t, 16, "w%u_%u", i, j); w[j] = (char)sx_u8(t); sx_assume(w[j] != 0); } add(w); if (!strcmp(w, "-h")) { sx_witness(2); return; } } Node* before = env_snapshot(); int rc = run(true, av, ac); SX_TRACE("rc", rc); refused(before, rc, "an unknown command was executed"); return; }
  OP = tool == 0 ? ADD : tool == 1 ? RM : tool == 2 ? INFO : tool == 3 ? CIN : CRM; static const char* T[] = {"pkgadd", "pkgrm", "pkginfo", "cards", "cards"}; add(T[tool]); const char* thing = tool == 0 || tool == 3 ? "/root/p.tar" : "pp"; unsigned no = 0; while (OP[no].flag) no++;
  unsigned at = cards ? sx_range("commandAt", 0, nt) : 99;
  for (unsigned i = 0; i < nt; i++) { if (at == i) add(tool == 3 ? "install" : "remove"); char t[16]; snprintf(t, 16, "token%u", i); unsigned k = sx_range(t, 0, 2 * no + 1 + (sl > 0)); char w[32]; if (k >= 2 * no) { if (k == 2 * no) add(thing); else if (k == 2 * no + 1) add("qq"); else { char y[8] = {}; snprintf(t, 16, "length%u", i); unsigned l = sx_range(t, 1, sl); for (unsigned j = 0; j < l; j++) { snprintf(t, 16, "s%u_%u", i, j); y[j] = (char)sx_u8(t); sx_assume(y[j] != 0); } add(y); } continue; }
    const O& o = OP[k / 2]; bool lng = k & 1; if (!lng && !o.s) sx_assume(0); if (lng) snprintf(w, 32, "--%s%s", o.l, o.val == 2 ? o.flag == 'r' ? "=/mnt" : "=etc/c2" : ""); else snprintf(w, 32, "-%c", o.s); add(w); if (o.val == 1) { snprintf(t, 16, "value%u", i); if (sx_bool(t)) add(o.flag == 'r' ? "/mnt" : o.flag == 'o' ? "x" : "pp"); } }
  if (at == nt) add(tool == 3 ? "install" : "remove");
  bool ok = meaning(cards, tool == 2 ? 0 : cards ? 9 : 1); if (cards) { int f = 1; while (f < ac && av[f][0] == '-') f++; for (int i = 1; i < f && i < ac; i++) if (!strcmp(av[i], "-h") || !strcmp(av[i], "--help")) { ok = true; flags['h'] = true; } if (!flags['h'] && f < ac && strcmp(av[f], tool == 3 ? "install" : "remove")) ok = false; else if (f >= ac) ok = ok && flags['h']; if (flags['h'] && ok && f < ac && strcmp(av[f], tool == 3 ? "install" : "remove")) { /* the usage, or an unknown command */ sx_done(); } }
  if (ok && !flags['h']) { unsigned modes = cnt['i'] + cnt['n'] + cnt['l'] + cnt['o']; if (tool == 2) { if (cnt['d'] > 1 || (cnt['d'] && modes)) sx_done(); if (modes + cnt['d'] != 1) ok = false; } else if (!np) ok = false; if (cnt['r'] > 1 || cnt['c'] > 1) sx_done(); }
  Node* before = env_snapshot(); env_out_reset(); env.regexMode = 1; int rc = run(cards, av, ac); SX_TRACE("rc", rc); if (sx_param("dbg", 0)) { for (int i = 0; i < ac; i++) sx_puts(av[i]); env.err[env.nerr < env.caperr ? env.nerr : env.caperr - 1] = 0; sx_puts(env.err); sx_puts(ok ? "ok" : "bad"); }
  if (!ok) { refused(before, rc, "a command line that is not understood had an effect"); return; }
  if (flags['h']) { sx_witness(2); SX_ASSERT(rc == 0 && env.nout > 0, "C29", "the help was not shown"); SX_ASSERT(real(before) == 0, "C29", "asking for help changed something"); return; }
  // the same in the plain order and short spelling
  char* o1 = outOf(); Node* t1 = env.root; int e1 = env.execs, f1 = env.forks; int a1 = ac; ac = 0; char* save[16]; memcpy(save, av, sizeof save); (void)a1; add(T[tool]); if (cards) add(tool == 3 ? "install" : "remove"); char w[64];
  if (flags['r']) { if (cards) { snprintf(w, 64, "--root=%s", val['r']); add(w); } else { add("-r"); add(val['r']); } } if (flags['c']) { snprintf(w, 64, "--conf=%s", val['c']); add(w); } for (char c : {'u', 'f', tool == 3 ? 'd' : 'i', 'n'}) if (flags[(int)c] && !(tool == 2 && c == 'd')) { snprintf(w, 64, "-%c", c); add(w); } if (flags['g']) add("--nolog"); for (char c : {'l', 'o', 'd'}) if (tool == 2 && flags[(int)c]) { snprintf(w, 64, "-%c", c); add(w); add(val[(int)c]); } for (unsigned i = 0; i < np; i++) add(pos[i]);
  env.root = before; env_reboot(); env.cwd = env_node("/root"); env_out_reset(); int rc2 = run(cards, av, ac); SX_ASSERT((rc == 0) == (rc2 == 0), "C29", "the same options in another order or spelling have another result"); g_diffs = 0; env_diff(t1, env.root, countDiff); SX_ASSERT(g_diffs == 0, "C29", "the same options in another order or spelling have another effect"); SX_ASSERT(env.forks - f1 == f1 && e1 * 2 == env.execs, "C29", "the same options in another order or spelling run other scripts");
  if (tool == 2) { char* o2 = outOf(); SX_ASSERT(!strcmp(o1, o2), "C29", "the same options in another order or spelling show something else"); } sx_witness(rc ? 4 : 3); }
