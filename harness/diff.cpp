// "cards diff", "cards upgrade --check / --size": what is reported as different, and the sizes (C22). cmd: 0 diff, 1 --check, 2 --size, 3 --download-ready, 4 --download-only
#include "pkgworld.h"
static unsigned n; static bool inst[6], inRepo[6], autom[6], sameV[6]; static char oldB[6];
static const char* nm(unsigned i) { static const char* l[] = {"aaaa", "bbba", "bbbb", "cccc", "dddd"}; return l[i]; }
static char* g_txt; static bool big, unit;
static long num(const char* label) { char* p = strstr(g_txt, label); if (!p) return -1; p += strlen(label); while (*p == ' ' || *p == ':') p++; if (*p < '0' || *p > '9') return -2; long v = 0; while (*p >= '0' && *p <= '9') v = v * 10 + *p++ - '0'; if (unit && v && strncmp(p, ".00 G", 5)) return -3; return v; }
static bool lineStarts(const char* word) { size_t k = strlen(word); for (char* p = g_txt; (p = strstr(p, word)); p += k) if ((p == g_txt || p[-1] == '\n') && (p[k] == ' ' || p[k] == '\n')) return true; return false; }
static void num_(const char* label, long want, const char* msg) { long v = num(label); SX_ASSERT(v == want || (v == -1 && want == 0), "C22", msg); }
extern "C" void harness() {
  if (sx_param("root", 0)) G_ROOT = "/mnt"; world(); if (*G_ROOT) world(G_ROOT); hostWorld(); n = (unsigned)sx_param("n", 3); unsigned cmd = (unsigned)sx_param("cmd", 0), pad = (unsigned)sx_param("pad", 0), nos = (unsigned)sx_param("nosizes", 0); big = sx_param("big", 0); unsigned sh = big ? 30 : 0;
  Buf repo; env_text("/etc/cards.conf", "dir /cards/base\n"); env_dir("/cards/base");
  for (unsigned i = 0; i < n; i++) { char t[32]; snprintf(t, 32, "inst%u", i); inst[i] = i == 0 || sx_bool(t); snprintf(t, 32, "repo%u", i); inRepo[i] = sx_bool(t); snprintf(t, 32, "auto%u", i); autom[i] = sx_bool(t); snprintf(t, 32, "same%u", i); sameV[i] = sx_bool(t); snprintf(t, 32, "built%u", i); unsigned char c = sx_u8(t); sx_assume(c >= '0'); sx_assume(c <= '9'); oldB[i] = (char)c;
    char b[12] = "170000000"; b[9] = oldB[i]; b[10] = 0; bool withS = !(nos & 1), rS = !(nos & 2);
    if (inst[i]) { Buf m; m.s("N").s(nm(i)).s("\nV1\nr1\nax86_64\nB").s(b).c('\n'); snprintf(t, 32, "S%lu\n", 1ul << (2 * i + sh)); if (withS) m.s(t); if (autom[i]) m.s("d1\n"); dbPkg(G_ROOT, nm(i), m.d, "u/\n", 3); }
    if (inRepo[i]) { repo.c('@').s(nm(i)).s(".cards-1-x86_64-1.tar.xz\nN").s(nm(i)).s(sameV[i] ? "\nV1\nr1" : i & 1 ? "\nV2\nr1" : "\nV1\nr2").s("\nB1700000005\n"); char u[48]; snprintf(u, 48, "S%lu\ni%lu\n", 2ul << (2 * i + sh), 4ul << (2 * i + sh)); if (rS) repo.s(u); repo.c('\n'); } }
  for (unsigned i = 0; i < pad; i++) { Buf m; char t[16]; snprintf(t, 16, "pad%u", i); m.s("N").s(t).s("\nV1\nr1\nax86_64\nB1600000000\nS1\n"); dbPkg(G_ROOT, t, m.d, "u/\n", 3); repo.c('@').s(t).s(".cards-1-x86_64-1.tar.xz\n").b(m.d, m.n).c('\n'); }
  env_file("/cards/base/.REPO", repo.d, repo.n); for (const char* f : {"/.META", "/.POST"}) env_text(f, "x"); Node* before = env_snapshot(); bool alt = *G_ROOT; const char* R = "--root=/mnt"; int rc;
  static const char* opt[] = {"", "--check", "--size", "--download-ready", "--download-only"};
  if (cmd == 0) rc = CARDS("diff"); else rc = alt ? CARDS("upgrade", opt[cmd], R) : CARDS("upgrade", opt[cmd]);
  SX_TRACE("rc", rc); contained(before); g_txt = env.out; if (!g_txt) g_txt = (char*)""; else g_txt[env.nout < env.capout ? env.nout : env.capout - 1] = 0; if (sx_param("dbg", 0)) { sx_puts(g_txt); }
  SX_ASSERT(diffs(before) == 0, "C22", "asking for the differences changed the system");
  if (cmd >= 3) { sx_witness(1); return; }
  unsigned nInst = pad, ok = pad, ood = 0, nb = 0, obs = 0, unm = 0; unsigned long dl = 0, add = 0, rem = 0;
  for (unsigned i = 0; i < n; i++) { if (!inst[i]) continue; nInst++; bool fresh = (unsigned char)oldB[i] >= '5', upg = false, oo = false, ob = false;
    if (inRepo[i]) { if (fresh) ok++; else { upg = true; if (sameV[i]) nb++; else { ood++; oo = true; } } } else if (autom[i]) { obs++; ob = true; } else unm++;
    if (upg && !(nos & 2)) { dl += 4u << (2 * i); add += 2u << (2 * i); } if ((upg || ob) && !(nos & 1)) rem += 1u << (2 * i);
    if (cmd == 0) { bool shown = inRepo[i] ? !fresh : true; if (shown) { sx_witness(oo ? 2 : upg ? 3 : ob ? 4 : 5); SX_ASSERT(lineStarts(nm(i)), "C22", "a package that differs is not listed"); } else SX_ASSERT(!lineStarts(nm(i)), "C22", "a package that does not differ is listed"); } }
  unsigned total = ood + nb + obs + unm; SX_ASSERT(rc == 0, "C22", "asking for the differences failed");
  if (cmd == 1) { sx_witness(total ? 6 : 7); SX_ASSERT(env_contains(g_txt, strlen(g_txt), total ? "yes\n" : "no\n"), "C22", "the answer whether anything differs is wrong"); return; }
  if (cmd == 2) { char t[16]; snprintf(t, 16, "%u\n", total); size_t k = strlen(t), l = strlen(g_txt); sx_witness(total ? 6 : 7); SX_ASSERT(l >= k && !strcmp(g_txt + l - k, t) && (l == k || g_txt[l - k - 1] < '0' || g_txt[l - k - 1] > '9'), "C22", "the number of differences is wrong"); return; }
  if (!total) { sx_witness(7); SX_ASSERT(strstr(g_txt, "up to date") != nullptr, "C22", "a system without differences is not reported as up to date"); return; }
  sx_witness(6);
  num_("Number of Packages", nInst, "the number of installed packages is wrong"); num_("Unchanged Packages", ok, "the number of unchanged packages is wrong"); num_("Out of Date Packages (different version)", ood, "the number of packages with another version is wrong"); num_("Rebuild Packages (newer build date)", nb, "the number of rebuilt packages is wrong"); num_("Obsoletes Packages (will be removed)", obs, "the number of obsolete packages is wrong"); num_("Unmaintained Packages (should be removed)", unm, "the number of unmaintained packages is wrong");
  unit = big; num_("Total download size", (long)dl, "the download size is wrong"); num_("Total size of reinstalled packages", (long)add, "the size of the packages to install is wrong"); num_("Total size of remove packages", (long)rem, "the size of the packages to remove is wrong");
  num_("Total amount of added bytes", add > rem ? (long)(add - rem) : 0, "the number of added bytes is wrong"); num_("Total amount of removed bytes", rem > add ? (long)(rem - add) : 0, "the number of removed bytes is wrong"); unit = false;
  if (ok * 100 < nInst * 80) { sx_witness(8); unsigned p = 100 - ok * 100 / nInst; num_("Percentage of obsoletes packages", (long)p, "the percentage is wrong"); } else SX_ASSERT(!strstr(g_txt, "Percentage of"), "C22", "a confirmation is asked for although few packages differ");
}
