// Post-install triggers (C31): ldconfig, info, schema and font updates run exactly for the installed files whose trigger rules say so.
// cmd: 0 pkgadd, 1 pkgadd -f, 2 pkgadd -u, 3 pkgadd -u -f, 4 pkgrm, 5 cards remove, 6 cards install FILE, 7 cards install FILE (upgrade)
#include "pkgworld.h"
enum { INST, UPG, LD, INFO, SCHEMA, FONT, NEV }; static const char* EV[NEV] = {"INSTALL", "UPGRADE", "LDCONF", "INFO", "SCHEMAS", "FONTS"};
static struct { unsigned ev; bool yes; char pat[4]; } rule[5]; static unsigned nr, cmd; static bool child, refused; static Node* before; static char files[5][16]; static unsigned nfiles;
static bool upg() { return cmd == 2 || cmd == 3 || cmd == 7; }
static bool installed(const char* f) { for (unsigned i = nr; i-- > 0;) if (rule[i].ev == INST && rxMatches(rule[i].pat, f)) return rule[i].yes; return true; }
// does the last rule of the event that matches say yes?
static bool may(const char* f, unsigned ev) { for (unsigned i = nr; i-- > 0;) if (rule[i].ev == ev && rxMatches(rule[i].pat, f)) return rule[i].yes; return false; }
// the event of the last trigger rule that matches, if it says yes
static unsigned must(const char* f) { for (unsigned i = nr; i-- > 0;) if (rule[i].ev >= LD && rxMatches(rule[i].pat, f)) return rule[i].yes ? rule[i].ev : 0; return 0; }
static bool ends(const char* s, const char* t) { size_t a = strlen(s), b = strlen(t); return a >= b && !strcmp(s + a - b, t); }
static void onExec(const char* app, char* const* argv, int argc) {
  child = true; unsigned ev = ends(app, "/ldconfig") ? LD : ends(app, "/install-info") ? INFO : ends(app, "/glib-compile-schemas") ? SCHEMA : ends(app, "/mkfontscale") || ends(app, "/mkfontdir") || ends(app, "/fc-cache") ? FONT : 0;
  if (!ev) return; const char* last = argc > 1 ? argv[argc - 1] : ""; size_t k = strlen(G_ROOT);
  SX_ASSERT(cmd != 4 && cmd != 5, "C31", "a post-install trigger ran for a removal"); SX_ASSERT(!refused, "C31", "a post-install trigger ran for a refused installation"); 
  SX_ASSERT(!strncmp(app, G_ROOT, k) && env_exists(app), "C31", "a trigger ran a tool outside of the root");
  bool ok = false; for (unsigned i = 0; i < nfiles; i++) if (installed(files[i]) && may(files[i], ev) && (ev == LD || !strcmp(last, files[i]))) ok = true;
  if (ev == LD) SX_ASSERT(!strncmp(last, *G_ROOT ? G_ROOT : "/", *G_ROOT ? k : 1), "C31", "the linker cache of another root was updated");
  sx_witness(ev == LD ? 1 : 2); SX_ASSERT(ok, "C31", "a post-install trigger ran for a file no trigger rule says YES to");
  SX_ASSERT(textIs(up('x'), "new") || !installed("u/x"), "C31", "a post-install trigger ran before the files were installed");
}
extern "C" void harness() {
  if (sx_param("root", 0)) G_ROOT = "/mnt"; world(); if (*G_ROOT) world(G_ROOT); hostWorld(); env_dir(atRoot("u")); cmd = (unsigned)sx_param("cmd", 0); nr = (unsigned)sx_param("nr", 2);
  env_text("/etc/cards.conf", "dir /usr/ports/x\n"); bool conf = sx_param("conf", 0) && sx_bool("conflict"), noTool = sx_param("tools", 0) && sx_bool("tool-missing"), two = sx_param("two", 0);
  env_text(up('q'), "qqq"); dbPkg(G_ROOT, "qq", "Nqq\nV1\nB1\nax86_64\nr1\n", "u/\nu/q\n", 7); if (conf) env_text(up('x'), "unowned");
  if (upg() || cmd == 4 || cmd == 5) { env_text(up('o'), "old"); dbPkg(G_ROOT, "pp", "Npp\nV1\nB1\nax86_64\nr1\n", "u/\nu/o\n", 7); }
  for (const char* r : {"", G_ROOT}) { char t[128]; for (const char* f : {"/etc/ld.so.conf", "/usr/bin/ldconfig", "/usr/bin/install-info", "/usr/bin/glib-compile-schemas", "/usr/bin/mkfontscale", "/usr/bin/mkfontdir", "/usr/bin/fc-cache"}) { if (noTool && r == G_ROOT) continue; snprintf(t, sizeof t, "%s%s", r, f); env_text(t, "tool", 0755); } }
  Buf b; for (unsigned i = 0; i < nr; i++) { char nm[16]; snprintf(nm, 16, "ev%u", i); unsigned lo = (unsigned)sx_param("lo", LD), hi = (unsigned)sx_param("hi", SCHEMA); rule[i].ev = sx_range(nm, lo, hi); snprintf(nm, 16, "yes%u", i); rule[i].yes = sx_bool(nm); snprintf(rule[i].pat, 4, "R%u", i); b.s(EV[rule[i].ev]).s("   ").s(rule[i].pat).s("  ").s(rule[i].yes ? "YES" : "NO").c('\n'); }
  env_file(atRoot("var/lib/pkg/pkgadd.conf"), b.d, b.n); env.regexMode = 1;
  Arc a; arcDefault(a, "pp", "2"); arcDir(a); arcFile(a, 'x', "new"); if (two) arcFile(a, 'y', "new"); arcDone(a, "/root/pp.cards.tar.xz");
  for (const char* f : {"u/", "u/x", "u/y"}) if (two || strcmp(f, "u/y")) strcpy(files[nfiles++], f);
  env.forkMode = 1; env.onexec = onExec; before = env_snapshot(); refused = conf && installed("u/x") && cmd != 1 && cmd != 3 && cmd != 4 && cmd != 5;
  const char* pk = "/root/pp.cards.tar.xz"; const char* r = *G_ROOT ? G_ROOT : "/"; int rc = -9;
  switch (cmd) {
    case 0: rc = TOOLS("pkgadd", "-r", r, pk); break; case 1: rc = TOOLS("pkgadd", "-f", "-r", r, pk); break; case 2: rc = TOOLS("pkgadd", "-u", "-r", r, pk); break; case 3: rc = TOOLS("pkgadd", "-u", "-f", "-r", r, pk); break;
    case 4: rc = TOOLS("pkgrm", "-r", r, "pp"); break; case 5: rc = *G_ROOT ? CARDS("remove", "--root=/mnt", "pp") : CARDS("remove", "pp"); break;
    default: rc = *G_ROOT ? CARDS("install", "--root=/mnt", pk) : CARDS("install", pk); break; }
  SX_TRACE("rc", rc); if (child) return; contained(before);
  SX_TRACE("forks", env.forks);
  if (refused) { sx_witness(3); SX_ASSERT(rc != 0, "C31", "a conflicting package was not refused"); SX_ASSERT(env.forks == 0, "C31", "a post-install trigger ran for a refused installation"); return; }
  SX_ASSERT(rc == 0, "C31", "an admissible command failed"); if (rc) return;
  if (cmd == 4 || cmd == 5) { sx_witness(4); SX_ASSERT(env.forks == 0, "C31", "a post-install trigger ran for a removal"); return; }
  // lower and upper number of tools to run
  unsigned lo = 0, hi = 0; bool ldMust = false, ldMay = false;
  for (unsigned i = 0; i < nfiles; i++) { if (!installed(files[i])) continue; unsigned m = must(files[i]); if (m == LD) ldMust = true; else lo += m == FONT ? 3 : m != 0; for (unsigned e = LD; e < NEV; e++) if (may(files[i], e)) { if (e == LD) ldMay = true; else hi += e == FONT ? 3 : 1; } }
  lo += ldMust; hi += ldMay; if (noTool) lo = hi = 0;
  if (lo) sx_witness(5); if (!hi) sx_witness(6);
  SX_ASSERT(env.forks >= (int)lo, "C31", "a post-install trigger was not run"); SX_ASSERT(env.forks <= (int)hi, "C31", "a post-install trigger was run that no rule asks for");
}
