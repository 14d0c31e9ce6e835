// "cards sync" brings each collection's metadata from its server, completely or not at all (C37); "cards purge" empties the caches only (C33)
#include "pkgworld.h"
static const char* F[] = {".PKEY", ".REPO", ".FILES"}; static const char* CO[] = {"/c/aa", "/d/bb", "/c/loc"};
static bool rem[3], has[3][3], ok[3][3]; static Buf old_[3][3], new_[3][3];
static Buf path_(unsigned c, unsigned f) { Buf b; b.s(CO[c]).c('/').s(F[f]); return b; }
static int bad; static bool remoteMeta(const char* p) { for (unsigned c = 0; c < 3; c++) { size_t k = strlen(CO[c]); if (!rem[c]) continue; if (!strcmp(p, CO[c])) return true; if (!strncmp(p, CO[c], k) && p[k] == '/' && p[k + 1] == '.' && !strchr(p + k + 1, '/')) return true; } return !strcmp(p, "/d") || !strcmp(p, "/c"); }
static bool hidden(const char* p) { if (strstr(p, "/.")) return true; return false; }
static char kind(unsigned c, unsigned f) { Buf p = path_(c, f); Node* n = env_node(p.d); if (!n) return has[c][f] ? '?' : 'o'; if (!n->isreg()) return '?'; bool isN = fileIs(p.d, new_[c][f]), isO = has[c][f] && fileIs(p.d, old_[c][f]); return isN ? 'n' : isO ? 'o' : '?'; }
static void purge();
extern "C" void harness() {
  world(); if (sx_param("cmd", 0) == 1) return purge(); unsigned cf = (unsigned)sx_param("cfg", 3), cfg = cf < 3 ? cf : sx_range("config", 0, 2), crash = (unsigned)sx_param("crash", 0), fault = (unsigned)sx_param("fault", 0); bool dbg = sx_param("dbg", 0); unsigned svr = (unsigned)sx_param("server", 0), one = svr == 1 ? sx_range("badItem", 0, 8) : 9, how = svr == 1 ? sx_range("badKind", 1, 3) : 0;
  // config 0: own server for one collection, the others local; 1: default server and depot for two; 2: default server for all
  env_text("/etc/cards.conf", cfg == 0 ? "dir /c/aa | http://m\ndir /c/loc\n" : cfg == 1 ? "dir /c/aa | http://m\ndepot /d\nurl http://n\ncollection bb\n" : "dir /d/bb\ndir /c/loc\ndir /c/aa\nurl http://n\n"); env_text("/var/lib/pkg/nutyx-version", "version v\n");
  rem[0] = true; rem[1] = cfg > 0; rem[2] = cfg == 2; const char* srv[] = {cfg == 2 ? "http://n" : "http://m", "http://n", "http://n"};
  bool lean = sx_param("lean", 0), old1 = lean && sx_bool("old");
  for (unsigned c = 0; c < 3; c++) { bool dir = c != 1 || (lean ? old1 : sx_bool("depotExists")); if (dir) { env_dir(CO[c]); Buf p; p.s(CO[c]).s("/pk.cards-1-x86_64-1.tar.xz"); env_text(p.d, "package"); }
    for (unsigned f = 0; f < 3; f++) { char t[24]; snprintf(t, 24, "old%u_%u", c, f); has[c][f] = dir && (c == 2 || (f == 2 ? has[c][1] : lean ? old1 : sx_bool(t))); old_[c][f].s("@old.cards-1-x86_64-1.tar.xz\nNold\n").c('0' + c).c('0' + f); if (has[c][f]) { Buf p = path_(c, f); env_file(p.d, old_[c][f].d, old_[c][f].n); }
      new_[c][f].s("@new.cards-2-x86_64-1.tar.xz\nNnew\nV2\n").c('0' + c).c('0' + f); unsigned l = (unsigned)sx_param("len", 0); for (unsigned i = 0; i < l; i++) new_[c][f].c('x'); if (f) { snprintf(t, 24, "byte%u_%u", c, f); unsigned char v = sx_u8(t); new_[c][f].c((char)v); }
      snprintf(t, 24, "server%u_%u", c, f); unsigned st = svr == 2 && rem[c] ? sx_range(t, 0, f ? 3 : 1) : rem[c] && one == 3 * c + f ? (f ? how : 1) : 0; ok[c][f] = st == 0; /* 1: not there, 2: truncated, 3: not compressed */
      Buf z; if (f) { size_t n = new_[c][f].n; z.s("ZST1").b(&n, 8); } z.b(new_[c][f].d, new_[c][f].n); if (st == 2) z.n -= 1; if (st == 3) z.d[0] = 'X'; char* d = (char*)malloc(z.n); memcpy(d, z.d, z.n);
      if (st != 1) for (const char* sl : {"/", "//"}) { if (f && sl[1]) continue; Buf u; u.s(srv[c]).s("/x86_64/v/").s(CO[c] + 3).s(sl).s(F[f]).s(f ? ".zst" : ""); char* x = (char*)malloc(u.n + 1); strcpy(x, u.d); env_web(x, d, z.n); } } }
  bool wf = sx_param("web", 0); env.webFault = wf ? 2 : 0; bool zf = sx_param("zfail", 0); net.zfail = zf;
  Node* before = env_snapshot(); env.crash = (int)crash; if (fault) { env.faultMask = (int)fault; env.faultBudget = 1; }
  if (sx_param("uid", 0)) { env.uid = sx_u32("uid"); if (env.uid) { int r = CARDS("sync"); sx_witness(8); SX_ASSERT(r != 0 && diffs(before) == 0, "C30", "a user other than root synchronised the metadata"); return; } }
  int rc = CARDS("sync"); env.crash = 0; env.faultMask = 0; env.webFault = 0; net.zfail = 0; SX_TRACE("rc", rc); if (dbg) { static char t[99]; snprintf(t, 99, "rc %d run %d", rc, g_lastRun); sx_puts(t); if (env.nerr) sx_puts(env.err); }
  bool crashed = rc == -2; if (crashed) env_reboot(); bool served = true, all = true; for (unsigned c = 0; c < 3; c++) for (unsigned f = 0; f < 3; f++) if (rem[c]) { served = served && ok[c][f]; }
  for (unsigned c = 0; c < 3; c++) { if (rem[c]) for (unsigned f = 1; f < 3; f++) { char k = kind(c, f); if (k == 'n') sx_witness(1); else { all = false; sx_witness(k == 'o' && has[c][f] ? 2 : 3); } SX_ASSERT(k != '?', "C37", "the metadata of a collection is neither the old nor the complete new one"); if (k == 'n') SX_ASSERT(ok[c][f], "C37", "metadata that were damaged on the way were taken over"); }
    if (!crashed && rc == 0 && rem[c]) { sx_witness(4); SX_ASSERT(kind(c, 0) == 'n', "C37", "a successful synchronisation did not bring the key"); } }
  if (crashed) sx_witness(5); else if (rc) { sx_witness(6); SX_ASSERT(!served || env.faults || wf || zf, "C37", "a synchronisation failed without a reason"); } else { SX_ASSERT(all, "C37", "a synchronisation that did not bring all metadata reports success"); }
  bad = 0; env_diff(before, env.root, [](char k, const char* p) { if (remoteMeta(p)) return; if (!bad) snprintf(g_firstDiff, 128, "%c %s", k, p); bad++; }); if (bad && dbg) sx_puts(g_firstDiff); SX_ASSERT(bad == 0, "C37", "synchronising changed something else than the metadata of the remote collections");
  if (crashed || (rc && served)) { int r2 = CARDS("sync"); sx_witness(7); SX_ASSERT(r2 == 0, "C37", "after an interruption synchronising again fails"); for (unsigned c = 0; c < 3; c++) for (unsigned f = 0; f < 3; f++) if (rem[c]) SX_ASSERT(kind(c, f) == 'n', "C37", "synchronising again after an interruption does not bring the new metadata"); }
}
// ---- purge
static Buf gone[16], kept[24]; static unsigned ng, nk; static void obj(const char* p, unsigned kind, bool go) { if (kind == 0) env_text(p, "data"); else if (kind == 1) env_symlink(p, "/home/pkg"); else env_dir(p); Buf& b = go ? gone[ng++] : kept[nk++]; b.s(p); }
static void purge() {
  unsigned cfg = sx_range("config", 0, 2); env_text("/etc/cards.conf", cfg == 0 ? "dir /c/aa | http://m\ndir /c/loc\n" : cfg == 1 ? "dir /c/loc\ndir /c/aa | http://m\ndir /d/bb | http://m\n" : "dir /d/bb\ndir /c/loc\n"); rem[0] = cfg < 2; rem[1] = cfg == 1; rem[2] = false; env_text("/home/pkg", "mine"); env_text("/c/side", "mine"); kept[nk++].s("/c/side"); kept[nk++].s("/home/pkg");
  for (unsigned c = 0; c < 3; c++) { char t[24]; snprintf(t, 24, "exists%u", c); if (c != 2 && !sx_bool(t)) continue; env_dir(CO[c]); char x[3]; for (unsigned i = 0; i < 2; i++) { snprintf(t, 24, "name%u_%u", c, i); x[i] = nameByte(t); } sx_assume(x[0] != x[1]); Buf a, b, m, l;
    a.s(CO[c]).c('/').c(x[0]); obj(a.d, 0, rem[c]); b.s(CO[c]).c('/').c(x[1]); snprintf(t, 24, "tree%u", c); if (sx_bool(t)) { env_dir(b.d); b.s("/pk.tar"); } obj(b.d, 0, rem[c]); m.s(CO[c]).s("/.REPO"); obj(m.d, 0, false); l.s(CO[c]).s("/long.name"); snprintf(t, 24, "link%u", c); if (sx_bool(t)) { env_symlink(l.d, "/home"); } }
  Node* before = env_snapshot(); env.uid = sx_param("uid", 0) ? sx_u32("uid") : 0; bool root = env.uid == 0; if (!root) sx_witness(4); int rc = CARDS("purge"); SX_TRACE("rc", rc); if (!root) { SX_ASSERT(rc != 0 && diffs(before) == 0, "C30", "a user other than root purged the caches"); return; }
  SX_ASSERT(rc == 0, "C33", "purging failed");
  for (unsigned i = 0; i < ng; i++) { sx_witness(1); SX_ASSERT(!env_exists(gone[i].d), "C33", "a cached file of a remote collection was not removed"); }
  for (unsigned i = 0; i < nk; i++) { sx_witness(2); SX_ASSERT(unchanged(before, kept[i].d), "C33", "purging removed something else than cached files of remote collections"); }
  bad = 0; env_diff(before, env.root, [](char k, const char* p) { for (unsigned i = 0; i < ng; i++) if (!strcmp(gone[i].d, p)) return; if (k == '-' && strstr(p, "/long.name")) return; bad++; }); sx_witness(3); SX_ASSERT(bad == 0, "C33", "purging changed something else than the caches of remote collections");
}
