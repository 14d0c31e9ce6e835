// "cards remove": guards of the request (C10) and removal of dependencies nobody needs any more (C09).
// n packages named a, b, ...; dep[i][j]: i depends on j. full=1: every edge symbolic, else each package depends on at most one, symbolic, package
#include "pkgworld.h"
static bool dep[6][6]; static unsigned n; static bool autom[6], inBase[6], gone[6];
static const char* nm(unsigned i) { static const char* s[] = {"a", "ab", "b", "ba", "aa", "c"}; return s[i]; }
extern "C" void harness() {
  if (sx_param("root", 0)) G_ROOT = "/mnt"; world(); if (*G_ROOT) world(G_ROOT); hostWorld(); env_dir(atRoot("u"));
  n = (unsigned)sx_param("n", 3); bool full = sx_param("full", 0), bases = sx_param("bases", 0), force = sx_param("force", 0) && sx_bool("force"); unsigned alias = (unsigned)sx_param("alias", 0), groups = (unsigned)sx_param("groups", 0), two = (unsigned)sx_param("two", 0);
  env_text("/etc/cards.conf", groups ? "dir /usr/ports/x\ngroup devel\ngroup lib\n" : "dir /usr/ports/x\n");
  for (unsigned i = 0; i < n; i++) { char t[16]; snprintf(t, sizeof t, "auto%u", i); autom[i] = sx_bool(t); if (full) for (unsigned k = 0; k < n; k++) { if (k == i) continue; snprintf(t, sizeof t, "dep%u_%u", i, k); dep[i][k] = sx_bool(t); } else { snprintf(t, sizeof t, "dep%u", i); unsigned v = sx_range(t, 0, n); if (v < n && v != i) dep[i][v] = true; else sx_assume(v == n); } }
  if (bases) for (unsigned i = 0; i < n; i++) { char t[16]; snprintf(t, sizeof t, "base%u", i); inBase[i] = sx_bool(t); }
  unsigned sets = (unsigned)sx_param("sets", 0); bool inSet[6] = {}, any = false; if (sets) { for (unsigned i = 0; i < n; i++) { char t[16]; snprintf(t, sizeof t, "set%u", i); inSet[i] = sx_bool(t); any = any || inSet[i]; } sx_assume(any); }
  bool al = alias && sx_bool("byAlias"); unsigned sub = groups ? sx_range("sub", 0, 2) : 0; // sub: package a.devel exists (1), b.devel (2)
  for (unsigned i = 0; i < n; i++) { Buf m; m.s("B1700000000\nN").s(nm(i)).s("\nV1\nax86_64\nr1\n"); for (unsigned k = 0; k < n; k++) if (dep[i][k]) m.s("R").s(nm(k)).s("1700000000\n"); if (inBase[i]) m.s("cbase\n"); else m.s("cextra\n"); if (inSet[i]) m.s(i == 1 ? "sgames\nsdesk\n" : "sdesk\nsgames\n"); else if (sets) m.s("sgames\n"); if (alias && i == 0) m.s("Aother\n"); if (autom[i]) m.s("d1\n");
    char t[64]; snprintf(t, sizeof t, "u/\nu/f%s\n", nm(i)); dbPkg(G_ROOT, nm(i), m.d, t, strlen(t)); snprintf(t, sizeof t, "u/f%s", nm(i)); env_text(atRoot(t), "x"); }
  if (sub) { char t[64], b[16]; snprintf(b, sizeof b, "%s.devel", nm(sub - 1)); snprintf(t, sizeof t, "N%s\nV1\ngdevel\n", b); char f[32]; snprintf(f, sizeof f, "u/f%s\n", b); dbPkg(G_ROOT, b, t, f, strlen(f)); f[strlen(f) - 1] = 0; env_text(atRoot(f), "x"); }
  Node* before = env_snapshot();
  if (sx_param("unk", 0)) { // one of the names is nothing that is installed
    char u[3] = {0, 0, 0}; for (int k = 0; k < 2; k++) { unsigned char c = sx_u8("unknown"); sx_assume(c >= 'a'); sx_assume(c <= 'z'); u[k] = (char)c; } for (unsigned i = 0; i < n; i++) if (!strcmp(nm(i), u)) return; unsigned at = sx_range("at", 0, 2); const char* b = "a"; int rc = at == 0 ? CARDS("remove", u) : at == 1 ? CARDS("remove", u, b) : CARDS("remove", b, u); SX_TRACE("rc", rc); sx_witness(10); SX_ASSERT(rc == 1, "C10", "a request that names something that is not installed was not refused"); SX_ASSERT(diffs(before) == 0, "C10", "a refused removal changed the system"); return; }
  bool coll = sx_param("coll", 0); bool last = sets == 2 && sx_bool("last"); const char* req = sets ? "desk" : coll ? "extra" : al ? "other" : "a"; int rc;
  bool bs = two == 2 && sx_bool("baseColl"), first = bs && sx_bool("baseFirst"); // the base collection as one of two operands
  if (bs) rc = force ? (first ? CARDS("remove", "-f", "base", req) : CARDS("remove", "-f", req, "base")) : first ? CARDS("remove", "base", req) : CARDS("remove", req, "base");
  else if (sets == 2) rc = last ? CARDS("remove", nm(n - 1), req) : CARDS("remove", req, nm(n - 1));
  else if (two) rc = force ? CARDS("remove", "-f", req, nm(1)) : CARDS("remove", req, nm(1));
  else if (*G_ROOT) rc = force ? CARDS("remove", "-f", "--root=/mnt", req) : CARDS("remove", "--root=/mnt", req);
  else rc = force ? CARDS("remove", "--force", req) : CARDS("remove", req);
  SX_TRACE("rc", rc); contained(before); if (sx_param("dbg", 0)) { static char t[99]; snprintf(t, 99, "rc %d run %d", rc, g_lastRun); sx_puts(t); if (env.nerr) { env.err[env.nerr < env.caperr ? env.nerr : env.caperr - 1] = 0; sx_puts(env.err); } if (env.nout) { env.out[env.nout < env.capout ? env.nout : env.capout - 1] = 0; sx_puts(env.out); } }
  if (bs) { sx_witness(9); SX_ASSERT(rc == 1, "C10", "the base collection was not refused"); SX_ASSERT(diffs(before) == 0, "C10", "a refused removal changed the system"); return; }
  bool guard = false; unsigned why = 0;
  if (sets == 2) { for (unsigned i = 0; i < n; i++) if (dep[i][n - 1]) { guard = true; why = 1; } }
  if (sets) { for (unsigned i = 0; i < n; i++) if ((inSet[i] || (sets == 2 && i == n - 1)) && inBase[i] && !force) { guard = true; why = 2; } }
  else if (!coll) for (unsigned r = 0; r < (two ? 2u : 1u); r++) { for (unsigned i = 0; i < n; i++) if (dep[i][r]) { guard = true; why = 1; } if (inBase[r] && !force) { guard = true; why = 2; } }
  if (guard) { sx_witness(why); SX_ASSERT(rc == 1, "C10", why == 1 ? "a package others need at run time was not refused" : "a package of the base collection was not refused");
    SX_ASSERT(diffs(before) == 0, "C10", "a refused removal changed the system"); return; }
  SX_ASSERT(rc == 0, "C10", "an admissible removal was refused"); if (rc) return;
  sx_witness(3);
  // reference: what remains is what the manually installed packages need
  bool keep[6] = {}; bool rm[6] = {}; rm[0] = true; if (sets) for (unsigned i = 0; i < n; i++) rm[i] = inSet[i] || (sets == 2 && i == n - 1); if (two) rm[1] = true; if (coll) for (unsigned i = 0; i < n; i++) rm[i] = !inBase[i];
  for (unsigned i = 0; i < n; i++) keep[i] = !rm[i] && !autom[i];
  for (unsigned it = 0; it < n; it++) for (unsigned i = 0; i < n; i++) if (keep[i]) for (unsigned k = 0; k < n; k++) if (dep[i][k] && !rm[k]) keep[k] = true;
  for (unsigned i = 0; i < n; i++) { char t[32]; snprintf(t, sizeof t, "u/f%s", nm(i)); bool db = env_exists(dbPath(nm(i), "")), f = env_exists(atRoot(t));
    if (rm[i]) SX_ASSERT(!db && !f, "C10", "the requested package was not removed");
    else if (keep[i]) { sx_witness(autom[i] ? 5 : 4); SX_ASSERT(db && f, "C09", autom[i] ? "a dependency that a manually installed package needs was removed" : "a manually installed package was removed"); SX_ASSERT(unchanged(before, dbPath(nm(i), "META")) && unchanged(before, dbPath(nm(i), "files")), "C09", "the record of a package that stays was changed"); }
    else { sx_witness(6); SX_ASSERT(!db && !f, "C09", "an automatic dependency nobody needs any more was not removed"); } }
  if (sub) { bool g = !keep[sub - 1]; char b[16]; snprintf(b, sizeof b, "%s.devel", nm(sub - 1)); if (g) { sx_witness(7); SX_ASSERT(!env_exists(dbPath(b, "")), "C09", "the sub package of a removed package was not removed"); } else { sx_witness(8); SX_ASSERT(env_exists(dbPath(b, "")), "C09", "the sub package of a package that stays was removed"); } }
  SX_ASSERT(env.exLocks == 0, "C11", "the database lock is still held after the command");
  SX_TRACE("nops", env.nops); SX_TRACE("diffs", diffs(before));
}
