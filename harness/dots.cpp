// Packages whose names would lead out of the root directory (C44): a component ".." in the path of an entry, in a line of the file list, in the target of a
// hard link, or in the name of the package itself. where: 0 path and file list, 1 file list only, 2 path only, 3 hard link, 4 name of the package; k: symbolic
// bytes over . / a (any=1: arbitrary bytes); pre=1: behind a directory; cmd as in cut.cpp; root=1: alternative root
#include "pkgworld.h"
static bool component(const char* t, const char* c) { size_t n = strlen(c); for (const char* p = t;; ) { const char* e = p; while (*e && *e != '/') e++; if ((size_t)(e - p) == n && !memcmp(p, c, n)) return true; if (!*e) return false; p = e + 1; } }
static unsigned hostLinks(Node* d) { unsigned k = 0; for (Ent* e = d->ents; e; e = e->next) { if (!strcmp(e->name, "mnt") && d == env.root) continue; if (e->n->isdir()) k += hostLinks(e->n); else k += (unsigned)e->n->nlink; } return k; }
extern "C" void harness() {
  bool alt = sx_param("root", 1); if (alt) G_ROOT = "/mnt"; world(); if (alt) world(G_ROOT); hostWorld("zz"); unsigned cmd = (unsigned)sx_param("cmd", 0), where = (unsigned)sx_param("where", 0), k = (unsigned)sx_param("k", 4); bool pre = sx_param("pre", 0); env_dir(atRoot("u"));
  if (cmd == 4) { env_text("/etc/cards.conf", "dir /x/base\n"); env_text(atRoot("etc/cards.conf"), "dir /x/base\n"); env_dir("/x/base"); }
  char* t = (char*)calloc(16, 1); unsigned o = 0; if (pre) { strcpy(t, "u/"); o = 2; } for (unsigned i = 0; i < k; i++) { char nm[8]; snprintf(nm, 8, "b%u", i); unsigned char c = sx_u8(nm); if (sx_param("any", 0)) sx_assume((c != 0) & (c != 10)); else sx_assume((c == '.') | (c == '/') | (c == 'a')); t[o + i] = (char)c; }
  bool dd = component(t, ".."), odd = dd || component(t, ".") || component(t, "");
  if (where == 3) { env_text("/a", "host"); env_text("/aa", "host"); env_text("/u/a", "host"); if (alt) { env_text("/mnt/a", "root"); env_text("/mnt/aa", "root"); env_text("/mnt/u/a", "root"); } }
  bool inst = cmd == 2 || cmd == 3; if (inst) { dbPkg(G_ROOT, "pp", "B1600000000\nNpp\nV1\nax86_64\nr1\n", "u/\nu/o\n", 7); env_text(atRoot("u/o"), "old"); }
  Arc& a = *new Arc; arcDefault(a, where == 4 ? t : "pp", "2"); arcAdd(a, ".PRE", S_IFREG | 0755, "pre", 3); arcDir(a); G_PRE = "u/"; arcFile(a, 'z', "new");
  if (where < 4) { const char* line = where == 0 || where == 1 ? t : "u/x"; a.mtree.s(line).c('\n'); const char* path = where == 0 || where == 2 ? t : "u/x"; arcAdd(a, path, S_IFREG | 0644, "new", 3); if (where == 3) { PkgEntry& e = a.e[a.n - 1]; e.hardlink = t; e.data = ""; e.size = 0; } }
  arcDone(a, "/root/p.tar"); Node* before = env_snapshot(); unsigned links = hostLinks(env.root); const char* pk = "/root/p.tar"; const char* rt = alt ? "/mnt" : "/"; char ro[16]; snprintf(ro, 16, "--root=%s", rt); int rc;
  switch (cmd) { case 0: rc = TOOLS("pkgadd", "-r", rt, pk); break; case 1: rc = TOOLS("pkgadd", "-f", "-r", rt, pk); break; case 2: rc = TOOLS("pkgadd", "-u", "-r", rt, pk); break; case 3: rc = TOOLS("pkgadd", "-u", "-f", "-r", rt, pk); break; default: rc = CARDS("install", ro, pk); }
  SX_TRACE("rc", rc); SX_ASSERT(rc != -3 && rc != -2, "C44", "the command ended abnormally"); SX_ASSERT(env.exLocks == 0 && env.shLocks == 0, "C11", "the database lock is still held after the command");
  if (where == 4) { bool bad = strchr(t, '/') || !strcmp(t, ".") || !strcmp(t, ".."); if (!bad) { sx_witness(3); SX_ASSERT(rc == 0, "C44", "a package was refused because of its name"); SX_ASSERT(env_exists(dbPath(t, "META")) && lists(t, 'z'), "C44", "a package with dots in its name is not recorded"); return; } sx_witness(4); SX_ASSERT(rc != 0, "C44", "a package whose name is no file name was installed"); SX_ASSERT(diffs(before) == 0 && env.forks == 0, "C44", "a package whose name is no file name changed the system"); SX_ASSERT(env.nerr > 0, "C44", "a package was refused without a message"); return; }
  bool skipped = t[0] == '.' && where == 1; /* lines that start with a dot are no files of the package */ if (dd && !skipped) { sx_witness(1); SX_ASSERT(rc != 0, "C44", "a package with a name that leads out of the root directory was installed"); SX_ASSERT(diffs(before) == 0, "C44", "a package with a name that leads out of the root directory changed the system"); SX_ASSERT(env.forks == 0, "C44", "a script of a package with a name that leads out of the root directory was executed"); SX_ASSERT(env.nerr > 0, "C44", "a package was refused without a message"); return; }
  if (alt) SX_ASSERT(outside(before) == 0, "C44", "a package changed something outside of the root directory"); if (alt) SX_ASSERT(hostLinks(env.root) == links, "C44", "a package made a link to a file outside of the root directory");
  if (where == 3) { char p[48]; snprintf(p, 48, "%s/%s", G_ROOT, t); Node* tg = env_node(p); if (tg && tg->isreg()) { sx_witness(5); SX_ASSERT(rc == 0 && env_node(atRoot("u/x")) == tg, "C44", "a hard link of a package does not lead to the file of the root directory"); } return; }
  if (odd || where || (t[0] == '.' && sx_param("any", 0))) return; bool conf = existed(before, atRoot(t)); if (conf) return;
  sx_witness(2); SX_ASSERT(rc == 0, "C44", "a package was refused although its names stay in the root directory"); SX_ASSERT(textIs(atRoot(t), "new"), "C44", "a file with dots in its name was not installed"); Node* fl = env_node(dbPath("pp", "files")); char line[24]; snprintf(line, 24, "\n%s\n", t); Buf all; if (fl) all.c('\n').b(fl->data, fl->size); SX_ASSERT(fl && (t[0] == '.' || strstr(all.d, line)), "C44", "a file with dots in its name is not recorded");
}
