// A download for a package of a remote collection stays in the directory of the collection (C45): the repository metadata is not signed, so its file names may be
// anything. k: symbolic bytes over . / a (any=1: arbitrary bytes) in the file name of package aa; tail: what follows them; cmd: 0 install aa, 1 upgrade --proceed, 2 info aa, 3 install bb (which needs aa)
#include "pkgworld.h"
static unsigned bad; static void check(const char* p) { if (sx_param("dbg", 0)) sx_puts(p); if (strncmp(p, "/cards/base/", 12) || strchr(p + 12, '/')) bad++; }
static void onMut(const char*, const char* path, const char* p2, Node*) { if (!strncmp(path, "/u", 2) || !strncmp(path, "/var/", 5) || !strncmp(path, "/.", 2)) return; if (!strcmp(path, "/cards") || !strcmp(path, "/cards/base")) return; check(path); if (p2 && *p2) check(p2); }
static int good(const unsigned char*, size_t, const unsigned char*, size_t) { return 1; }
extern "C" void harness() {
  world(); env_dir("/u"); unsigned cmd = (unsigned)sx_param("cmd", 0), k = (unsigned)sx_param("k", 4), tail = (unsigned)sx_param("tail", 0); bool pre = sx_param("pre", 0);
  env_text("/etc/cards.conf", "dir /cards/base|http://m\ndir /cards/local\nversion v\n"); env_dir("/cards/base"); env_dir("/cards/base/a"); env_dir("/cards/a"); env_dir("/a"); env_dir("/cards/base/x.cards-1"); env_text("/cards/base/.PKEY", "E");
  char* t = (char*)calloc(96, 1); unsigned o = 0; if (pre) { strcpy(t, "x.cards-1"); o = 9; } for (unsigned i = 0; i < k; i++) { char b[8]; snprintf(b, 8, "b%u", i); unsigned char c = sx_u8(b); if (sx_param("any", 0)) sx_assume((c != 0) & (c != 10)); else sx_assume((c == '.') | (c == '/') | (c == 'a')); t[o + i] = (char)c; }
  strcpy(t + o + k, tail ? "/aa.cards-2-x86_64-1.tar.xz" : "aa.cards-2-x86_64-1.tar.xz"); bool slash = strchr(t, '/') != nullptr;
  Arc& a = *new Arc; a.meta.s("Naa\nV2\nr1\nax86_64\nB1700000005\ncbase\n"); arcDir(a); a.mtree.s("u/f\n"); arcAdd(a, "u/f", S_IFREG | 0644, "pkg", 3); Arc& b = *new Arc; b.meta.s("Nbb\nV2\nr1\nax86_64\nB1700000005\ncbase\nRaa1700000005\n"); arcDir(b); b.mtree.s("u/g\n"); arcAdd(b, "u/g", S_IFREG | 0644, "pkg", 3); arcDone(b, "/cards/base/bb.cards-2-x86_64-1.tar.xz");
  char* p = (char*)malloc(128); snprintf(p, 128, "/cards/base/%s", t); if (!slash) arcDone(a, p); char* u = (char*)malloc(160); snprintf(u, 160, "http://m/x86_64/v/base/%s", t); env_web(u, "new aa", 6); const char* ub = "http://m/x86_64/v/base/bb.cards-2-x86_64-1.tar.xz"; env_web(ub, "new bb", 6);
  if (!slash) { Node* d = env_node("/cards/base"); for (Ent** e = &d->ents; *e; e = &(*e)->next) if (!strcmp((*e)->name, t)) { *e = (*e)->next; break; } }
  { Node* n = env_node("/cards/base/bb.cards-2-x86_64-1.tar.xz"); Node* d = env_node("/cards/base"); (void)n; for (Ent** e = &d->ents; *e; e = &(*e)->next) if (!strcmp((*e)->name, "bb.cards-2-x86_64-1.tar.xz")) { *e = (*e)->next; break; } }
  Buf repo; repo.c('@').s(t).c('\n').b(a.meta.d, a.meta.n).s("I0a0a\n\n@bb.cards-2-x86_64-1.tar.xz\n").b(b.meta.d, b.meta.n).s("I0a0a\n\n"); env_file("/cards/base/.REPO", repo.d, repo.n);
  if (cmd == 1) { size_t fl = 3; Buf zr, zf; zr.s("ZST1").b(&repo.n, 8).b(repo.d, repo.n); zf.s("ZST1").b(&fl, 8).s("@x\n"); char* r = (char*)malloc(zr.n + zf.n); memcpy(r, zr.d, zr.n); memcpy(r + zr.n, zf.d, zf.n); env_web("http://m/x86_64/v/base/.REPO.zst", r, zr.n); env_web("http://m/x86_64/v/base/.FILES.zst", r + zr.n, zf.n); env_web("http://m/x86_64/v/base//.PKEY", "E", 1); dbPkg("aa", "Naa\nV1\nr1\nax86_64\nB1600000000\n", "u/\nu/o\n"); env_text("/u/o", "old"); dbPkg("bb", "Nbb\nV2\nr1\nax86_64\nB1700000005\n", "u/\n"); }
  net.onverify = good; Node* before = env_snapshot(); env.onmut = onMut; int rc = cmd == 0 ? CARDS("install", "aa") : cmd == 1 ? CARDS("upgrade", "--proceed") : cmd == 2 ? CARDS("info", "aa") : CARDS("install", "bb"); env.onmut = nullptr; SX_TRACE("rc", rc); SX_TRACE("bad", bad);
  if (sx_param("dbg", 0)) { static char m[99]; snprintf(m, 99, "rc %d run %d bad %u fetches %d", rc, g_lastRun, bad, net.fetches); sx_puts(t); sx_puts(m); if (env.nerr) { env.err[env.nerr < env.caperr ? env.nerr : env.caperr - 1] = 0; sx_puts(env.err); } }
  SX_ASSERT(rc != -3 && rc != -2, "C45", "the command ended abnormally"); SX_ASSERT(bad == 0, "C45", "a download was written outside of the directory of its collection");
  if (slash) { sx_witness(1); if (cmd != 2) SX_ASSERT(cmd == 1 || rc != 0, "C45", "a package whose archive lies outside of its collection was installed"); SX_ASSERT(!env_exists("/u/f") && !env_exists("/u/g"), "C45", "a package whose archive lies outside of its collection was installed"); if (cmd != 1) SX_ASSERT(diffs(before) == 0 || (cmd == 3 && rc), "C45", "a package whose archive lies outside of its collection changed the system"); return; }
  if (cmd == 2) return; sx_witness(2); SX_ASSERT(rc == 0 && env_exists("/u/f"), "C45", "a package with a plain archive name was not installed");
}
