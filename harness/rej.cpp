// The rejected area (C32): a protected file and the new version an upgrade brings. okind/nkind: 0 regular, 1 symbolic link, 2 character device, 3 block device, 4 directory, 5 fifo
#include "pkgworld.h"
static unsigned perm(const char* n, bool sym) { if (!sym) return 0644; unsigned m = (unsigned)sx_sym(n, 16); sx_assume(m < 010000); return m; }
static const unsigned TYPE[6] = {S_IFREG, S_IFLNK, S_IFCHR, S_IFBLK, S_IFDIR, S_IFIFO};
struct Obj { unsigned kind, mode, uid, gid; unsigned long rdev; char* data; size_t n; };
static Obj mkObj(const char* pre, unsigned kinds, unsigned sizes, bool perms, bool eqSize, size_t sz) {
  Obj o; memset(&o, 0, sizeof o); char t[32]; auto nm = [&](const char* s) { snprintf(t, 32, "%s-%s", pre, s); return t; };
  o.kind = kinds == 9 ? sx_range(nm("kind"), 0, 5) : kinds; o.mode = TYPE[o.kind] | (o.kind == 1 ? 0777 : perm(nm("mode"), perms)); if (perms) { o.uid = sx_u8(nm("uid")); o.gid = sx_u8(nm("gid")); }
  if (o.kind == 2 || o.kind == 3) o.rdev = (unsigned long)sx_sym(nm("rdev"), 16);
  if (o.kind == 0) { static const size_t S[] = {0, 1, 2, 8191, 8192, 8193, 16384}; o.n = eqSize ? sz : S[sx_range(nm("size"), 0, sizes)]; o.data = (char*)malloc(o.n + 1); memset(o.data, 'a', o.n); if (o.n) o.data[o.n - 1] = (char)sx_u8(nm("last")); if (o.n > 8192 && sx_bool(nm("mid"))) o.data[8191] = 'b'; if (o.n == 2) o.data[0] = (char)sx_u8(nm("first")); }
  if (o.kind == 1) { o.n = 1 + sx_range(nm("len"), 0, 2); o.data = (char*)malloc(o.n + 1); for (size_t i = 0; i < o.n; i++) { char b[8]; snprintf(b, 8, "l%u", (unsigned)i); unsigned char c = sx_u8(nm(b)); sx_assume(c > 32); sx_assume(c < 127); o.data[i] = (char)c; } o.data[o.n] = 0; }
  return o; }
static void place(const char* p, const Obj& o) { Node* n = nullptr; if (o.kind == 0) n = env_file(p, o.data, o.n); else if (o.kind == 1) n = env_symlink(p, o.data); else if (o.kind == 4) n = env_dir(p); else n = env_special(p, o.mode, o.rdev); n->mode = o.mode; n->uid = o.uid; n->gid = o.gid; }
static bool sameData(const Obj& a, const Obj& b) { if (a.n != b.n) return false; for (size_t i = 0; i < a.n; i++) if (a.data[i] != b.data[i]) return false; return true; }
extern "C" void harness() {
  if (sx_param("root", 0)) G_ROOT = "/mnt"; world(); if (*G_ROOT) world(G_ROOT); hostWorld(); env_dir(atRoot("u")); bool deep = sx_param("deep", 0); bool perms = sx_param("perms", 0); unsigned sizes = (unsigned)sx_param("sizes", 2);
  const char* rel = deep ? "u/d/x" : "u/x"; if (deep) env_dir(atRoot("u/d"));
  Obj old = mkObj("old", (unsigned)sx_param("okind", 9), sizes, perms, false, 0), nw = mkObj("new", (unsigned)sx_param("nkind", 9), sizes, perms, false, 0);
  sx_assume((old.kind == 4) == (nw.kind == 4)); // a directory instead of a file is another entry of the package
  place(atRoot(rel), old); bool other = sx_param("other", 0) && sx_bool("other-rejected"); if (other) { env_dir(atRoot("var/lib/pkg/rejected/u")); env_text(atRoot("var/lib/pkg/rejected/u/z"), "earlier"); }
  Buf f; f.s("u/\n"); if (deep) f.s("u/d/\n"); f.s(rel).s(old.kind == 4 ? "/\n" : "\n"); dbPkg(G_ROOT, "pp", "Npp\nV1\nB1\nax86_64\nr1\n", f.d, f.n);
  env_text(atRoot("var/lib/pkg/pkgadd.conf"), "UPGRADE x NO\n");
  Arc a; arcDefault(a, "pp", "2"); arcDir(a); if (deep) arcDir1(a, "u/d/"); char p2[32]; snprintf(p2, 32, "%s%s", rel, nw.kind == 4 ? "/" : ""); a.mtree.s(p2).c('\n'); arcAdd(a, p2, nw.mode, nw.kind == 0 ? nw.data : "", nw.kind == 0 ? nw.n : 0); PkgEntry& e = a.e[a.n - 1]; e.uid = nw.uid; e.gid = nw.gid; e.rdev = nw.rdev; if (nw.kind == 1) e.symlink = nw.data; arcDone(a, "/root/pp.cards.tar.xz");
  Node* before = env_snapshot(); const char* pk = "/root/pp.cards.tar.xz"; int rc = *G_ROOT ? TOOLS("pkgadd", "-u", "-r", G_ROOT, pk) : TOOLS("pkgadd", "-u", pk); SX_TRACE("rc", rc); if (sx_param("dbg", 0)) { sx_puts(env.out ? env.out : "-"); sx_puts(env.err ? env.err : "-"); } contained(before);
  SX_ASSERT(rc == 0, "C32", "an admissible upgrade failed"); if (rc) return;
  const char* p = atRoot(rel); SX_ASSERT(unchanged(before, p) && env_node(p) && env_node(p)->rdev == old.rdev, "C32", "the protected file itself was changed");
  char rj[96]; snprintf(rj, 96, "var/lib/pkg/rejected/%s", rel); Node* r = env_node(atRoot(rj));
  bool meta = old.mode == nw.mode && old.uid == nw.uid && old.gid == nw.gid; bool isMeta = old.kind == nw.kind && meta;
  bool data = old.kind == nw.kind && (nw.kind == 0 ? nw.n == 0 || sameData(old, nw) : nw.kind == 1 ? sameData(old, nw) : nw.kind == 4 ? true : nw.rdev == old.rdev);
  if (isMeta && data) { if (nw.kind != 5) { sx_witness(1); SX_ASSERT(!r, "C32", "a new version identical to the protected file was kept as rejected"); } }
  else { sx_witness(2); SX_ASSERT(r, "C32", "the new version of a protected file was discarded although it differs"); if (!r) return;
    SX_ASSERT(r->mode == nw.mode && r->uid == nw.uid && r->gid == nw.gid, "C32", "the rejected file has another type, mode or owner than in the package");
    SX_ASSERT(nw.kind == 0 ? r->size == nw.n && (!nw.n || !memcmp(r->data, nw.data, nw.n)) : nw.kind == 1 ? !strcmp(r->link, nw.data) : r->rdev == nw.rdev, "C32", "the rejected file has another content than in the package"); }
  if (other) SX_ASSERT(textIs(atRoot("var/lib/pkg/rejected/u/z"), "earlier"), "C32", "an earlier rejected file was removed");
  SX_ASSERT(env_exists(dbPath("pp", "files")) , "C32", "the package is no longer recorded");
}
