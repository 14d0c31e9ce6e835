// The footprint of an archive (C43): "pkginfo -f FILE" prints one line for every entry, with its kind, permissions, owners and target; a damaged or
// empty archive is reported. n: entries; mask: the bits of the permissions that are arbitrary; own: bound of owner numbers; cut=1: the archive may be damaged; two=1: hard links to earlier entries
#include "pkgworld.h"
#include <sys/sysmacros.h>
static const unsigned TYPE[8] = {S_IFREG, S_IFLNK, S_IFDIR, S_IFCHR, S_IFBLK, S_IFIFO, S_IFSOCK, S_IFREG};
static void who(Buf& b, unsigned id) { if (!id) { b.s("root"); return; } char t[16]; int k = 16; t[--k] = 0; do { t[--k] = (char)('0' + id % 10); id /= 10; } while (id); b.s(t + k); }
static void dec(Buf& b, unsigned id) { char t[16]; int k = 16; t[--k] = 0; do { t[--k] = (char)('0' + id % 10); id /= 10; } while (id); b.s(t + k); }
static void permOf(Buf& b, unsigned kind, unsigned m) { static const char K[] = "-ldcbps-"; b.c(K[kind]);
  for (int i = 0; i < 3; i++) { unsigned p = (m >> (6 - 3 * i)) & 7; bool sp = (m >> (11 - i)) & 1; b.c(p & 4 ? 'r' : '-').c(p & 2 ? 'w' : '-'); char low = i == 2 ? 't' : 's', upc = i == 2 ? 'T' : 'S'; b.c(sp ? (p & 1 ? low : upc) : p & 1 ? 'x' : '-'); } }
extern "C" void harness() {
  world(); unsigned n = (unsigned)sx_param("n", 2), mask = (unsigned)sx_param("mask", 0), own = (unsigned)sx_param("own", 0); bool dam = sx_param("cut", 0), empty = sx_param("empty", 0);
  PkgEntry* e = (PkgEntry*)calloc(n + 1, sizeof(PkgEntry)); Buf want; unsigned modes[6], kinds[6]; bool warned = false;
  for (unsigned i = 0; i < n; i++) { char t[24]; auto nm = [&](const char* s) { snprintf(t, 24, "%s%u", s, i); return t; }; char* p = (char*)malloc(8); p[0] = 'u'; p[1] = '/'; p[2] = nameByte(nm("name")); for (unsigned k = 0; k < i; k++) sx_assume(p[2] != e[k].path[2]); p[3] = 0; e[i].path = p;
    unsigned kd = sx_range(nm("kind"), 0, i && sx_param("two", 0) ? 7 : 6); kinds[i] = kd; unsigned m = ((unsigned)sx_sym(nm("mode"), 16) & mask) | (0644 & ~mask); modes[i] = m; e[i].mode = TYPE[kd] | m; e[i].uid = own ? sx_u8(nm("uid")) : 0; e[i].gid = own == 1 ? sx_u8(nm("gid")) : own ? (unsigned)sx_sym(nm("gid"), 16) : 5;
    if (kd == 0) { bool z = sx_bool(nm("empty")); e[i].data = "xx"; e[i].size = z ? 0 : 2; } char* l = (char*)malloc(4); if (kd == 1) { l[0] = nameByte(nm("target")); l[1] = 0; e[i].symlink = l; } unsigned ma = 3, mi = 12; if (kd == 3 || kd == 4) { if (own) { ma = sx_u8(nm("major")); mi = sx_u8(nm("minor")); } e[i].rdev = makedev(ma, mi); }
    unsigned h = i; if (kd == 7) { h = sx_range(nm("linkto"), 0, i - 1); sx_assume(kinds[h] == 0); e[i].hardlink = e[h].path; e[i].data = ""; e[i].size = 0; }
    if (dam) { e[i].warn = sx_bool(nm("warn")); warned |= e[i].warn; }
    if (kd == 1) want.s("lrwxrwxrwx"); else if (kd == 7) permOf(want, 0, modes[h]); else permOf(want, kd, m);
    want.c('\t'); who(want, e[i].uid); want.c('/'); who(want, e[i].gid); want.c('\t').s(p); if (kd == 1) want.s(" -> ").s(l); if (kd == 3 || kd == 4) { want.s(" ("); dec(want, ma); want.s(", "); dec(want, mi); want.c(')'); } if ((kd == 0 && !e[i].size) || kd == 7) want.s(" (EMPTY)"); want.c('\n'); }
  env_archive("/root/p.tar", e, (int)n); PkgArchive& ar = env.ar[env.nar - 1]; bool damaged = dam && sx_bool("damaged"); if (damaged) { ar.cut = (int)sx_range("good", 0, n - 1) + 1; ar.mid = sx_bool("within"); if (ar.cut == 1) sx_assume(!ar.mid); }
  Node* before = env_snapshot(); env_out_reset(); const char* what = empty ? "/root/none" : "/root/p.tar"; unsigned v = empty ? sx_range("how", 0, 1) : 0; if (empty && v) env_text("/root/none", "not an archive"); if (empty && v) before = env_snapshot();
  int rc = TOOLS("pkginfo", "-f", what); SX_TRACE("rc", rc); SX_ASSERT(diffs(before) == 0, "C43", "printing a footprint changed the system"); SX_ASSERT(env.exLocks == 0 && env.shLocks == 0, "C43", "a lock is still held");
  if (empty || damaged) { sx_witness(damaged ? (ar.mid ? 1 : 2) : 3); SX_ASSERT(rc != 0 && rc != -2, "C43", "the footprint of a damaged, missing or foreign file was reported as complete"); SX_ASSERT(env.nerr > 0, "C43", "a damaged archive without a message"); return; }
  sx_witness(4); if (warned) sx_witness(5); SX_ASSERT(rc == 0, "C43", "the footprint of a good archive failed"); bool eq = env.nout == want.n; unsigned d = 0; if (eq) for (size_t i = 0; i < want.n; i++) d |= (unsigned)(unsigned char)(env.out[i] ^ want.d[i]);
  if (sx_param("dbg", 0)) { sx_puts(env.out); sx_puts(want.d); } SX_ASSERT(eq && d == 0, "C43", "the footprint does not describe exactly the entries of the archive");
}
