// Package archives that are cut off or damaged anywhere, or whose headers are read with a warning (C41).
// cmd: 0 pkgadd, 1 pkgadd -f, 2 pkgadd -u, 3 pkgadd -u -f, 4 cards install FILE; n: files of the package, no: of the old version
#include "pkgworld.h"
extern "C" void harness() {
  if (sx_param("root", 0)) G_ROOT = "/mnt"; world(); if (*G_ROOT) world(G_ROOT); hostWorld("zz"); env_dir(atRoot("u"));
  unsigned cmd = (unsigned)sx_param("cmd", 0), n = (unsigned)sx_param("n", 2), no = (unsigned)sx_param("no", 1); bool inst = cmd == 2 || cmd == 3 || (cmd == 4 && sx_bool("installed"));
  NameSet N, O; symNames(N, n, "new"); if (inst) symNames(O, no, "old"); onDisk(O, "old"); Buf fo; listOf(fo, O); if (inst) dbPkg(G_ROOT, "pp", "B1600000000\nNpp\nV1\nax86_64\nr1\n", fo.d, fo.n);
  if (cmd == 1) for (unsigned i = 0; i < n; i++) if (i == 0) env_text(up(N.c[i]), "mine");
  Arc a; arcDefault(a, "pp", "2"); arcAdd(a, ".PRE", S_IFREG | 0755, "pre", 3); arcDir(a); for (unsigned i = 0; i < n; i++) arcFile(a, N.c[i], "newer"); arcDone(a, "/root/p.tar"); env_text("/etc/cards.conf", "dir /x/base\n"); env_text(atRoot("etc/cards.conf"), "dir /x/base\n"); env_dir("/x/base");
  PkgArchive& ar = env.ar[env.nar - 1]; for (int i = 0; i < ar.n; i++) { char t[16]; snprintf(t, 16, "warn%d", i); ar.e[i].warn = sx_bool(t); }
  bool damaged = sx_bool("damaged"); if (damaged) { ar.cut = (int)sx_range("good", 0, ar.n - 1) + 1; ar.mid = sx_bool("within"); if (ar.cut == 1) sx_assume(!ar.mid); }
  Node* before = env_snapshot(); const char* pk = "/root/p.tar"; int rc; char ro[32]; snprintf(ro, 32, "--root=%s", *G_ROOT ? G_ROOT : "/");
  switch (cmd) { case 0: rc = TOOLS("pkgadd", "-r", *G_ROOT ? G_ROOT : "/", pk); break; case 1: rc = TOOLS("pkgadd", "-f", "-r", *G_ROOT ? G_ROOT : "/", pk); break; case 2: rc = TOOLS("pkgadd", "-u", "-r", *G_ROOT ? G_ROOT : "/", pk); break; case 3: rc = TOOLS("pkgadd", "-u", "-f", "-r", *G_ROOT ? G_ROOT : "/", pk); break; default: rc = CARDS("install", ro, pk); }
  SX_TRACE("rc", rc); SX_ASSERT(env.exLocks == 0 && env.shLocks == 0, "C11", "the database lock is still held after the command");
  if (damaged) { sx_witness(ar.mid ? 1 : 2); SX_ASSERT(rc != 0 && rc != -2, "C41", "an archive that is cut off or damaged was installed with success"); SX_ASSERT(diffs(before) == 0, "C41", "an archive that is cut off or damaged changed the system"); SX_ASSERT(env.forks == 0, "C41", "a script of an archive that is cut off or damaged was executed"); SX_ASSERT(env.nerr > 0, "C41", "a damaged archive was refused without a message"); return; }
  bool conf = false; for (unsigned i = 0; i < n; i++) conf |= existed(before, up(N.c[i])) && !O.has(N.c[i]); if (conf && cmd != 1 && cmd != 3) { sx_witness(5); SX_ASSERT(rc != 0, "C41", "a conflicting package was installed"); return; }
  sx_witness(3); SX_ASSERT(rc == 0, "C41", "a package was not installed because its headers were read with a warning"); for (unsigned i = 0; i < n; i++) { SX_ASSERT(textIs(up(N.c[i]), "newer"), "C41", "a file after one whose header was read with a warning was not installed"); SX_ASSERT(lists("pp", N.c[i]), "C41", "an installed file is not recorded"); }
  SX_ASSERT(env.forks == 1, "C41", "the script before the installation was not executed"); SX_ASSERT(env_exists(dbPath("pp", "META")), "C41", "the package is not recorded"); if (inst) sx_witness(4); }
