// Install / forced install / upgrade / forced upgrade of package pp into a system with packages qq, rr and an unowned file.
// mode: 0 install, 1 forced install, 2 upgrade, 3 forced upgrade. nn: files of the new package, nq/n3: of qq/rr, no: of the old version, nz: unowned, nr: rules
#include "pkgworld.h"
extern "C" void harness() {
  if (sx_param("root", 0)) G_ROOT = "/mnt"; if (sx_param("long", 0)) G_PRE = "u/a-long.sub dir/";
  world(); if (*G_ROOT) world(G_ROOT); hostWorld(); env_dir(atRoot("u"));
  unsigned mode = (unsigned)sx_param("mode", 0), nn = (unsigned)sx_param("nn", 2), nq = (unsigned)sx_param("nq", 2), n3 = (unsigned)sx_param("n3", 0), no = (unsigned)sx_param("no", 0), nr = (unsigned)sx_param("nr", 0), nz = (unsigned)sx_param("nz", 1), kinds = (unsigned)sx_param("kinds", 0), zk = (unsigned)sx_param("zkinds", 0), metas = (unsigned)sx_param("metas", 0);
  bool upg = mode >= 2, force = mode & 1;
  NameSet NEW, Q, R3, O, Z; symNames(NEW, nn, "new"); symNames(Q, nq, "other"); symNames(R3, n3, "third"); symNames(O, no, "old"); symNames(Z, nz, "unowned");
  // unless asked for, a regular file has at most one owner
  for (unsigned i = 0; i < O.n; i++) { for (unsigned k = 0; k < Q.n; k++) if (!sx_param("shared", 0)) sx_assume(O.c[i] != Q.c[k]); for (unsigned k = 0; k < R3.n; k++) sx_assume(O.c[i] != R3.c[k]); }
  for (unsigned i = 0; i < Q.n; i++) for (unsigned k = 0; k < R3.n; k++) if (!sx_param("multi", 0)) sx_assume(R3.c[k] != Q.c[i]);
  if (sx_param("okinds", 0) && O.n) { const char* p0 = up(O.c[0]); env_dir(atRoot("w")); switch (sx_range("okind", 0, 4)) { case 0: break; case 1: env_symlink(p0, "nowhere"); break; case 2: env_symlink(p0, "/w"); break; case 3: env_special(p0, S_IFIFO | 0644, 0); break; case 4: env_text(p0, "", 0600); break; } }
  // the administrator may have deleted a file of the old version
  { unsigned gone = sx_param("gone", 0) && O.n ? sx_range("gone", 0, O.n) : 0; NameSet D; for (unsigned i = 0; i < O.n; i++) if (i + 1 != gone) D.add(O.c[i]); onDisk(D, "old"); } if (!(sx_param("qgone", 0) && sx_bool("otherGone"))) onDisk(Q, "qqq"); onDisk(R3, "rrr");
  if (zk) { for (unsigned i = 0; i < nz; i++) if (!env_exists(up(Z.c[i]))) switch (sx_range("zkind", 0, 4)) { case 0: env_text(up(Z.c[i]), "zzz"); break; case 1: env_symlink(up(Z.c[i]), "nowhere"); break; case 2: env_symlink(up(Z.c[i]), "/tmp"); break; case 3: env_special(up(Z.c[i]), S_IFIFO | 0644, 0); break; case 4: env_dir(up(Z.c[i])); break; } } else onDisk(Z, "zzz");
  static const char* qn[4] = {"qq", "pp.devel", "ppq", "p"}; const char* QN = qn[sx_param("qnames", 0) ? sx_range("qname", 0, 3) : 0];
  Buf fo, fq, f3; listOf(fo, O); bool dirs = upg && sx_param("dirs", 0), mine = false; if (dirs) { fo.s("w/\nw/f\n"); env_dir(atRoot("w")); env_text(atRoot("w/f"), "old"); mine = sx_bool("mine"); if (mine) env_text(atRoot("w/mine"), "mine"); } listOf(fq, Q); listOf(f3, R3);
  const char* ms[5] = {"", "d1\n", "gdevel\n", "Aalso\n", "d1\ngdevel\n"}; Buf mq; mq.s("B1700000000\nN").s(QN).s("\nV1\nax86_64\n").s(ms[metas ? sx_range("meta", 0, 4) : 0]).s("r1\n");
  dbPkg(G_ROOT, QN, mq.d, fq.d, fq.n); if (n3) dbPkg(G_ROOT, "rr", "B1700000000\nNrr\nV1\nax86_64\nr1\n", f3.d, f3.n);
  bool autoMark = false;
  if (upg) { autoMark = sx_bool("auto"); dbPkg(G_ROOT, "pp", autoMark ? "B1600000000\nNpp\nV1\nax86_64\nd1\nr1\n" : "B1600000000\nNpp\nV1\nax86_64\nr1\n", fo.d, fo.n); }
  bool ign = sx_param("ign", 0) && sx_bool("ignore"); Arc a; arcDefault(a, "pp", "2"); if (sx_param("ign", 0)) { arcAdd(a, ".PRE", S_IFREG | 0755, "pre", 3); arcAdd(a, ".POST", S_IFREG | 0755, "post", 4); } arcDir(a); unsigned k0 = kinds ? sx_range("kind", 0, 3) : 0;
  for (unsigned i = 0; i < nn; i++) { PkgEntry& e = arcFile(a, NEW.c[i], "new"); if (i == 0) { if (k0 == 1) { e.mode = S_IFREG | 04751; e.uid = 5; e.gid = 7; } if (k0 == 2) { e.mode = S_IFLNK | 0777; e.symlink = "nowhere"; e.size = 0; } if (k0 == 3) { e.mode = S_IFREG | 0600; e.size = 0; } } }
  arcDone(a, "/root/pp.cards.tar.xz");
  if (sx_param("cards", 0)) env_text("/etc/cards.conf", "dir /usr/ports/x\n");
  Rules R; if (nr) symRules(R, nr, (int)sx_param("ev", 2), sx_param("noise", 0));
  for (const NameSet* x : {&NEW, &Q, &R3, &O, &Z}) hostNames(*x); Node* before = env_snapshot();
  const char* pk = "/root/pp.cards.tar.xz"; int rc;
  if (sx_param("cards", 0)) { const char* v[8]; int k = 0; v[k++] = "cards"; v[k++] = "install"; if (upg && sx_bool("redundant")) v[k++] = "-u"; if (force) v[k++] = "-f"; if (ign) v[k++] = "-d"; if (*G_ROOT) v[k++] = "--root=/mnt"; v[k++] = pk; rc = commandV(cards_main, v, k); }
  else { const char* v[8]; int k = 0; v[k++] = "pkgadd"; if (upg) v[k++] = "-u"; if (force) v[k++] = "-f"; if (ign) v[k++] = "-i"; if (*G_ROOT) { v[k++] = upg && !force ? "--root" : "-r"; v[k++] = G_ROOT; } v[k++] = pk; rc = commandV(tools_main, v, k); }
  SX_TRACE("rc", rc); contained(before);
  auto owned = [&](char c) { return Q.has(c) || R3.has(c); };
  bool inst[8], keep[8], conflict = false; for (unsigned i = 0; i < nn; i++) { inst[i] = nr ? allowedName(R, false, NEW.c[i]) : true; keep[i] = upg && nr && !allowedName(R, true, NEW.c[i]); }
  bool noDir = nr && !allowed(R, false, "u/");
  for (unsigned i = 0; i < nn; i++) { char c = NEW.c[i]; if (inst[i] && existed(before, up(c)) && !O.has(c)) conflict = true; if (inst[i] && owned(c) && !O.has(c)) conflict = true; }
  if (conflict && !force) {
    sx_witness(1);
    SX_ASSERT(rc == 1, "C03", "a conflicting package was not refused");
    SX_ASSERT(diffs(before) == 0, "C03", "a refused installation changed the system");
    SX_ASSERT(env.exLocks == 0 && env.shLocks == 0, "C11", "the database lock is still held after the command");
    return;
  }
  if (conflict) SX_ASSERT(rc == 0, "C07", "a forced installation was refused"); else SX_ASSERT(rc == 0, "C04", "an admissible installation was refused"); if (rc) return;
  sx_witness(2);
  // the record and the files of the package
  for (unsigned i = 0; i < nn; i++) { char c = NEW.c[i]; const char* p = up(c); bool was = existed(before, p);
    if (!inst[i]) { sx_witness(3); SX_ASSERT(!lists("pp", c), "C06", "a file excluded by an INSTALL rule is recorded as owned");
      if (!was) SX_ASSERT(!env_exists(p), "C06", "a file excluded by an INSTALL rule was installed");
      else if (!O.has(c)) SX_ASSERT(unchanged(before, p), "C06", "an existing file excluded by an INSTALL rule was overwritten");
      continue; }
    SX_ASSERT(lists("pp", c), nr ? "C06" : "C04", "an installed file is missing from the record of its package");
    if (nr) SX_ASSERT(lists("pp", c), "C04", "an installed file is missing from the record of its package");
    char rej[128]; snprintf(rej, sizeof rej, "%s/var/lib/pkg/rejected/%s%c", G_ROOT, G_PRE, c);
    if (keep[i] && was) { sx_witness(4);
      SX_ASSERT(env_exists(p) && unchanged(before, p), "C05", "a protected file was modified by an upgrade");
      if (!(i == 0 && k0)) SX_ASSERT(textIs(rej, "new"), "C05", "the new version of a protected file was not saved to the rejected area"); }
    else { Node* n = env_node(p);
      if (i == 0 && k0 == 1) SX_ASSERT(n && n->mode == (S_IFREG | 04751) && n->uid == 5 && n->gid == 7, "C04", "a file was not installed with the owner and mode it has in the package");
      if (i == 0 && k0 == 2) SX_ASSERT(n && n->islnk() && !strcmp(n->link, "nowhere"), "C04", "a symbolic link of the package was not installed");
      else if (i == 0 && k0 == 3) SX_ASSERT(n && n->isreg() && n->size == 0 && (n->mode & 07777) == 0600, "C04", "an empty file of the package was not installed");
      else SX_ASSERT(textIs(p, "new"), "C04", "a file of the package was not installed with its content");
      if (nr) SX_ASSERT(n && env_exists(p), "C06", "a file no INSTALL rule excludes was not installed");
      SX_ASSERT(!env_exists(rej), "C05", "a file that is not protected was rejected"); if (nr && upg && was) SX_ASSERT(!unchanged(before, p), "C06", "a file no UPGRADE rule protects was not upgraded"); if (keep[i]) sx_witness(5); }
  }
  unsigned want = noDir ? 0 : 1; if (*G_PRE && strcmp(G_PRE, "u/")) want += !nr || allowed(R, false, G_PRE); for (unsigned i = 0; i < nn; i++) want += inst[i];
  SX_ASSERT(nLines(dbPath("pp", "files")) == want, "C04", "the record of the package lists something it does not install");
  SX_ASSERT(env_exists(dbPath("pp", "META")), "C04", "the package metadata is not recorded");
  if (env_exists(dbPath("pp", "META"))) { Node* m = env_node(dbPath("pp", "META")); for (const char* l : {"Npp\n", "V2\n", "r1\n", "ax86_64\n", "B1700000000\n"}) SX_ASSERT(env_contains((const char*)m->data, m->size, l), "C04", "a line of the package metadata is not recorded"); }
  SX_ASSERT(!env_exists(atRoot(".META")) && (*G_ROOT || !env_exists("/.META")), "C04", "package metadata left in the root directory"); SX_ASSERT(!env_exists(atRoot(".PRE")) && !env_exists(atRoot(".POST")), "C04", "a script of the package was left in the root directory"); if (sx_param("ign", 0)) sx_witness(ign ? 11 : 12);
  if (upg) { // mark and obsolete files
    Node* m = env_node(dbPath("pp", "META")); bool d1 = m && (env_contains((const char*)m->data, m->size, "\nd1\n") || (m->size > 3 && !memcmp(m->data, "d1\n", 3)));
    SX_ASSERT(d1 == autoMark, "C08", "an upgrade changed the manual/automatic mark of the package"); sx_witness(autoMark ? 6 : 7);
    for (unsigned i = 0; i < O.n; i++) { char c = O.c[i]; bool inNew = false, kept = false; for (unsigned k = 0; k < nn; k++) { inNew |= NEW.c[k] == c && (inst[k] || keep[k]); kept |= NEW.c[k] == c && inst[k] && keep[k]; }
      if (inNew) continue; if (owned(c)) { sx_witness(8); SX_ASSERT(env_exists(up(c)) == existed(before, up(c)) && unchanged(before, up(c)), "C01", "an upgrade removed a file another package owns"); } else { sx_witness(9); SX_ASSERT(!env_exists(up(c)), "C02", "a file dropped by the new version is still there"); } }
    if (dirs) { SX_ASSERT(!env_exists(atRoot("w/f")), "C02", "a file dropped by the new version is still there"); SX_ASSERT(env_exists(atRoot("w")) == mine, "C02", mine ? "an upgrade removed a directory with a foreign file" : "an empty directory dropped by the new version is still there"); if (mine) SX_ASSERT(textIs(atRoot("w/mine"), "mine"), "C04", "a file the package does not own was touched"); }
  } else { Node* m = env_node(dbPath("pp", "META")); SX_ASSERT(m && !env_contains((const char*)m->data, m->size, "\nd1"), "C08", "a package installed on request is marked automatic"); }
  // the other packages
  for (int o = 0; o < 2; o++) { NameSet& X = o ? R3 : Q; const char* xn = o ? "rr" : QN; if (o && !n3) continue;
  for (unsigned i = 0; i < X.n; i++) { char c = X.c[i]; bool taken = false; for (unsigned k = 0; k < nn; k++) taken |= NEW.c[k] == c && inst[k] && !O.has(c);
    if (taken) { sx_witness(10); SX_ASSERT(!lists(xn, c), "C07", "after a forced installation a file has two owners"); }
    else { SX_ASSERT(lists(xn, c), "C07", "a package lost a file that was not taken over"); SX_ASSERT(env_exists(up(c)) || !existed(before, up(c)), "C01", "installing a package deleted a file another package owns"); if (!(O.has(c))) SX_ASSERT(unchanged(before, up(c)), "C01", "installing a package modified a file another package owns"); } }
  SX_ASSERT(env_contains((const char*)env_node(dbPath(xn, "files"))->data, 3, "u/\n"), "C07", "a directory vanished from the record of another package");
  SX_ASSERT(unchanged(before, dbPath(xn, "META")), "C07", "metadata of another package changed"); }
  for (unsigned i = 0; i < Z.n; i++) { char c = Z.c[i]; if (!NEW.has(c) && !O.has(c) && !owned(c)) SX_ASSERT(env_exists(up(c)) && unchanged(before, up(c)), "C04", "a file the package does not own was touched"); }
  SX_ASSERT(env.exLocks == 0 && env.shLocks == 0, "C11", "the database lock is still held after the command");
  SX_TRACE("nops", env.nops); SX_TRACE("diffs", diffs(before));
}
