// A removal or installation interrupted at any system call that changes something (crash 1: process killed, 2: power lost), or one whose
// writes fail (fault), followed by the next commands (C12, C13). op: 0 pkgrm, 1 pkgadd, 2 pkgadd -f, 3 pkgadd -u, 4 pkgadd -u -f, 5 cards remove, 6 cards install with a dependency, 7 cards upgrade that removes an obsolete package
#include "pkgworld.h"
static Buf fq, fqTaken, fNew, fOld; static Node* before; static const char* pk = "/root/pp.cards.tar.xz"; static bool alt;
static int run_(unsigned op) { switch (op) {
  case 0: return alt ? TOOLS("pkgrm", "-r", G_ROOT, "pp") : TOOLS("pkgrm", "pp");
  case 1: return alt ? TOOLS("pkgadd", "-r", G_ROOT, pk) : TOOLS("pkgadd", pk);
  case 2: return alt ? TOOLS("pkgadd", "-f", "-r", G_ROOT, pk) : TOOLS("pkgadd", "-f", pk);
  case 3: return alt ? TOOLS("pkgadd", "-u", "-r", G_ROOT, pk) : TOOLS("pkgadd", "-u", pk);
  case 4: return alt ? TOOLS("pkgadd", "-u", "-f", "-r", G_ROOT, pk) : TOOLS("pkgadd", "-u", "-f", pk);
  case 5: return alt ? CARDS("remove", "--root=/mnt", "pp") : CARDS("remove", "pp");
  case 6: return alt ? CARDS("install", "--root=/mnt", "pp") : CARDS("install", "pp");
  case 7: return alt ? CARDS("upgrade", "--proceed", "--root=/mnt") : CARDS("upgrade", "--proceed"); }
  return -9; }
// the list consists of complete lines of the old one and holds at least the lines that stay
static bool between(const char* pkg, const Buf& all, const Buf& least) { Node* n = env_node(dbPath(pkg, "files")); if (!n || !n->isreg()) return false; const char* d = (const char*)n->data; auto has = [](const char* h, size_t hn, const char* l, size_t k) { for (size_t i = 0; i < hn;) { size_t e = i; while (e < hn && h[e] != '\n') e++; if (e - i == k && e < hn && !memcmp(h + i, l, k)) return true; i = e + 1; } return false; };
  for (size_t i = 0; i < n->size;) { size_t e = i; while (e < n->size && d[e] != '\n') e++; if (e == n->size || !has(all.d, all.n, d + i, e - i)) return false; i = e + 1; }
  for (size_t i = 0; i < least.n;) { size_t e = i; while (least.d[e] != '\n') e++; if (!has(d, n->size, least.d + i, e - i)) return false; i = e + 1; } return true; }
static bool listIs(const char* pkg, const Buf& b) { return fileIs(dbPath(pkg, "files"), b); }
extern "C" void harness() {
  if (sx_param("root", 0)) { G_ROOT = "/mnt"; alt = true; } if (sx_param("long", 0)) G_PRE = "u/a-long.sub dir/";
  world(); if (alt) world(G_ROOT); hostWorld(); env_dir(atRoot("u")); unsigned op = (unsigned)sx_param("op", 0), nn = (unsigned)sx_param("nn", 2), nq = (unsigned)sx_param("nq", 1), no = (unsigned)sx_param("no", 1), fault = (unsigned)sx_param("fault", 0), crash = (unsigned)sx_param("crash", 1);
  bool upg = op == 3 || op == 4, force = op == 2 || op == 4, rem = op == 0 || op == 5 || op == 7, autoDep = sx_param("autodep", 0);
  NameSet NEW, Q, O; symNames(NEW, nn, "new"); symNames(Q, nq, "other"); symNames(O, upg || rem ? no : 0, "old"); char D = '~'; for (NameSet* x : {&NEW, &Q, &O}) for (unsigned i = 0; i < x->n; i++) sx_assume(x->c[i] != D);
  if (!force) for (unsigned i = 0; i < NEW.n; i++) for (unsigned k = 0; k < Q.n; k++) sx_assume(NEW.c[i] != Q.c[k]);
  if (!rem) for (unsigned i = 0; i < O.n; i++) for (unsigned k = 0; k < Q.n; k++) sx_assume(O.c[i] != Q.c[k]);
  onDisk(O, "old"); onDisk(Q, "qqq"); listOf(fq, Q); listOf(fOld, O); listOf(fNew, NEW); NameSet QT; for (unsigned i = 0; i < Q.n; i++) if (rem || !NEW.has(Q.c[i])) QT.add(Q.c[i]); listOf(fqTaken, QT);
  dbPkg(G_ROOT, "qq", "B1700000000\nNqq\nV1\nax86_64\nr1\n", fq.d, fq.n);
  if (upg || rem) dbPkg(G_ROOT, "pp", op == 5 && autoDep ? "B1600000000\nNpp\nV1\nax86_64\nRdd1600000000\nr1\n" : op == 7 ? "B1600000000\nNpp\nV1\nax86_64\nd1\nr1\n" : "B1600000000\nNpp\nV1\nax86_64\nr1\n", fOld.d, fOld.n);
  if (op == 5 && autoDep) { char t[64]; snprintf(t, 64, "u/\n%s%c\n", G_PRE, D); dbPkg(G_ROOT, "dd", "B1600000000\nNdd\nV1\nax86_64\nd1\nr1\n", t, strlen(t)); env_text(up(D), "dd"); }
  Arc a; a.meta.s("Npp\nV2\nr1\nax86_64\nB1700000000\ncbase\n"); if (op == 6 && autoDep) a.meta.s("Rdd1700000000\n"); arcDir(a); for (unsigned i = 0; i < nn; i++) arcFile(a, NEW.c[i], "new");
  if (op == 6) { pk = "/cards/base/pp.cards-2-x86_64-1.tar.xz"; env_text("/etc/cards.conf", "dir /cards/base\n"); env_dir("/cards/base"); Buf repo; repo.s("@pp.cards-2-x86_64-1.tar.xz\n").b(a.meta.d, a.meta.n).c('\n');
    if (autoDep) { Arc& d = *new Arc; d.meta.s("Ndd\nV2\nr1\nax86_64\nB1700000000\ncbase\n"); arcDir(d); arcFile(d, D, "new"); arcDone(d, "/cards/base/dd.cards-2-x86_64-1.tar.xz"); repo.s("@dd.cards-2-x86_64-1.tar.xz\n").b(d.meta.d, d.meta.n).c('\n'); } env_file("/cards/base/.REPO", repo.d, repo.n); }
  if (!rem) arcDone(a, pk); if (op == 5 || op == 7) env_text("/etc/cards.conf", "dir /cards/base\n"); if (op == 7) env_text("/cards/base/.REPO", "@qq.cards-1-x86_64-1.tar.xz\nNqq\nV1\nr1\nB1700000000\n\n");
  for (const NameSet* x : {&NEW, &Q, &O}) hostNames(*x); before = env_snapshot();
  env.crash = (int)crash; env.crashFrom = (int)sx_param("from", 0); if (fault) { env.faultMask = (int)fault; env.faultBudget = 1; }
  int rc = run_(op); env.crash = 0; env.faultMask = 0; SX_TRACE("rc", rc); bool crashed = rc == -2; contained(before);
  if (crashed) sx_witness(1); else if (env.faults) sx_witness(2); else sx_witness(3); bool hit = crashed || env.faults;
  if (!hit) { SX_ASSERT(rc == 0, "C13", "an uninterrupted command failed"); return; }
  // the recorded lists (C12): the old or the new one, never a mixture
  if (rem) SX_ASSERT(listIs("qq", fq), "C12", "the file list of another package changed"); else { bool o = listIs("qq", fq), n = listIs("qq", fqTaken); sx_witness(o ? 4 : 5); SX_ASSERT(o || (force && between("qq", fq, fqTaken)), "C12", "the recorded file list of a package is damaged"); }
  bool rec = env_exists(dbPath("pp", "files"));
  if (rec) { bool o = (upg || rem) && listIs("pp", fOld), n = !rem && listIs("pp", fNew); sx_witness(n ? 6 : 7); SX_ASSERT(o || n, "C12", "the recorded file list of the package is neither the old nor the new one"); if (n && !o && crash != 2) for (unsigned i = 0; i < nn; i++) SX_ASSERT(textIs(up(NEW.c[i]), "new") || fault, "C12", "the new file list was recorded before the files were installed"); }
  if (!crashed && env.faults) { sx_witness(8); if (sx_param("reported", 0)) SX_ASSERT(rc > 0 || (listIs("pp", fNew) && listIs("qq", force ? fqTaken : fq)), "C12", "a command that could not record its file list reports success"); }
  if (crash == 2 || sx_param("only12", 0)) return;
  // the removal keeps the record while any of the files is left
  if (rem) { bool left = false; for (unsigned i = 0; i < O.n; i++) left |= !Q.has(O.c[i]) && env_exists(up(O.c[i])); if (left) { sx_witness(9); SX_ASSERT(rec && listIs("pp", fOld), "C13", "an interrupted removal leaves files no package owns"); } }
  for (unsigned i = 0; i < Q.n; i++) if (rem || !NEW.has(Q.c[i])) SX_ASSERT(env_exists(up(Q.c[i])) && unchanged(before, up(Q.c[i])), "C13", "an interrupted command touched a file of another package");
  SX_ASSERT(unchanged(before, dbPath("qq", "META")), "C13", "an interrupted command touched the record of another package");
  env_reboot(); env_out_reset(); env.regexMode = 2; int q = alt ? TOOLS("pkginfo", "-r", G_ROOT, "-o", "u/") : TOOLS("pkginfo", "-o", "u/"); SX_ASSERT(q == 0, "C13", "after an interrupted command the database can no longer be read"); if (q) return;
  // the next command completes what was interrupted
  env_reboot(); env_out_reset(); bool known = env_exists(dbPath("pp", ""));
  if (rem) { if (!known && !(op == 5 && autoDep)) { sx_witness(10); } else { sx_witness(11); if (known) { rc = run_(op); SX_ASSERT(rc == 0, "C13", "an interrupted removal cannot be repeated"); if (op == 7 && env_exists(dbPath("pp", ""))) { sx_witness(14); env_reboot(); rc = run_(0); SX_ASSERT(rc == 0, "C13", "what an interrupted upgrade left of a package cannot be removed"); } } else { rc = alt ? CARDS("remove", "--root=/mnt", "xx") : CARDS("remove", "xx"); } }
    for (unsigned i = 0; i < O.n; i++) if (!Q.has(O.c[i])) SX_ASSERT(!env_exists(up(O.c[i])), "C13", "repeating an interrupted removal leaves files behind"); SX_ASSERT(!env_exists(dbPath("pp", "")), "C13", "repeating an interrupted removal leaves the record behind");
    return; }
  // (the package is not recorded any more when an upgrade was interrupted after the old version went)
  if (op == 6) { sx_witness(12); rc = alt ? CARDS("install", "-f", "--root=/mnt", "pp") : CARDS("install", "-f", "pp"); }
  else { sx_witness(known ? 13 : 12); rc = run_(known ? 4 : 2); }
  SX_ASSERT(rc == 0, "C13", "an interrupted installation cannot be completed by force"); if (rc) return;
  for (unsigned i = 0; i < nn; i++) SX_ASSERT(textIs(up(NEW.c[i]), "new"), "C13", "completing an interrupted installation leaves a file missing"); SX_ASSERT(listIs("pp", fNew) && env_exists(dbPath("pp", "META")) && listIs("qq", fqTaken), "C13", "completing an interrupted installation leaves wrong records");
  if (op == 6 && autoDep) { SX_ASSERT(textIs(up(D), "new") && env_exists(dbPath("dd", "files")), "C13", "completing an interrupted installation leaves a dependency out"); }
}
