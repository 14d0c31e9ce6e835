// "cards repo" publishes exactly the packages of the collections, signed, completely or not at all (C39); what it publishes can be synchronised and
// installed; "cards keys" makes a pair whose private half nobody else can ever read (C40).
// mode: 0 generate, 1 check (no private key), 2 generate, publish, synchronise, install; 3 keys
#include "pkgworld.h"
static const char* hx(unsigned char b) { static char t[4]; snprintf(t, 4, "%02x", b); return t; }
struct P { bool there; char path[64]; const char* coll; const char* name; Buf rec, files; unsigned char dig[64]; size_t size; char key; };
static P pk[4]; static unsigned np = 0; static const char* CO[2] = {"base", "extra"}; // pre=1: the name of the second is a prefix of the first
static void digestOf(const void* p, size_t k, unsigned char* o) { memset(o, 0, 64); for (size_t i = 0; i < k; i++) o[i % 62] += ((const unsigned char*)p)[i]; o[62] = k & 255; o[63] = (unsigned char)(k >> 8); }
// line set of a record, whatever its order; from: after the '@' line
static bool hasLine(const char* t, size_t n, const char* l, size_t k) { for (size_t i = 0; i < n;) { size_t e = i; while (e < n && t[e] != '\n') e++; if (e - i == k && !memcmp(t + i, l, k)) return true; i = e + 1; } return false; }
static unsigned countLines(const char* t, size_t n) { unsigned c = 0; for (size_t i = 0; i < n; i++) c += t[i] == '\n'; return c; }
// the text holds exactly the records of the collection
static bool holds(const char* t, size_t n, const char* coll, bool meta) {
  size_t at = 0; unsigned k = 0; for (unsigned i = 0; i < np; i++) if (pk[i].there && !strcmp(pk[i].coll, coll)) k++;
  while (at < n) { size_t e = at; while (e < n && t[e] != '\n') e++; if (e >= n || t[at] != '@') return false; P* p = nullptr; for (unsigned i = 0; i < np; i++) { const char* b = strrchr(pk[i].path, '/') + 1; if (pk[i].there && !strcmp(pk[i].coll, coll) && strlen(b) == e - at - 1 && !memcmp(b, t + at + 1, e - at - 1)) p = &pk[i]; } if (!p || !k--) return false;
    size_t r = e + 1; at = r; while (at < n && t[at] != '\n') { while (at < n && t[at] != '\n') at++; at++; } if (at >= n) return false; size_t l = at - r; at++; const Buf& w = meta ? p->rec : p->files; if (countLines(t + r, l) != countLines(w.d, w.n)) return false;
    for (size_t i = 0; i < w.n;) { size_t x = i; while (w.d[x] != '\n') x++; if (!hasLine(t + r, l, w.d + i, x - i)) return false; i = x + 1; } }
  return k == 0; }
static bool fileHolds(const char* coll, const char* f, bool meta, bool zst) { char p[64]; snprintf(p, 64, "/d/%s/%s%s", coll, f, zst ? ".zst" : ""); Node* n = env_node(p); if (!n || !n->isreg()) return false; const char* t = (const char*)n->data; size_t k = n->size; if (zst) { size_t l; if (k < 12 || memcmp(t, "ZST1", 4)) return false; memcpy(&l, t + 4, 8); if (l != k - 12) return false; t += 12; k -= 12; } return holds(t, k, coll, meta); }
static Node* before; static bool same(const char* coll, const char* f, bool zst) { char p[64]; snprintf(p, 64, "/d/%s/%s%s", coll, f, zst ? ".zst" : ""); return unchanged(before, p); }
static int other; static void cbOther(char k, const char* p) { if (strstr(p, "/.REPO") || strstr(p, "/.FILES") || !strncmp(p, "/d/base", 8) || !strncmp(p, "/d/extra", 9) || !strncmp(p, "/d/bas/", 7)) return; if (!other) snprintf(g_firstDiff, 128, "%c %s", k, p); other++; }
static unsigned char ch(const char* n) { unsigned char c = sx_u8(n); sx_assume(c > 32); sx_assume(c < 127); return c; }
static void collections(bool sub) {
  static const char* NM[] = {"pa", "pb", "pc"}; for (unsigned i = 0; i < 3; i++) { P& p = pk[np++]; p.coll = CO[i == 2]; p.name = NM[i]; char t[16]; snprintf(t, 16, "there%u", i); p.there = sub ? true : sx_bool(t); if (!p.there) continue; bool deep = i == 1 && !sub && sx_bool("deep");
    snprintf(p.path, 64, "/d/%s/%s%s.cards-1-x86_64-1.tar.xz", p.coll, deep ? "sub/" : "", p.name); Arc& a = *new Arc; a.meta.s("N").s(p.name).s("\nD"); snprintf(t, 16, "desc%u", i); a.meta.c((char)ch(t)); a.meta.s("\nV1\nr1\nax86_64\nB170000000").c((char)('0' + i)).c('\n'); if (i == 0) a.meta.s("Rpb1700000001\n"); a.meta.s("c").s(p.coll).c('\n'); p.rec.b(a.meta.d, a.meta.n); if (!sub && i == 1 && sx_bool("blank")) { a.meta.n -= 0; a.meta.s("\n"); }
    if (i == 0) { a.mtree.s(".META\n"); } arcDir(a); p.files.s("u/\n"); char f[4] = {'u', '/', 0, 0}; snprintf(t, 16, "file%u", i); f[2] = sub ? (char)('a' + i) : (char)ch(t); sx_assume(f[2] != '/'); sx_assume(f[2] != '.'); a.mtree.s(f).c('\n'); p.files.s(f).c('\n'); char* fp = (char*)malloc(4); strcpy(fp, f); arcAdd(a, fp, S_IFREG | 0644, NM[i], 2); if (i == 2) { a.mtree.s("u/zz"); p.files.s("u/zz\n"); arcAdd(a, "u/zz", S_IFREG | 0644, "z", 1); }
    char* path = (char*)malloc(64); strcpy(path, p.path); arcDone(a, path); char* c = (char*)malloc(8); strcpy(c, i == 0 ? "one" : i == 1 ? "two22" : "three"); size_t cl = i == 0 ? 3 : 5; if (unsigned big = (unsigned)sx_param("big", 0)) { c = (char*)malloc(big + i + 1); memset(c, 'k', big + i); c[0] = (char)('1' + i); cl = big + i; c[cl - 1] = 'z'; } if (sx_param("content", 0)) c[1] = (char)sx_u8("content"); Node* nd = env_file(path, c, cl); p.size = nd->size; digestOf(nd->data, nd->size, p.dig);
    p.rec.c('H'); for (int k = 0; k < 64; k++) p.rec.s(hx(p.dig[k])); p.rec.s("\nI"); for (int k = 0; k < 64; k++) p.rec.s(hx(p.dig[k] ^ 0x5A ^ 7)); { char sz[24]; snprintf(sz, 24, "\ni%lu\n", (unsigned long)p.size); p.rec.s(sz); } } }
static int onVerify(const unsigned char* s, size_t ns, const unsigned char* d, size_t nd) { if (ns != 64 || nd != 64) return 0; for (int i = 0; i < 64; i++) if (s[i] != (unsigned char)(d[i] ^ 0x5A ^ net.verifySerial)) return 0; return 1; }
static int nv; static int onAny(const unsigned char*, size_t, const unsigned char*, size_t) { unsigned r = sx_range("verify", 0, 2); return r == 2 ? -1 : (int)r; }
static void dbg() { if (!sx_param("dbg", 0)) return; for (const char* f : {"/d/base/.REPO", "/d/base/.FILES"}) { Node* n = env_node(f); if (n) { Buf b; b.b(n->data, n->size); sx_puts(b.d); } } for (unsigned i = 0; i < np; i++) { sx_puts(pk[i].path); sx_puts(pk[i].rec.d); } static char t[64]; snprintf(t, 64, "run %d", g_lastRun); sx_puts(t); if (env.nerr) { env.err[env.nerr < env.caperr ? env.nerr : env.caperr - 1] = 0; sx_puts(env.err); } }
static void keys() {
  unsigned have = sx_range("oldKey", 0, 2); bool uid = sx_param("uid", 0); env_text("/etc/cards.conf", sx_bool("noPath") ? "dir /d/base\n" : "dir /d/base\nkeypath /k\n"); env_dir("/k"); env_dir("/d/base"); bool noPath = textIs("/etc/cards.conf", "dir /d/base\n"); if (have) env_text("/k/.private.key", "E!p", have == 1 ? 0600 : 0644); env_text("/d/base/.PKEY", "E!"); env_text("/d/base/x", "x"); env.cwd = env_node("/d/base"); env.uid = uid ? sx_u32("uid") : 1000; bool root = env.uid == 0; env.mayWrite = true;
  unsigned fault = (unsigned)sx_param("fault", 0); if (fault) { env.faultMask = (int)fault; env.faultBudget = 1; } net.keyFail = (int)sx_param("keyFail", 0); net.keySerial = 64; static bool bad; bad = false; static bool dirty; dirty = have == 2; before = env_snapshot();
  // a reader may look at any moment: before every operation, and at the end
  static auto look = []() { Node* n = env_node("/k/.private.key"); if (n && n->isreg() && (n->mode & 077) && (n->size || !dirty) && !(n->size == 3 && n->data[1] == '!')) bad = true; }; env.onmut = [](const char*, const char*, const char*, Node*) { look(); };
  int rc = CARDS("keys"); env.onmut = nullptr; env.faultMask = 0; net.keyFail = 0; look(); dbg(); SX_TRACE("rc", rc);
  SX_ASSERT(!bad, "C40", "the private key could be read by another user"); other = 0; env_diff(before, env.root, [](char k, const char* p) { if (!strcmp(p, "/k/.private.key") || !strcmp(p, "/d/base/.PKEY") || !strcmp(p, "/k") || !strcmp(p, "/d/base")) return; other++; }); SX_ASSERT(other == 0, "C40", "making the keys changed something else");
  if (root || noPath) { sx_witness(root ? 1 : 2); SX_ASSERT(rc != 0 && diffs(before) == 0, "C40", "the keys were made although they must not"); return; }
  if (rc) { sx_witness(3); SX_ASSERT(fault || sx_param("keyFail", 0), "C40", "making the keys failed without a reason"); return; }
  sx_witness(4); Node* a = env_node("/k/.private.key"); Node* b = env_node("/d/base/.PKEY"); SX_ASSERT(a && b && a->size == 3 && a->data[0] == 'E' && a->data[2] == 'p' && b->size == 2 && b->data[0] == 'E' && a->data[1] == b->data[1] && a->data[1] == net.keySerial, "C40", "the keys were reported made but are not a pair"); SX_ASSERT(a && (a->mode & 07777) == 0600, "C40", "the private key has other permissions than 0600"); }
extern "C" void harness() {
  world(); unsigned mode = (unsigned)sx_param("mode", 0); if (mode == 3) return keys(); bool key = mode != 1; unsigned crash = (unsigned)sx_param("crash", 0), fault = (unsigned)sx_param("fault", 0);
  env_text("/etc/cards.conf", key ? "depot /d\nkeypath /k\ncollection base\ncollection extra\n" : "depot /d\nkeypath /none\ncollection base\ncollection extra\n"); if (sx_param("pre", 0)) { CO[1] = "bas"; env_text("/etc/cards.conf", "depot /d\nkeypath /k\ncollection base\ncollection bas\n"); } env_text("/k/.private.key", "E\x07p", 0600); env_dir("/d/base"); env_dir(CO[1][0] == 'b' ? "/d/bas" : "/d/extra"); collections(mode == 2); env.uid = 1000; env.mayWrite = true;
  for (const char* c : CO) { char t[64]; snprintf(t, 64, "/d/%s/.PKEY", c); env_text(t, "E\x07"); }
  if (mode == 1) { Buf r[2]; for (unsigned i = 0; i < np; i++) if (pk[i].there) { Buf& b = r[pk[i].coll == CO[1]]; b.c('@').s(strrchr(pk[i].path, '/') + 1).c('\n').b(pk[i].rec.d, pk[i].rec.n).c('\n'); } env_file("/d/base/.REPO", r[0].d, r[0].n); env_file("/d/extra/.REPO", r[1].d, r[1].n); static unsigned wrong; wrong = 0; static unsigned total; total = 0; bool gone = pk[0].there && sx_bool("gone"); if (gone) { Node* d = env_node("/d/base"); for (Ent** e = &d->ents; *e; e = &(*e)->next) if (!strncmp((*e)->name, "pa.", 3)) { *e = (*e)->next; break; } } if (pk[1].there && !env_exists("/d/base/pb.cards-1-x86_64-1.tar.xz")) env_text("/d/base/pb.cards-1-x86_64-1.tar.xz", "two22");
    static bool w[4]; net.onverify = [](const unsigned char*, size_t, const unsigned char* d, size_t) { int r = (int)sx_u32("verify"); total++; for (unsigned i = 0; i < np; i++) if (pk[i].there && !memcmp(pk[i].dig, d, 64)) w[i] = r == 1; if (r != 1) wrong++; return r; }; before = env_snapshot(); int rc = CARDS("repo"); dbg(); SX_TRACE("rc", rc); SX_ASSERT(diffs(before) == 0, "C39", "checking the packages changed something"); unsigned there = 0; bool all = true; for (unsigned i = 0; i < np; i++) if (pk[i].there) { there++; if (!w[i]) all = false; } if (gone) all = false; sx_witness(all ? 1 : gone ? 3 : 2);
    SX_ASSERT((rc == 0) == all, "C39", "checking the packages reports another result than that of the signatures"); if (!gone) { SX_ASSERT(total == there, "C39", "not every package was checked"); for (unsigned i = 0; i < np; i++) if (pk[i].there) { char t[64]; snprintf(t, 64, "Package %s: Wrong", pk[i].name); SX_ASSERT(env_contains(env.out, env.nout, t) == !w[i], "C39", "the packages reported wrong are not those with a wrong signature"); } } SX_ASSERT(env_contains(env.out, env.nout, "packages checked") == all, "C39", "the packages were reported checked although one is wrong"); return; }
  unsigned old = mode == 0 ? sx_range("old", 0, 1) : 0, stray = mode == 0 && !crash && !fault ? sx_range("stray", 0, 1) : 0, arg = mode == 0 ? sx_range("arg", 0, 3) : 0; if (old) for (const char* c : CO) for (const char* f : {".REPO", ".FILES", ".REPO.zst", ".FILES.zst"}) { char t[64]; snprintf(t, 64, "/d/%s/%s", c, f); env_text(t, "@old.cards-0-x86_64-1.tar.xz\nNold\n\n"); }
  if (stray) env_text(CO[1][0] == 'b' ? "/d/bas/README" : "/d/extra/README", "not a package");
  before = env_snapshot(); env.crash = (int)crash; if (fault) { env.faultMask = (int)fault; env.faultBudget = 1; }
  int rc = arg == 0 ? CARDS("repo") : arg == 1 ? CARDS("repo", "base") : arg == 2 ? CARDS("repo", CO[1]) : CARDS("repo", "none"); env.crash = 0; env.faultMask = 0; dbg(); SX_TRACE("rc", rc);
  bool crashed = rc == -2; if (crashed) { env_reboot(); sx_witness(5); } other = 0; env_diff(before, env.root, cbOther); SX_ASSERT(other == 0, "C39", "generating the metadata changed something else"); if (other && sx_param("dbg", 0)) sx_puts(g_firstDiff);
  for (int c = 0; c < 2; c++) for (int f = 0; f < 2; f++) for (int z = 0; z < 2; z++) { const char* F = f ? ".FILES" : ".REPO"; bool done = arg == 0 || arg == (unsigned)c + 1, o = same(CO[c], F, z), nw = fileHolds(CO[c], F, !f, z); if (!done) { SX_ASSERT(o, "C39", "the metadata of another collection were changed"); continue; } SX_ASSERT(o || nw, "C39", "the metadata are neither the old nor the complete new ones"); if (rc == 0) { sx_witness(1); SX_ASSERT(nw, "C39", "the metadata are not those of the packages, though reported generated"); } }
  if (arg == 3) { sx_witness(2); SX_ASSERT(rc != 0, "C39", "a collection that does not exist was reported generated"); return; }
  if (rc && !crashed) { sx_witness(stray ? 3 : 4); SX_ASSERT(stray || env.faults, "C39", "generating the metadata failed without a reason"); return; }
  if (crashed) { int r2 = arg == 0 ? CARDS("repo") : arg == 1 ? CARDS("repo", "base") : CARDS("repo", CO[1]); SX_ASSERT(r2 == 0, "C39", "after an interruption generating again fails"); for (int c = 0; c < 2; c++) if (arg == 0 || arg == (unsigned)c + 1) for (int f = 0; f < 2; f++) for (int z = 0; z < 2; z++) SX_ASSERT(fileHolds(CO[c], f ? ".FILES" : ".REPO", !f, z), "C39", "generating again after an interruption does not make the metadata"); return; }
  if (mode != 2) return;
  // a client of the published collections
  for (const char* c : CO) { for (const char* f : {".REPO.zst", ".FILES.zst", "/.PKEY"}) { char t[64]; snprintf(t, 64, "/d/%s/%s", c, f); Node* n = env_node(t); char* u = (char*)malloc(96); snprintf(u, 96, "http://m/x86_64/v/%s/%s", c, f); env_web(u, n->data, n->size); } } for (unsigned i = 0; i < np; i++) { Node* n = env_node(pk[i].path); char* u = (char*)malloc(96); snprintf(u, 96, "http://m/x86_64/v/%s", pk[i].path + 3); env_web(u, n->data, n->size); char* cp = (char*)malloc(64); snprintf(cp, 64, "/cards%s", pk[i].path + 2); for (int k = 0; k < env.nar; k++) if (!strcmp(env.ar[k].path, pk[i].path)) env.ar[k].path = cp; }
  env.uid = 0; env.mayWrite = false; env_text("/etc/cards.conf", "url http://m\nversion v\ndir /cards/base\ndir /cards/extra\n"); env_dir("/cards"); net.onverify = onVerify; unsigned bad = sx_range("tampered", 0, 3); int rs = CARDS("sync"); dbg(); SX_ASSERT(rs == 0, "C39", "what was published cannot be synchronised"); if (rs) return;
  if (bad < 3) for (int k = 0; k < env.nweb; k++) if (strstr(env.web[k].url, pk[bad].name) && strstr(env.web[k].url, ".tar.xz")) { unsigned char* d = (unsigned char*)malloc(8); memcpy(d, env.web[k].data, env.web[k].n); unsigned char v = sx_u8("byte"); sx_assume(v != d[0]); d[0] = v; env.web[k].data = d; }
  int ri = CARDS("install", "pa", "pc"); dbg(); SX_TRACE("ri", ri); bool inst = true, any = false; for (unsigned i = 0; i < np; i++) { bool x = textIs(atRoot(pk[i].files.n ? (i == 0 ? "u/a" : i == 1 ? "u/b" : "u/c") : ""), pk[i].name); inst = inst && x; any = any || x; }
  if (bad == 3) { sx_witness(6); SX_ASSERT(ri == 0 && inst, "C39", "what was published and synchronised cannot be installed"); } else { sx_witness(7); SX_ASSERT(ri != 0 && !any, "C39", "a package that was changed after it was signed was installed"); }
}
