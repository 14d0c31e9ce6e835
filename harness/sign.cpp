// Packages of a remote collection are verified before they are installed (C15); signature texts are decoded exactly (C16).
// cmd: 0 install the package, 1 install both names, 2 upgrade --proceed; package 0 needs package 1; with groups=1, package 2 is the sub package of 0
#include "pkgworld.h"
static unsigned n; struct Ver { unsigned char d[64], s[16]; size_t nd, ns; int r; }; static Ver ver[12]; static int nver; static bool allOk = true;
static const char* nm(unsigned i) { static const char* s[] = {"aa", "bb", "aa.devel"}; return s[i]; }
static const char* fileOf(unsigned i) { static const char* s[] = {"u/fa", "u/fb", "u/fd"}; return s[i]; }
static const char* pkOf(unsigned i) { static char b[4][96]; static int k; k = (k + 1) & 3; snprintf(b[k], 96, "/cards/base/%s.cards-2-x86_64-1.tar.xz", nm(i)); return b[k]; }
static unsigned char sigB[3][8]; static size_t sigN[3]; static bool sigOk[3]; static char sigT[3][8];
static void digestOf(const void* p, size_t k, unsigned char* o) { memset(o, 0, 64); for (size_t i = 0; i < k; i++) o[i % 62] += ((const unsigned char*)p)[i]; o[62] = k & 255; o[63] = (unsigned char)(k >> 8); }
static int onVerify(const unsigned char* s, size_t ns, const unsigned char* d, size_t nd) {
  Ver& v = ver[nver++]; if (nver > 11) { SX_FAIL("C15", "too many verifications"); sx_done(); } v.nd = nd; v.ns = ns; memset(v.s, 0, 16); if (nd <= 64) memcpy(v.d, d, nd); if (ns && ns <= 16) memcpy(v.s, s, ns); v.r = (int)sx_u32("verify-result"); if (v.r != 1) allOk = false; return v.r; }
static const char* base_(const char* p) { return strrchr(p, 47) + 1; }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int nOrder; static void onMut(const char*, const char* path, const char*, Node*) { if (!strncmp(path, "/u/", 3) && path[3]) nOrder++; }
extern "C" void harness() {
  world(); env_dir("/u"); unsigned cmd = (unsigned)sx_param("cmd", 0); bool groups = sx_param("groups", 0), dbg = sx_param("dbg", 0); unsigned symSig = (unsigned)sx_param("sig", 0); n = groups ? 3 : 2; bool dep = sx_param("dep", 1), othC = sx_param("othc", 0);
  unsigned cfgs = (unsigned)sx_param("cfgs", 0), cfg = cfgs == 1 ? sx_range("config", 0, 2) : cfgs ? 1 : 0;
  Buf c; if (cfg != 1) c.s("url http://m\n"); c.s(cfg ? "dir /cards/base|http://m\n" : "dir /cards/base\n").s("version v\n"); if (othC) { c.s("dir /cards/zz\n"); env_dir("/cards/zz"); env_text("/cards/zz/.REPO", ""); } if (groups) c.s("group devel\n"); env_text("/etc/cards.conf", c.d); env_dir("/cards/base");
  unsigned key = sx_param("keys", 0) ? sx_range("key", 0, 3) : 0; if (key != 1) env_text("/cards/base/.PKEY", key == 0 ? "E" : key == 2 ? "R" : "");
  static char* web[3]; unsigned big = (unsigned)sx_param("big", 0); unsigned cached[3] = {}, hash[3] = {}; Buf repo;
  for (unsigned i = 0; i < n; i++) { char t[16]; web[i] = (char*)malloc(big + 16); snprintf(web[i], 16, "new %u", i); if (big) { memset(web[i] + 5, 'x', big); web[i][big] = 0; } char* oth = (char*)malloc(big + 16); strcpy(oth, big ? web[i] : "other"); if (big) oth[big - 1] = 'y'; Arc& a = *new Arc; a.meta.s("N").s(nm(i)).s("\nV2\nr1\nax86_64\nB1700000005\nc").s(othC ? "zz\n" : "base\n"); if (i == 0 && dep) a.meta.s("Rbb1700000005\n"); if (i == 2) a.meta.s("gdevel\n");
    arcDir(a); a.mtree.s(fileOf(i)).c('\n'); arcAdd(a, fileOf(i), S_IFREG | 0644, "pkg", 3); char* p = (char*)malloc(96); strcpy(p, pkOf(i)); arcDone(a, p);
    snprintf(t, 16, "cached%u", i); cached[i] = sx_param("caches", 1) ? sx_range(t, 0, 2) : 1; if (cached[i] == 1) env_text(p, web[i]); else if (cached[i] == 2) env_text(p, oth);
    if (!cached[i]) { Node* d = env_node("/cards/base"); const char* base = strrchr(p, '/') + 1; for (Ent** e = &d->ents; *e; e = &(*e)->next) if (!strcmp((*e)->name, base)) { *e = (*e)->next; break; } }
    char* u = (char*)malloc(96); snprintf(u, 96, "http://m/x86_64/v/base/%s", base_(p)); env_web(u, web[i], strlen(web[i]));
    snprintf(t, 16, "hash%u", i); hash[i] = sx_param("hashes", 0) ? sx_range(t, 0, 2) : 0; unsigned char dg[64]; digestOf(hash[i] == 2 ? "???" : web[i], hash[i] == 2 ? 3 : strlen(web[i]), dg);
    repo.c('@').s(base_(p)).c('\n').b(a.meta.d, a.meta.n).c('H'); for (int k = 0; k < 64; k++) { char h[4]; snprintf(h, 4, hash[i] == 1 ? "%02X" : "%02x", dg[k]); repo.s(h); } repo.c('\n');
    if (symSig && i == 0) { snprintf(t, 16, "siglen"); size_t L = symSig > 1 ? sx_range(t, 0, symSig) : 1; for (size_t k = 0; k < L; k++) { unsigned char b = sx_u8("sig"); sx_assume(b != 0); sx_assume(b != '\n'); sigT[i][k] = (char)b; } sigT[i][L] = 0; sigOk[i] = L % 2 == 0; for (size_t k = 0; k < L; k++) if (hexv(sigT[i][k]) < 0) sigOk[i] = false; if (sigOk[i]) { sigN[i] = L / 2; for (size_t k = 0; k < L / 2; k++) sigB[i][k] = (unsigned char)(hexv(sigT[i][2 * k]) * 16 + hexv(sigT[i][2 * k + 1])); } if (L || !sx_bool("noSignature")) repo.c('I').b(sigT[i], L).c('\n'); }
    else { snprintf(sigT[i], 8, "f%uB%u0a", i, i); for (int k = 0; k < 3; k++) sigB[i][k] = (unsigned char)(hexv(sigT[i][2 * k]) * 16 + hexv(sigT[i][2 * k + 1])); sigN[i] = 3; sigOk[i] = true; repo.c('I').s(sigT[i]).c('\n'); }
    repo.c('\n'); }
  env_file("/cards/base/.REPO", repo.d, repo.n); if (cmd == 2) { size_t fl = 3; Buf zr, zf; zr.s("ZST1").b(&repo.n, 8).b(repo.d, repo.n); zf.s("ZST1").b(&fl, 8).s("@x\n"); char* r = (char*)malloc(zr.n + zf.n); memcpy(r, zr.d, zr.n); memcpy(r + zr.n, zf.d, zf.n); env_web("http://m/x86_64/v/base/.REPO.zst", r, zr.n); env_web("http://m/x86_64/v/base/.FILES.zst", r + zr.n, zf.n); if (key != 1) env_web("http://m/x86_64/v/base//.PKEY", key == 0 ? "E" : "R", 1); dbPkg("aa", "Naa\nV1\nr1\nax86_64\nB1600000000\n", "u/\nu/old\n"); env_text("/u/old", "old"); dbPkg("bb", "Nbb\nV1\nr1\nax86_64\nB1600000000\n", "u/\n"); }
  net.onverify = onVerify; net.fail = (int)sx_param("fail", 0); env.webFault = (int)sx_param("web", 0); Node* before = env_snapshot(); env.onmut = onMut;
  int rc = cmd == 0 ? CARDS("install", "aa") : cmd == 1 ? CARDS("install", "aa", "bb") : CARDS("upgrade", "--proceed"); env.onmut = nullptr; SX_TRACE("rc", rc); SX_TRACE("nver", nver);
  if (dbg) { static char t[99]; snprintf(t, 99, "rc %d run %d ver %d fetches %d", rc, g_lastRun, nver, net.fetches); sx_puts(t); if (env.nerr) { env.err[env.nerr < env.caperr ? env.nerr : env.caperr - 1] = 0; sx_puts(env.err); } }
  bool bad = false, anyInst = false, allFresh = true;
  for (unsigned i = 0; i < n; i++) { bool inst = cmd == 2 && i < 2 ? !unchanged(before, dbPath(nm(i), "META")) : env_exists(dbPath(nm(i), "META")); inst = inst || env_exists(atRoot(fileOf(i))); if (!inst) continue; anyInst = true;
    Node* f = env_node(pkOf(i)); unsigned char dg[64]; if (cmd == 2) digestOf(web[i], strlen(web[i]), dg); else { SX_ASSERT(f != nullptr, "C15", "a package was installed without its archive"); if (!f) return; digestOf(f->data, f->size, dg); } bool ok = false; SX_ASSERT(sigOk[i], "C16", "a package with a malformed signature was installed"); if (!sigOk[i]) continue;
    for (int k = 0; k < nver; k++) { if (ver[k].r != 1 || ver[k].nd != 64 || memcmp(ver[k].d, dg, 64)) continue; SX_ASSERT(ver[k].ns == sigN[i] || i != 0 || !symSig, "C16", "a signature was decoded to another length"); if (ver[k].ns == sigN[i] && !memcmp(ver[k].s, sigB[i], sigN[i])) ok = true; }
    sx_witness(2); if (i == 2) sx_witness(6); SX_ASSERT(ok, "C15", "a package was installed although its archive was not verified against its signature"); SX_ASSERT(ok || !symSig, "C16", "the bytes given to the verification are not those of the signature text"); }
  for (unsigned i = 0; i < n; i++) if (!sigOk[i] && (i != 1 || dep)) { bad = true; sx_witness(8); }
  if (!allOk) { sx_witness(1); bad = true; } if (key) { sx_witness(5); bad = true; }
  if (net.fetches) sx_witness(3);
  if (bad) { SX_ASSERT(rc != 0, bad && !allOk ? "C15" : symSig ? "C16" : "C15", "the command succeeded although a signature is wrong"); SX_ASSERT(!anyInst && nOrder == 0, "C15", "something was installed although a package of the request has a wrong signature"); return; }
  if (net.fail || env.webFault) { if (rc) { SX_ASSERT(!anyInst, "C15", "a failed command installed a package it could not verify"); return; } }
  SX_ASSERT(rc == 0 && anyInst, "C15", "packages with good signatures were not installed"); SX_ASSERT(rc == 0, "C16", "a package with a good signature was refused");
  for (unsigned i = 0; i < n; i++) { Node* f = env_node(pkOf(i)); if (i == 1 && !dep && cmd == 0) continue; SX_ASSERT(f || cmd == 2, "C15", "a package was not downloaded"); if (cmd == 2) continue;
    bool right = f && f->size == strlen(web[i]) && !memcmp(f->data, web[i], f->size); if (cached[i] == 2) sx_witness(4); SX_ASSERT(right, "C15", "an archive that does not match the repository was not fetched again"); }
}
