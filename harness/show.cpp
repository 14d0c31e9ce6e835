// What the commands show: the metadata of the collections (mode 0, C34), the installed packages (mode 1, C35), and which collection a package
// that several of them hold is taken from (mode 2, C38).
#include "pkgworld.h"
static char* g_txt; static size_t g_len;
// the output, without colours; runs of blanks made one (squeeze)
static void fetch(bool squeeze) { size_t n = env.nout < env.capout ? env.nout : env.capout ? env.capout - 1 : 0; g_txt = (char*)malloc(n + 1); g_len = 0; for (size_t i = 0; i < n; i++) { char c = env.out[i]; if (c == 27) { while (i < n && env.out[i] != 'm') i++; continue; } if (squeeze && c == ' ' && g_len && g_txt[g_len - 1] == ' ') continue; g_txt[g_len++] = c; } g_txt[g_len] = 0; }
static bool shows(const Buf& b) { if (b.n != g_len) return false; unsigned d = 0; for (size_t i = 0; i < b.n; i++) d |= (unsigned)(unsigned char)(b.d[i] ^ g_txt[i]); return d == 0; }
static bool lineOf(const char* label, const char* val) { const char* p = g_txt; size_t k = strlen(label), l = strlen(val); for (;;) { p = strstr(p, label); if (!p) return false; if ((p == g_txt || p[-1] == '\n') && !strncmp(p + k, val, l) && p[k + l] == '\n') return true; p += k; } }
static char ch(const char* n) { unsigned char c = sx_u8(n); sx_assume(c > 32); sx_assume(c < 127); return (char)c; }
static char printName(const char* n) { char c = nameByte(n); sx_assume(c > 32); sx_assume(c < 127); return c; }
static char lower(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static const char FL[] = "VrcDUPs";
struct Rec { char name[4]; bool has[8]; char v[8]; unsigned kind; const char* coll; bool extra, whole; char file; };
static Rec R[4]; static unsigned n; 
static void f_(Buf& b, const Rec& r, char f) { int k = (int)(strchr(FL, f) - FL); if (r.has[k]) b.c(r.v[k]); }
static void coll(Buf& b, const Rec& r) { if (r.has[2]) b.c(r.v[2]); else b.s(r.coll); }
static void arcName(Buf& b, const Rec& r) { b.s(r.name).s(".cards-1-x86_64-1.tar.xz"); }
static void collections() {
  unsigned cmd = (unsigned)sx_param("cmd", 0); n = (unsigned)sx_param("n", 3); bool full = sx_param("full", 0); unsigned state = cmd == 1 ? sx_range("extra", 0, 2) : sx_range("extra", 0, 3); bool few = sx_param("few", 0), kinds = sx_param("kinds", 0); char one = (char)sx_param("one", 0); /* the only field whose value is arbitrary */
  Buf repo[2], files[2]; 
  for (unsigned i = 0; i < n; i++) { Rec& r = R[i]; char t[16]; snprintf(t, 16, "name%u", i); unsigned char c = one && one != 'N' ? (unsigned char)('x' + i) : sx_u8(t); sx_assume(c > 32); sx_assume(c < 127); sx_assume(c != '/'); if (i == 1 && n > 2) sx_assume((char)c != R[0].name[1]); r.name[0] = 'p'; r.name[1] = (char)c; r.name[2] = 0; r.extra = i == n - 1; r.coll = r.extra ? "extra" : "base"; r.whole = !r.extra || state == 2;
    snprintf(t, 16, "missing%u", i); unsigned m = sx_range(t, 0, full || (few && i != 1) ? 0 : 7); for (int k = 0; FL[k]; k++) { r.has[k] = !(m == (unsigned)k + 1); snprintf(t, 16, "v%u%c", i, FL[k]); if (FL[k] == 'c' && i != 1) r.has[k] = false; if (!r.has[k]) continue; if (one && FL[k] != one) { r.v[k] = (i ? "2jcEVQt" : "1rcDUPs")[k]; continue; } r.v[k] = ch(t); if (FL[k] == 'r') { sx_assume(r.v[k] >= '1'); sx_assume(r.v[k] <= '9'); } }
    if (kinds && i < 2) { snprintf(t, 16, "kind%u", i); r.kind = sx_range(t, 0, 2); }
    Buf& b = repo[r.extra]; b.c('@'); arcName(b, r); b.s("\nN").s(r.name).c('\n'); if (r.kind == 1) b.s("nfr\n"); if (r.kind == 2) b.s("gdevel\n"); for (int k = 0; FL[k]; k++) if (r.has[k]) b.c(FL[k]).c(r.v[k]).c('\n'); if (!(r.extra && state == 3)) b.c('\n');
    snprintf(t, 16, "file%u", i); r.file = one ? 'f' : ch(t); sx_assume(r.file != '@'); Buf& f = files[r.extra]; f.c('@'); arcName(f, r); f.s("\nu/\nu/").c(r.file).c('\n'); if (!(r.extra && state == 3)) f.c('\n'); }
  env_text("/etc/cards.conf", "dir /cards/base\ndir /cards/none\ndir /cards/extra\n"); env_dir("/cards/base"); env_dir("/cards/extra"); env_file("/cards/base/.REPO", repo[0].d, repo[0].n); env_file("/cards/base/.FILES", files[0].d, files[0].n);
  if (state) { env_file("/cards/extra/.REPO", repo[1].d, state == 1 ? 0 : repo[1].n); env_file("/cards/extra/.FILES", files[1].d, state == 1 ? 0 : files[1].n); }
  dbPkg("pq", "Npq\nV1\nr1\nax86_64\nB1600000000\ncbase\n", "u/\nu/q\n"); for (const char* f : {"/.META", "/.POST"}) env_text(f, "x"); Node* before = env_snapshot(); env_out_reset(); Buf want; int rc = -9; char arg[3] = {0, 0, 0}; unsigned al = (unsigned)sx_param("al", 1); bool nameArg = cmd == 4 || cmd == 5; if (nameArg) { arg[0] = 'p'; arg[1] = ch("arg"); } else { arg[0] = ch("arg"); sx_assume(arg[0] != '-'); if (al > 1) arg[1] = ch("arg2"); }
  switch (cmd) { case 0: rc = CARDS("list", "-b"); break; case 1: rc = CARDS("list", "-S"); break; case 2: rc = CARDS("search", arg); break; case 3: rc = CARDS("search", "-n", arg); break; case 4: rc = CARDS("info", "-b", arg); break; case 5: rc = CARDS("files", "-b", arg); break; case 6: env.regexMode = 1; rc = CARDS("query", "-b", "RX"); break; }
  fetch(cmd == 6); if (sx_param("dbg", 0)) { sx_puts(g_txt); if (env.nerr) { env.err[env.nerr] = 0; sx_puts(env.err); } }
  SX_TRACE("rc", rc); SX_ASSERT(rc == 0, "C34", "asking for the packages of the collections failed"); SX_ASSERT(diffs(before) == 0, "C34", "asking for the packages of the collections changed the system"); if (rc) return;
  sx_witness(state ? 2 : 1);
  if (cmd == 0) { for (unsigned i = 0; i < n; i++) if (R[i].whole) { want.c('('); coll(want, R[i]); want.s(") ").s(R[i].name).c(' '); f_(want, R[i], 'V'); want.c('-'); f_(want, R[i], 'r'); want.c('\n'); } SX_ASSERT(shows(want), "C34", "the list is not that of the packages the collections hold"); return; }
  if (cmd == 1) { bool seen[4] = {}; size_t at = 0; bool ok = true; while (at < g_len) { size_t e = at; while (e < g_len && g_txt[e] != '\n') e++; bool hit = false; for (unsigned i = 0; i < n; i++) if (R[i].whole && R[i].has[6] && e - at == 1 && g_txt[at] == R[i].v[6]) { ok &= !(hit == false && seen[i]); hit = true; seen[i] = true; } ok &= hit; at = e + 1; } for (unsigned i = 0; i < n; i++) if (R[i].whole && R[i].has[6]) ok &= seen[i]; SX_ASSERT(ok, "C34", "the list of sets is not that of the collections"); return; }
  if (cmd == 2 || cmd == 3) { unsigned hits = 0; char a[3] = {lower(arg[0]), lower(arg[1]), 0};
    for (unsigned i = 0; i < n; i++) { Rec& r = R[i]; if (!r.whole || (cmd == 2 && r.kind == 1)) continue; Buf hay[6]; hay[0].s(r.name); if (cmd == 2) { coll(hay[1], r); f_(hay[2], r, 'D'); f_(hay[3], r, 'U'); f_(hay[4], r, 'P'); f_(hay[5], r, 'V'); } bool in = false; for (Buf& h : hay) for (size_t k = 0; k < h.n; k++) if (lower(h.d[k]) == a[0] && (!a[1] || (k + 1 < h.n && lower(h.d[k + 1]) == a[1]))) in = true; if (!in) continue; hits++;
      want.c('('); coll(want, r); want.s(") ").s(r.name).c(' '); f_(want, r, 'V'); want.c(' '); f_(want, r, 'D'); want.c('\n'); }
    sx_witness(hits ? 3 : 4); SX_ASSERT(shows(want), "C34", "the packages found are not those that match"); return; }
  if (cmd == 6) { bool any = false; want.s("Collection Package File\n"); for (unsigned i = 0; i < n; i++) { Rec& r = R[i]; if (r.extra && !(state & 2)) continue; for (int k = 0; k < 2; k++) { char t[8] = "/u/"; if (k) { t[3] = r.file; t[4] = 0; } if (!rxMatches("RX", t)) continue; any = true; want.s(r.coll).c(' '); arcName(want, r); want.c(' ').s(t).c('\n'); } } sx_witness(any ? 3 : 4); if (any) SX_ASSERT(shows(want), "C34", "the files found are not those that match"); else SX_ASSERT(strstr(g_txt, "no owner(s) found") && !strstr(g_txt, "/u"), "C34", "a file was found that does not match"); return; }
  int at = -1; for (int i = (int)n - 1; i >= 0; i--) if (((R[i].whole || (cmd == 5 && state == 3))) && R[i].name[1] == arg[1]) at = i; sx_witness(at < 0 ? 5 : R[at].extra ? 6 : 3);
  if (at < 0) { SX_ASSERT(g_len == 0, "C34", "something is shown for a package no collection holds"); return; } Rec& r = R[at];
  if (cmd == 5) { want.s("u/\nu/").c(r.file).c('\n'); SX_ASSERT(shows(want), "C34", "the files shown are not those of the package"); return; }
  Buf b; arcName(b, r); Buf v[7]; for (int k = 0; FL[k]; k++) if (r.has[k]) v[k].c(r.v[k]); Buf c; coll(c, r); SX_ASSERT(lineOf("Name           : ", r.name) && lineOf("Description    : ", v[3].d) && lineOf("Archive name   : ", b.d) && lineOf("Collection     : ", c.d) && lineOf("URL            : ", v[4].d) && lineOf("Version        : ", v[0].d) && (!r.has[1] || lineOf("Release        : ", v[1].d)) && lineOf("Packager       : ", v[5].d) && lineOf("Local folder   : ", r.extra ? "/cards/extra" : "/cards/base"), "C34", "the details are not those of the package");
  if (r.has[6]) SX_ASSERT(lineOf("Sets           : ", v[6].d), "C34", "the details are not those of the package"); else SX_ASSERT(!strstr(g_txt, "Sets  "), "C34", "the details are not those of the package");
}
// ---- installed packages
static const char FI[] = "VrcDULCPSasTRBg";
struct Pkg { char name[3]; bool has[16], autom; char v[16], file, alias; };
static void installed() {
  unsigned cmd = (unsigned)sx_param("cmd", 0), np = 2; Pkg P[3]; memset(P, 0, sizeof P); const char* root = sx_param("root", 0) ? "/mnt" : ""; G_ROOT = root; if (*root) { world(root); dbPkg("host", "Nhost\nV1\nr1\ncbase\n", "u/\nu/hostfile\n"); } bool few = sx_param("few", 0), alias = sx_param("alias", 1); env.dates = true;
  for (unsigned i = 0; i < np; i++) { Pkg& p = P[i]; char t[16]; p.name[0] = 'p'; snprintf(t, 16, "name%u", i); p.name[1] = printName(t); if (i) sx_assume(P[i - 1].name[1] < p.name[1]); unsigned nf = (unsigned)strlen(FI); snprintf(t, 16, "missing%u", i); unsigned m = sx_range(t, 0, few && i ? 0 : nf);
    Buf b; b.s("N").s(p.name).c('\n'); for (unsigned k = 0; k < nf; k++) { p.has[k] = k + 1 != m; if (!p.has[k]) continue; snprintf(t, 16, "v%u%c", i, FI[k]); char f = FI[k]; if (f == 'B') { b.s("B1700000001\n"); continue; } p.v[k] = few && cmd > 6 && (i || f == 'r' || f == 'S') ? '7' : ch(t); if (f == 'r' || f == 'S') { sx_assume(p.v[k] >= '1'); sx_assume(p.v[k] <= '9'); } b.c(f).c(p.v[k]); if (f == 'R') b.s("1600000000"); b.c('\n'); }
    if (alias && i == 0) { p.alias = ch("alias"); b.s("Ap").c(p.alias).c('\n'); } snprintf(t, 16, "auto%u", i); p.autom = few && i && cmd > 6 ? false : sx_bool(t); if (p.autom) b.s("d1\n"); snprintf(t, 16, "file%u", i); p.file = printName(t); Buf f; f.s("u/\nu/").c(p.file).c('\n'); dbPkg(root, p.name, b.d, f.d, f.n); }
  for (const char* f : {"/.META", "/.POST"}) env_text(f, "x"); Node* before = env_snapshot(); env_out_reset(); char arg[3] = {'p', 0, 0}; if (cmd == 3 || cmd == 4 || cmd >= 7) arg[1] = ch("arg"); int rc = -9; Buf want; bool alt = *root; if (cmd == 5 || cmd == 6) env.regexMode = 1;
  switch (cmd) { case 0: rc = alt ? TOOLS("pkginfo", "-r", root, "-i") : TOOLS("pkginfo", "-i"); break; case 1: rc = CARDS("list"); break; case 2: rc = alt ? TOOLS("pkginfo", "-n", "-r", root) : TOOLS("pkginfo", "-n"); break; case 3: rc = alt ? TOOLS("pkginfo", "-l", arg, "-r", root) : TOOLS("pkginfo", "-l", arg); break; case 4: rc = CARDS("files", arg); break; case 5: rc = alt ? TOOLS("pkginfo", "-r", root, "-o", "RX") : TOOLS("pkginfo", "--owner", "RX"); break; case 6: rc = CARDS("query", "RX"); break; case 7: rc = alt ? TOOLS("pkginfo", "-d", arg, "--root", root) : TOOLS("pkginfo", "-d", arg); break; case 8: rc = CARDS("info", arg); break; case 9: rc = alt ? TOOLS("pkginfo", "-r", root, "-b", arg) : TOOLS("pkginfo", "--buildtime", arg); break; }
  fetch(cmd == 5 || cmd == 6); if (sx_param("dbg", 0)) sx_puts(g_txt); SX_TRACE("rc", rc); SX_ASSERT(diffs(before) == 0, "C35", "asking for the installed packages changed the system");
  int at = -1; if (cmd == 3 || cmd == 4 || cmd >= 7) { for (unsigned i = 0; i < np; i++) if (P[i].name[1] == arg[1]) at = (int)i; if (at < 0 && alias && P[0].alias == arg[1]) { at = 0; sx_witness(4); } if (at < 0) { sx_witness(3); if (cmd == 9) { SX_ASSERT(rc == 0 && !strcmp(g_txt, "0\n"), "C35", "a package that is not installed has a build date"); } else SX_ASSERT(g_len == 0 && (cmd >= 7 || rc == 1), "C35", "something is shown for a package that is not installed"); return; } }
  SX_ASSERT(rc == 0, "C35", "asking for the installed packages failed"); if (rc) return; sx_witness(1);
  auto F = [&](Buf& b, const Pkg& p, char f) { int k = (int)(strchr(FI, f) - FI); if (p.has[k]) b.c(p.v[k]); else if (f == 'r') b.c('1'); };
  if (cmd <= 1) { for (unsigned i = 0; i < np; i++) { Pkg& p = P[i]; if (cmd == 1 && p.autom) continue; sx_witness(2); if (cmd == 0) want.s(p.autom ? "AUTO: " : " MAN: "); want.c('('); F(want, p, 'c'); want.s(") ").s(p.name).c(' '); F(want, p, 'V'); want.c('-'); F(want, p, 'r'); want.c('\n'); } SX_ASSERT(shows(want), "C35", "the list is not that of the installed packages"); return; }
  if (cmd == 2) { SX_ASSERT(!strcmp(g_txt, "2\n"), "C35", "the number of installed packages is wrong"); return; }
  if (cmd == 5 || cmd == 6) { bool any = false; want.s("Collection Package File\n"); for (unsigned i = 0; i < np; i++) { Pkg& p = P[i]; for (int k = 0; k < 2; k++) { char t[8] = "/u/"; if (k) { t[3] = p.file; t[4] = 0; } if (!rxMatches("RX", t)) continue; any = true; F(want, p, 'c'); want.c(' ').s(p.name).c(' ').s(t + 1).c('\n'); } } sx_witness(any ? 2 : 3); if (any) SX_ASSERT(shows(want), "C35", "the owners found are not those of the matching files"); else SX_ASSERT(strstr(g_txt, "no owner(s) found") && !strstr(g_txt, "u/"), "C35", "an owner was found for files that do not match"); return; }
  Pkg& p = P[at]; auto has = [&](char f) { return p.has[strchr(FI, f) - FI]; };
  if (cmd == 3 || cmd == 4) { want.s("u/\nu/").c(p.file).c('\n'); SX_ASSERT(shows(want), "C35", "the files shown are not those of the package"); return; }
  if (cmd == 9) { SX_ASSERT(!strcmp(g_txt, has('B') ? "1700000001\n" : "0\n"), "C35", "the build date is not that of the package"); return; }
  auto L = [&](const char* l, char f) { want.s(l); F(want, p, f); want.c('\n'); };
  want.s("Name           : ").s(p.name).c('\n'); L("Description    : ", 'D'); if (alias && at == 0) want.s("Alias          : p").c(p.alias).c('\n'); if (has('T')) L("Categories     : ", 'T'); if (has('s')) L("Sets           : ", 's'); if (has('g')) L("Group          : ", 'g'); L("Collection     : ", 'c'); L("URL            : ", 'U'); L("License        : ", 'L'); L("Contributor(s) : ", 'C'); L("Packager       : ", 'P'); L("Version        : ", 'V'); L("Release        : ", 'r'); want.s(has('B') ? "Build date     : T1700000001\n" : "Build date     : T0\n").s("Installed date : T1000\n").s("Installed Size : "); if (has('S')) F(want, p, 'S'); else want.c('0'); want.s("bytes\n"); L("Arch           : ", 'a'); want.s(p.autom ? "Man. installed : No\n" : "Man. installed : Yes\n"); if (has('R')) { want.s("Dependencies   : "); F(want, p, 'R'); want.s(" \n"); }
  SX_ASSERT(shows(want), "C35", "the details are not those of the installed package");
}
// ---- precedence of the collections
static void precedence() {
  unsigned cmd = (unsigned)sx_param("cmd", 0); bool samec = sx_param("samec", 0), swap = sx_bool("swap"), pbFirst = sx_bool("other"), third = sx_bool("third"); static const char* D[] = {"one", "two", "three"}; char bd[3], old = 0; unsigned first = swap ? 1 : 0; bool inFirst = sx_bool("inFirst"), inSecond = sx_bool("inSecond"); Buf c, repo[3]; sx_assume(inFirst || inSecond || third);
  c.s("dir /cards/").s(D[first]).s("\ndir /cards/").s(D[1 - first]).s("\ndir /cards/three\n"); env_file("/etc/cards.conf", c.d, c.n); env_dir("/u"); bool has[3]; has[first] = inFirst; has[1 - first] = inSecond; has[2] = third; int from = inFirst ? (int)first : inSecond ? (int)(1 - first) : 2;
  for (int i = 0; i < 3; i++) { char p[96]; snprintf(p, 96, "/cards/%s", D[i]); env_dir(p); char t[16]; snprintf(t, 16, "date%d", i); bd[i] = ch(t); sx_assume(bd[i] >= '0'); sx_assume(bd[i] <= '9'); }
  for (int i = 0; i < 3; i++) if (has[i]) { Arc& a = *new Arc; a.meta.s("Npa\nV").c((char)('1' + i)).s("\nr1\nax86_64\nB170000000").c(bd[i]).s("\nc").s(samec ? "all" : D[i]).c('\n'); arcDir(a); a.mtree.s("u/pa\n"); arcAdd(a, "u/pa", S_IFREG | 0644, D[i], strlen(D[i])); char* p = (char*)malloc(96); snprintf(p, 96, "/cards/%s/pa.cards-%d-x86_64-1.tar.xz", D[i], i + 1); arcDone(a, p); repo[i].c('@').s(strstr(p, "pa.")).c('\n').b(a.meta.d, a.meta.n).c('\n'); }
  int h = pbFirst ? (int)first : 2; { Arc& a = *new Arc; a.meta.s("Npb\nV9\nr1\nax86_64\nB1700000000\nRpa170000000").c(bd[from]).s("\nc").s(samec ? "all" : D[h]).c('\n'); arcDir(a); a.mtree.s("u/pb\n"); arcAdd(a, "u/pb", S_IFREG | 0644, "pb", 2); char* p = (char*)malloc(96); snprintf(p, 96, "/cards/%s/pb.cards-9-x86_64-1.tar.xz", D[h]); arcDone(a, p); repo[h].c('@').s("pb.cards-9-x86_64-1.tar.xz\n").b(a.meta.d, a.meta.n).c('\n'); }
  for (int i = 0; i < 3; i++) { char p[96]; snprintf(p, 96, "/cards/%s/.REPO", D[i]); env_file(p, repo[i].d, repo[i].n); }
  bool inst = cmd >= 3; if (inst) { old = ch("old"); sx_assume(old >= '0'); sx_assume(old <= '9'); Buf m; m.s("Npa\nV1\nr1\nax86_64\nB170000000").c(old).s("\ncbase\n"); dbPkg("pa", m.d, "u/\nu/pa\n"); env_text("/u/pa", "old"); }
  bool outdated = inst && (unsigned char)old < (unsigned char)bd[from]; int rc = -9; const char* msg = "a package was not taken from the collection listed first";
  switch (cmd) { case 0: rc = CARDS("install", "pa"); break; case 1: rc = CARDS("install", "pb"); break; case 2: rc = CARDS("info", "-b", "pa"); break; case 3: rc = CARDS("upgrade", "--proceed"); break; case 4: rc = CARDS("upgrade", "--check"); break; case 5: rc = CARDS("install", "pa"); break; }
  fetch(false); if (sx_param("dbg", 0)) { sx_puts(g_txt); if (env.nerr) { env.err[env.nerr] = 0; sx_puts(env.err); } } SX_TRACE("rc", rc); SX_ASSERT(rc == 0, "C38", "the command failed"); if (rc) return; sx_witness(1 + from); if (from != (int)first) sx_witness(4);
  char v[3] = {(char)('1' + from), '\n', 0}; 
  if (cmd == 2) { char p[32]; snprintf(p, 32, "/cards/%s", D[from]); v[1] = 0; SX_ASSERT(lineOf("Version        : ", v) && lineOf("Collection     : ", samec ? "all" : D[from]) && lineOf("Local folder   : ", p), "C38", "the package shown is not that of the collection listed first"); return; }
  if (cmd == 4) { sx_witness(outdated ? 5 : 6); SX_ASSERT(env_contains(g_txt, g_len, outdated ? "yes\n" : "no\n"), "C38", "another collection than the first one decides whether a package is out of date"); return; }
  if (cmd == 3) { sx_witness(outdated ? 5 : 6); SX_ASSERT(textIs("/u/pa", outdated ? D[from] : "old"), "C38", outdated ? msg : "an up to date package was replaced by that of another collection"); return; }
  SX_ASSERT(textIs("/u/pa", D[from]), "C38", msg); if (cmd == 1) SX_ASSERT(textIs("/u/pb", "pb"), "C38", "the package itself was not installed");
}
// ---- sizes: shown in the unit that fits, to two decimals (mode 3)
static bool sizeLine(const char* label, unsigned long v) {
  char a[96]; if (v < 1024) { snprintf(a, 96, "%lubytes", v); return lineOf(label, a); }
  unsigned long u = v < 1ul << 20 ? 1ul << 10 : v < 1ul << 30 ? 1ul << 20 : 1ul << 30; char l = v < 1ul << 20 ? 'K' : v < 1ul << 30 ? 'M' : 'G'; unsigned long q = (v * 100 + u / 2) / u; bool tie = v * 200 % u == 0 && v * 100 % u != 0;
  for (int i = 0; i < (tie ? 2 : 1); i++, q--) { snprintf(a, 96, "%lu.%02lu %cbytes", q / 100, q % 100, l); if (lineOf(label, a)) return true; } return false;
}
static void sizes() {
  static const char* BASE[] = {"", "102", "1024", "153", "104857", "268435", "107374182", "107374189", "429496729", "500000000", "1099511627"}; unsigned cmd = (unsigned)sx_param("cmd", 0), k = sx_range("size", 0, sizeof BASE / sizeof *BASE - 1), which = cmd == 0 ? sx_range("which", 0, 1) : 1; char dg = ch("digit"); sx_assume(dg >= '0'); sx_assume(dg <= '9'); unsigned long v = 0; for (const char* c = BASE[k]; *c; c++) v = v * 10 + (unsigned long)(*c - '0'); v = v * 10 + (unsigned long)(dg - '0');
  Buf m; m.s("Npa\nV1\nr1\nax86_64\nB1700000000\ncbase\n"); m.c(which ? 'S' : 'i').s(BASE[k]).c(dg).s("\n"); m.c(which ? 'i' : 'S').s("7\n");
  if (cmd == 0) { Buf r; r.s("@pa.cards-1-x86_64-1.tar.xz\n").b(m.d, m.n).c('\n'); env_text("/etc/cards.conf", "dir /cards/base\n"); env_dir("/cards/base"); env_file("/cards/base/.REPO", r.d, r.n); } else dbPkg("pa", m.d, "u/\nu/a\n");
  env_out_reset(); int rc = cmd == 0 ? CARDS("info", "-b", "pa") : TOOLS("pkginfo", "-d", "pa"); fetch(true); if (sx_param("dbg", 0)) sx_puts(g_txt); SX_TRACE("rc", rc); sx_witness(v < 1024 ? 1 : v < 1ul << 20 ? 2 : v < 1ul << 30 ? 3 : 4);
  if (cmd == 0) { SX_ASSERT(rc == 0 && sizeLine("Archive Size : ", which ? 7 : v) && sizeLine("Installed Size : ", which ? v : 7), "C34", "the size of a package is shown wrong"); } else SX_ASSERT(rc == 0 && sizeLine("Installed Size : ", v), "C35", "the size of an installed package is shown wrong");
}
extern "C" void harness() { world(); switch (sx_param("mode", 0)) { case 0: collections(); break; case 1: installed(); break; case 2: precedence(); break; case 3: sizes(); break; } }
