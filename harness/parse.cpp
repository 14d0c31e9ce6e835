// Reading metadata: the records of a repository (C19), the database (C17), package archives (C18).
// mode 0: two repository records, fields present or not; 1: arbitrary bytes before a good record; 2: arbitrary bytes in the META of an installed package;
// 3: fields of an installed package; 4: arbitrary bytes in .META and .MTREE of an archive; 5: the .MTREE lines are what is recorded
#include "pkgworld.h"
#include "pkgrepo.h"
#include "pkgdbh.h"
#include "archive.h"
static char any(const char* n) { unsigned char c = sx_u8(n); sx_assume(c != '\n'); sx_assume(c != 0); return (char)c; }
static const char FIELDS[] = "VraDULcCMPHISBilRAsTo";
struct Rec { bool has[24]; char val[24]; };
// vlen: every value is that many characters long, the last one arbitrary; nlen: the same for numbers (digits)
static const char* pre(char f) { static const char P[] = "a b:1.0-c@d/N#x %R_=,", D[] = "98765432109876543"; static char t[32]; unsigned L = (unsigned)(strchr("riS", f) ? sx_param("nlen", 1) : f == 'R' ? sx_param("deplen", 1) : sx_param("vlen", 1)) - 1; if (f == 'R') { memset(t, 'd', L); t[L] = 0; return t; } if (f == 'r' && L > 3) L = 3; const char* q = strchr("riS", f) ? (f == 'r' ? "1234" : D) : P; if (f == 'B') return "170000000"; memcpy(t, q, L); t[L] = 0; return t; }
static void put(Buf& b, char f, const Rec& r) { int k = (int)(strchr(FIELDS, f) - FIELDS); if (!r.has[k]) return; b.c(f).s(pre(f)).c(r.val[k]); if (f == 'R') b.s("1600000000"); b.c('\n'); }
static bool eq(const std::string& s, const Rec& r, char f) { int k = (int)(strchr(FIELDS, f) - FIELDS); const char* q = pre(f); size_t L = strlen(q); return s.size() == L + 1 && !memcmp(s.data(), q, L) && s[L] == r.val[k]; }
static bool str1(const std::string& s, const Rec& r, char f) { int k = (int)(strchr(FIELDS, f) - FIELDS); return r.has[k] ? eq(s, r, f) : s.empty(); }
static unsigned long num(const Rec& r, char f) { int k = (int)(strchr(FIELDS, f) - FIELDS); return r.has[k] ? strtoul(pre(f), nullptr, 10) * 10 + (unsigned long)(r.val[k] - '0') : 0; }
static bool set1(const std::set<std::string>& s, const Rec& r, char f) { int k = (int)(strchr(FIELDS, f) - FIELDS); return r.has[k] ? s.size() == 1 && eq(*s.begin(), r, f) : s.empty(); }
static bool dep1(const std::set<std::pair<std::string, time_t>>& s, const Rec& r) { int k = (int)(strchr(FIELDS, 'R') - FIELDS); if (!r.has[k]) return s.empty(); if (s.size() != 1) return false; const auto& d = *s.begin(); return eq(d.first, r, 'R') && d.second == 1600000000; }
static void symRec(Rec& r, int i, int missing, bool onlyOne) { for (int k = 0; FIELDS[k]; k++) { char t[8]; snprintf(t, 8, "v%d%c", i, FIELDS[k]); r.has[k] = onlyOne ? k == missing : k != missing; if (!r.has[k]) continue; r.val[k] = any(t); if (strchr("rBiS", FIELDS[k])) { sx_assume((unsigned char)r.val[k] >= '0'); sx_assume((unsigned char)r.val[k] <= '9'); } } }
struct MyDb : pkgdbh { MyDb() : pkgdbh("x") {} std::map<std::string, cards::db>& all() { return m_listOfPackages; } void run() override {} void printHelp() const override {} };
static void check(cards::pkgrepo& P, const char* name, Rec& r, const char* file, const char* msg) {
  const auto& L = P.getListOfPackages(); auto it = L.find(name); SX_ASSERT(it != L.end(), "C19", "a package of the repository was not read"); if (it == L.end()) return; cards::cache c(it->second);
  SX_ASSERT(str1(c.version(), r, 'V') && c.release() == num(r, 'r') && str1(c.arch(), r, 'a') && str1(c.description(), r, 'D') && str1(c.url(), r, 'U') && str1(c.license(), r, 'L'), "C19", msg);
  SX_ASSERT(c.build() == (time_t)num(r, 'B') && c.size() == num(r, 'i') && c.space() == num(r, 'S') && str1(c.hash(), r, 'H') && str1(c.signature(), r, 'I') && str1(c.contributors(), r, 'C') && str1(c.maintainer(), r, 'M') && str1(c.packager(), r, 'P'), "C19", msg);
  SX_ASSERT(set1(c.libs(), r, 'l') && set1(c.alias(), r, 'A') && set1(c.sets(), r, 's') && set1(c.categories(), r, 'T') && set1(c.conflicts(), r, 'o') && dep1(c.dependencies(), r), "C19", msg);
  bool col = r.has[6]; SX_ASSERT(col ? str1(c.collection(), r, 'c') : c.collection() == "base", "C19", msg); SX_ASSERT(c.fileName() == file && c.dirName() == "/cards/base", "C19", "the archive of a package is looked for under another name"); SX_ASSERT(c.group().empty() && c.nls().empty(), "C19", msg);
}
// n arbitrary bytes, or (pre) one line that starts with a given character and has up to n more
static void symText(Buf& b, unsigned n, const char* nm, bool nul = false) { if (unsigned p = (unsigned)sx_param("pre", 0)) { unsigned L = sx_range("len", 0, n); b.c((char)p); for (unsigned i = 0; i < L; i++) b.c(sx_param("digits", 0) ? '9' : i == 0 ? any(nm) : i == 1 ? ':' : '1'); return; } for (unsigned i = 0; i < n; i++) { unsigned char c = sx_u8(nm); if (!nul) sx_assume(c != 0); b.c((char)c); } }
extern "C" void harness() {
  world(); unsigned mode = (unsigned)sx_param("mode", 0), k = (unsigned)sx_param("k", 4); bool dbg = sx_param("dbg", 0);
  env_text("/etc/cards.conf", sx_param("dirs", 1) > 1 ? "dir /cards/zz\ndir /cards/base\n" : "dir /cards/base\n"); env_dir("/cards/base"); env_dir("/cards/zz");
  if (mode == 0) {
    Rec r[2]; Buf b; int nf = (int)strlen(FIELDS); unsigned m0 = sx_range("missing0", 0, nf), m1 = sx_param("few", 0) ? sx_range("missing1", 0, nf) : nf; bool one = sx_param("few", 0); symRec(r[0], 0, (int)m0, false); symRec(r[1], 1, (int)m1, one);
    bool rev = sx_param("orders", 0) && sx_bool("reversed"); unsigned gap = sx_param("gaps", 0) ? sx_range("gap", 0, 5) : 0; bool swap = sx_bool("swap");
    for (int q = 0; q < 2; q++) { int i = swap ? 1 - q : q; if (gap == 1) b.c('\n'); if (gap == 2) b.s("x\n"); if (gap == 3) b.s("@other\n\n\n"); if (gap > 3) { for (int f = 0; f < nf; f++) if (!strchr("lsTRo", FIELDS[f])) b.c(FIELDS[f]).s(FIELDS[f] == 'B' ? "1500000000" : "77").c('\n'); b.s("Nyy\nEyy\ngyy\nnyy\n"); if (gap == 5) b.c('\n'); } b.s(i ? "@pb.cards-1.tar\nNpb\n" : "@pa.cards-1.tar\nNpa\n"); for (int f = 0; f < nf; f++) put(b, FIELDS[rev ? nf - 1 - f : f], r[i]); b.c('\n'); }
    if (gap == 2) b.s("@pc.cards-1.tar\nVz\n\n");
    env_file("/cards/base/.REPO", b.d, b.n); if (sx_param("dirs", 1) > 1) env_text("/cards/zz/.REPO", "@zz.cards-9.tar\nNzz\nVzz\nr9\naz\ncz\ngz\nHzz\nIzz\nRzz1700000000\ni7\n\n");
    cards::pkgrepo P("/etc/cards.conf"); check(P, "pa", r[0], "pa.cards-1.tar", "a field of a package was read wrong"); check(P, "pb", r[1], "pb.cards-1.tar", "a field of a package was read wrong"); sx_witness(m0 == (unsigned)nf ? 1 : 2); SX_ASSERT(P.getListOfPackages().size() == 2 + (sx_param("dirs", 1) > 1), "C19", "a package was read that the repository does not hold"); SX_TRACE("n", P.getListOfPackages().size());
  } else if (mode == 1) {
    Rec r; Buf b; int nf = (int)strlen(FIELDS); symRec(r, 0, nf, false); b.s("@pa.cards-1.tar\nNpa\n"); symText(b, k, "byte", sx_param("nul", 0)); b.s(sx_param("tail", 1) ? "\n\n" : "\n"); b.s("@pb.cards-1.tar\nNpb\n"); for (int f = 0; f < nf; f++) put(b, FIELDS[f], r); b.c('\n');
    env_file("/cards/base/.REPO", b.d, b.n); cards::pkgrepo P("/etc/cards.conf"); check(P, "pb", r, "pb.cards-1.tar", "malformed metadata of one package changed another"); sx_witness(3); SX_TRACE("n", P.getListOfPackages().size());
    SX_ASSERT(CARDS("info", "pb") == 0 && CARDS("list") == 0 && CARDS("info", "-b", "pa") == 0, "C19", "malformed metadata of one package made the list fail");
  } else if (mode == 2 || mode == 3) {
    Buf b; Rec r; static const char F2[] = "VraDULcCMPBSRAsT"; char line[64]; memset(&r, 0, sizeof r); b.s("Npp\n");
    if (mode == 2) { symText(b, k, "byte", sx_param("nul", 0)); if (sx_param("tail", 1)) b.c('\n'); }
    else { int nf = (int)strlen(FIELDS); symRec(r, 0, (int)sx_range("missing", 0, nf), false); for (const char* f = F2; *f; f++) { int q = (int)(strchr(FIELDS, *f) - FIELDS); if (!r.has[q]) continue; put(b, *f, r); } if (sx_bool("auto")) { b.s("d1\n"); r.has[23] = true; } if (sx_bool("noNewline")) b.d[--b.n] = 0; }
    env_dir(DB "/pp"); env_file(DB "/pp/META", b.d, b.n); env_text(DB "/pp/files", "u/\nu/p\n"); dbPkg("qq", "Nqq\nV7\nr3\nax86_64\nB1600000000\ncbase\nRpp1700000000\n", "u/\nu/q\n"); (void)line;
    SX_ASSERT(TOOLS("pkginfo", "-i") == 0, "C17", "malformed metadata of one package made the list fail"); SX_ASSERT(env_contains(env.out, env.nout, " MAN: (base) qq 7-3\n"), "C17", "malformed metadata of one package changed another"); 
    if (dbg && env.nout) { env.out[env.nout] = 0; sx_puts(env.out); } SX_ASSERT(TOOLS("pkginfo", "-d", "pp") == 0 && TOOLS("pkginfo", "-b", "pp") == 0, "C17", "malformed metadata of a package made its details fail");
    MyDb d; d.buildDatabase(true); auto L = d.all(); SX_ASSERT(L.size() == 2 && L.count("pp") && L.count("qq"), "C17", "a package disappeared from the list"); if (L.size() != 2) return; cards::db c(L["pp"]); cards::db q(L["qq"]);
    SX_ASSERT(c.files.size() == 2 && c.files.count("u/p") && q.files.size() == 2 && q.files.count("u/q"), "C17", "a file list was read wrong"); SX_ASSERT(q.version() == "7" && q.release() == 3 && q.build() == 1600000000 && q.collection() == "base" && q.dependencies().size() == 1 && !q.dependency(), "C17", "malformed metadata of one package changed another");
    sx_witness(mode == 2 ? 4 : 5); if (mode == 2) { SX_TRACE("rel", c.release()); return; }
    SX_ASSERT(str1(c.version(), r, 'V') && c.release() == (r.has[1] ? num(r, 'r') : 1) && str1(c.arch(), r, 'a') && str1(c.description(), r, 'D') && str1(c.url(), r, 'U') && str1(c.license(), r, 'L') && str1(c.collection(), r, 'c') && str1(c.contributors(), r, 'C') && str1(c.maintainer(), r, 'M') && str1(c.packager(), r, 'P'), "C17", "a field of an installed package was read wrong");
    SX_ASSERT(c.build() == (time_t)num(r, 'B') && c.space() == num(r, 'S') && set1(c.alias(), r, 'A') && set1(c.sets(), r, 's') && set1(c.categories(), r, 'T') && dep1(c.dependencies(), r) && c.dependency() == r.has[23], "C17", "a field of an installed package was read wrong");
  } else if (mode == 6) {
    Arc a; Rec r; memset(&r, 0, sizeof r); int nf = (int)strlen(FIELDS); symRec(r, 0, (int)sx_range("missing", 0, nf), false); bool rev = sx_bool("reversed"), grp = sx_bool("group"), dot = sx_bool("hidden"); static const char FA[] = "VraDULcCMPBRAsT"; int na = (int)strlen(FA);
    if (!rev) a.meta.s("Npp\n"); for (int f = 0; f < na; f++) put(a.meta, FA[rev ? na - 1 - f : f], r); if (grp) a.meta.s("gdevel\nnfr\n"); if (rev) a.meta.s("Npp\n"); char c = nameByte("file"), f[4] = {'u', '/', c, 0}; if (dot) a.mtree.s(".META\n"); a.mtree.s("u/\n"); if (dot) a.mtree.s(".PRE\n"); a.mtree.s(f).c('\n'); if (dot) a.mtree.s(".x/y\n"); a.mtree.s("zz\n"); const char* pk = "/root/pp.cards.tar.xz"; arcDone(a, pk); sx_witness(dot ? 10 : 9);
    archive A(pk); bool hasArch = r.has[2]; (void)hasArch; SX_ASSERT(A.name() == "pp" && str1(A.version(), r, 'V') && (unsigned long)A.release() == num(r, 'r') && str1(A.arch(), r, 'a') && str1(A.description(), r, 'D') && str1(A.url(), r, 'U') && str1(A.license(), r, 'L') && str1(A.collection(), r, 'c') && str1(A.contributors(), r, 'C') && str1(A.maintainer(), r, 'M') && str1(A.packager(), r, 'P'), "C18", "a field of a package archive was read wrong");
    SX_ASSERT(A.build() == (time_t)num(r, 'B') && A.group() == (grp ? "devel" : "") && A.nls() == (grp ? "fr" : "") && set1(A.listofAlias(), r, 'A') && set1(A.listofSets(), r, 's') && set1(A.listofCategories(), r, 'T'), "C18", "a field of a package archive was read wrong");
    auto D = A.listofDependenciesBuildDate(); auto self = std::make_pair(std::string("pp"), (time_t)num(r, 'B')); SX_ASSERT(D.count(self) == 1, "C18", "a package archive does not name itself"); D.erase(self); SX_ASSERT(dep1(D, r), "C18", "the dependencies of a package archive were read wrong");
    auto F = A.setofFiles(); SX_ASSERT(F.size() == 3 && F.count("u/") && F.count(f) && F.count("zz"), "C18", "the file list of a package archive was read wrong");
    SX_ASSERT(TOOLS("pkginfo", "-m", pk) == 0 && env.nout == a.meta.n && !memcmp(env.out, a.meta.d, a.meta.n), "C18", "the metadata shown are not those of the archive"); char l[16]; snprintf(l, 16, "u/\n%s\nzz\n", f); env.nout = 0; SX_ASSERT(TOOLS("pkginfo", "-l", pk) == 0 && env.nout == strlen(l) && !memcmp(env.out, l, env.nout), "C18", "the files shown are not those of the archive");
    { Buf w; auto line = [&](const char* l, const char* v) { w.s("pp : ").s(l).s(v).c('\n'); }; auto fld = [&](const char* l, char fc) { int q = (int)(strchr(FIELDS, fc) - FIELDS); w.s("pp : ").s(l); if (r.has[q]) w.s(pre(fc)).c(r.val[q]); w.c('\n'); };
      fld("Description    : ", 'D'); line("Group          : ", grp ? "devel" : ""); fld("URL            : ", 'U'); fld("License        : ", 'L'); fld("Contributor(s) : ", 'C'); fld("Packager       : ", 'P'); fld("Version        : ", 'V'); w.s("pp : Release        : "); if (r.has[1]) w.s(pre('r')).c(r.val[1]); else w.c('0'); w.c('\n'); fld("Architecture   : ", 'a'); w.s("pp : Build date     : "); int qb = (int)(strchr(FIELDS, 'B') - FIELDS); if (r.has[qb]) w.s(pre('B')).c(r.val[qb]); else w.c('0'); w.c('\n');
      env.nout = 0; SX_ASSERT(TOOLS("pkginfo", "-a", pk) == 0 && env.nout >= w.n && !memcmp(env.out, w.d, w.n), "C18", "the description shown is not that of the archive"); }
  } else {
    env_dir("/u"); Arc a; bool noNl = false; char nm[3][4]; unsigned nFiles = (unsigned)sx_param("nf", 2);
    if (mode == 4) { unsigned w = (unsigned)sx_param("which", 0); if (w == 0) { a.meta.s("Npp\nax86_64\n"); symText(a.meta, k, "byte", sx_param("nul", 0)); a.mtree.s("u/\nu/a\n"); } else { a.meta.s("Npp\nV1\nB1\nax86_64\nr1\n"); symText(a.mtree, k, "byte", sx_param("nul", 0)); } if (sx_param("empty", 0)) { if (sx_bool("noMeta")) a.meta.n = 0; if (sx_bool("noMtree")) a.mtree.n = 0; } arcAdd(a, "u/", S_IFDIR | 0755, "", 0); arcAdd(a, "u/a", S_IFREG | 0644, "x", 1); }
    else { a.meta.s("Npp\nV1\nB1\nax86_64\nr1\n"); arcDir(a); for (unsigned i = 0; i < nFiles; i++) { char t[8]; snprintf(t, 8, "f%u", i); char c = nameByte(t); if (i) sx_assume(nm[i - 1][0] < c); nm[i][0] = c; nm[i][1] = 0; arcFile(a, c, "x"); } noNl = sx_bool("noNewline"); if (noNl) a.mtree.n--; if (sx_bool("metaNoNewline")) a.meta.n--; }
    arcDone(a, "/root/pp.cards.tar.xz"); Node* before = env_snapshot(); env.arShort = (int)sx_param("short", 0);
    int rc = TOOLS("pkgadd", "/root/pp.cards.tar.xz"); SX_TRACE("rc", rc); if (dbg && env.nerr) { env.err[env.nerr] = 0; sx_puts(env.err); }
    if (mode == 5) { sx_witness(6); SX_ASSERT(rc == 0, "C18", "a package without final newlines in its metadata was refused"); if (rc) return; for (unsigned i = 0; i < nFiles; i++) SX_ASSERT(lists("pp", nm[i][0]) && env_exists(up(nm[i][0])), "C18", "a file of the package was not recorded or not installed"); SX_ASSERT(nLines(dbPath("pp", "files")) == nFiles + 1, "C18", "the recorded list is not that of the package"); }
    else { sx_witness(rc ? 7 : 8); SX_ASSERT(rc == 0 || rc == 1, "C18", "the command ended abnormally"); if (rc) { int d = diffs(before); SX_ASSERT(d == 0, "C18", "a package that was refused for its metadata left something behind"); } env.arShort = 0; SX_ASSERT(TOOLS("pkginfo", "-i") == 0, "C18", "the database cannot be read any more"); }
  }
}
