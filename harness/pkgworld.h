// Packages, rules and assertions shared by the install / upgrade / removal harnesses.
#pragma once
#include "world.h"
struct NameSet { char c[8]; unsigned n = 0; bool has(char x) const { for (unsigned i = 0; i < n; i++) if (c[i] == x) return true; return false; } void add(char x) { c[n++] = x; } };
// n distinct symbolic one-character names in increasing order
static void symNames(NameSet& s, unsigned n, const char* pre) { for (unsigned i = 0; i < n; i++) { char nm[16]; snprintf(nm, sizeof nm, "%s%u", pre, i); char c = nameByte(nm); if (i) sx_assume((unsigned char)s.c[i - 1] < (unsigned char)c); s.add(c); } }
static const char* G_ROOT = ""; static const char* G_PRE = "u/";
static const char* up(char c) { static char b[8][96]; static int k; k = (k + 1) & 7; snprintf(b[k], 96, "%s/%s%c", G_ROOT, G_PRE, c); return b[k]; }
static const char* atRoot(const char* rel) { static char b[8][96]; static int k; k = (k + 1) & 7; snprintf(b[k], 96, "%s/%s", G_ROOT, rel); return b[k]; }
static void listOf(Buf& b, const NameSet& s) { b.s("u/\n"); if (strcmp(G_PRE, "u/")) b.s(G_PRE).c('\n'); for (unsigned i = 0; i < s.n; i++) b.s(G_PRE).c(s.c[i]).c('\n'); }
static void onDisk(const NameSet& s, const char* data, unsigned mode = 0644) { for (unsigned i = 0; i < s.n; i++) if (!env_exists(up(s.c[i]))) env_text(up(s.c[i]), data, mode); }
static bool textIs(const char* path, const char* t) { Node* n = env_node(path); return n && n->isreg() && n->size == strlen(t) && !memcmp(n->data, t, n->size); }
static const char* dbPath(const char* pkg, const char* f) { static char b[4][96]; static int k; k = (k + 1) & 3; snprintf(b[k], 96, "%s" DB "/%s%s%s", G_ROOT, pkg, *f ? "/" : "", f); return b[k]; }
static bool fileIs(const char* path, const Buf& b) { Node* n = env_node(path); return n && n->isreg() && n->size == b.n && !memcmp(n->data, b.d, b.n); }
// does the files list of package pkg hold the line u/<c> ?
static bool lists(const char* pkg, char c) { Node* n = env_node(dbPath(pkg, "files")); if (!n) return false; const char* d = (const char*)n->data; size_t i = 0, k = strlen(G_PRE); while (i < n->size) { size_t e = i; while (e < n->size && d[e] != '\n') e++; if (e - i == k + 1 && !memcmp(d + i, G_PRE, k) && d[i + k] == c) return true; i = e + 1; } return false; }
static unsigned nLines(const char* path) { Node* n = env_node(path); if (!n) return 0; unsigned k = 0; for (size_t i = 0; i < n->size; i++) k += n->data[i] == '\n'; return k; }
// ---- archives
struct Arc { PkgEntry e[16]; int n = 0; char path[96]; Buf mtree, meta; };
static void arcAdd(Arc& a, const char* path, unsigned mode, const void* data, size_t n) { char* p = (char*)malloc(strlen(path) + 1); strcpy(p, path); PkgEntry& e = a.e[a.n++]; memset(&e, 0, sizeof e); e.path = p; e.mode = mode; e.data = data; e.size = n; }
static void arcDefault(Arc& a, const char* name, const char* version, const char* extra = "") { a.meta.s("N").s(name).s("\nV").s(version).s("\nr1\nax86_64\nB1700000000\n").s(extra); }
static PkgEntry& arcFile(Arc& a, char c, const char* data, unsigned mode = S_IFREG | 0644) { char t[64]; snprintf(t, sizeof t, "%s%c", G_PRE, c); a.mtree.s(t).c('\n'); arcAdd(a, t, mode, data, strlen(data)); return a.e[a.n - 1]; }
static void arcDir1(Arc& a, const char* d) { a.mtree.s(d).c('\n'); arcAdd(a, d, S_IFDIR | 0755, "", 0); }
static void arcDir(Arc& a) { a.mtree.s(".META\n"); arcDir1(a, "u/"); a.mtree.s(".MTREE\n"); if (strcmp(G_PRE, "u/")) arcDir1(a, G_PRE); } // the list of a package may name its metadata files
// writes the archive; the meta files come first, as in real packages
static void arcDone(Arc& a, const char* path) {
  PkgEntry* e = (PkgEntry*)malloc(sizeof(PkgEntry) * (a.n + 2)); memset(e, 0, sizeof(PkgEntry) * 2);
  e[0].path = ".MTREE"; e[0].mode = S_IFREG | 0644; e[0].data = a.mtree.d; e[0].size = a.mtree.n;
  e[1].path = ".META"; e[1].mode = S_IFREG | 0644; e[1].data = a.meta.d; e[1].size = a.meta.n;
  for (int i = 0; i < a.n; i++) e[i + 2] = a.e[i];
  env_archive(path, e, a.n + 2);
}
// ---- rules
struct Rule { bool upgrade, other; bool yes; char pat[4]; };
struct Rules { Rule r[4]; unsigned n = 0; };
// n rules with symbolic event and action; patterns are opaque (any matching behaviour is explored)
static void symRules(Rules& R, unsigned n, int event, bool noise = false) {
  Buf b; b.s("# rules\n"); bool tab = noise && sx_bool("tab"), nl = !noise || sx_bool("lastNewline");
  for (unsigned i = 0; i < n; i++) { Rule& r = R.r[R.n++]; char nm[16]; snprintf(nm, sizeof nm, "ev%u", i); r.other = false; if (event == 3) { unsigned v = sx_range(nm, 0, 2); r.upgrade = v == 1; r.other = v == 2; } else r.upgrade = event == 2 ? sx_bool(nm) : event == 1;
    snprintf(nm, sizeof nm, "yes%u", i); r.yes = sx_bool(nm); snprintf(r.pat, 4, "R%u", i);
    if (noise) b.s("\n# INSTALL R0 NO\n"); if (tab) b.s("  "); b.s(r.other ? "MIME_DB" : r.upgrade ? "UPGRADE" : "INSTALL").s(tab ? "\t \t" : " ").s(r.pat).s(tab ? "\t" : " ").s(r.yes ? "YES" : "NO"); if (i + 1 < n || nl) b.c('\n'); }
  char t[128]; snprintf(t, sizeof t, "%s/var/lib/pkg/pkgadd.conf", G_ROOT); env_file(t, b.d, b.n); env.regexMode = 1; }
extern "C" int m_regexec(const regex_t*, const char*, size_t, regmatch_t*, int);
extern "C" int m_regcomp(regex_t*, const char*, int); extern "C" void m_regfree(regex_t*);
static bool rxMatches(const char* pat, const char* s) { regex_t r; m_regcomp(&r, pat, REG_EXTENDED | REG_NOSUB); int k = m_regexec(&r, s, 0, nullptr, 0); m_regfree(&r); return k == 0; }
// the documented rule semantics: the last matching rule of the event decides, the default is yes
static bool allowed(const Rules& R, bool upgrade, const char* file) { for (unsigned i = R.n; i-- > 0;) if (!R.r[i].other && R.r[i].upgrade == upgrade && rxMatches(R.r[i].pat, file)) return R.r[i].yes; return true; }
static bool allowedName(const Rules& R, bool upgrade, char c) { char t[64]; snprintf(t, 64, "%s%c", G_PRE, c); return allowed(R, upgrade, t); }
static int g_diffs; static char g_firstDiff[128];
static void countDiff(char k, const char* p) { if (!g_diffs) snprintf(g_firstDiff, sizeof g_firstDiff, "%c %s", k, p); g_diffs++; }
static int diffs(Node* before) { g_diffs = 0; env_diff(before, env.root, countDiff); return g_diffs; }
// ---- alternative root: the host system around it, which no command may touch (C14)
static int g_out; static void cbOut(char k, const char* p) { size_t n = strlen(G_ROOT); if (!strncmp(p, G_ROOT, n) && (p[n] == '/' || !p[n])) return; if (!g_out) snprintf(g_firstDiff, sizeof g_firstDiff, "%c %s", k, p); g_out++; }
static int outside(Node* before) { g_out = 0; env_diff(before, env.root, cbOut); return g_out; }
static void hostNames(const NameSet& s) { if (!*G_ROOT) return; for (unsigned i = 0; i < s.n; i++) { char t[64]; snprintf(t, 64, "/%s%c", G_PRE, s.c[i]); if (!env_exists(t)) env_text(t, "host"); } }
static void hostWorld(const char* name = "pp") { if (!*G_ROOT) return; env_dir("/u"); for (const char* f : {"/.META", "/.MTREE", "/.PRE", "/.POST", "/.INFO", "/.PRER", "/.POSTR", "/.README"}) env_text(f, "host"); { char m[48]; snprintf(m, 48, "N%s\nV0\nB1\nax86_64\nr1\nd1\n", name); dbPkg("", name, m, "u/\nu/hh\n", 8); } dbPkg("", "hh", "Nhh\nV0\nB1\nax86_64\nr1\nRpp1700000000\n", "u/\nu/hh\n", 8); env_text("/u/hh", "host"); env_text("/var/lib/pkg/pkgadd.conf", "INSTALL ^u/ NO\nUPGRADE ^u/ NO\n"); }
static void contained(Node* before) { if (*G_ROOT) SX_ASSERT(outside(before) == 0, "C14", "a command with an alternative root changed something outside of it"); }
