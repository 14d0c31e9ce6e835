// Needed libraries (C27): what pkginfo finds in ELF files. mode 0: well formed files, mode 1: files with wrong fields, cut off or of another kind.
// cmd: 0 --runtimelibs DIR, 1 -L PKG, 2 -R PKG, 3 --runtimedepfiles DIR
#include "pkgworld.h"
struct Img { unsigned char d[1600]; size_t n = 0; bool c32 = false; size_t eh = 0, ph = 0, dy = 0, st = 0, sh = 0; unsigned np = 0, nd = 0, ns = 0, sl = 0; };
static void put(Img& f, size_t at, unsigned k, uint64_t v) { for (unsigned i = 0; i < k; i++) f.d[at + i] = (unsigned char)(v >> (8 * i)); if (f.n < at + k) f.n = at + k; }
static unsigned W(const Img& f) { return f.c32 ? 4 : 8; }
static size_t phSize(const Img& f) { return f.c32 ? 32 : 56; }
static size_t shSize(const Img& f) { return f.c32 ? 40 : 64; }
static void putDyn(Img& f, unsigned i, uint64_t tag, uint64_t val) { put(f, f.dy + i * 2 * W(f), W(f), tag); put(f, f.dy + i * 2 * W(f) + W(f), W(f), val); }
// np program headers (the dynamic one last), nd entries, sl bytes of strings, ns sections of which section `str` is the first string table; strAt: 0 before, 1 after the section headers
static void layout(Img& f, bool c32, unsigned np, unsigned nd, unsigned sl, unsigned ns, unsigned str, bool strEnd, bool dynamic = true) {
  f = Img(); f.c32 = c32; f.np = np; f.nd = nd; f.ns = ns; f.sl = sl; memset(f.d, 0, sizeof f.d); size_t at = c32 ? 52 : 64; f.ph = at; at += np * phSize(f); f.dy = at; at += nd * 2 * W(f); if (!strEnd) { f.st = at; at += sl; } f.sh = at; at += ns * shSize(f); if (strEnd) { f.st = at; at += sl; } f.n = at;
  f.d[0] = 0x7f; f.d[1] = 'E'; f.d[2] = 'L'; f.d[3] = 'F'; f.d[4] = c32 ? 1 : 2; f.d[5] = 1; f.d[6] = 1; put(f, 16, 2, 3); put(f, 18, 2, c32 ? 3 : 62); put(f, 20, 4, 1); size_t b = 24; put(f, b + W(f), W(f), f.ph); put(f, b + 2 * W(f), W(f), f.sh); size_t e = b + 3 * W(f); f.eh = e; put(f, e + 4, 2, c32 ? 52 : 64); put(f, e + 6, 2, phSize(f)); put(f, e + 8, 2, np); put(f, e + 10, 2, shSize(f)); put(f, e + 12, 2, ns);
  for (unsigned i = 0; i < np; i++) { size_t p = f.ph + i * phSize(f); bool dyn = dynamic && i == np - 1; put(f, p, 4, dyn ? 2 : 1); put(f, p + (c32 ? 4 : 8), W(f), dyn ? f.dy : 0); put(f, p + (c32 ? 16 : 32), W(f), dyn ? nd * 2 * W(f) : f.n); }
  for (unsigned i = 0; i < ns; i++) { size_t s = f.sh + i * shSize(f); unsigned type = i == 0 ? 0 : i == str || i > str + 1 ? 3 : 1; put(f, s + 4, 4, type); put(f, s + (c32 ? 16 : 24), W(f), i == str ? f.st : i == 0 ? 0 : f.n > 4 ? f.n - 4 : 0); put(f, s + (c32 ? 20 : 32), W(f), i == str ? sl : 4); } }
static void put(const Img& f, const char* path) { env_file(path, f.d, f.n, 0755); }
struct Strs { const char* s[16]; unsigned n = 0; void add(const char* x) { size_t k = strlen(x); if (!k || x[k - 1] == '.') return; unsigned i = 0; while (i < n && strcmp(s[i], x) < 0) i++; if (i < n && !strcmp(s[i], x)) return; for (unsigned j = n; j > i; j--) s[j] = s[j - 1]; char* c = (char*)malloc(k + 1); memcpy(c, x, k + 1); s[i] = c; n++; } };
// an ELF file with arbitrary tags and strings; the libraries it names are added to want
static void good(Img& f, Strs& want, const char* id, bool c32, unsigned nd, unsigned sl, bool shape) {
  char t[24]; snprintf(t, 24, "%sphdrs", id); unsigned np = shape ? sx_range(t, 1, 2) : 2; snprintf(t, 24, "%ssections", id); unsigned ns = shape ? sx_range(t, 3, 4) : 3; snprintf(t, 24, "%sfirst", id); unsigned str = shape ? sx_range(t, 1, 2) : 1; sx_assume(str < ns - 1); snprintf(t, 24, "%sstringsLast", id); bool end = shape && sx_bool(t); layout(f, c32, np, nd, sl, ns, str, end); if (shape) { snprintf(t, 24, "%sorder", id); if (np == 2 && sx_bool(t)) { unsigned char x[64]; size_t k = phSize(f); memcpy(x, f.d + f.ph, k); memcpy(f.d + f.ph, f.d + f.ph + k, k); memcpy(f.d + f.ph + k, x, k); } }
  f.d[f.st] = 0; for (unsigned i = 1; i + 1 < sl; i++) { snprintf(t, 24, "%sc%u", id, i); f.d[f.st + i] = sx_u8(t); } f.d[f.st + sl - 1] = 0;
  bool over = false; for (unsigned i = 0; i < nd; i++) { snprintf(t, 24, "%stag%u", id, i); uint64_t tag = sx_u64(t); if (c32) tag &= 0xffffffffu; snprintf(t, 24, "%sval%u", id, i); uint64_t val; bool lib = tag == 1 || tag == 14; if (lib) val = sx_range(t, 0, sl - 1); else { val = sx_u64(t); if (c32) val &= 0xffffffffu; } putDyn(f, i, tag, val); if (tag == 0) over = true; if (lib && !over) want.add((const char*)f.d + f.st + val); } }
static Buf g_want; static void libs(const Strs& s) { for (unsigned i = 0; i < s.n; i++) g_want.s(s.s[i]).c('\n'); }
static bool shown() { if (g_want.n != env.nout) return false; unsigned d = 0; for (size_t i = 0; i < g_want.n; i++) d |= (unsigned)(unsigned char)(g_want.d[i] ^ env.out[i]); return d == 0; }
static void dbg() { if (!sx_param("dbg", 0)) return; if (env.nout < env.capout) { env.out[env.nout] = 0; sx_puts(env.out); } sx_puts("--"); sx_puts(g_want.d); if (env.nerr && env.nerr < env.caperr) { env.err[env.nerr] = 0; sx_puts(env.err); } }
static int scan(unsigned cmd) { env_out_reset(); if (*G_ROOT) return cmd == 0 ? TOOLS("pkginfo", "--root", G_ROOT, "--runtimelibs", "/x") : cmd == 1 ? TOOLS("pkginfo", "-r", G_ROOT, "-L", "pp") : cmd == 2 ? TOOLS("pkginfo", "-r", G_ROOT, "-R", "pp") : TOOLS("pkginfo", "-r", G_ROOT, "--runtimedepfiles", "/x"); return cmd == 0 ? TOOLS("pkginfo", "--runtimelibs", "/x") : cmd == 1 ? TOOLS("pkginfo", "-L", "pp") : cmd == 2 ? TOOLS("pkginfo", "-R", "pp") : TOOLS("pkginfo", "--runtimedepfiles", "/x"); }
extern "C" void harness() {
  unsigned mode = (unsigned)sx_param("mode", 0), cmd = (unsigned)sx_param("cmd", 0), nd = (unsigned)sx_param("nd", 2), sl = (unsigned)sx_param("sl", 4); bool c32 = sx_param("c32", 0), shape = sx_param("shape", 0); world(); if (sx_param("root", 0)) { G_ROOT = "/mnt"; world("/mnt"); } env_dir("/x/sub"); bool dir = cmd == 0 || cmd == 3; char P[3][64]; for (int i = 0; i < 3; i++) snprintf(P[i], 64, dir ? "/x/%s%c" : "%s/x/%c", dir ? "" : G_ROOT, 'a' + i); if (!dir) env_dir(atRoot("x")); if (dir && mode == 0) snprintf(P[1], 64, "/x/sub/b");
  Strs want; Img f, g; Buf pp; pp.s("x/\nx/a\nx/b\nx/c\n");
  if (mode == 0) {
    good(f, want, "f", c32, nd, sl, shape); put(f, P[0]); if (sx_param("two", 0)) { good(g, want, "g", !c32, 1, sl, false); put(g, P[1]); } env_text(P[2], "#!/bin/sh\n\x7f" "ELF and a text that is no ELF file at all, with more than sixty-four bytes", 0755); env_symlink(dir ? "/x/l" : atRoot("x/l"), "a");
  } else {
    // a file with something wrong, before or after a right one
    layout(f, c32, 2, 2, 6, 3, 1, sx_param("end", 0)); memcpy(f.d + f.st, "\0lib\0", 6); putDyn(f, 0, 1, 1); putDyn(f, 1, 0, 0); bool sane = false; unsigned what = (unsigned)sx_param("what", 0);
    static const char G1[] = "goodlib"; layout(g, sx_param("g32", 0), 1, 2, 9, 3, 1, false); memcpy(g.d + g.st + 1, G1, 8); putDyn(g, 0, 1, 1); putDyn(g, 1, 0, 0); bool after = sx_bool("after"); const char *bad = P[after ? 1 : 0], *ok = P[after ? 0 : 1]; put(g, ok); unsigned w = W(f), e = (unsigned)f.eh, p1 = (unsigned)(f.ph + phSize(f)), s1 = (unsigned)(f.sh + shSize(f));
    struct Fld { unsigned at, k; } fl[] = {{4, 1}, {24 + w, w}, {24 + 2 * w, w}, {e + 6, 2}, {e + 8, 2}, {e + 10, 2}, {e + 12, 2}, {p1 + (c32 ? 4 : 8), w}, {p1 + (c32 ? 16 : 32), w}, {s1 + (c32 ? 16 : 24), w}, {p1, 4}, {s1 + 4, 4}, {(unsigned)f.dy, w}, {(unsigned)f.dy + w, w}, {(unsigned)f.dy + 2 * w, w}};
    if (what == 0) { unsigned nf = (unsigned)sx_param("nf", 1); for (unsigned i = 0; i < nf; i++) { char t[16]; snprintf(t, 16, "field%u", i); unsigned k = sx_range(t, 0, 9); snprintf(t, 16, "value%u", i); unsigned v = sx_range(t, 0, 13); uint64_t V[] = {0, 1, 2, 3, 31, 57, 65, f.n - 1, f.n, f.n + 1, 0x7fffffffffffffffull, 0xffffffffull, 0x80000000ull, ~0ull}; put(f, fl[k].at, fl[k].k, V[v]); } }
    else if (what == 1) { unsigned lo = (unsigned)sx_param("lo", 10), hi = (unsigned)sx_param("hi", 14); for (unsigned k = lo; k <= hi; k++) { char t[16]; snprintf(t, 16, "field%u", k); put(f, fl[k].at, fl[k].k, sx_u64(t)); } }
    else if (what == 2) { unsigned n = sx_range("sixteens", 0, (unsigned)f.n / 16) * 16; n += sx_range("bytes", 0, 15); if (n >= f.n) sx_done(); f.n = n; }
    else if (what == 3) { unsigned k = sx_range("kind", 0, 5); if (k == 0) env_special(bad, S_IFIFO | 0644, 0); if (k == 1) env_symlink(bad, "nowhere"); if (k == 2) env_dir(bad); if (k == 3) env_special(bad, S_IFCHR | 0644, 5); if (k == 4) { /* no such file */ } if (k == 5) env_symlink(bad, bad); }
    else { layout(f, c32, 1, 2, 6, 2, 1, false, sx_bool("dynamic")); memcpy(f.d + f.st, "\0lib\0", 6); putDyn(f, 0, 1, 1); putDyn(f, 1, 1, 1); sane = true; } // the only string table is that of the section names: not a dynamic file
    if (what != 3) put(f, bad); want.add(G1); (void)sane; }
  if (sx_param("root", 0)) dbPkg("", "pp", "Npp\nV1\nr1\nax86_64\nB5\ncbase\n", "x/\nx/zzz\n", 9); /* that of the other root does not matter */
  char t[64]; dbPkg(G_ROOT, "pp", "Npp\nV1\nr1\nax86_64\nB1600000000\ncbase\n", pp.d, pp.n); Buf o[2]; static const char* ON[] = {"aa", "qq"}; bool owns[2][16] = {}; if (cmd > 1) { Buf r; for (int k = 0; k < 2; k++) { o[k].s("u/\nu/lib/\n"); for (unsigned i = 0; i < want.n; i++) { snprintf(t, 64, "owner%d%u", k, i); if (!strchr(want.s[i], '\n') && !strchr(want.s[i], '/') && sx_bool(t)) { owns[k][i] = true; o[k].s("u/lib/").s(want.s[i]).c('\n'); } } o[k].s("u/p").c((char)('0' + k)).c('\n'); snprintf(t, 64, "N%s\nV1\nr1\nax86_64\nB160000000%d\ncbase\n", ON[k], k); dbPkg(G_ROOT, ON[k], t, o[k].d, o[k].n); } }
  Node* before = env_snapshot(); int rc = scan(cmd); SX_TRACE("rc", rc); SX_ASSERT(rc == 0, "C27", "looking for libraries failed"); SX_ASSERT(diffs(before) == 0, "C27", "looking for libraries changed something"); SX_ASSERT(env.openStreams == 0, "C27", "a file was left open after looking for libraries in it"); sx_witness(want.n ? 2 : 1);
  if (cmd < 2) { if (cmd == 1) g_want.s("Librairies\n"); Buf tail; libs(want); if (cmd == 0) g_want.c('\n'); dbg(); if (mode == 0) { SX_ASSERT(shown(), "C27", "the libraries shown are not those the files name"); return; }
    // whatever the wrong file holds, the library of the right one is shown
    env.out[env.nout < env.capout ? env.nout : env.capout - 1] = 0; const char* q = strstr(env.out, "goodlib\n"); SX_ASSERT(q && (q == env.out || q[-1] == '\n'), "C27", "a damaged file hides the libraries of the other ones"); if ((unsigned)sx_param("what", 0) >= 2 && !sx_param("end", 0)) SX_ASSERT(shown(), "C27", "a library was shown that no file names"); return; }
  if (cmd == 2) g_want.s("Librairies\n"); bool any = false; for (int k = 0; k < 2; k++) { bool has = false; for (unsigned i = 0; i < want.n; i++) has |= owns[k][i]; if (!has) continue; if (any && cmd == 2) g_want.c(','); g_want.s(ON[k]); if (cmd == 3) g_want.s(k ? "1600000001\n" : "1600000000\n"); any = true; } if (any) { g_want.c('\n'); sx_witness(3); } dbg();
  // a library whose name is the beginning of another one's is left out (see DESIGN.md)
  for (unsigned i = 0; i < want.n; i++) for (unsigned j = 0; j < want.n; j++) if (i != j && !strncmp(want.s[i], want.s[j], strlen(want.s[i]))) sx_done(); for (unsigned i = 0; i < want.n; i++) if (strchr("abcxplu", want.s[i][0])) sx_done(); SX_ASSERT(shown(), "C27", "the packages shown are not those that own a needed library"); }
