// cards.conf as "cards config" shows it (C24). mode 0: lines of symbolic kinds and values; mode 1: arbitrary bytes between good lines
#include "world.h"
struct Dir { Buf depot, coll, url; };
static Dir dirs[8]; static int nd; static Buf depot, url, logdir, version, groups[8]; static int ng;
static char* g_txt; static const char* g_at;
static void next(const Buf& b, const char* msg) { const char* p = strstr(g_at, b.d); SX_ASSERT(p != nullptr, "C24", msg); if (p) g_at = p; }
extern "C" void harness() {
  world(); unsigned n = (unsigned)sx_param("n", 3), mode = (unsigned)sx_param("mode", 0), k = (unsigned)sx_param("k", 2); bool vfile = sx_param("vfile", 0), dbg = sx_param("dbg", 0); Buf c;
  c.s("## comment dir /x/y\n\n");
  if (mode == 1) { c.s("dir /c/aa\n"); char* p = c.d + c.n; sx_sym_bytes(p, k, "junk"); bool nul = sx_param("nul", 0); if (!nul) for (unsigned i = 0; i < k; i++) sx_assume(p[i] != 0); c.n += k; unsigned pad = (unsigned)sx_param("pad", 0); static char big[20000]; memset(big, 'x', pad); c.b(big, pad > 1500 ? 1500 : pad); if (sx_param("tail", 1)) c.s("\ndir /c/bb | http://m\ngroup g1\n"); nd = 0; }
  else for (unsigned i = 0; i < n; i++) { char t[16]; snprintf(t, 16, "kind%u", i); unsigned kd = sx_range(t, 0, (unsigned)sx_param("kinds", 8)); snprintf(t, 16, "sep%u", i); char sep = sx_bool(t) ? '\t' : ' '; bool wide = sx_param("wide", 0) && sx_bool("wide"), com = sx_param("com", 0) && sx_bool("comment"); snprintf(t, 16, "val%u", i); char v = nameByte(t); sx_assume(v > 32); sx_assume(v < 127); sx_assume(v != '#'); sx_assume(v != '|'); Buf val; 
    static const char* keys[] = {"dir", "dir", "collection", "depot", "url", "group", "logdir", "version", "dirs", "locale", "name", "# dir", "arch"}; c.s(keys[kd]).c(sep); if (wide) c.s(" \t");
    switch (kd) {
      case 0: case 1: { Dir& d = dirs[nd++]; d.depot.s("/d/").c(v); d.coll.s("cc").c(v); c.b(d.depot.d, d.depot.n).c('/').b(d.coll.d, d.coll.n); if (kd == 1) { d.url.s("http://").c(v); if (sx_param("tight", 0)) d.url.s("|x");  if (!wide || sep == ' ') c.c(' '); c.c('|').c(' ').b(d.url.d, d.url.n); } break; }
      case 2: { val.s("x").c(v); c.b(val.d, val.n); bool have = false; for (int j = 0; j < nd; j++) if (!strcmp(dirs[j].coll.d, val.d)) have = true; if (!have) dirs[nd++].coll.b(val.d, val.n); break; }
      case 3: case 4: case 7: { Buf& b = kd == 3 ? depot : kd == 4 ? url : version; val.s(kd == 4 ? "http://u" : kd == 3 ? "/e" : "").c(v).c('s'); c.b(val.d, val.n); if (!b.n) b.b(val.d, val.n); break; }
      case 5: case 9: val.c('m').c(v); c.b(val.d, val.n); groups[ng++].b(val.d, val.n); break;
      case 6: val.s("/l").c(v); c.b(val.d, val.n); logdir = val; break;
      default: val.s("/z/").c(v).s("/no"); c.b(val.d, val.n); }
    if (wide) c.s(" \t "); if (com) c.s(sx_param("tight", 0) ? "#dir /q/r" : " # dir /q/r"); if (i + 1 < n || sx_bool("lastNewline")) c.c('\n'); }
  env_file("/etc/cards.conf", c.d, c.n); if (vfile) { env_text("/var/lib/pkg/nutyx-version", "name NuTyX\nversion 24.0\n"); if (!version.n) version.s("24.0"); }
  if (mode == 1) { unsigned long long big = sx_param("pad", 0); if (big > 1500) { char* q = (char*)malloc(big + c.n); const char* nl = strstr(c.d, "\ndir /c/bb"); size_t a = nl ? (size_t)(nl - c.d) : c.n; memcpy(q, c.d, a); memset(q + a, 'x', big - 1500); memcpy(q + a + big - 1500, c.d + a, c.n - a); env_file("/etc/cards.conf", q, c.n + big - 1500); } }
  Node* before = env_snapshot(); int rc = CARDS("config"); SX_TRACE("rc", rc); env_diff(before, env.root, [](char, const char*) { SX_FAIL("C24", "showing the configuration changed the system"); });
  if (!env.out) { SX_FAIL("C24", "nothing is shown"); return; } g_txt = env.out; g_txt[env.nout < env.capout ? env.nout : env.capout - 1] = 0; g_at = g_txt; if (dbg) { sx_puts(c.d); sx_puts(g_txt); }
  SX_ASSERT(rc == 0, "C24", "showing the configuration failed");
  if (mode == 1) { sx_witness(1); Buf b; b.s("1 Directory: /c/aa"); next(b, "a collection before an odd line is lost"); if (sx_param("tail", 1)) { Buf a; a.s(" Directory: /c/bb from http://m/"); next(a, "a collection after an odd line is lost"); Buf g; g.s("Group    : g1\n"); next(g, "a group after an odd line is lost"); } return; }
  for (int i = 0; i < nd; i++) { Dir& d = dirs[i]; Buf b; char t[8]; snprintf(t, 8, "%d", i + 1); b.s(t).s(" Directory: "); if (d.depot.n) b.s(d.depot.d); else { b.s(depot.d); sx_witness(2); } b.c('/').s(d.coll.d); if (d.url.n || url.n) { sx_witness(d.url.n ? 3 : 4); b.s(" from ").s(d.url.n ? d.url.d : url.d).s("/x86_64/").s(version.d).c('/').s(d.coll.d); } b.c('\n'); next(b, "a collection is not shown in its place with its directory and server"); }
  { char t[24]; snprintf(t, 24, "%d Directory: ", nd + 1); SX_ASSERT(!strstr(g_txt, t), "C24", "more collections are shown than configured"); }
  g_at = g_txt; for (int i = 0; i < ng; i++) { sx_witness(5); Buf b; b.s("Group    : ").s(groups[i].d).c('\n'); next(b, "a configured group is not shown"); g_at += b.n - 1; } SX_ASSERT(!strstr(g_at, "Group    : "), "C24", "more groups are shown than configured");
  if (logdir.n) { sx_witness(6); Buf b; b.s("log directory: ").s(logdir.d).c('\n'); g_at = g_txt; next(b, "the log directory is wrong"); }
}
