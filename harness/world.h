// Shared harness scaffolding: a model root file system with a cards package database.
#pragma once
#include "../rt/env.h"
#include "../rt/env_net.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <regex.h>
#include <string>
#include <vector>
#include <stdexcept>
extern int tools_main(int, char**);
extern int cards_main(int, char**);
#define DB "/var/lib/pkg/DB"
struct Buf { char d[2048]; size_t n = 0; Buf() { d[0] = 0; } Buf& s(const char* x) { size_t k = strlen(x); memcpy(d + n, x, k); n += k; d[n] = 0; return *this; } Buf& c(char x) { d[n++] = x; d[n] = 0; return *this; } Buf& b(const void* p, size_t k) { memcpy(d + n, p, k); n += k; d[n] = 0; return *this; } };
// ---- commands under test
static int g_argc; static char** g_argv; static int g_rc; static int (*g_main)(int, char**);
static int g_lastRun;
static void runMain_() { g_rc = g_main(g_argc, g_argv); }
// returns the exit status of the command, -2 for a crash point, -3 for an escaped exception
static int commandV(int (*m)(int, char**), const char* const* a, int n) {
  char** v = (char**)malloc((n + 1) * sizeof(char*)); for (int i = 0; i < n; i++) { const char* x = a[i]; char* c = (char*)malloc(strlen(x) + 1); strcpy(c, x); v[i] = c; } v[n] = nullptr;
  g_argc = n; g_argv = v; g_main = m; g_rc = -99;
  int k = env_run(runMain_); g_lastRun = k;
  if (k == 0) return g_rc; if (k == 1) return env.exitCode; if (k == 2) return -2; return -3;
}
static int command(int (*m)(int, char**), std::initializer_list<const char*> a) { return commandV(m, a.begin(), (int)a.size()); }
#define TOOLS(...) command(tools_main, {__VA_ARGS__})
#define CARDS(...) command(cards_main, {"cards", __VA_ARGS__})
// ---- building the world
static void world(const char* root = "") { if (!*root) env_init(0); char t[200]; for (const char* d : {"/var/lib/pkg/DB", "/etc", "/tmp", "/usr/bin", "/root"}) { snprintf(t, sizeof t, "%s%s", root, d); env_dir(t); } }
static void dbPkg(const char* root, const char* name, const char* meta, const void* files, size_t nfiles) { char t[200]; snprintf(t, sizeof t, "%s%s/%s", root, DB, name); env_dir(t); snprintf(t, sizeof t, "%s%s/%s/META", root, DB, name); env_text(t, meta); snprintf(t, sizeof t, "%s%s/%s/files", root, DB, name); env_file(t, files, nfiles); }
static void dbPkg(const char* name, const char* meta, const char* files) { dbPkg("", name, meta, files, strlen(files)); }
// a symbolic file-name byte: anything a path component may contain (no newline, slash or NUL; not a dot, which marks meta files)
static char nameByte(const char* n) { unsigned char c = sx_u8(n); sx_assume(c != 0); sx_assume(c != 10); sx_assume(c != '/'); sx_assume(c != '.'); return (char)c; }
static bool existed(Node* snap, const char* p) { return env_lookup_in(snap, p) != nullptr; }
static bool unchanged(Node* snap, const char* p) { Node *a = env_lookup_in(snap, p), *b = env_node(p); if (!a || !b) return a == b; return a->mode == b->mode && a->uid == b->uid && a->gid == b->gid && (!a->isreg() || env_same_data(a, b)) && (!a->islnk() || !strcmp(a->link, b->link)); }
