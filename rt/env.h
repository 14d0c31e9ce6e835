// Model operating-system environment: the same source is executed symbolically (IR build) and natively (replay build).
#pragma once
#include "sx.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <stddef.h>
#include <setjmp.h>
struct Node; struct Ent { char* name; Node* n; Ent* next; };
struct Node {
  unsigned mode, uid, gid, ino; unsigned long rdev, dev; int nlink; long mtime; unsigned char* data; size_t size, cap; char* link; Ent* ents; Node* up;
  size_t durable; bool dirty; // durable: bytes guaranteed after power loss when dirty
  long repSize;  // st_size override (>=0), for opaque big files
  bool isdir() const { return (mode & S_IFMT) == S_IFDIR; } bool isreg() const { return (mode & S_IFMT) == S_IFREG; } bool islnk() const { return (mode & S_IFMT) == S_IFLNK; }
};
enum { F_OPENW = 1, F_WRITE = 2, F_FSYNC = 4, F_RENAME = 8, F_LINK = 16, F_UNLINK = 32, F_MKDIR = 64, F_EXTRACT = 128, F_OPENR = 256, F_CLOSE = 512, F_CHDIR = 1024, F_OPENDIR = 2048, F_CHMOD = 4096 };
struct PkgEntry { const char* path; unsigned mode; unsigned uid, gid; const void* data; size_t size; const char* symlink; const char* hardlink; unsigned long rdev; int warn; /* its header is read with a warning */ };
struct PkgArchive { const char* path; PkgEntry* e; int n; int cut; bool mid; /* cut > 0: damaged after cut - 1 entries, mid: within the data of the last of them */ };
struct Mut { const char* op; char* path; char* path2; };
struct Env {
  Node* root; Node* cwd; unsigned uid; unsigned nextIno;
  Mut* log; int nlog, caplog; int nops;
  void (*onmut)(const char* op, const char* path, const char* path2, Node* existing); // called before a mutation happens (path: canonical absolute)
  int faultMask, faultBudget, faults;
  int crash; jmp_buf* crashJmp; int crashed;           // crash: 0 off, 1 process kill, 2 power loss
  jmp_buf* exitJmp; int exitCode, exited;
  int lockConflict;  // 0 never, 1 symbolic
  int exLocks, shLocks, lockTries; int sigIgn[65]; void* sigH[65]; unsigned long sigBlk; 
  int waitMode;      // 0 success, 1 symbolic wait status
  int forkMode;      // 0 parent only, 1 both sides, +2 may fail
  int forks, waits, execs;
  void (*onexec)(const char* file, char* const* argv, int argc);
  void (*onfork)(void); // in the parent, while the child runs
  int regexMode;     // 0 host regex, 1 uninterpreted predicate over (pattern, subject)
  PkgArchive ar[16]; int nar;
  char* out; size_t nout, capout; char* err; size_t nerr, caperr; bool quiet;
  const char* (*popen_)(const char* cmd);
  int (*sig_verify)(const unsigned char* sig, size_t nsig, const unsigned char* data, size_t n, const char* key); 
  // mirror
  struct { const char* url; const unsigned char* data; size_t n; } web[16]; int nweb; int webFault; int webHits;
  long now; 
  int crashLimit, crashFrom;
  int openFds, openStreams;
  int arShort; int lockDenied; int wst[16]; int nwst; int forkFails; bool dates; bool mayWrite; void (*onlock)(void); /* before an attempt to lock: another process may act */ /* a user other than root who owns everything */
};
extern Env env;
void env_init(unsigned uid = 0);
Node* env_node(const char* path, bool follow = false);
bool env_exists(const char* path);
Node* env_dir(const char* path, unsigned mode = 0755);
Node* env_file(const char* path, const void* data, size_t n, unsigned mode = 0644);
Node* env_text(const char* path, const char* text, unsigned mode = 0644);
Node* env_symlink(const char* path, const char* target);
Node* env_special(const char* path, unsigned mode, unsigned long rdev);
void env_archive(const char* path, PkgEntry* e, int n);
void env_web(const char* url, const void* data, size_t n);
Node* env_snapshot();                                     // deep copy of the tree
// compares two trees; cb is called for every path that differs (added '+', removed '-', changed '~')
void env_diff(Node* a, Node* b, void (*cb)(char kind, const char* path));
Node* env_lookup_in(Node* root, const char* path);
bool env_same_data(Node* a, Node* b);
int env_run(void (*f)());                                // runs f; returns 0 normal, 1 exit(), 2 crash, 3 C++ exception
bool env_contains(const char* hay, size_t n, const char* needle);
void env_reboot();                                       // new process: closes every descriptor and lock
bool env_fault(int kind, const char* what);
void env_out_reset();
