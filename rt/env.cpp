#include "env.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <fcntl.h>
#include <dirent.h>
#include <unistd.h>
#include <regex.h>
#include <signal.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/statvfs.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <time.h>
#include <utime.h>
#include <pwd.h>
#include <grp.h>
#include <archive.h>
#include <archive_entry.h>
#include <limits.h>
Env env;
static char* dup_(const char* s) { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
static Node* mk(unsigned mode) { Node* n = (Node*)malloc(sizeof(Node)); memset(n, 0, sizeof *n); n->mode = mode; n->ino = ++env.nextIno; n->nlink = 1; n->mtime = 1000; n->repSize = -1; n->dev = 5; return n; }
// ------------------------------------------------------------------ descriptors
struct Fd { Node* n; size_t off; int flags; int lock; bool used; int pipe; };
static Fd fds[64];
struct FileObj { int fd; bool eof, err; int unget; bool console; const char* mem; size_t mpos, mlen; char* wb; size_t wn; };
static FileObj fo1 = {1, false, false, -1, true, 0, 0, 0, 0, 0}, fo2 = {2, false, false, -1, true, 0, 0, 0, 0, 0}, fo0 = {0, false, false, -1, true, 0, 0, 0, 0, 0};
enum { WBUF = 4096 };
static FileObj* openF[64];
static FileObj* newFile(int fd) { FileObj* f = (FileObj*)malloc(sizeof(FileObj)); memset(f, 0, sizeof *f); f->fd = fd; f->unget = -1; env.openStreams++; for (int i = 0; i < 64; i++) if (!openF[i]) { openF[i] = f; break; } return f; }
static void dropFile(FileObj* f) { for (int i = 0; i < 64; i++) if (openF[i] == f) openF[i] = nullptr; free(f->wb); free(f); env.openStreams--; }
extern "C" ssize_t m_write(int fd, const void* b, size_t n);
static bool flushFile(FileObj* f) { size_t o = 0; while (o < f->wn) { ssize_t k = m_write(f->fd, f->wb + o, f->wn - o); if (k <= 0) { f->wn = 0; f->err = true; return false; } o += k; } f->wn = 0; return true; }
extern "C" { FILE* m_stdout = (FILE*)&fo1; FILE* m_stderr = (FILE*)&fo2; FILE* m_stdin = (FILE*)&fo0; }
static int newFd(Node* n, int flags) { for (int i = 3; i < 64; i++) if (!fds[i].used) { fds[i] = {n, 0, flags, 0, true, 0}; env.openFds++; return i; } errno = EMFILE; return -1; }
static void unlockFd(Fd& f) { if (f.lock == 2) env.exLocks--; else if (f.lock == 1) env.shLocks--; f.lock = 0; }
void env_reboot() { for (int i = 3; i < 64; i++) if (fds[i].used) { unlockFd(fds[i]); fds[i].used = false; } env.openFds = 0; for (int i = 0; i < 64; i++) openF[i] = nullptr; env.cwd = env.root; env.exLocks = env.shLocks = 0; for (int i = 0; i < 65; i++) env.sigIgn[i] = 0; }
static void grow(char*& b, size_t n, size_t& cap, size_t need) { if (n + need + 1 > cap) { size_t c = (n + need + 1) * 2 + 256; char* p = (char*)malloc(c); if (n) memcpy(p, b, n); free(b); b = p; cap = c; } }
extern "C" void sx_console_write(int fd, const char* p, unsigned long n) {
  if (fd == 1) { grow(env.out, env.nout, env.capout, n); memcpy(env.out + env.nout, p, n); env.nout += n; env.out[env.nout] = 0; }
  else { grow(env.err, env.nerr, env.caperr, n); memcpy(env.err + env.nerr, p, n); env.nerr += n; env.err[env.nerr] = 0; }
}
void env_out_reset() { env.nout = env.nerr = 0; if (env.out) env.out[0] = 0; if (env.err) env.err[0] = 0; }
// ------------------------------------------------------------------ tree
static Node* child(Node* d, const char* name, size_t n) { for (Ent* e = d->ents; e; e = e->next) if (strlen(e->name) == n && !memcmp(e->name, name, n)) return e->n; return nullptr; }
static void attach(Node* d, const char* name, size_t n, Node* c) { Ent* e = (Ent*)malloc(sizeof(Ent)); e->name = (char*)malloc(n + 1); memcpy(e->name, name, n); e->name[n] = 0; e->n = c; e->next = nullptr; Ent** p = &d->ents; while (*p) p = &(*p)->next; *p = e; if (c->isdir()) c->up = d; }
static void detach(Node* d, const char* name, size_t n) { for (Ent** p = &d->ents; *p; p = &(*p)->next) if (strlen((*p)->name) == n && !memcmp((*p)->name, name, n)) { *p = (*p)->next; return; } }
struct Res { Node* parent; Node* node; const char* name; size_t nlen; int err; bool trail; char buf[NAME_MAX + 1]; };
static Node* walk(Node* base, const char* path, bool followLast, Res* r, int depth) {
  if (r) { r->parent = nullptr; r->node = nullptr; r->name = ""; r->nlen = 0; r->trail = false; }
  if (depth > 8) { errno = ELOOP; return nullptr; }
  if (!*path) { errno = ENOENT; return nullptr; }
  Node* cur = *path == '/' ? env.root : base; const char* p = path; Node* par = cur;
  while (*p == '/') p++;
  if (!*p) { if (r) { r->parent = cur; r->node = cur; } return cur; }
  for (;;) {
    const char* q = p; while (*q && *q != '/') q++; size_t n = q - p; const char* rest = q; while (*rest == '/') rest++; bool last = !*rest, trail = last && *q == '/';
    if (!cur->isdir()) { errno = ENOTDIR; return nullptr; }
    if (n > NAME_MAX) { errno = ENAMETOOLONG; return nullptr; }
    Node* c; bool dots = false;
    if (n == 1 && p[0] == '.') { c = cur; dots = true; } else if (n == 2 && p[0] == '.' && p[1] == '.') { c = cur->up ? cur->up : cur; dots = true; } else c = child(cur, p, n);
    par = cur;
    if (last && r) { r->parent = par; r->name = dots ? "" : p; r->nlen = dots ? 0 : n; r->trail = trail; }
    if (!c) { errno = ENOENT; return nullptr; }
    if (c->islnk() && (!last || followLast || trail)) { Res sub; Node* t = walk(cur, c->link, true, r && last ? &sub : nullptr, depth + 1);
      if (last && r) { memcpy(r, &sub, offsetof(Res, buf)); if (sub.nlen) { memcpy(r->buf, sub.name, sub.nlen); r->name = r->buf; } if (!t) { r->node = nullptr; return nullptr; } }
      if (!t) return nullptr; c = t; }
    if (last) { if (trail && !c->isdir()) { errno = ENOTDIR; return nullptr; } if (r) r->node = c; return c; }
    cur = c; p = rest;
  }
}
Node* env_node(const char* path, bool follow) { int e = errno; Node* n = walk(env.root, path, follow, nullptr, 0); errno = e; return n; }
Node* env_lookup_in(Node* root, const char* path) { Node* s = env.root; env.root = root; Node* n = env_node(path); env.root = s; return n; }
bool env_exists(const char* path) { return env_node(path) != nullptr; }
static char* canonOf(Node* d, const char* name, size_t n) {
  char t[1024]; size_t k = sizeof t - 1; t[k] = 0;
  if (n) { k -= n; memcpy(t + k, name, n); t[--k] = '/'; }
  for (Node* x = d; x && x->up; x = x->up) { for (Ent* e = x->up->ents; e; e = e->next) if (e->n == x) { size_t m = strlen(e->name); k -= m; memcpy(t + k, e->name, m); t[--k] = '/'; break; } }
  if (k == sizeof t - 1) t[--k] = '/';
  return dup_(t + k);
}
static void powerLoss(Node* d) { for (Ent* e = d->ents; e; e = e->next) { Node* n = e->n; if (n->isdir()) powerLoss(n); else if (n->isreg() && n->dirty) { if (sx_bool("powerloss-truncates")) n->size = n->durable < n->size ? n->durable : n->size; n->dirty = false; } } }
static void crashPoint() {
  if (!env.crash || env.crashed) return;
  int k = env.nops; if (k < env.crashFrom || (env.crashLimit && k >= env.crashLimit)) return;
  char nm[24]; snprintf(nm, sizeof nm, "crash@%d", k);
  if (sx_bool(nm)) { env.crashed = 1; if (env.crash == 2) powerLoss(env.root); longjmp(*env.crashJmp, 2); }
}
static void mut(const char* op, char* path, char* path2, Node* existing) {
  crashPoint();
  if (env.nlog == env.caplog) { int c = env.caplog * 2 + 64; Mut* m = (Mut*)malloc(c * sizeof(Mut)); if (env.nlog) memcpy(m, env.log, env.nlog * sizeof(Mut)); free(env.log); env.log = m; env.caplog = c; }
  env.log[env.nlog].op = op; env.log[env.nlog].path = path; env.log[env.nlog].path2 = path2; env.nlog++; env.nops++;
  if (env.onmut) env.onmut(op, path, path2, existing);
}
bool env_fault(int kind, const char* what) {
  if (!(env.faultMask & kind) || env.faults >= env.faultBudget) return false;
  char nm[48]; snprintf(nm, sizeof nm, "fault:%s", what);
  if (sx_bool(nm)) { env.faults++; errno = kind == F_OPENR ? EACCES : kind == F_WRITE ? ENOSPC : EIO; return true; }
  return false;
}
void env_init(unsigned uid) { memset(&env, 0, sizeof env); memset(fds, 0, sizeof fds); memset(openF, 0, sizeof openF); env.root = mk(S_IFDIR | 0755); env.root->up = nullptr; env.cwd = env.root; env.uid = uid; env.now = 1700000000; env.out = (char*)malloc(1); env.out[0] = 0; env.capout = 1; env.err = (char*)malloc(1); env.err[0] = 0; env.caperr = 1; }
static Node* mkpath(const char* path, const char** last, size_t* nl) {
  Node* cur = env.root; const char* p = path; while (*p == '/') p++;
  for (;;) { const char* q = p; while (*q && *q != '/') q++; const char* r = q; while (*r == '/') r++; if (!*r) { *last = p; *nl = q - p; return cur; }
    Node* c = child(cur, p, q - p); if (!c) { c = mk(S_IFDIR | 0755); attach(cur, p, q - p, c); } else if (c->islnk()) c = walk(cur, c->link, true, nullptr, 0); cur = c; p = r; }
}
static Node* put(const char* path, unsigned mode) { const char* l; size_t n; Node* d = mkpath(path, &l, &n); Node* c = n ? child(d, l, n) : d; if (c && c->isdir() && (mode & S_IFMT) == S_IFDIR) { c->mode = mode; return c; } if (c) detach(d, l, n); c = mk(mode); attach(d, l, n, c); return c; }
Node* env_dir(const char* p, unsigned mode) { return put(p, S_IFDIR | mode); }
Node* env_file(const char* p, const void* d, size_t n, unsigned mode) { Node* f = put(p, S_IFREG | mode); f->data = (unsigned char*)malloc(n + 1); f->cap = n + 1; memcpy(f->data, d, n); f->size = f->durable = n; return f; }
Node* env_text(const char* p, const char* t, unsigned mode) { return env_file(p, t, strlen(t), mode); }
Node* env_symlink(const char* p, const char* t) { Node* f = put(p, S_IFLNK | 0777); f->link = dup_(t); return f; }
Node* env_special(const char* p, unsigned mode, unsigned long rdev) { Node* f = put(p, mode); f->rdev = rdev; return f; }
void env_archive(const char* path, PkgEntry* e, int n) { env_text(path, "ARCHIVE"); env.ar[env.nar++] = {path, e, n, 0, false}; }
void env_web(const char* url, const void* d, size_t n) { env.web[env.nweb].url = url; env.web[env.nweb].data = (const unsigned char*)d; env.web[env.nweb].n = n; env.nweb++; }
static Node* copyTree(Node* s, Node* up) { Node* n = (Node*)malloc(sizeof(Node)); *n = *s; n->up = up; if (s->data) { n->data = (unsigned char*)malloc(s->size + 1); memcpy(n->data, s->data, s->size); n->cap = s->size + 1; }
  n->ents = nullptr; Ent** t = &n->ents; for (Ent* e = s->ents; e; e = e->next) { Ent* x = (Ent*)malloc(sizeof(Ent)); x->name = e->name; x->n = copyTree(e->n, n); x->next = nullptr; *t = x; t = &x->next; } return n; }
Node* env_snapshot() { return copyTree(env.root, nullptr); }
bool env_same_data(Node* a, Node* b) { return a->size == b->size && (!a->size || !memcmp(a->data, b->data, a->size)); }
static void emit(char k, const char* path, Node* n, void (*cb)(char, const char*)) { cb(k, path); if (n->isdir()) for (Ent* e = n->ents; e; e = e->next) { char t[1024]; snprintf(t, sizeof t, "%s/%s", strcmp(path, "/") ? path : "", e->name); emit(k, t, e->n, cb); } }
static void diffRec(Node* a, Node* b, const char* path, void (*cb)(char, const char*)) {
  for (Ent* e = a->ents; e; e = e->next) { char t[1024]; snprintf(t, sizeof t, "%s/%s", path, e->name); Node* o = child(b, e->name, strlen(e->name));
    if (!o) { emit('-', t, e->n, cb); continue; }
    Node* n = e->n; if ((n->mode & S_IFMT) != (o->mode & S_IFMT)) { cb('~', t); continue; }
    if (n->isdir()) { if (n->mode != o->mode || n->uid != o->uid || n->gid != o->gid) cb('~', t); diffRec(n, o, t, cb); }
    else if (n->mode != o->mode || n->uid != o->uid || n->gid != o->gid || n->rdev != o->rdev || (n->islnk() && strcmp(n->link, o->link)) || (n->isreg() && !env_same_data(n, o))) cb('~', t); }
  for (Ent* e = b->ents; e; e = e->next) if (!child(a, e->name, strlen(e->name))) { char t[1024]; snprintf(t, sizeof t, "%s/%s", path, e->name); emit('+', t, e->n, cb); }
}
void env_diff(Node* a, Node* b, void (*cb)(char, const char*)) { diffRec(a, b, "", cb); }
bool env_contains(const char* h, size_t n, const char* nd) { size_t k = strlen(nd); for (size_t i = 0; i + k <= n; i++) if (!memcmp(h + i, nd, k)) return true; return false; }
static unsigned g_umask = 022;
int env_run(void (*f)()) { g_umask = 022;
  static jmp_buf jb; env.exitJmp = env.crashJmp = &jb; env.exited = 0; env.crashed = 0;
  int k = setjmp(jb); if (k) return k;
  try { f(); } catch (...) { return 3; }
  return 0;
}
// ------------------------------------------------------------------ system calls (m_NAME replaces NAME in the code under test)
static void fill(struct stat* st, Node* n) { memset(st, 0, sizeof *st); st->st_dev = n->dev; st->st_ino = n->ino; st->st_mode = n->mode; st->st_nlink = n->nlink; st->st_uid = n->uid; st->st_gid = n->gid; st->st_rdev = n->rdev; st->st_size = n->repSize >= 0 ? n->repSize : n->islnk() ? (long)strlen(n->link) : (long)n->size; st->st_mtime = n->mtime; st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512; }
static int doUnlink(Node* base, const char* path, bool dir, bool any) {
  Res r; Node* n = walk(base, path, false, &r, 0); if (!n) return -1;
  if (any) dir = n->isdir();
  if (!r.nlen) { errno = n == env.root ? EBUSY : EINVAL; return -1; }
  if (dir) { if (!n->isdir()) { errno = ENOTDIR; return -1; } if (n->ents) { errno = ENOTEMPTY; return -1; } } else if (n->isdir()) { errno = EISDIR; return -1; } else if (r.trail) { errno = ENOTDIR; return -1; }
  if (env.uid && !env.mayWrite) { errno = EACCES; return -1; }
  if (env_fault(F_UNLINK, dir ? "rmdir" : "unlink")) return -1;
  mut(dir ? "rmdir" : "unlink", canonOf(r.parent, r.name, r.nlen), nullptr, n); detach(r.parent, r.name, r.nlen); n->nlink--; if (dir) n->up = nullptr; return 0;
}
static int doOpen(Node* base, const char* path, int flags, unsigned mode) {
  Res r; bool w = (flags & O_ACCMODE) != O_RDONLY; Node* n = walk(base, path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)), &r, 0);
  if (!n) { if (!(flags & O_CREAT) || errno != ENOENT || !r.parent || !r.nlen || r.trail) return -1; if (env.uid && !env.mayWrite) { errno = EACCES; return -1; } if (env_fault(F_OPENW, "open")) return -1;
    mut("create", canonOf(r.parent, r.name, r.nlen), nullptr, nullptr); n = mk(S_IFREG | (mode & 07777 & ~g_umask)); n->uid = env.uid; attach(r.parent, r.name, r.nlen, n); n->dirty = true; return newFd(n, flags); }
  if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (n->islnk()) { errno = ELOOP; return -1; }
  if (n->isdir() && w) { errno = EISDIR; return -1; }
  if ((flags & O_DIRECTORY) && !n->isdir()) { errno = ENOTDIR; return -1; }
  if (w && env.uid && !env.mayWrite) { errno = EACCES; return -1; }
  if (env_fault(w ? F_OPENW : F_OPENR, w ? "open" : "open-read")) return -1;
  if (w && (flags & O_TRUNC) && n->isreg()) { mut("truncate", canonOf(r.parent, r.name, r.nlen), nullptr, n); if (n->size) { n->size = 0; if (!n->dirty) { n->dirty = true; n->durable = 0; } } }
  int fd = newFd(n, flags); return fd;
}
static Fd* F(int fd) { if (fd < 3 || fd >= 64 || !fds[fd].used) { errno = EBADF; return nullptr; } return &fds[fd]; }
static Node* baseOf(int dfd) { if (dfd == AT_FDCWD) return env.cwd; Fd* f = F(dfd); return f ? f->n : nullptr; }
static char* pathOf(Node* d, Node* n, const char* pre) { for (Ent* e = d->ents; e; e = e->next) { char t[1024]; snprintf(t, sizeof t, "%s/%s", pre, e->name); if (e->n == n) return dup_(t); if (e->n->isdir()) { char* r = pathOf(e->n, n, t); if (r) return r; } } return nullptr; }
static bool nwrite(Node* n, size_t off, const void* p, size_t k) { if (off + k > n->cap) { size_t c = (off + k) * 2 + 64; unsigned char* d = (unsigned char*)malloc(c); if (n->size) memcpy(d, n->data, n->size); free(n->data); n->data = d; n->cap = c; } if (off > n->size) memset(n->data + n->size, 0, off - n->size); if (!n->dirty) { n->dirty = true; n->durable = n->size; } memcpy(n->data + off, p, k); if (off + k > n->size) n->size = off + k; return true; }
extern "C" {
int m_stat64(const char* p, struct stat* st) { Node* n = walk(env.cwd, p, true, nullptr, 0); if (!n) return -1; fill(st, n); return 0; }
int m_lstat64(const char* p, struct stat* st) { Node* n = walk(env.cwd, p, false, nullptr, 0); if (!n) return -1; fill(st, n); return 0; }
int m_fstat64(int fd, struct stat* st) { Fd* f = F(fd); if (!f) return -1; fill(st, f->n); return 0; }
int m_fstatat64(int d, const char* p, struct stat* st, int fl) { Node* b = baseOf(d); if (!b) return -1; Node* n = walk(b, p, !(fl & AT_SYMLINK_NOFOLLOW), nullptr, 0); if (!n) return -1; fill(st, n); return 0; }
int m_stat(const char* p, struct stat* st) { return m_stat64(p, st); } int m_lstat(const char* p, struct stat* st) { return m_lstat64(p, st); } int m_fstat(int f, struct stat* st) { return m_fstat64(f, st); }
int m_access(const char* p, int m) { Node* n = walk(env.cwd, p, true, nullptr, 0); if (!n) return -1; if (env.uid && !env.mayWrite && (m & W_OK)) { errno = EACCES; return -1; } return 0; }
int m_faccessat(int d, const char* p, int m, int) { Node* b = baseOf(d); return b && walk(b, p, true, nullptr, 0) ? 0 : -1; }
int m_open64(const char* p, int fl, ...) { unsigned mode = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); mode = va_arg(ap, unsigned); va_end(ap); } return doOpen(env.cwd, p, fl, mode); }
int m_open(const char* p, int fl, ...) { unsigned mode = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); mode = va_arg(ap, unsigned); va_end(ap); } return doOpen(env.cwd, p, fl, mode); }
int m_openat64(int d, const char* p, int fl, ...) { unsigned mode = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); mode = va_arg(ap, unsigned); va_end(ap); } Node* b = baseOf(d); return b ? doOpen(b, p, fl, mode) : -1; }
int m_openat(int d, const char* p, int fl, ...) { unsigned mode = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); mode = va_arg(ap, unsigned); va_end(ap); } Node* b = baseOf(d); return b ? doOpen(b, p, fl, mode) : -1; }
int m_creat64(const char* p, unsigned mode) { return doOpen(env.cwd, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int m_creat(const char* p, unsigned mode) { return m_creat64(p, mode); }
int m_close(int fd) { Fd* f = F(fd); if (!f) return -1; unlockFd(*f); f->used = false; env.openFds--; if (env_fault(F_CLOSE, "close")) return -1; return 0; }
ssize_t m_read(int fd, void* b, size_t n) { Fd* f = F(fd); if (!f) return -1; if (f->n == nullptr) return 0; if (f->n->isdir()) { errno = EISDIR; return -1; } size_t a = f->off < f->n->size ? f->n->size - f->off : 0; if (n > a) n = a; if (n) memcpy(b, f->n->data + f->off, n); f->off += n; return n; }
ssize_t m_pread64(int fd, void* b, size_t n, long o) { Fd* f = F(fd); if (!f) return -1; size_t s = f->off; f->off = o; ssize_t r = m_read(fd, b, n); f->off = s; return r; }
ssize_t m_write(int fd, const void* b, size_t n) { if (fd == 1 || fd == 2) { sx_console_write(fd, (const char*)b, n); return n; } Fd* f = F(fd); if (!f) return -1; if (!f->n) return n; if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (n && (env.faultMask & F_WRITE) && env.faults < env.faultBudget) { unsigned k = sx_range("fault:write", 0, n > 1 ? 2 : 1); if (k == 1) { env.faults++; errno = ENOSPC; return -1; } if (k == 2) { env.faults++; n = n / 2; } }
  if (n) { char* p = pathOf(env.root, f->n, ""); mut("write", p ? p : dup_("(unlinked)"), nullptr, f->n); if (f->flags & O_APPEND) f->off = f->n->size; nwrite(f->n, f->off, b, n); f->off += n; } return n; }
int m_fsync(int fd) { Fd* f = F(fd); if (!f) return -1; if (env_fault(F_FSYNC, "fsync")) return -1; if (f->n) { f->n->dirty = false; f->n->durable = f->n->size; } return 0; }
int m_fdatasync(int fd) { return m_fsync(fd); }
void m_sync(void) {}
long m_lseek64(int fd, long o, int w) { Fd* f = F(fd); if (!f) return -1; long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)f->off : (long)f->n->size; if (b + o < 0) { errno = EINVAL; return -1; } f->off = b + o; return f->off; }
long m_lseek(int fd, long o, int w) { return m_lseek64(fd, o, w); }
int m_ftruncate64(int fd, long n) { Fd* f = F(fd); if (!f) return -1; char* p = pathOf(env.root, f->n, ""); mut("truncate", p ? p : dup_("?"), nullptr, f->n); if ((size_t)n < f->n->size) { f->n->size = n; f->n->dirty = true; f->n->durable = 0; } return 0; }
int m_ftruncate(int fd, long n) { return m_ftruncate64(fd, n); }
int m_truncate64(const char* p, long n) { int fd = doOpen(env.cwd, p, O_WRONLY, 0); if (fd < 0) return -1; int r = m_ftruncate64(fd, n); m_close(fd); return r; }
int m_truncate(const char* p, long n) { return m_truncate64(p, n); }
int m_mkstemp64(char* t) { size_t n = strlen(t); static int k; if (n < 6) { errno = EINVAL; return -1; } k++; for (int i = 0; i < 6; i++) t[n - 6 + i] = 'a' + (i == 5 ? k % 26 : i); return doOpen(env.cwd, t, O_RDWR | O_CREAT | O_EXCL, 0600); }
int m_mkstemp(char* t) { return m_mkstemp64(t); }
int m_mknod(const char* p, unsigned mode, unsigned long dev) { Res r; Node* n = walk(env.cwd, p, false, &r, 0); if (n) { errno = EEXIST; return -1; } if (errno != ENOENT || !r.parent || !r.nlen) return -1; if (env.uid && !env.mayWrite) { errno = EACCES; return -1; } mut("create", canonOf(r.parent, r.name, r.nlen), nullptr, nullptr); Node* c = mk(mode); if (!(mode & S_IFMT)) c->mode |= S_IFREG; c->rdev = dev; attach(r.parent, r.name, r.nlen, c); return 0; }
int m_mkfifo(const char* p, unsigned mode) { return m_mknod(p, S_IFIFO | mode, 0); }
ssize_t m_pwrite64(int fd, const void* b, size_t n, long o) { Fd* f = F(fd); if (!f) return -1; size_t s = f->off; f->off = o; ssize_t r = m_write(fd, b, n); f->off = s; return r; }
ssize_t m_pwrite(int fd, const void* b, size_t n, long o) { return m_pwrite64(fd, b, n, o); }
int m_fcntl64(int fd, int cmd, ...) { Fd* f = F(fd); if (!f) return -1; return cmd == F_GETFL ? f->flags : 0; }
int m_fcntl(int fd, int cmd, ...) { Fd* f = F(fd); if (!f) return -1; return cmd == F_GETFL ? f->flags : 0; }
int m_unlink(const char* p) { return doUnlink(env.cwd, p, false, false); }
int m_rmdir(const char* p) { return doUnlink(env.cwd, p, true, false); }
int m_remove(const char* p) { return doUnlink(env.cwd, p, false, true); }
int m_unlinkat(int d, const char* p, int fl) { Node* b = baseOf(d); return b ? doUnlink(b, p, fl & AT_REMOVEDIR, false) : -1; }
int m_mkdir(const char* p, unsigned mode) { Res r; Node* n = walk(env.cwd, p, false, &r, 0); if (n) { errno = EEXIST; return -1; } if (errno != ENOENT || !r.parent || !r.nlen) return -1; if (env.uid && !env.mayWrite) { errno = EACCES; return -1; } if (env_fault(F_MKDIR, "mkdir")) return -1; mut("mkdir", canonOf(r.parent, r.name, r.nlen), nullptr, nullptr); Node* c = mk(S_IFDIR | (mode & 0777 & ~022)); attach(r.parent, r.name, r.nlen, c); return 0; }
int m_mkdirat(int, const char* p, unsigned m) { return m_mkdir(p, m); }
int m_rename(const char* a, const char* b) { Res ra, rb; Node* n = walk(env.cwd, a, false, &ra, 0); if (!n) return -1; Node* t = walk(env.cwd, b, false, &rb, 0); if (!t && (errno != ENOENT || !rb.parent || !rb.nlen)) return -1; if (!ra.nlen || !rb.nlen) { errno = EBUSY; return -1; }
  if (t == n) return 0; if (t && t->isdir() && !n->isdir()) { errno = EISDIR; return -1; } if (t && !t->isdir() && n->isdir()) { errno = ENOTDIR; return -1; } if (t && t->isdir() && t->ents) { errno = ENOTEMPTY; return -1; } if (!n->isdir() && rb.trail) { errno = ENOTDIR; return -1; }
  if (n->isdir()) for (Node* x = rb.parent; x; x = x->up) if (x == n) { errno = EINVAL; return -1; }
  if (env.uid && !env.mayWrite) { errno = EACCES; return -1; } if (env_fault(F_RENAME, "rename")) return -1;
  mut("rename", canonOf(ra.parent, ra.name, ra.nlen), canonOf(rb.parent, rb.name, rb.nlen), t); char nm[NAME_MAX + 1]; size_t nl = rb.nlen; memcpy(nm, rb.name, nl); detach(ra.parent, ra.name, ra.nlen); if (t) { detach(rb.parent, nm, nl); t->nlink--; } attach(rb.parent, nm, nl, n); return 0; }
int m_renameat(int, const char* a, int, const char* b) { return m_rename(a, b); }
int m_link(const char* a, const char* b) { Res rb; Node* n = walk(env.cwd, a, false, nullptr, 0); if (!n) return -1; if (n->isdir()) { errno = EPERM; return -1; } Node* t = walk(env.cwd, b, false, &rb, 0); if (t) { errno = EEXIST; return -1; } if (errno != ENOENT || !rb.parent || !rb.nlen) return -1; if (env.uid && !env.mayWrite) { errno = EACCES; return -1; } if (env_fault(F_LINK, "link")) return -1; mut("link", canonOf(rb.parent, rb.name, rb.nlen), nullptr, nullptr); attach(rb.parent, rb.name, rb.nlen, n); n->nlink++; return 0; }
int m_symlink(const char* t, const char* p) { Res r; if (walk(env.cwd, p, false, &r, 0)) { errno = EEXIST; return -1; } if (!r.parent || !r.nlen) return -1; mut("symlink", canonOf(r.parent, r.name, r.nlen), nullptr, nullptr); Node* c = mk(S_IFLNK | 0777); c->link = dup_(t); attach(r.parent, r.name, r.nlen, c); return 0; }
ssize_t m_readlink(const char* p, char* b, size_t n) { Node* x = walk(env.cwd, p, false, nullptr, 0); if (!x) return -1; if (!x->islnk()) { errno = EINVAL; return -1; } size_t k = strlen(x->link); if (k > n) k = n; memcpy(b, x->link, k); return k; }
int m_chmod(const char* p, unsigned mode) { Res r; Node* n = walk(env.cwd, p, true, &r, 0); if (!n) return -1; if (env.uid && !env.mayWrite) { errno = EPERM; return -1; } mut("chmod", canonOf(r.parent, r.name, r.nlen), nullptr, n); n->mode = (n->mode & S_IFMT) | (mode & 07777); return 0; }
int m_fchmod(int fd, unsigned mode) { Fd* f = F(fd); if (!f) return -1; if (env_fault(F_CHMOD, "fchmod")) return -1; f->n->mode = (f->n->mode & S_IFMT) | (mode & 07777); return 0; }
int m_chown(const char* p, unsigned u, unsigned g) { Node* n = walk(env.cwd, p, true, nullptr, 0); if (!n) return -1; n->uid = u; n->gid = g; return 0; }
int m_lchown(const char* p, unsigned u, unsigned g) { Node* n = walk(env.cwd, p, false, nullptr, 0); if (!n) return -1; n->uid = u; n->gid = g; return 0; }
int m_utime(const char* p, const struct utimbuf* t) { Node* n = walk(env.cwd, p, true, nullptr, 0); if (!n) return -1; if (t) n->mtime = t->modtime; else n->mtime++; return 0; }
int m_chdir(const char* p) { Node* n = walk(env.cwd, p, true, nullptr, 0); if (!n) return -1; if (!n->isdir()) { errno = ENOTDIR; return -1; } if (env_fault(F_CHDIR, "chdir")) return -1; env.cwd = n; return 0; }
char* m_getcwd(char* b, size_t n) { char* p = canonOf(env.cwd, "", 0); if (!b) return p; if (strlen(p) + 1 > n) { errno = ERANGE; return nullptr; } strcpy(b, p); return b; }
char* m_realpath(const char* p, char* o) { Res r; Node* n = walk(env.cwd, p, true, &r, 0); if (!n) return nullptr; char* c = n->isdir() ? canonOf(n, "", 0) : canonOf(r.parent, r.name, r.nlen); if (!o) return c; strcpy(o, c); return o; }
int m_utimensat(int, const char*, const void*, int) { return 0; }
unsigned m_umask(unsigned m) { unsigned o = g_umask; g_umask = m & 0777; return o; }
// directories
struct DirObj { int fd; int pos; struct dirent de; };
DIR* m_opendir(const char* p) { Node* n = walk(env.cwd, p, true, nullptr, 0); if (!n) return nullptr; if (!n->isdir()) { errno = ENOTDIR; return nullptr; } if (env_fault(F_OPENDIR, "opendir")) return nullptr; int fd = newFd(n, O_RDONLY); if (fd < 0) return nullptr; DirObj* d = (DirObj*)malloc(sizeof(DirObj)); d->fd = fd; d->pos = 0; return (DIR*)d; }
int m_closedir(DIR* dd) { DirObj* d = (DirObj*)dd; m_close(d->fd); free(d); return 0; }
int m_dirfd(DIR* dd) { return ((DirObj*)dd)->fd; }
struct dirent* m_readdir64(DIR* dd) { DirObj* d = (DirObj*)dd; Fd* f = F(d->fd); if (!f) return nullptr; memset(&d->de, 0, sizeof d->de); d->de.d_type = DT_DIR; if (d->pos < 2) { strcpy(d->de.d_name, d->pos ? ".." : "."); d->pos++; return &d->de; }
  Ent* e = f->n->ents; for (int i = 2; e && i < d->pos; i++) e = e->next; if (!e) return nullptr; d->pos++; d->de.d_ino = e->n->ino; strcpy(d->de.d_name, e->name); d->de.d_type = e->n->isdir() ? DT_DIR : e->n->islnk() ? DT_LNK : e->n->isreg() ? DT_REG : DT_UNKNOWN; return &d->de; }
struct dirent* m_readdir(DIR* d) { return m_readdir64(d); }
void m_rewinddir(DIR* dd) { ((DirObj*)dd)->pos = 0; }
// locks and signals
int m_flock(int fd, int op) { Fd* f = F(fd); if (!f) return -1; int k = op & ~LOCK_NB; if (k == LOCK_UN) { unlockFd(*f); return 0; } if (env.onlock) env.onlock(); env.lockTries++;
  if (env.lockConflict && sx_bool("lock-held-elsewhere")) { env.lockDenied++; errno = EWOULDBLOCK; return -1; }
  if (k == LOCK_EX) { if (env.exLocks + env.shLocks > (f->lock ? 1 : 0)) { errno = EWOULDBLOCK; return -1; } unlockFd(*f); f->lock = 2; env.exLocks++; } else { if (env.exLocks > (f->lock == 2 ? 1 : 0)) { errno = EWOULDBLOCK; return -1; } unlockFd(*f); f->lock = 1; env.shLocks++; } return 0; }
int m_sigaction(int s, const struct sigaction* a, struct sigaction* o) { if (s < 1 || s > 64) { errno = EINVAL; return -1; } if (o) { memset(o, 0, sizeof *o); o->sa_handler = (sighandler_t)env.sigH[s]; } if (a) { env.sigH[s] = (void*)a->sa_handler; env.sigIgn[s] = a->sa_handler == SIG_IGN; } return 0; }
sighandler_t m_signal(int s, sighandler_t h) { if (s < 1 || s > 64) { errno = EINVAL; return SIG_ERR; } sighandler_t o = (sighandler_t)env.sigH[s]; env.sigH[s] = (void*)h; env.sigIgn[s] = h == SIG_IGN; return o; }
int m_sigemptyset(sigset_t* t) { memset(t, 0, sizeof *t); return 0; } int m_sigfillset(sigset_t* t) { memset(t, 0xff, sizeof *t); return 0; }
int m_sigaddset(sigset_t* t, int s) { t->__val[(s - 1) / 64] |= 1ul << ((s - 1) % 64); return 0; } int m_sigdelset(sigset_t* t, int s) { t->__val[(s - 1) / 64] &= ~(1ul << ((s - 1) % 64)); return 0; } int m_sigismember(const sigset_t* t, int s) { return (t->__val[(s - 1) / 64] >> ((s - 1) % 64)) & 1; }
int m_sigprocmask(int how, const sigset_t* n, sigset_t* o) { if (o) { memset(o, 0, sizeof *o); o->__val[0] = env.sigBlk; } if (n) env.sigBlk = how == SIG_BLOCK ? env.sigBlk | n->__val[0] : how == SIG_UNBLOCK ? env.sigBlk & ~n->__val[0] : n->__val[0]; return 0; }
int m_pthread_sigmask(int how, const sigset_t* n, sigset_t* o) { return m_sigprocmask(how, n, o); }
// memory maps: the mapping ends exactly at the end of the file (worst case: size is a multiple of the page size)
void* m_mmap64(void*, size_t n, int, int, int fd, long off) { Fd* f = F(fd); if (!f) return MAP_FAILED; if (!n) { errno = EINVAL; return MAP_FAILED; } char* p = (char*)malloc(n); size_t a = (size_t)off < f->n->size ? f->n->size - off : 0; if (a > n) a = n; if (a) memcpy(p, f->n->data + off, a); if (a < n) memset(p + a, 0, n - a); return p; }
void* m_mmap(void* a, size_t n, int p, int fl, int fd, long off) { return m_mmap64(a, n, p, fl, fd, off); }
int m_munmap(void* p, size_t) { free(p); return 0; }
// stdio
static int doFopen(const char* p, const char* m) { int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND; for (const char* q = m; *q; q++) if (*q == '+') fl = (fl & ~O_ACCMODE) | O_RDWR; return doOpen(env.cwd, p, fl, 0666); }
FILE* m_fopen64(const char* p, const char* m) { int fd = doFopen(p, m); if (fd < 0) return nullptr; return (FILE*)newFile(fd); }
FILE* m_fopen(const char* p, const char* m) { return m_fopen64(p, m); }
FILE* m_fdopen(int fd, const char*) { return (FILE*)newFile(fd); }
int m_setvbuf(FILE*, char*, int, size_t) { return 0; } void m_setbuf(FILE*, char*) {} 
int m_fileno(FILE* f) { return ((FileObj*)f)->fd; }
int m_fclose(FILE* ff) { FileObj* f = (FileObj*)ff; if (f->console) return 0; bool ok = f->mem ? true : flushFile(f); int r = f->mem ? 0 : m_close(f->fd); dropFile(f); return ok ? r : EOF; }
int m_fflush(FILE* ff) { FileObj* f = (FileObj*)ff; if (!f) { bool ok = true; for (int i = 0; i < 64; i++) if (openF[i]) ok &= flushFile(openF[i]); return ok ? 0 : EOF; } if (f->console || f->mem) return 0; return flushFile(f) ? 0 : EOF; }
int m_feof(FILE* f) { return ((FileObj*)f)->eof; } int m_ferror(FILE* f) { return ((FileObj*)f)->err; }
size_t m_fread(void* b, size_t s, size_t n, FILE* ff) { FileObj* f = (FileObj*)ff; size_t t = s * n; if (!t) return 0; if (f->unget >= 0) { *(unsigned char*)b = (unsigned char)f->unget; f->unget = -1; if (t == 1) return 1; return (1 + m_fread((char*)b + 1, 1, t - 1, ff)) / s; } ssize_t k; if (f->console) { f->eof = true; return 0; } if (f->wn) flushFile(f); if (f->mem) { k = f->mlen - f->mpos < t ? f->mlen - f->mpos : t; memcpy(b, f->mem + f->mpos, k); f->mpos += k; } else { k = m_read(f->fd, b, t); if (k < 0) { f->err = true; return 0; } } if ((size_t)k < t) f->eof = true; return k / s; }
size_t m_fwrite(const void* b, size_t s, size_t n, FILE* ff) { FileObj* f = (FileObj*)ff; size_t t = s * n; if (!t) return 0; if (f->console) { sx_console_write(f->fd, (const char*)b, t); return n; } if (f->wn + t > WBUF) { if (!flushFile(f)) return 0; }
  if (t > WBUF) { ssize_t k = m_write(f->fd, b, t); if (k < 0) { f->err = true; return 0; } if ((size_t)k < t) f->err = true; return k / s; }
  if (!f->wb) f->wb = (char*)malloc(WBUF); memcpy(f->wb + f->wn, b, t); f->wn += t; return n; }
int m_fgetc(FILE* f) { unsigned char c; return m_fread(&c, 1, 1, f) == 1 ? c : EOF; }
int m_getc(FILE* f) { return m_fgetc(f); }
char* m_fgets(char* b, int n, FILE* ff) { FileObj* f = (FileObj*)ff; const unsigned char* d; size_t pos, len; if (f->console) return nullptr; if (f->mem) { d = (const unsigned char*)f->mem; pos = f->mpos; len = f->mlen; } else { Fd* x = F(f->fd); if (!x || x->n->isdir()) { f->err = true; return nullptr; } d = x->n->data; pos = x->off; len = x->n->size; }
  int i = 0; if (f->unget >= 0 && n > 1) { b[i++] = (char)f->unget; f->unget = -1; if (b[0] == '\n') { b[1] = 0; return b; } } while (i + 1 < n) { if (pos >= len) { f->eof = true; break; } unsigned char c = d[pos++]; b[i++] = c; if (c == '\n') break; } if (f->mem) f->mpos = pos; else F(f->fd)->off = pos; if (!i) return nullptr; b[i] = 0; return b; }
ssize_t m_getline(char** l, size_t* cap, FILE* f) { size_t n = 0; for (;;) { int c = m_fgetc(f); if (c == EOF) break; if (!*l || n + 2 > *cap) { size_t k = *cap * 2 + 64; char* p = (char*)malloc(k); if (n) memcpy(p, *l, n); free(*l); *l = p; *cap = k; } (*l)[n++] = c; if (c == '\n') break; } if (!n) return -1; (*l)[n] = 0; return n; }
ssize_t m___getdelim(char** l, size_t* cap, int, FILE* f) { return m_getline(l, cap, f); }
int m_ungetc(int c, FILE* f) { if (c == EOF) return EOF; ((FileObj*)f)->unget = (unsigned char)c; ((FileObj*)f)->eof = false; return c; }
int m_fputs(const char* s, FILE* f) { m_fwrite(s, 1, strlen(s), f); return 1; }
int m_fputc(int c, FILE* f) { char ch = c; m_fwrite(&ch, 1, 1, f); return c; }
int m_putc(int c, FILE* f) { return m_fputc(c, f); }
int m_puts(const char* s) { sx_console_write(1, s, strlen(s)); sx_console_write(1, "\n", 1); return 1; }
int m_putchar(int c) { char ch = c; sx_console_write(1, &ch, 1); return c; }
int m_fseek(FILE* f, long o, int w) { FileObj* x = (FileObj*)f; x->eof = false; x->unget = -1; if (x->wn && !flushFile(x)) return -1; return m_lseek64(x->fd, o, w) < 0 ? -1 : 0; }
int m_fseeko64(FILE* f, long o, int w) { return m_fseek(f, o, w); }
long m_ftell(FILE* f) { if (((FileObj*)f)->wn) flushFile((FileObj*)f); return m_lseek64(((FileObj*)f)->fd, 0, SEEK_CUR); }
void m_rewind(FILE* f) { m_fseek(f, 0, SEEK_SET); }
int m_vfprintf(FILE* f, const char* fmt, va_list ap) { char* t = (char*)malloc(8192); int n = vsnprintf(t, 8192, fmt, ap); m_fwrite(t, 1, n, f); free(t); return n; }
int m_fprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = m_vfprintf(f, fmt, ap); va_end(ap); return n; }
int m_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = m_vfprintf(m_stdout, fmt, ap); va_end(ap); return n; }
void m_perror(const char* s) { m_fprintf(m_stderr, "%s: error\n", s); }
void m_warn(const char*, ...) {} void m_warnx(const char*, ...) {}
FILE* m_popen(const char* cmd, const char*) { const char* o = env.popen_ ? env.popen_(cmd) : ""; if (!o) return nullptr; FileObj* f = newFile(-1); f->mem = o; f->mlen = strlen(o); return (FILE*)f; }
int m_pclose(FILE* f) { dropFile((FileObj*)f); return 0; }
// processes
int m_fork(void) { env.forks++; if ((env.forkMode & 2) && sx_bool("fork-fails")) { env.forkFails++; errno = EAGAIN; return -1; } if ((env.forkMode & 1) && sx_bool("fork-child")) return 0; if (env.onfork) env.onfork(); return 1000 + env.forks; }
int m_vfork(void) { return m_fork(); }
int m_waitpid(int pid, int* st, int) { env.waits++; int s = 0; if (env.waitMode) { unsigned k = (unsigned)sx_sym("wait-status", 16); sx_assume((k & 0xff) == 0 || ((k >> 8) == 0 && (k & 0x80) == 0 && (k & 0x7f) != 0x7f && (k & 0x7f) <= 31)); s = k; } if (env.nwst < 16) env.wst[env.nwst++] = s; if (st) *st = s; return pid; }
int m_wait(int* st) { return m_waitpid(1000 + env.forks, st, 0); }
static void doExec(const char* f, char* const* argv) { int n = 0; while (argv[n]) n++; env.execs++; if (env.onexec) env.onexec(f, argv, n); sx_done(); }
int m_execv(const char* f, char* const* argv) { doExec(f, argv); return -1; }
int m_execvp(const char* f, char* const* argv) { doExec(f, argv); return -1; }
int m_execl(const char* f, const char* a0, ...) { char* v[16]; int n = 0; va_list ap; va_start(ap, a0); const char* a = a0; while (a && n < 15) { v[n++] = (char*)a; a = va_arg(ap, const char*); } v[n] = nullptr; va_end(ap); doExec(f, v); return -1; }
int m_system(const char* cmd) { env.forks++; env.waits++; if (env.onexec) { char* v[4] = {(char*)"sh", (char*)"-c", (char*)cmd, nullptr}; env.onexec("/bin/sh", v, 3); } if (env.waitMode) return (int)sx_sym("wait-status", 16); return 0; }
int m_pipe(int* p) { p[0] = newFd(nullptr, O_RDONLY); p[1] = newFd(nullptr, O_WRONLY); return 0; }
int m_dup2(int, int b) { return b; }
int m_dup(int a) { Fd* f = F(a); if (!f) return -1; int r = newFd(f->n, f->flags); if (r >= 0) fds[r].off = f->off; return r; }
void m_exit(int c) { m_fflush(nullptr); env.exited = 1; env.exitCode = c; if (env.exitJmp) longjmp(*env.exitJmp, 1); sx_done(); }
void m__exit(int c) { env.exited = 1; env.exitCode = c; if (env.exitJmp) longjmp(*env.exitJmp, 1); sx_done(); }
unsigned m_getuid(void) { return env.uid; } unsigned m_geteuid(void) { return env.uid; } unsigned m_getgid(void) { return env.uid; } unsigned m_getegid(void) { return env.uid; }
int m_getpid(void) { return 4242; } int m_getppid(void) { return 4241; }
struct passwd* m_getpwuid(unsigned u) { static struct passwd p; if (u) return nullptr; p.pw_name = (char*)"root"; p.pw_uid = 0; return &p; }
struct group* m_getgrgid(unsigned g) { static struct group p; if (g) return nullptr; p.gr_name = (char*)"root"; p.gr_gid = 0; return &p; }
char* m_getenv(const char*) { return nullptr; }
int m_setenv(const char*, const char*, int) { return 0; } int m_unsetenv(const char*) { return 0; } int m_putenv(char*) { return 0; }
int m_uname(struct utsname* u) { memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->nodename, "box"); strcpy(u->release, "6.1"); strcpy(u->machine, "x86_64"); return 0; }
int m_statvfs64(const char*, struct statvfs* s) { memset(s, 0, sizeof *s); s->f_bsize = s->f_frsize = 4096; s->f_blocks = s->f_bfree = s->f_bavail = 1000000; return 0; }
time_t m_time(time_t* t) { if (t) *t = env.now; return env.now; }
int m_clock_gettime(int, struct timespec* t) { t->tv_sec = env.now; t->tv_nsec = 0; return 0; }
int m_gettimeofday(struct timeval* t, void*) { t->tv_sec = env.now; t->tv_usec = 0; return 0; }
struct tm* m_localtime(const time_t* e) { static struct tm t; if (*e > 67768036191676799L || *e < -67768040609740800L) { errno = EOVERFLOW; return nullptr; } t.tm_gmtoff = *e; return &t; }
struct tm* m_gmtime(const time_t* e) { return m_localtime(e); }
char* m_ctime(const time_t* t) { static char b[40]; (void)*t; strcpy(b, "Thu Jan  1 00:00:00 1970\n"); return b; }
size_t m_strftime(char* b, size_t n, const char*, const struct tm* t) { long e = *(const volatile long*)&t->tm_gmtoff; if (env.dates) { char d[32]; snprintf(d, sizeof d, "T%ld", e); if (strlen(d) + 1 > n) return 0; strcpy(b, d); return strlen(d); } const char* s = "Thu Jan  1 00:00:00 1970"; if (strlen(s) + 1 > n) return 0; strcpy(b, s); return strlen(s); }
unsigned m_sleep(unsigned) { return 0; } int m_usleep(unsigned) { return 0; }
int m_isatty(int) { return 0; }
// messages
char* m_gettext(const char* s) { return (char*)s; } char* m_textdomain(const char* s) { return (char*)s; } char* m_bindtextdomain(const char*, const char* d) { return (char*)d; } char* m_setlocale(int, const char*) { return (char*)"C"; }
void m_openlog(const char*, int, int) {} void m_syslog(int, const char*, ...) {} void m_closelog(void) {}
// regular expressions
struct RxKey { char* pat; char* sub; int r; }; static RxKey rx[256]; static int nrx;
int m_regcomp(regex_t* r, const char* p, int fl) { memset(r, 0, sizeof *r); r->buffer = (decltype(r->buffer))dup_(p); r->re_nsub = fl; if (!env.regexMode) return sx_host_regcomp(p, fl); return 0; }
void m_regfree(regex_t* r) { free(r->buffer); r->buffer = nullptr; }
int m_regexec(const regex_t* r, const char* s, size_t, regmatch_t*, int) {
  const char* p = (const char*)r->buffer;
  if (env.regexMode == 2) return REG_NOMATCH;
  if (!env.regexMode) return sx_host_regmatch(p, s, (int)r->re_nsub) ? 0 : REG_NOMATCH;
  for (int i = 0; i < nrx; i++) if (!strcmp(rx[i].pat, p) && !strcmp(rx[i].sub, s)) return rx[i].r ? 0 : REG_NOMATCH;
  char nm[24]; snprintf(nm, sizeof nm, "match%d", nrx); int v = sx_bool(nm); if (nrx < 256) { rx[nrx].pat = dup_(p); rx[nrx].sub = dup_(s); rx[nrx].r = v; nrx++; } return v ? 0 : REG_NOMATCH;
}
size_t m_regerror(int, const regex_t*, char* b, size_t n) { if (n) b[0] = 0; return 1; }
// ---- libarchive
struct ArEntry { PkgEntry* e; char* path; char* hl; };
struct Ar { PkgArchive* a; int pos; ArEntry cur; size_t roff; int err; };
struct archive* m_archive_read_new(void) { Ar* a = (Ar*)malloc(sizeof(Ar)); memset(a, 0, sizeof *a); return (struct archive*)a; }
#define OKF(n) int n(struct archive*) { return ARCHIVE_OK; }
OKF(m_archive_read_support_filter_bzip2) OKF(m_archive_read_support_filter_gzip) OKF(m_archive_read_support_filter_xz) OKF(m_archive_read_support_filter_zstd) OKF(m_archive_read_support_format_tar) OKF(m_archive_read_support_filter_all) OKF(m_archive_read_support_format_all)
int m_archive_read_open_filename(struct archive* x, const char* p, size_t) { Ar* a = (Ar*)x; Res r; Node* n = walk(env.cwd, p, true, &r, 0); if (!n) { a->err = ENOENT; return ARCHIVE_FATAL; } char* c = canonOf(r.parent, r.name, r.nlen); for (int i = env.nar; i-- > 0;) if (!strcmp(env.ar[i].path, c)) { a->a = &env.ar[i]; a->pos = -1; free(c); return ARCHIVE_OK; } free(c); a->err = -1; return ARCHIVE_FATAL; }
int m_archive_read_close(struct archive*) { return ARCHIVE_OK; }
int m_archive_read_free(struct archive* x) { Ar* a = (Ar*)x; free(a->cur.path); free(a->cur.hl); free(a); return ARCHIVE_OK; }
int m_archive_read_next_header(struct archive* x, struct archive_entry** e) { Ar* a = (Ar*)x; if (!a->a) return ARCHIVE_FATAL; if (a->a->cut && a->pos + 2 >= a->a->cut) return ARCHIVE_FATAL; if (a->pos + 1 >= a->a->n) return ARCHIVE_EOF; a->pos++; a->cur.e = &a->a->e[a->pos]; free(a->cur.path); a->cur.path = dup_(a->cur.e->path); free(a->cur.hl); a->cur.hl = a->cur.e->hardlink ? dup_(a->cur.e->hardlink) : nullptr; a->roff = 0; *e = (struct archive_entry*)&a->cur; return a->cur.e->warn ? ARCHIVE_WARN : ARCHIVE_OK; }
static bool cutHere(Ar* a) { return a->a->cut && a->a->mid && a->pos + 2 == a->a->cut; }
static PkgEntry* PE(struct archive_entry* e) { return ((ArEntry*)e)->e; }
const char* m_archive_entry_pathname(struct archive_entry* e) { return ((ArEntry*)e)->path; }
void m_archive_entry_set_pathname(struct archive_entry* e, const char* p) { ArEntry* x = (ArEntry*)e; char* n = dup_(p); free(x->path); x->path = n; }
unsigned m_archive_entry_mode(struct archive_entry* e) { return PE(e)->mode; }
long m_archive_entry_size(struct archive_entry* e) { return PE(e)->size; }
long m_archive_entry_uid(struct archive_entry* e) { return PE(e)->uid; } long m_archive_entry_gid(struct archive_entry* e) { return PE(e)->gid; }
long m_archive_entry_mtime(struct archive_entry*) { return 1000; }
unsigned m_archive_entry_filetype(struct archive_entry* e) { return PE(e)->mode & S_IFMT; }
const char* m_archive_entry_symlink(struct archive_entry* e) { return PE(e)->symlink; } const char* m_archive_entry_hardlink(struct archive_entry* e) { return ((ArEntry*)e)->hl; } void m_archive_entry_set_hardlink(struct archive_entry* e, const char* p) { ArEntry* x = (ArEntry*)e; char* n = p ? dup_(p) : nullptr; free(x->hl); x->hl = n; }
unsigned long m_archive_entry_rdevmajor(struct archive_entry* e) { return PE(e)->rdev >> 8; } unsigned long m_archive_entry_rdevminor(struct archive_entry* e) { return PE(e)->rdev & 255; }
ssize_t m_archive_read_data(struct archive* x, void* b, size_t n) { Ar* a = (Ar*)x; size_t k = a->cur.e->size - a->roff; if (cutHere(a)) { if (a->roff) return ARCHIVE_FATAL; k /= 2; } if (env.arShort) { unsigned v = sx_range("archive-read", 0, 2); if (v == 1) return ARCHIVE_FATAL; if (v == 2) k /= 2; } if (n > k) n = k; if (n) memcpy(b, (const char*)a->cur.e->data + a->roff, n); a->roff += n; return n; }
int m_archive_read_data_skip(struct archive*) { return ARCHIVE_OK; }
int m_archive_errno(struct archive* a) { return ((Ar*)a)->err; } const char* m_archive_error_string(struct archive*) { return "archive error"; }
int m_archive_read_extract(struct archive* x, struct archive_entry* ee, int flags) {
  Ar* a = (Ar*)x; PkgEntry* e = PE(ee); const char* path = ((ArEntry*)ee)->path; const char* hl = ((ArEntry*)ee)->hl;
  if (env_fault(F_EXTRACT, "extract")) { a->err = ENOSPC; return ARCHIVE_FAILED; }
  char t[1024]; size_t L = strlen(path); if (!L || L >= sizeof t) return ARCHIVE_FAILED; memcpy(t, path, L + 1); while (L > 1 && t[L - 1] == '/') t[--L] = 0;
  for (size_t i = 1; i < L; i++) if (t[i] == '/') { t[i] = 0; Res r; Node* n = walk(env.cwd, t, true, &r, 0); if (!n) { if (!r.parent || !r.nlen) return ARCHIVE_FAILED; mut("mkdir", canonOf(r.parent, r.name, r.nlen), nullptr, nullptr); attach(r.parent, r.name, r.nlen, mk(S_IFDIR | 0755)); } t[i] = '/'; }
  Res r; unsigned ty = e->mode & S_IFMT; Node* n = walk(env.cwd, t, false, &r, 0); if (!n && (!r.parent || !r.nlen)) return ARCHIVE_FAILED;
  if (n && n->islnk() && ty == S_IFDIR) { Node* tgt = walk(env.cwd, t, true, nullptr, 0); if (tgt && tgt->isdir()) return ARCHIVE_OK; }
  if (n && n->isdir() && ty == S_IFDIR) { if (flags & ARCHIVE_EXTRACT_PERM) { mut("chmod", canonOf(r.parent, r.name, r.nlen), nullptr, n); n->mode = e->mode; if (flags & ARCHIVE_EXTRACT_OWNER) { n->uid = e->uid; n->gid = e->gid; } } return ARCHIVE_OK; }
  if (n && (flags & ARCHIVE_EXTRACT_NO_OVERWRITE)) return ARCHIVE_OK;
  if (n && n->isdir() && n->ents) { a->err = ENOTEMPTY; return ARCHIVE_FAILED; }
  Node* c; if (hl) { c = walk(env.cwd, hl, false, nullptr, 0); if (!c) { a->err = ENOENT; return ARCHIVE_FAILED; } if (c->isdir()) { a->err = EPERM; return ARCHIVE_FAILED; } if (c == n) return ARCHIVE_OK; }
  if (n) { mut("unlink", canonOf(r.parent, r.name, r.nlen), nullptr, n); detach(r.parent, r.name, r.nlen); n->nlink--; }
  mut("extract", canonOf(r.parent, r.name, r.nlen), nullptr, nullptr);
  if (hl) c->nlink++; else { c = mk(e->mode); c->uid = (flags & ARCHIVE_EXTRACT_OWNER) ? e->uid : env.uid; c->gid = (flags & ARCHIVE_EXTRACT_OWNER) ? e->gid : env.uid; c->rdev = e->rdev;
    if (e->symlink) c->link = dup_(e->symlink); if (ty == S_IFREG) { c->data = (unsigned char*)malloc(e->size + 1); c->cap = e->size + 1; if (e->size) memcpy(c->data, e->data, e->size); c->size = e->size; c->dirty = true; } }
  attach(r.parent, r.name, r.nlen, c); if (cutHere(a) && ty == S_IFREG) { c->size /= 2; a->err = -1; return ARCHIVE_FATAL; } return ARCHIVE_OK;
}
}
