// Plain C library functions for the IR build (the native replay uses glibc's). Compiled -ffreestanding.
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include "sx.h"
extern "C" {
void* malloc(size_t); void free(void*); void* memcpy(void*, const void*, size_t); void* memset(void*, int, size_t); size_t strlen(const char*); void* memmove(void*, const void*, size_t);
int memcmp(const void*, const void*, size_t);
static int sx_errno_;
int* __errno_location(void) { return &sx_errno_; }
void* __dso_handle = 0;
int strcmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isalpha(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int isgraph(int c) { return (c > 32) & (c < 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char* strcpy(char* d, const char* s) { memcpy(d, s, strlen(s) + 1); return d; }
char* stpcpy(char* d, const char* s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
void* memchr(const void* p, int c, size_t n) { const unsigned char* q = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void*)(q + i); return 0; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* q = (const unsigned char*)p; while (n--) if (q[n] == (unsigned char)c) return (void*)(q + n); return 0; }
void* rawmemchr(const void* p, int c) { const unsigned char* q = (const unsigned char*)p; while (*q != (unsigned char)c) q++; return (void*)q; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strchrnul(const char* s, int c) { for (;; s++) if (*s == (char)c || !*s) return (char*)s; }
char* strrchr(const char* s, int c) { size_t n = strlen(s) + 1; while (n--) if (s[n] == (char)c) return (char*)s + n; return 0; }
char* strstr(const char* h, const char* n) { size_t k = strlen(n), m = strlen(h); for (size_t i = 0; i + k <= m; i++) if (!memcmp(h + i, n, k)) return (char*)h + i; return 0; }
void* memmem(const void* h, size_t m, const void* n, size_t k) { for (size_t i = 0; i + k <= m; i++) if (!memcmp((const char*)h + i, n, k)) return (char*)h + i; return 0; }
size_t strspn(const char* s, const char* a) { size_t i = 0; while (s[i] && strchr(a, s[i])) i++; return i; }
size_t strcspn(const char* s, const char* a) { size_t i = 0; while (s[i] && !strchr(a, s[i])) i++; return i; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
static char* tokSave;
char* strtok_r(char* s, const char* d, char** sv) { if (!s) s = *sv; if (!s) return 0; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char* e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = e; return s; }
char* strtok(char* s, const char* d) { return strtok_r(s, d, &tokSave); }
char* strsep(char** sp, const char* d) { char* s = *sp; if (!s) return 0; char* e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
char* strcasestr(const char* h, const char* n) { size_t k = strlen(n), m = strlen(h); for (size_t i = 0; i + k <= m; i++) if (!strncasecmp(h + i, n, k)) return (char*)h + i; return 0; }
int pthread_mutex_lock(void*) { return 0; } int pthread_mutex_unlock(void*) { return 0; } int pthread_mutex_trylock(void*) { return 0; }
double strtod(const char* s, char** e) { const char* p = s; while (isspace((unsigned char)*p)) p++; bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++; double v = 0; bool any = false; while (isdigit((unsigned char)*p)) { v = v * 10 + (*p++ - '0'); any = true; } if (*p == '.') { p++; double f = 0.1; while (isdigit((unsigned char)*p)) { v += f * (*p++ - '0'); f /= 10; any = true; } } if (e) *e = (char*)(any ? p : s); return neg ? -v : v; }
double atof(const char* s) { return strtod(s, 0); }
char* strdup(const char* s) { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
char* strndup(const char* s, size_t k) { size_t n = strnlen(s, k); char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
char* strerror(int) { return (char*)"error"; }
int abs(int v) { return v < 0 ? -v : v; }
static unsigned long strtox(const char* s, char** e, int base, bool sgn, unsigned long maxp, unsigned long maxn) {
  const char* p = s; while (isspace((unsigned char)*p)) p++; bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, ov = false;
  for (;; p++) { int c = (unsigned char)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; any = true;
    unsigned long hi = ~0ul / base; if (v > hi || (v == hi && (unsigned long)d > ~0ul % base)) ov = true; else v = v * base + d; }
  if (e) *e = (char*)(any ? p : s);
  if (!any) return 0;
  if (sgn) { if (ov || v > (neg ? maxn : maxp)) { *__errno_location() = 34; return neg ? 0 - maxn : maxp; } } else if (ov) { *__errno_location() = 34; return ~0ul; }
  return neg ? 0 - v : v;
}
long strtol(const char* s, char** e, int b) { return (long)strtox(s, e, b, true, 0x7ffffffffffffffful, 0x8000000000000000ul); }
unsigned long strtoul(const char* s, char** e, int b) { return strtox(s, e, b, false, 0, 0); }
long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
void qsort(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*)) { char* b = (char*)base; char t[512]; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * w, b + j * w) > 0; j--) { memcpy(t, b + j * w, w); memcpy(b + j * w, b + (j - 1) * w, w); memcpy(b + (j - 1) * w, t, w); } }
struct Out { char* p; size_t n, len; };
static void oc(Out* o, char c) { if (o->len + 1 < o->n) o->p[o->len] = c; o->len++; }
static void pad(Out* o, char c, int k) { while (k-- > 0) oc(o, c); }
int vsnprintf(char* buf, size_t size, const char* f, va_list ap) {
  Out o = {buf, size, 0};
  for (; *f; f++) {
    if (*f != '%') { oc(&o, *f); continue; }
    f++; bool left = false, zero = false, plus = false, space = false, alt = false;
    for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
    int w = 0, pr = -1; if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = true; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
    if (*f == '.') { f++; pr = 0; if (*f == '*') { pr = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') pr = pr * 10 + *f++ - '0'; }
    int l = 0; while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { l = 2; f++; } while (*f == 'h') { l--; f++; }
    char c = *f;
    if (c == '%') { oc(&o, '%'); continue; }
    if (c == 'c') { char ch = (char)va_arg(ap, int); if (!left) pad(&o, ' ', w - 1); oc(&o, ch); if (left) pad(&o, ' ', w - 1); continue; }
    if (c == 's') { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; int n = 0; while ((pr < 0 || n < pr) && s[n]) n++; if (!left) pad(&o, ' ', w - n); for (int i = 0; i < n; i++) oc(&o, s[i]); if (left) pad(&o, ' ', w - n); continue; }
    if (c == 'f' || c == 'g' || c == 'F') { double d = va_arg(ap, double); if (pr < 0) pr = 6; char t[80]; int n = 0; bool neg = d < 0; if (neg) d = -d; unsigned long p10 = 1; for (int i = 0; i < pr; i++) p10 *= 10; 
      double sc = d * (double)p10; unsigned long v = (unsigned long)sc; double fr = sc - (double)v; if (fr > 0.5 || (fr == 0.5 && (v & 1))) v++;
      for (int i = 0; i < pr; i++) { t[n++] = '0' + v % 10; v /= 10; } if (pr) t[n++] = '.'; do { t[n++] = '0' + v % 10; v /= 10; } while (v); if (neg) t[n++] = '-'; else if (plus) t[n++] = '+';
      if (!left) pad(&o, zero ? '0' : ' ', w - n); while (n) oc(&o, t[--n]); if (left) pad(&o, ' ', w - (int)n); continue; }
    unsigned long v; bool neg = false; unsigned base = 10;
    if (c == 'd' || c == 'i') { long s = l >= 1 ? va_arg(ap, long) : (long)va_arg(ap, int); if (l == -1) s = (short)s; if (l < -1) s = (signed char)s; neg = s < 0; v = neg ? 0ul - (unsigned long)s : s; }
    else if (c == 'p') { v = (unsigned long)va_arg(ap, void*); base = 16; alt = true; }
    else { v = l >= 1 ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); if (l == -1) v = (unsigned short)v; if (l < -1) v = (unsigned char)v; base = c == 'x' || c == 'X' ? 16 : c == 'o' ? 8 : 10; }
    char t[80]; int n = 0; do { unsigned d = v % base; t[n++] = d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v);
    while (pr >= 0 && n < pr) t[n++] = '0';
    char pre[3]; int np = 0; if (neg) pre[np++] = '-'; else if (plus && base == 10) pre[np++] = '+'; else if (space && base == 10) pre[np++] = ' '; if (alt && base == 16) { pre[np++] = '0'; pre[np++] = 'x'; }
    if (zero && !left && pr < 0) { for (int i = 0; i < np; i++) oc(&o, pre[i]); np = 0; pad(&o, '0', w - n); w = 0; }
    if (!left) pad(&o, ' ', w - n - np); for (int i = 0; i < np; i++) oc(&o, pre[i]); int m = n; while (n) oc(&o, t[--n]); if (left) pad(&o, ' ', w - m - np);
  }
  if (size) buf[o.len < size ? o.len : size - 1] = 0;
  return (int)o.len;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1ul << 30, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 1ul << 30, f, ap); }
int vasprintf(char** o, const char* f, va_list ap) { char t[4096]; int r = vsnprintf(t, sizeof t, f, ap); *o = strdup(t); return r; }
int asprintf(char** o, const char* f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(o, f, ap); va_end(ap); return r; }
int vsscanf(const char* s, const char* f, va_list ap) {
  int got = 0; const char* s0 = s;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return *s || got ? got : -1; s++; continue; }
    f++; bool sup = false; if (*f == '*') { sup = true; f++; } int w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0'; int l = 0; while (*f == 'l' || *f == 'z' || *f == 'j') { l++; f++; } while (*f == 'h') { l--; f++; }
    char c = *f; if (c == '%') { if (*s != '%') return got; s++; continue; }
    if (c == 'n') { *va_arg(ap, int*) = (int)(s - s0); continue; }
    if (c == 'c') { if (!*s) return got ? got : -1; int k = w ? w : 1; char* d = sup ? 0 : va_arg(ap, char*); for (int i = 0; i < k; i++) { if (!*s) return got; if (d) d[i] = *s; s++; } if (d) got++; continue; }
    if (c == '[') { f++; bool inv = false; if (*f == '^') { inv = true; f++; } const char* set = f; if (*f == ']') f++; while (*f && *f != ']') f++; const char* se = f; char* d = sup ? 0 : va_arg(ap, char*); int n = 0;
      while (*s && (!w || n < w)) { bool in = false; for (const char* q = set; q < se; q++) { if (q + 2 < se && q[1] == '-') { if (*s >= q[0] && *s <= q[2]) in = true; q += 2; } else if (*q == *s) in = true; } if (in == inv) break; if (d) d[n] = *s; n++; s++; } if (!n) return got; if (d) { d[n] = 0; got++; } continue; }
    while (isspace((unsigned char)*s)) s++; if (!*s) return got ? got : -1;
    if (c == 's') { char* d = sup ? 0 : va_arg(ap, char*); int n = 0; while (*s && !isspace((unsigned char)*s) && (!w || n < w)) { if (d) d[n] = *s; n++; s++; } if (d) { d[n] = 0; got++; } continue; }
    int base = c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : c == 'i' ? 0 : 10; char t[72]; int n = 0; while (n < 70 && s[n] && (!w || n < w)) { t[n] = s[n]; n++; } t[n] = 0; char* e; unsigned long v = c == 'd' || c == 'i' ? (unsigned long)strtol(t, &e, base) : strtoul(t, &e, base); if (e == t) return got; s += e - t;
    if (!sup) { if (l >= 1) *va_arg(ap, unsigned long*) = v; else if (l == -1) *va_arg(ap, unsigned short*) = (unsigned short)v; else if (l < -1) *va_arg(ap, unsigned char*) = (unsigned char)v; else *va_arg(ap, unsigned*) = (unsigned)v; got++; }
  }
  return got;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
char* dirname(char* p) { if (!p || !*p) return (char*)"."; size_t i = strlen(p) - 1; for (; p[i] == '/'; i--) if (!i) return (char*)"/"; for (; p[i] != '/'; i--) if (!i) return (char*)"."; for (; p[i] == '/'; i--) if (!i) return (char*)"/"; p[i + 1] = 0; return p; }
char* __xpg_basename(char* s) { if (!s || !*s) return (char*)"."; size_t i = strlen(s) - 1; for (; i && s[i] == '/'; i--) s[i] = 0; for (; i && s[i - 1] != '/'; i--); return s + i; }
char* basename(const char* s) { char* p = strrchr(s, '/'); return p ? p + 1 : (char*)s; }
}
