#pragma once
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <iterator>
#include <system_error>
#include <locale.h>
#include <time.h>
#include <pthread.h>
#include <cctype>
#include <new>
#include <exception>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
extern "C" void sx_console_write(int fd, const char* p, unsigned long n);
namespace std {
inline namespace __sx {
class ios_base {
public:
  typedef int openmode; typedef int fmtflags; typedef int iostate; typedef int seekdir;
  static constexpr int in = 1, out = 2, binary = 4, app = 8, trunc = 16, ate = 32;
  static constexpr int beg = 0, cur = 1, end = 2;
  static constexpr int goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr int left = 1, right = 2, internal = 4, adjustfield = 7, dec = 8, hex = 16, oct = 32, basefield = 56,
    fixed = 64, scientific = 128, floatfield = 192, boolalpha = 256, showbase = 512, uppercase = 1024, skipws = 2048, unitbuf = 4096, showpos = 8192;
  struct failure {};
  class Init { public: Init() {} };
  int flags() const { return fl; } int flags(int f) { int o = fl; fl = f; return o; }
  int setf(int f) { int o = fl; fl |= f; return o; } int setf(int f, int m) { int o = fl; fl = (fl & ~m) | (f & m); return o; } void unsetf(int f) { fl &= ~f; }
  streamsize width() const { return wd; } streamsize width(streamsize w) { streamsize o = wd; wd = w; return o; }
  streamsize precision() const { return pr; } streamsize precision(streamsize w) { streamsize o = pr; pr = w; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
protected:
  int fl = dec | skipws; streamsize wd = 0, pr = 6;
};
template <typename C, typename T> class basic_streambuf {
public:
  typedef C char_type; typedef T traits_type; typedef int int_type; typedef long off_type; typedef long pos_type;
  virtual ~basic_streambuf() {}
  streamsize sputn(const C* p, streamsize n) { return xsputn(p, n); }
  int sputc(C c) { return xsputn(&c, 1) == 1 ? (unsigned char)c : -1; }
  int sgetc() { return underflow(); }
  int sbumpc() { return uflow(); }
  int snextc() { return sbumpc() == -1 ? -1 : sgetc(); }
  streamsize sgetn(C* p, streamsize n) { return xsgetn(p, n); }
  int pubsync() { return sync(); }
  long pubseekoff(long o, int d, int w = 3) { return seekoff(o, d, w); }
  long pubseekpos(long o, int w = 3) { return seekoff(o, 0, w); }
  long in_avail() { return 0; }
protected:
  virtual streamsize xsputn(const C*, streamsize) { return 0; }
  virtual streamsize xsgetn(C* p, streamsize n) { streamsize i = 0; for (; i < n; i++) { int c = uflow(); if (c == -1) break; p[i] = (C)c; } return i; }
  virtual int underflow() { return -1; } virtual int uflow() { return -1; } virtual int sync() { return 0; }
  virtual long seekoff(long, int, int) { return -1; }
};
template <typename C, typename T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef long pos_type; typedef long off_type;
  explicit basic_ios(basic_streambuf<C, T>* b = nullptr) { init(b); }
  basic_ios(const basic_ios&) = delete;
  virtual ~basic_ios() {}
  void init(basic_streambuf<C, T>* b) { sb = b; st = b ? 0 : badbit; fc = ' '; }
  int rdstate() const { return st; } void clear(int s = 0) { st = s; } void setstate(int s) { st |= s; } void _M_setstate(int s) { st |= s; }
  bool good() const { return st == 0; } bool eof() const { return st & eofbit; } bool fail() const { return st & (badbit | failbit); } bool bad() const { return st & badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  C widen(char c) const { return c; } char narrow(C c, char) const { return c; }
  C fill() const { return fc; } C fill(C c) { C o = fc; fc = c; return o; }
  basic_streambuf<C, T>* rdbuf() const { return sb; }
  basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto* o = sb; sb = b; st = b ? 0 : badbit; return o; }
  void exceptions(int) {} int exceptions() const { return 0; }
  basic_ios& copyfmt(const basic_ios& o) { fl = o.fl; wd = o.wd; pr = o.pr; fc = o.fc; return *this; }
  void tie(void*) {}
protected:
  basic_streambuf<C, T>* sb; int st; C fc;
};
template <typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; typedef T traits_type;
  explicit basic_ostream(basic_streambuf<C, T>* b) : basic_ios<C, T>(b) {}
  basic_ostream() : basic_ios<C, T>(nullptr) {}
  class sentry { basic_ostream& o; public: explicit sentry(basic_ostream& s) : o(s) {} explicit operator bool() const { return o.good(); } };
  basic_ostream& put(C c) { if (this->good() && this->rdbuf()->sputc(c) == -1) this->setstate(ios_base::badbit); return *this; }
  basic_ostream& write(const C* p, streamsize n) { if (this->good() && this->rdbuf()->sputn(p, n) != n) this->setstate(ios_base::badbit); return *this; }
  basic_ostream& flush() { if (this->rdbuf() && this->rdbuf()->pubsync() == -1) this->setstate(ios_base::badbit); return *this; }
  basic_ostream& seekp(long o, int d = 0) { if (!this->fail()) this->rdbuf()->pubseekoff(o, d, 2); return *this; }
  long tellp() { return this->fail() ? -1 : this->rdbuf()->pubseekoff(0, 1, 2); }
  basic_ostream& padded(const C* p, streamsize n) {
    if (!this->good()) { this->width(0); return *this; }
    streamsize w = this->width(), k = w > n ? w - n : 0; bool l = (this->flags() & ios_base::adjustfield) == ios_base::left;
    if (!l) for (streamsize i = 0; i < k; i++) put(this->fill());
    write(p, n);
    if (l) for (streamsize i = 0; i < k; i++) put(this->fill());
    this->width(0); return *this;
  }
  basic_ostream& num(unsigned long v, bool neg) {
    char b[72]; int i = 72; unsigned base = (this->flags() & ios_base::basefield) == ios_base::hex ? 16 : (this->flags() & ios_base::basefield) == ios_base::oct ? 8 : 10;
    bool up = this->flags() & ios_base::uppercase;
    do { unsigned d = (unsigned)(v % base); b[--i] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; v /= base; } while (v);
    if (neg) b[--i] = '-'; else if ((this->flags() & ios_base::showpos) && base == 10) b[--i] = '+';
    return padded(b + i, 72 - i);
  }
  bool dec_() const { return !(this->flags() & (ios_base::hex | ios_base::oct)); }
  basic_ostream& operator<<(int v) { return dec_() && v < 0 ? num(0ul - (long)v, true) : num((unsigned)v, false); }
  basic_ostream& operator<<(unsigned v) { return num(v, false); }
  basic_ostream& operator<<(long v) { return dec_() && v < 0 ? num(0ul - v, true) : num(v, false); }
  basic_ostream& operator<<(unsigned long v) { return num(v, false); }
  basic_ostream& operator<<(long long v) { return *this << (long)v; }
  basic_ostream& operator<<(unsigned long long v) { return num(v, false); }
  basic_ostream& operator<<(short v) { return dec_() ? *this << (int)v : num((unsigned short)v, false); }
  basic_ostream& operator<<(unsigned short v) { return num(v, false); }
  basic_ostream& operator<<(bool v) { if (this->flags() & ios_base::boolalpha) return v ? padded("true", 4) : padded("false", 5); return num(v, false); }
  basic_ostream& operator<<(double v) { char b[400]; int n = (this->flags() & ios_base::floatfield) == ios_base::fixed ? snprintf(b, sizeof b, "%.*f", (int)this->precision(), v) : snprintf(b, sizeof b, "%.*g", (int)this->precision(), v); return padded(b, n); }
  basic_ostream& operator<<(float v) { return *this << (double)v; }
  basic_ostream& operator<<(const void* p) { return num((unsigned long)p, false); }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_ostream& operator<<(basic_streambuf<C, T>* b) { int c; while ((c = b->sbumpc()) != -1) put((C)c); return *this; }
};
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o.padded(s, strlen(s)); }
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o.padded(&c, 1); }
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char x = c; return o.padded(&x, 1); }
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char x = c; return o.padded(&x, 1); }
template <typename C, typename T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put('\n'); return o.flush(); }
template <typename C, typename T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put(0); }
template <typename C, typename T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o.flush(); }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
struct _Setw { int n; }; struct _Setfill { char c; }; struct _Setprec { int n; };
inline _Setw setw(int n) { return {n}; } inline _Setfill setfill(char c) { return {c}; } inline _Setprec setprecision(int n) { return {n}; }
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, _Setw s) { o.width(s.n); return o; }
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, _Setfill s) { o.fill(s.c); return o; }
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, _Setprec s) { o.precision(s.n); return o; }

template <typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
protected:
  streamsize gc = 0;
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
  explicit basic_istream(basic_streambuf<C, T>* b) : basic_ios<C, T>(b) {}
  basic_istream() : basic_ios<C, T>(nullptr) {}
  void _gc(streamsize n) { gc = n; }
  streamsize gcount() const { return gc; }
  int get() { gc = 0; if (!this->good()) { this->setstate(ios_base::failbit); return -1; } int c = this->rdbuf()->sbumpc(); if (c == -1) this->setstate(ios_base::eofbit | ios_base::failbit); else gc = 1; return c; }
  basic_istream& get(C& c) { int k = get(); if (k != -1) c = (C)k; return *this; }
  int peek() { if (!this->good()) return -1; int c = this->rdbuf()->sgetc(); if (c == -1) this->setstate(ios_base::eofbit); return c; }
  basic_istream& read(C* p, streamsize n) { gc = 0; if (!this->good()) { this->setstate(ios_base::failbit); return *this; } gc = this->rdbuf()->sgetn(p, n); if (gc != n) this->setstate(ios_base::eofbit | ios_base::failbit); return *this; }
  basic_istream& ignore(streamsize n = 1, int delim = -1) { gc = 0; while (this->good() && n-- > 0) { int c = this->rdbuf()->sbumpc(); if (c == -1) { this->setstate(ios_base::eofbit); break; } gc++; if (c == delim) break; } return *this; }
  basic_istream& getline(C* p, streamsize n, C d = '\n') { gc = 0; streamsize i = 0; if (!this->good()) { this->setstate(ios_base::failbit); if (n) p[0] = 0; return *this; }
    for (;;) { int c = this->rdbuf()->sgetc(); if (c == -1) { this->setstate(ios_base::eofbit); break; } if ((C)c == d) { this->rdbuf()->sbumpc(); gc++; break; } if (i + 1 >= n) { this->setstate(ios_base::failbit); break; } p[i++] = (C)c; this->rdbuf()->sbumpc(); gc++; }
    if (n) p[i] = 0; if (!gc) this->setstate(ios_base::failbit); return *this; }
  basic_istream& seekg(long o, int d) { this->clear(this->rdstate() & ~ios_base::eofbit); if (!this->fail() && this->rdbuf()->pubseekoff(o, d, 1) == -1) this->setstate(ios_base::failbit); return *this; }
  basic_istream& seekg(long o) { return seekg(o, 0); }
  long tellg() { return this->fail() ? -1 : this->rdbuf()->pubseekoff(0, 1, 1); }
  void skip() { if (this->flags() & ios_base::skipws) for (;;) { int c = this->rdbuf()->sgetc(); if (c == ' ' || (c >= 9 && c <= 13)) this->rdbuf()->sbumpc(); else break; } }
  template <typename I> basic_istream& rdint(I& v) { if (!this->good()) { this->setstate(ios_base::failbit); return *this; } skip(); bool neg = false, any = false; unsigned long r = 0; int c = this->rdbuf()->sgetc();
    if (c == '-' || c == '+') { neg = c == '-'; this->rdbuf()->sbumpc(); c = this->rdbuf()->sgetc(); }
    unsigned base = (this->flags() & ios_base::hex) ? 16 : 10;
    for (;;) { int d = c >= '0' && c <= '9' ? c - '0' : base == 16 && c >= 'a' && c <= 'f' ? c - 'a' + 10 : base == 16 && c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) break; any = true; r = r * base + d; this->rdbuf()->sbumpc(); c = this->rdbuf()->sgetc(); }
    if (c == -1) this->setstate(ios_base::eofbit); if (!any) { v = 0; this->setstate(ios_base::failbit); } else v = (I)(neg ? 0 - r : r); return *this; }
  basic_istream& operator>>(int& v) { return rdint(v); } basic_istream& operator>>(unsigned& v) { return rdint(v); }
  basic_istream& operator>>(long& v) { return rdint(v); } basic_istream& operator>>(unsigned long& v) { return rdint(v); }
  basic_istream& operator>>(short& v) { return rdint(v); } basic_istream& operator>>(unsigned short& v) { return rdint(v); }
  basic_istream& operator>>(long long& v) { return rdint(v); } basic_istream& operator>>(unsigned long long& v) { return rdint(v); }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
  basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
};
template <typename T> basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char& c) { if (i.good()) { i.skip(); i.get(c); } else i.setstate(ios_base::failbit); return i; }
template <typename C, typename T> basic_istream<C, T>& ws(basic_istream<C, T>& i) { if (i.good()) { i.setf(ios_base::skipws); i.skip(); } return i; }
template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
public: explicit basic_iostream(basic_streambuf<C, T>* b) : basic_ios<C, T>(b), basic_istream<C, T>(b), basic_ostream<C, T>(b) {} };

template <typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> {
public:
  basic_stringbuf(int = 3) {} basic_stringbuf(const std::string& s, int m = 3) : d(s) { if (m & ios_base::ate) w = d.size(); }
  std::string str() const { return d; } void str(const std::string& s) { d = s; r = w = 0; }
protected:
  streamsize xsputn(const C* p, streamsize n) override { if (w == d.size()) d.append(p, n); else d.replace(w, n, p, n); w += n; return n; }
  int underflow() override { return r < d.size() ? (unsigned char)d[r] : -1; } int uflow() override { return r < d.size() ? (unsigned char)d[r++] : -1; }
  long seekoff(long o, int dir, int wh) override { long base = dir == 0 ? 0 : dir == 1 ? (wh & 1 ? r : w) : d.size(); long n = base + o; if (n < 0 || n > (long)d.size()) return -1; if (wh & 1) r = n; if (wh & 2) w = n; return n; }
  std::string d; size_t r = 0, w = 0;
};
template <typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> { basic_stringbuf<C, T, A> b;
public: basic_ostringstream(int m = 2) : basic_ios<C, T>(nullptr), basic_ostream<C, T>(nullptr), b(m) { this->init(&b); } basic_ostringstream(const std::string& s, int m = 2) : basic_ios<C, T>(nullptr), basic_ostream<C, T>(nullptr), b(s, m) { this->init(&b); }
  std::string str() const { return b.str(); } void str(const std::string& s) { b.str(s); } };
template <typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> { basic_stringbuf<C, T, A> b;
public: basic_istringstream(int m = 1) : basic_ios<C, T>(nullptr), basic_istream<C, T>(nullptr), b(m) { this->init(&b); } basic_istringstream(const std::string& s, int m = 1) : basic_ios<C, T>(nullptr), basic_istream<C, T>(nullptr), b(s, m) { this->init(&b); }
  std::string str() const { return b.str(); } void str(const std::string& s) { b.str(s); } };
template <typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> { basic_stringbuf<C, T, A> b;
public: basic_stringstream(int m = 3) : basic_ios<C, T>(nullptr), basic_iostream<C, T>(nullptr), b(m) { this->init(&b); } basic_stringstream(const std::string& s, int m = 3) : basic_ios<C, T>(nullptr), basic_iostream<C, T>(nullptr), b(s, m) { this->init(&b); }
  std::string str() const { return b.str(); } void str(const std::string& s) { b.str(s); } };

template <typename C, typename T> class basic_filebuf : public basic_streambuf<C, T> {
protected:
  int fd = -1; bool own = true, wr = false, err = false; std::string wb; char rb[512]; long rp = 0, rn = 0;
  bool flushw() { size_t o = 0; while (o < wb.size()) { long k = ::write(fd, wb.data() + o, wb.size() - o); if (k <= 0) { err = true; wb.clear(); return false; } o += k; } wb.clear(); return true; }
public:
  basic_filebuf() {} ~basic_filebuf() { close(); }
  bool is_open() const { return fd >= 0; }
  basic_filebuf* open(const char* n, int m) { if (fd >= 0) return nullptr; int f;
    if ((m & ios_base::in) && (m & ios_base::out)) f = O_RDWR | ((m & ios_base::trunc) ? O_CREAT | O_TRUNC : 0) | ((m & ios_base::app) ? O_CREAT | O_APPEND : 0);
    else if (m & (ios_base::out | ios_base::app)) f = O_WRONLY | O_CREAT | ((m & ios_base::app) ? O_APPEND : O_TRUNC); else f = O_RDONLY;
    fd = ::open(n, f, 0666); rp = rn = 0; if (fd >= 0 && (m & ios_base::ate)) ::lseek(fd, 0, SEEK_END); return fd >= 0 ? this : nullptr; }
  basic_filebuf* close() { if (fd < 0) return nullptr; bool ok = flushw(); int r = own || true ? ::close(fd) : 0; fd = -1; return ok && r == 0 ? this : nullptr; }
protected:
  streamsize xsputn(const C* p, streamsize n) override { if (fd < 0) return 0; wb.append(p, n); if (wb.size() >= 8191) if (!flushw()) return 0; return n; }
  int fillr() { if (fd < 0) return 0; if (!wb.empty()) flushw(); rn = ::read(fd, rb, sizeof rb); rp = 0; if (rn < 0) rn = 0; return rn > 0; }
  int underflow() override { if (rp >= rn && !fillr()) return -1; return (unsigned char)rb[rp]; }
  int uflow() override { if (rp >= rn && !fillr()) return -1; return (unsigned char)rb[rp++]; }
  streamsize xsgetn(C* p, streamsize n) override { streamsize k = 0; while (k < n) { if (rp >= rn && !fillr()) break; streamsize m = rn - rp < n - k ? rn - rp : n - k; memcpy(p + k, rb + rp, m); rp += m; k += m; } return k; }
  int sync() override { return fd >= 0 && !wb.empty() ? (flushw() ? 0 : -1) : 0; }
  long seekoff(long o, int d, int) override { if (fd < 0) return -1; if (!wb.empty()) flushw(); if (d == 1 && o == 0) return ::lseek(fd, 0, SEEK_CUR) - (rn - rp);
    if (d == 1) o -= rn - rp; rp = rn = 0; return ::lseek(fd, o, d == 0 ? SEEK_SET : d == 1 ? SEEK_CUR : SEEK_END); }
};
#define SX_FSTREAM(NAME, BASE, FORCE) template <typename C, typename T> class NAME : public BASE<C, T> { basic_filebuf<C, T> b; \
public: NAME() : basic_ios<C, T>(nullptr), BASE<C, T>(nullptr) { this->init(&b); } \
  explicit NAME(const char* n, int m = FORCE) : basic_ios<C, T>(nullptr), BASE<C, T>(nullptr) { this->init(&b); open(n, m); } \
  explicit NAME(const std::string& n, int m = FORCE) : basic_ios<C, T>(nullptr), BASE<C, T>(nullptr) { this->init(&b); open(n.c_str(), m); } \
  bool is_open() const { return b.is_open(); } \
  void open(const char* n, int m = FORCE) { if (!b.open(n, m | FORCE##_F)) this->setstate(ios_base::failbit); else this->clear(); } \
  void open(const std::string& n, int m = FORCE) { open(n.c_str(), m); } \
  void close() { if (!b.close()) this->setstate(ios_base::failbit); } \
  basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&b); } };
#define SXI ios_base::in
#define SXI_F ios_base::in
#define SXO ios_base::out
#define SXO_F ios_base::out
#define SXIO (ios_base::in | ios_base::out)
#define SXIO_F 0
#define SX_IO_DFLT SXIO
SX_FSTREAM(basic_ifstream, basic_istream, SXI)
SX_FSTREAM(basic_ofstream, basic_ostream, SXO)
template <typename C, typename T> class basic_fstream : public basic_iostream<C, T> { basic_filebuf<C, T> b;
public: basic_fstream() : basic_ios<C, T>(nullptr), basic_iostream<C, T>(nullptr) { this->init(&b); }
  explicit basic_fstream(const std::string& n, int m = 3) : basic_ios<C, T>(nullptr), basic_iostream<C, T>(nullptr) { this->init(&b); open(n, m); }
  void open(const std::string& n, int m = 3) { if (!b.open(n.c_str(), m)) this->setstate(ios_base::failbit); else this->clear(); }
  bool is_open() const { return b.is_open(); } void close() { if (!b.close()) this->setstate(ios_base::failbit); } };
template <typename C, typename T> class _Console : public basic_streambuf<C, T> { int fd; public: explicit _Console(int f) : fd(f) {}
protected: streamsize xsputn(const C* p, streamsize n) override { sx_console_write(fd, p, n); return n; } };
extern ostream cout, cerr, clog; extern istream cin;
}
template <> basic_istream<char>& getline(basic_istream<char>&, basic_string<char>&, char);
template <> basic_istream<char>& operator>>(basic_istream<char>&, basic_string<char>&);
}
