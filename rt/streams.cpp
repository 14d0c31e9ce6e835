// Explicit instantiations and console objects of the stand-in stream library (IR and native builds).
#include <iostream>
#include <bits/ostream_insert.h>
namespace std {
template ostream& __ostream_insert(ostream&, const char*, streamsize);
template ostream& operator<<(ostream&, const string&);
inline namespace __sx {
__attribute__((init_priority(101))) static _Console<char, char_traits<char>> k1(1), k2(2);
__attribute__((init_priority(102))) ostream cout(&k1), cerr(&k2), clog(&k2);
__attribute__((init_priority(102))) istream cin(nullptr);
}
template <> istream& getline(istream& i, string& s, char d) {
  s.clear(); if (!i.good()) { i.setstate(ios_base::failbit); return i; }
  bool any = false;
  for (;;) { int c = i.rdbuf()->sbumpc(); if (c == -1) { i.setstate(ios_base::eofbit); break; } any = true; if ((char)c == d) return i; s += (char)c; }
  if (!any) i.setstate(ios_base::failbit);
  return i;
}
template <> istream& operator>>(istream& i, string& s) {
  s.clear(); if (!i.good()) { i.setstate(ios_base::failbit); return i; } i.skip();
  long w = i.width(); for (;;) { int c = i.rdbuf()->sgetc(); if (c == -1) { i.setstate(ios_base::eofbit); break; } if (c == ' ' || (c >= 9 && c <= 13)) break; s += (char)c; i.rdbuf()->sbumpc(); if (w && (long)s.size() >= w) break; }
  i.width(0); if (s.empty()) i.setstate(ios_base::failbit); return i;
}
}
