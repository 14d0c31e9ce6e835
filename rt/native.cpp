// Native side of a replay: feeds the recorded inputs to the real code, compiled natively with AddressSanitizer.
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <regex.h>
#include <unistd.h>
extern "C" void harness();
struct In { std::string n; int w; uint64_t v; };
static std::vector<In> ins; static size_t pos; static std::map<std::string, uint64_t> params;
static std::vector<std::string> traces; static bool diverged; static int fails;
static void outl(const char* a, const char* b, const char* c) { std::string s = std::string(a) + b + c + "\n"; (void)!::write(1, s.data(), s.size()); }
static void done() { for (auto& t : traces) outl("tr ", t.c_str(), ""); outl(diverged ? "DIVERGED" : "COMPLETE", "", ""); _exit(fails ? 77 : diverged ? 78 : 0); }
extern "C" {
uint64_t sx_sym(const char* name, int bits) {
  if (pos < ins.size() && ins[pos].n == name) { uint64_t v = ins[pos++].v; return bits < 64 ? v & ((1ull << bits) - 1) : v; }
  if (pos >= ins.size()) { diverged = true; return 0; }
  diverged = true; outl("DIVERGE wanted ", name, (" recorded " + ins[pos].n).c_str());
  return 0;
}
void sx_sym_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)sx_sym((std::string(name) + "[" + std::to_string(i) + "]").c_str(), 8); }
void sx_assume(int c) { if (!c) { outl("ASSUME-FAIL", "", ""); done(); } }
void sx_assert_(int c, const char* tag, const char* msg) { if (!c) { fails++; outl("ASSERT-FAIL ", tag, (std::string(" ") + msg).c_str()); } }
void sx_fail_(const char* tag, const char* msg) { sx_assert_(0, tag, msg); }
void sx_witness(int) {}
void sx_trace_(const char* n, uint64_t v) { traces.push_back(std::string(n) + " " + std::to_string(v)); }
uint64_t sx_concretize(uint64_t v) { return v; }
int sx_is_symbolic(uint64_t) { return 0; }
uint64_t sx_param(const char* n, uint64_t d) { auto i = params.find(n); return i == params.end() ? d : i->second; }
void sx_done(void) { done(); _exit(0); }
void sx_puts(const char* s) { outl("# ", s, ""); }
static std::map<std::string, regex_t> rxc;
static regex_t* rxOf(const char* p, int fl) { std::string k = std::to_string(fl) + p; auto i = rxc.find(k); if (i != rxc.end()) return &i->second; regex_t r; if (regcomp(&r, p, fl)) return nullptr; return &(rxc[k] = r); }
int sx_host_regcomp(const char* p, int fl) { regex_t r; int e = regcomp(&r, p, fl); if (!e) regfree(&r); return e; }
int sx_host_regmatch(const char* p, const char* s, int fl) { regex_t* r = rxOf(p, fl); return r && regexec(r, s, 0, nullptr, 0) == 0; }
void sx_unmodelled(void) { outl("UNMODELLED", "", ""); _exit(79); }
}
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  FILE* f = fopen(argv[1], "r"); if (!f) return 2;
  char l[4096]; while (fgets(l, sizeof l, f)) { if (strncmp(l, "in ", 3)) continue; std::string s(l + 3); while (!s.empty() && s.back() == '\n') s.pop_back();
    size_t b = s.rfind(' '), a = s.rfind(' ', b - 1); In i{s.substr(0, a), atoi(s.substr(a + 1, b - a - 1).c_str()), strtoull(s.c_str() + b + 1, 0, 0)}; if (i.n.compare(0, 6, "uninit")) ins.push_back(i); }
  fclose(f);
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; size_t e = a.find('='); if (e != std::string::npos) params[a.substr(0, e)] = strtoull(a.c_str() + e + 1, 0, 0); }
  alarm(60);
  harness(); done();
}
