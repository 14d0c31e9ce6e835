// Model of OpenSSL (digest/signature), zstd and libcurl used by the code under test.
#include "env_net.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <errno.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <zstd.h>
#include <curl/curl.h>
EnvNet net;
struct Ctx { unsigned char acc[64]; size_t n; void* key; };
struct Key { int id; unsigned char serial; };
extern "C" {
ssize_t m_read(int, void*, size_t); FILE* m_fopen64(const char*, const char*); int m_fgetc(FILE*); size_t m_fwrite(const void*, size_t, size_t, FILE*);
EVP_MD_CTX* m_EVP_MD_CTX_new(void) { net.ctxLive++; return (EVP_MD_CTX*)calloc(1, sizeof(Ctx)); }
void m_EVP_MD_CTX_free(EVP_MD_CTX* c) { if (c) net.ctxLive--; free(c); }
const EVP_MD* m_EVP_sha512(void) { return (const EVP_MD*)&net; }
int m_EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD*, void*) { if (net.fail && sx_bool("digest-init-fails")) return 0; memset(c, 0, sizeof(Ctx)); return 1; }
// stand-in digest: injective on inputs of at most 62 bytes, which is the bound the harnesses use
int m_EVP_DigestUpdate(EVP_MD_CTX* cc, const void* p, size_t n) { Ctx* c = (Ctx*)cc; if (net.fail && sx_bool("digest-update-fails")) return 0; for (size_t i = 0; i < n; i++) c->acc[(c->n + i) % 62] += ((const unsigned char*)p)[i]; c->n += n; return 1; }
int m_EVP_DigestFinal_ex(EVP_MD_CTX* cc, unsigned char* o, unsigned* l) { Ctx* c = (Ctx*)cc; if (net.fail && sx_bool("digest-final-fails")) return 0; memcpy(o, c->acc, 62); o[62] = c->n & 255; o[63] = (c->n >> 8) & 255; if (l) *l = 64; return 1; }
static void* readKey(FILE* f) { if (!f) return nullptr; int c = m_fgetc(f); if (c == EOF) return nullptr; Key* k = (Key*)malloc(sizeof(Key)); k->id = c == 'E' ? EVP_PKEY_ED25519 : EVP_PKEY_RSA; int z = m_fgetc(f); k->serial = z == EOF ? 0 : (unsigned char)z; net.keysLive++; return k; }
EVP_PKEY* m_PEM_read_PUBKEY(FILE* f, void*, void*, void*) { return (EVP_PKEY*)readKey(f); }
EVP_PKEY* m_PEM_read_PrivateKey(FILE* f, void*, void*, void*) { return (EVP_PKEY*)readKey(f); }
// a key file: the kind of the key and its identity
int m_PEM_write_PUBKEY(FILE* f, const EVP_PKEY* k) { char t[2] = {'E', (char)((const Key*)k)->serial}; return !net.keyFail || !sx_bool("key-write-fails") ? m_fwrite(t, 1, 2, f) == 2 : 0; }
int m_PEM_write_PrivateKey(FILE* f, const EVP_PKEY* k, void*, void*, int, void*, void*) { char t[3] = {'E', (char)((const Key*)k)->serial, 'p'}; return !net.keyFail || !sx_bool("key-write-fails") ? m_fwrite(t, 1, 3, f) == 3 : 0; }
int m_EVP_PKEY_get_id(const EVP_PKEY* k) { return ((const Key*)k)->id; }
int m_EVP_PKEY_get_base_id(const EVP_PKEY* k) { return ((const Key*)k)->id; }
void m_EVP_PKEY_free(EVP_PKEY* k) { if (k) net.keysLive--; free(k); }
EVP_PKEY_CTX* m_EVP_PKEY_CTX_new_id(int, void*) { return (EVP_PKEY_CTX*)calloc(1, 16); }
void m_EVP_PKEY_CTX_free(EVP_PKEY_CTX* c) { free(c); }
int m_EVP_PKEY_keygen_init(EVP_PKEY_CTX*) { return net.keyFail && sx_bool("keygen-init-fails") ? 0 : 1; }
int m_EVP_PKEY_generate(EVP_PKEY_CTX*, EVP_PKEY** k) { if (net.keyFail && sx_bool("keygen-fails")) return 0; Key* x = (Key*)malloc(sizeof(Key)); x->id = EVP_PKEY_ED25519; x->serial = (unsigned char)(++net.keySerial); net.keysLive++; *k = (EVP_PKEY*)x; return 1; }
int m_EVP_DigestVerifyInit(EVP_MD_CTX* c, void**, const EVP_MD*, void*, EVP_PKEY* k) { ((Ctx*)c)->key = k; net.verifySerial = ((Key*)k)->serial; if (net.fail && sx_bool("verify-init-fails")) return (int)sx_range("verify-init-ret", 0, 0); return 1; }
int m_EVP_DigestSignInit(EVP_MD_CTX* c, void**, const EVP_MD*, void*, EVP_PKEY* k) { ((Ctx*)c)->key = k; return 1; }
int m_EVP_DigestSign(EVP_MD_CTX* c, unsigned char* s, size_t* l, const unsigned char* d, size_t n) { if (!s) { *l = 64; return 1; } for (int i = 0; i < 64; i++) s[i] = ((size_t)i < n ? d[i] : 0) ^ 0x5A ^ ((Key*)((Ctx*)c)->key)->serial; *l = 64; return 1; }
int m_EVP_DigestVerify(EVP_MD_CTX*, const unsigned char* sig, size_t ns, const unsigned char* d, size_t n) { net.verifies++; if (net.onverify) return net.onverify(sig, ns, d, n); int r = (int)sx_u32("verify-result"); net.lastVerify = r; return r; }
void m_ERR_print_errors_fp(FILE*) {}
int m_OPENSSL_init_crypto(unsigned long, const void*) { return 1; }
// zstd: a "compressed" file is a header (magic, length) and its own content, so that a truncated one is recognised
static bool zhead(const void* p, size_t n, size_t* l) { if (n < 12 || memcmp(p, "ZST1", 4)) return false; memcpy(l, (const char*)p + 4, 8); return true; }
unsigned long long m_ZSTD_getFrameContentSize(const void* p, size_t n) { size_t l; if (!zhead(p, n, &l)) return ZSTD_CONTENTSIZE_ERROR; if (net.zfail) { unsigned k = sx_range("zstd-header", 0, 2); if (k == 1) return ZSTD_CONTENTSIZE_UNKNOWN; if (k == 2) return ZSTD_CONTENTSIZE_ERROR; } return l; }
size_t m_ZSTD_decompress(void* d, size_t dn, const void* s, size_t n) { size_t l; if (!zhead(s, n, &l)) return (size_t)-10; if (net.zfail && sx_bool("zstd-corrupt")) return (size_t)-20; if (n < l + 12) return (size_t)-72; if (l > dn) return (size_t)-70; if (l) memcpy(d, (const char*)s + 12, l); return l; }
size_t m_ZSTD_compressBound(size_t n) { return n + 64; }
size_t m_ZSTD_compress(void* d, size_t dn, const void* s, size_t n, int) { if (n + 12 > dn) return (size_t)-70; memcpy(d, "ZST1", 4); memcpy((char*)d + 4, &n, 8); if (n) memcpy((char*)d + 12, s, n); return n + 12; }
unsigned m_ZSTD_isError(size_t r) { return r > (size_t)-120; }
const char* m_ZSTD_getErrorName(size_t) { return "zstd error"; }
// curl
struct Curl { const char* url; size_t (*wf)(void*, size_t, size_t, void*); void* wd; };
CURLcode m_curl_global_init(long) { return CURLE_OK; } void m_curl_global_cleanup(void) {}
CURL* m_curl_easy_init(void) { return (CURL*)calloc(1, sizeof(Curl)); } void m_curl_easy_cleanup(CURL* c) { free(c); }
const char* m_curl_easy_strerror(CURLcode) { return "curl error"; }
CURLcode m_curl_easy_setopt(CURL* cc, int o, ...) { Curl* c = (Curl*)cc; va_list ap; va_start(ap, o); if (o == CURLOPT_URL) { const char* u = va_arg(ap, const char*); c->url = strdup(u); } else if (o == CURLOPT_WRITEFUNCTION) c->wf = va_arg(ap, decltype(c->wf)); else if (o == CURLOPT_WRITEDATA) c->wd = va_arg(ap, void*); va_end(ap); return CURLE_OK; }
CURLcode m_curl_easy_getinfo(CURL*, int i, ...) { va_list ap; va_start(ap, i); if (i == CURLINFO_FILETIME) *va_arg(ap, long*) = 1234; va_end(ap); return CURLE_OK; }
struct curl_slist* m_curl_slist_append(struct curl_slist*, const char*) { return (struct curl_slist*)&net; } void m_curl_slist_free_all(struct curl_slist*) {}
CURLcode m_curl_easy_perform(CURL* cc) {
  Curl* c = (Curl*)cc; net.fetches++;
  if (net.onfetch) net.onfetch(c->url);
  if (env.webFault && sx_bool("download-fails")) return CURLE_COULDNT_CONNECT;
  for (int i = 0; i < env.nweb; i++) if (!strcmp(env.web[i].url, c->url)) { env.webHits++; size_t n = env.web[i].n, k = n; bool cut = env.webFault > 1 && n > 1 && sx_bool("download-truncated"); if (cut) k = n / 2; 
      if (k && c->wf((void*)env.web[i].data, 1, k, c->wd) != k) return CURLE_WRITE_ERROR; return cut ? CURLE_PARTIAL_FILE : CURLE_OK; }
  return CURLE_HTTP_RETURNED_ERROR;
}
}
