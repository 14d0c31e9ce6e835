#pragma once
#include "env.h"
struct EnvNet { int fail, zfail, keyFail, keySerial, verifySerial; int ctxLive, keysLive, verifies, fetches; int lastVerify; int (*onverify)(const unsigned char* sig, size_t ns, const unsigned char* d, size_t n); void (*onfetch)(const char* url); };
extern EnvNet net;
