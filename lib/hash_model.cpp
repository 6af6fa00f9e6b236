// SHAKE-128/256 and SHA-256 as oracles (uninterpreted functions), at the library's own header symbols.
#include "sym.h"
#include "xmss-alt/fips202.h"
void shake128(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen) { sym_hash("shake128", out, outlen, in, inlen); }
void shake256(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen) { sym_hash("shake256", out, outlen, in, inlen); }
