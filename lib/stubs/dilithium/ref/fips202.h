#pragma once
#include <cstdint>
void shake128(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen);
void shake256(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen);
