// Abstraction of WOTS key generation, L-tree and WOTS signing used by the traversal checks (job option redirect):
// each becomes an uninterpreted function of everything it reads.  C04/C07 check the real ones.
#pragma once
#include "spec.h"
#include "xmss-alt/wots.h"
#include "xmss-alt/xmss_common.h"
extern "C" {
void model_wots_pkgen(eHashFunction hf, unsigned char *pk, const unsigned char *sk, const wots_params *p, const unsigned char *ps, uint32_t addr[8]) {
  uint8_t in[4 + 32 + 32 + 20]; in[0] = hf; in[1] = p->w; in[2] = p->w >> 8; in[3] = 0; memcpy(in + 4, sk, 32); memcpy(in + 36, ps, 32); memcpy(in + 68, addr, 20);
  memset(pk, 0, p->keysize); sym_hash("pkgen", pk, 32, in, sizeof in);
  addr[5] = p->len - 1; addr[6] = p->w - 2; addr[7] = 1;
}
void model_l_tree(eHashFunction hf, const wots_params *p, unsigned char *leaf, unsigned char *pk, const unsigned char *ps, uint32_t addr[8]) {
  uint8_t in[4 + 64 + 32 + 20]; in[0] = hf; in[1] = p->w; in[2] = p->w >> 8; in[3] = 0; memcpy(in + 4, pk, 64); memcpy(in + 68, ps, 32); memcpy(in + 100, addr, 20);
  sym_hash("ltree", leaf, 32, in, sizeof in);
}
void model_wots_sign(eHashFunction hf, unsigned char *sig, const unsigned char *md, const unsigned char *sk, const wots_params *p, const unsigned char *ps, uint32_t addr[8]) {
  uint8_t in[4 + 96 + 20]; in[0] = hf; in[1] = p->w; in[2] = p->w >> 8; in[3] = 0; memcpy(in + 4, sk, 32); memcpy(in + 36, ps, 32); memcpy(in + 68, md, 32); memcpy(in + 100, addr, 20);
  memset(sig, 0, p->keysize); sym_hash("wsign", sig, 32, in, sizeof in);
}
}
