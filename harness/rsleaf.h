// Rust face of the WOTS/L-tree models: called by lib/rust/leafmodel.rs
#pragma once
extern "C" {
static wots_params rsp(uint32_t w, uint32_t len, uint32_t ks) { wots_params p; memset(&p, 0, sizeof p); p.w = w; p.len = len; p.keysize = ks; return p; }
void rsc_wots_pkgen(uint32_t hf, uint8_t *pk, const uint8_t *sk, uint32_t w, uint32_t len, uint32_t ks, const uint8_t *ps, uint32_t *a) { wots_params p = rsp(w, len, ks); model_wots_pkgen((eHashFunction)hf, pk, sk, &p, ps, a); }
void rsc_l_tree(uint32_t hf, uint8_t *leaf, uint8_t *pk, uint32_t w, uint32_t len, uint32_t ks, const uint8_t *ps, uint32_t *a) { wots_params p = rsp(w, len, ks); model_l_tree((eHashFunction)hf, &p, leaf, pk, ps, a); }
void rsc_wots_sign(uint32_t hf, uint8_t *sig, const uint8_t *m, const uint8_t *sk, uint32_t w, uint32_t len, uint32_t ks, const uint8_t *ps, uint32_t *a) { wots_params p = rsp(w, len, ks); model_wots_sign((eHashFunction)hf, sig, m, sk, &p, ps, a); }
}
