// Indices beyond the reach of whole-tree runs: signing and moving at any index of a tree of height 18..30.
// The traversal state is given (any authentication path); the traversal step itself is abstracted as doing nothing (C02 checks it),
// WOTS signing as an uninterpreted function (C07 checks it).  MODE 0 sign, 1 move.
// MODE 2: the real traversal step from any state and any index: which nodes the next path takes, and which leaves the rebuilt subtrees have.
#include "leafmodel.h"
#include "qrl/xmssBase.h"
#include "xmss-alt/algsxmss_fast.h"
#include "xmss-alt/xmss_common.h"
#include <stdexcept>
#ifdef P_RUST
#include "rsleaf.h"
extern "C" { void rs_high_sign(uint32_t f, uint32_t h, uint8_t *sk, const uint8_t *auth, uint8_t *out, size_t n, const uint8_t *m, size_t ml); int32_t rs_high_update(uint32_t f, uint32_t h, uint8_t *sk, uint32_t to);
void rs_high_step(uint32_t f, uint32_t h, uint8_t *sk, uint8_t *auth, uint8_t *keep, uint8_t *nodes, uint8_t *retain, uint8_t *completed, uint8_t *out, size_t n, const uint8_t *m, size_t ml);
void rs_wots_pkgen(uint32_t h, uint8_t *pk, const uint8_t *sk, uint32_t w, const uint8_t *ps, uint32_t *a); void rs_l_tree(uint32_t h, uint8_t *leaf, uint8_t *pk, uint32_t w, const uint8_t *ps, uint32_t *a);
void rs_wots_sign(uint32_t h, uint8_t *sig, const uint8_t *m, const uint8_t *sk, uint32_t w, const uint8_t *ps, uint32_t *a); }
#endif
extern "C" {
void model_bds_round(eHashFunction, bds_state *, const unsigned long, const unsigned char *, const xmss_params *, unsigned char *, uint32_t *) {}
void model_bds_treehash_update(eHashFunction, bds_state *, unsigned int, const unsigned char *, const xmss_params *, unsigned char *, const uint32_t *) {}
}
struct St {
  bds_state s; xmss_params p; Bytes stack, lv, auth, keep, nodes, retain; std::vector<treehash_inst> th;
  St(uint32_t h, const Bytes &a) : stack((h + 1) * 32), lv(h + 1), auth(a), keep((h >> 1) * 32), nodes((h - 2) * 32), retain(32), th(h - 2) {
    for (uint32_t i = 0; i < h - 2; i++) { th[i].h = i; th[i].next_idx = 0; th[i].stackusage = 0; th[i].completed = 1; th[i].node = &nodes[32 * i]; }
    xmss_set_params(&p, 32, h, 16, 2); xmss_set_bds_state(&s, stack.data(), 0, lv.data(), auth.data(), keep.data(), th.data(), retain.data(), 0);
  }
};
#if P_MODE == 2
static N32 leafOf(const Spec &S, const Bytes &sk, uint32_t i) {
  N32 os = S.otsSeed(&sk[4], i), r; uint8_t pk[67 * 32]; uint32_t a[8] = {0, 0, 0, 0, i, 0, 0, 0}, l[8] = {0, 0, 0, 1, i, 0, 0, 0};
#ifdef P_RUST
  rs_wots_pkgen(S.hf, pk, os.b, 16, &sk[68], a); rs_l_tree(S.hf, r.b, pk, 16, &sk[68], l);
#else
  wots_params wp; wots_set_params(&wp, 32, 16); wots_pkgen((eHashFunction)S.hf, pk, os.b, &wp, &sk[68], a); l_tree((eHashFunction)S.hf, &wp, r.b, pk, &sk[68], l);
#endif
  return r;
}
static N32 subtree(const Spec &S, const Bytes &sk, uint32_t lvl, uint32_t first) {
  if (!lvl) return leafOf(S, sk, first);
  N32 a = subtree(S, sk, lvl - 1, first), b = subtree(S, sk, lvl - 1, first + (1u << (lvl - 1))); return S.node(a, b, &sk[68], Spec::ndAdr(lvl - 1, first >> lvl));
}
// 32-byte nodes, each with one arbitrary byte
static Bytes nodesOf(size_t n, uint8_t tag, const char *nm) { Bytes b(32 * n); for (size_t i = 0; i < n; i++) { sym_bytes(&b[32 * i], 1, nm); b[32 * i + 1] = tag; b[32 * i + 2] = i; } return b; }
#endif
extern "C" void harness() {
  static const uint32_t HS[] = {18, 24, 26, 30}; 
#if P_MODE == 2
  const uint32_t h = HS[P_HI];
#else
  const uint32_t h = HS[sym_pick("height", 0, 3)];
#endif
  const uint32_t hf = P_HF; Spec S(hf, 16, h); Bytes sk(132); sym_bytes(sk.data(), 132, "sk");
#if P_MODE == 2
  if (h < 24) sk[0] = 0; else sk[0] &= (uint8_t)((1u << (h - 24)) - 1); if (h < 24) sk[1] &= (uint8_t)((1u << (h - 16)) - 1);
  const uint32_t tau = sym_pick("tau", P_LO, P_TO), mask = (2u << tau) - 1; // exactly tau trailing ones, so idx + 1 < 2^h
  for (int i = 0; i < 4; i++) { uint8_t mb = mask >> (8 * i); sk[3 - i] = (sk[3 - i] & (uint8_t)~mb) | (uint8_t)((mask >> 1) >> (8 * i)); }
#endif
  const uint32_t idx = (uint32_t)sk[0] << 24 | (uint32_t)sk[1] << 16 | (uint32_t)sk[2] << 8 | sk[3]; sym_assume(idx < (1u << h));
  const Bytes sk0 = sk; uint8_t be[4] = {sk[0], sk[1], sk[2], sk[3]};
#if P_MODE == 0
  Bytes m(5), auth(32 * h); sym_bytes(m.data(), 5, "msg"); sym_bytes(auth.data(), 32, "auth"); sym_bytes(&auth[32 * (h - 1)], 32, "auth"); for (uint32_t i = 32; i < 32 * (h - 1); i++) auth[i] = (uint8_t)(i * 7 + i / 256);
  const Bytes auth0 = auth; Bytes sig(4 + 32 + 67 * 32 + 32 * h), e(67 * 32);
#ifdef P_RUST
  rs_high_sign(hf, h, sk.data(), auth.data(), sig.data(), sig.size(), m.data(), m.size());
#else
  St t(h, auth); xmssfast_Signmsg((eHashFunction)hf, &t.p, sk.data(), &t.s, sig.data(), m.data(), m.size());
#endif
  N32 R = S.prf(&sk0[36], Spec::tob(idx).b), md = S.digest(R.b, &sk0[100], idx, m.data(), m.size()), os = S.otsSeed(&sk0[4], idx); uint32_t a[8] = {0, 0, 0, 0, idx, 0, 0, 0};
#ifdef P_RUST
  rs_wots_sign(hf, e.data(), md.b, os.b, 16, &sk0[68], a);
#else
  wots_params wp; wots_set_params(&wp, 32, 16); wots_sign((eHashFunction)hf, e.data(), md.b, os.b, &wp, &sk0[68], a);
#endif
  sym_equal(sig.data(), be, 4, "signature-carries-its-index"); sym_equal(&sig[4], R.b, 32, "randomiser"); sym_equal(&sig[36], e.data(), 67 * 32, "one-time-signature-of-its-leaf"); sym_equal(&sig[36 + 67 * 32], auth0.data(), 32 * h, "authentication-path");
  const uint32_t nx = idx + 1; uint8_t nb[4] = {(uint8_t)(nx >> 24), (uint8_t)(nx >> 16), (uint8_t)(nx >> 8), (uint8_t)nx}; sym_equal(sk.data(), nb, 4, "index-advances-by-one"); sym_equal(&sk[4], &sk0[4], 128, "signing-keeps-secrets");
#elif P_MODE == 2
  Bytes m(1), auth = nodesOf(h, 1, "auth"), keep = nodesOf(h / 2, 2, "keep"), nodes = nodesOf(h - 2, 3, "nodes"), retain = nodesOf(1, 4, "retain"), done(h - 2, 1), sig(4 + 32 + 67 * 32 + 32 * h);
  const Bytes auth0 = auth, keep0 = keep, nodes0 = nodes, retain0 = retain;
#ifdef P_RUST
  rs_high_step(hf, h, sk.data(), auth.data(), keep.data(), nodes.data(), retain.data(), done.data(), sig.data(), sig.size(), m.data(), m.size());
#else
  St t(h, auth); t.keep = keep; t.nodes = nodes; t.retain = retain; for (uint32_t i = 0; i < h - 2; i++) t.th[i].node = &t.nodes[32 * i];
  xmss_set_bds_state(&t.s, t.stack.data(), 0, t.lv.data(), t.auth.data(), t.keep.data(), t.th.data(), t.retain.data(), 0);
  xmssfast_Signmsg((eHashFunction)hf, &t.p, sk.data(), &t.s, sig.data(), m.data(), m.size()); auth = t.auth; keep = t.keep; nodes = t.nodes; for (uint32_t i = 0; i < h - 2; i++) done[i] = t.th[i].completed;
#endif
  sym_equal(&sig[36 + 67 * 32], auth0.data(), 32 * h, "authentication-path");
  Bytes e = auth0; { N32 x = tau ? S.node(*(const N32 *)&auth0[32 * (tau - 1)], *(const N32 *)&keep0[32 * ((tau - 1) / 2)], &sk0[68], Spec::ndAdr(tau - 1, idx >> tau)) : leafOf(S, sk0, idx); memcpy(&e[32 * tau], x.b, 32); }
  for (uint32_t i = 0; i < tau; i++) memcpy(&e[32 * i], i < h - 2 ? &nodes0[32 * i] : &retain0[0], 32);
  sym_equal(auth.data(), e.data(), 32 * h, "next-authentication-path");
  if (tau < h - 1 && !((idx >> (tau + 1)) & 1)) sym_equal(&keep[32 * (tau / 2)], &auth0[32 * tau], 32, "kept-for-later");
  for (uint32_t i = 0; i < h - 2; i++) { const uint32_t st = idx + 1 + 3 * (1u << i);
    if (i >= tau) sym_equal(&nodes[32 * i], &nodes0[32 * i], 32, "subtree-still-needed");
    else if (i < 3 && st < (1u << h)) { N32 x = subtree(S, sk0, i, st); sym_assert(done[i] == 1, "subtree-ready"); sym_equal(&nodes[32 * i], x.b, 32, "subtree-of-the-right-leaves"); }
  }
#else
  const uint32_t how = sym_pick("how", 0, 3); uint32_t to = how < 3 ? idx + how : sym_u32("to"); if (how == 3) sym_assume(to < idx || to >= (1u << h)); bool bad = to < idx || to >= (1u << h), refused = false;
#ifdef P_RUST
  refused = rs_high_update(hf, h, sk.data(), to) != 0;
#else
  St t(h, Bytes(32 * h)); try { xmssfast_update((eHashFunction)hf, &t.p, sk.data(), &t.s, to); } catch (std::exception &) { refused = true; }
#endif
  sym_assert(refused == bad, "exactly-legal-moves-accepted"); uint8_t nb[4] = {(uint8_t)(to >> 24), (uint8_t)(to >> 16), (uint8_t)(to >> 8), (uint8_t)to};
  sym_equal(sk.data(), refused ? be : nb, 4, "index-after-move"); sym_equal(&sk[4], &sk0[4], 128, "moving-keeps-secrets"); sym_reach(refused ? "refused" : "moved");
#endif
  sym_reach("end");
}
