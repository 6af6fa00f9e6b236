// C11: addresses.  MODE 0 getAddress on any public key; MODE 1 addressIsValid on any bytes.
#include "spec.h"
#include "qrl/qrlHelper.h"
static Bytes arb(size_t n, const char *nm) { Bytes b(n); if (n) sym_bytes(b.data(), n, nm); return b; }
extern "C" void harness() {
#if P_MODE == 0
  Bytes pk = arb(67, "pk"), p0 = pk, a; bool thrown = false, sup = (pk[1] >> 4) == 0;
  try { a = QRLHelper::getAddress(pk); } catch (std::exception &) { thrown = true; }
  sym_assert(pk == p0, "input-unchanged");
  if (!sup) { sym_assert(thrown, "unsupported-format-is-refused"); sym_reach("refused"); return; }
  sym_assert(!thrown, "supported-format-succeeds"); sym_assert(a.size() == 39, "address-size");
  uint8_t r[39], t[32]; r[0] = pk[0]; r[1] = pk[1]; r[2] = 0; sym_hash("sha256", r + 3, 32, pk.data(), 67); sym_hash("sha256", t, 32, r, 35); memcpy(r + 35, t + 28, 4);
  sym_equal(a.data(), r, 39, "documented-address"); sym_assert(QRLHelper::addressIsValid(a), "derived-address-is-valid"); sym_reach("end");
#elif P_MODE == 1
  uint32_t n = sym_pick("n", 0, 80); Bytes a = arb(n, "address"), a0 = a; bool thrown = false, v = false;
  try { v = QRLHelper::addressIsValid(a); } catch (...) { thrown = true; }
  sym_assert(!thrown, "never-throws"); sym_assert(a == a0, "input-unchanged"); uint8_t vb = v; sym_assert_init(&vb, 1, "verdict-is-initialised");
  bool ok = false;
  if (n == 39) { uint8_t t[32]; sym_hash("sha256", t, 32, a.data(), 35); bool c = (a[1] >> 4) == 0; for (int i = 0; i < 4; i++) c &= t[28 + i] == a[35 + i]; ok = c; }
  sym_assert(v == ok, "valid-iff-size-format-checksum"); if (n == 39) { if (ok) sym_reach("accepted"); else sym_reach("rejected"); } sym_reach("end");
#elif P_MODE == 2
  uint32_t n = sym_pick("n", 0, 100); sym_assume(n != 67); Bytes pk = arb(n, "pk"); bool thrown = false;
  try { QRLHelper::getAddress(pk); } catch (std::exception &) { thrown = true; } sym_assert(thrown, "wrong-size-is-refused"); sym_reach("end");
#else // collision free hash: two addresses agree only for public keys that agree in all but the reserved descriptor byte's encoding
  Bytes p = arb(67, "pk"), q = arb(67, "pk2"); sym_assume((p[1] >> 4) == 0 && (q[1] >> 4) == 0);
  Bytes a = QRLHelper::getAddress(p), b = QRLHelper::getAddress(q); sym_assert(a.size() == 39 && b.size() == 39, "address-size");
  bool eq = true; for (int i = 0; i < 39; i++) eq &= a[i] == b[i]; sym_assume(eq);
  bool same = true; for (int i = 0; i < 67; i++) same &= p[i] == q[i]; sym_assert(same, "equal-addresses-equal-keys"); sym_reach("end");
#endif
}
