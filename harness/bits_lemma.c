/* The number-level contracts of bits_spec.h and the bit-level definitions of
 * lemmas/Bits.lean describe the same strings. */
#define VF_DEFINE_ABORT
#include "vf.h"
#include "bits_spec.h"
static unsigned BYTEBIT(const unsigned char *p, size_t i) { return (p[i >> 3] >> (7 - (i & 7))) & 1; }

#ifdef L_bit
int main(void) {
  unsigned char k[32]; size_t i = nondet_size(); ASSUME(i < 256);
  ASSERT_(BITAT(LD(k), i) == BYTEBIT(k, i), "bit i of a 32-byte string, as a number");
  ASSERT_(urkel_get_bit(k, i) == BYTEBIT(k, i), "get_bit: bit i, first bit high in byte 0");
  unsigned char o[32]; u256 b = LD(k);
  urkel_bits_t v; memcpy(v.data, k, 32); v.size = 256;
  ASSERT_(urkel_bits_get(&v, i) == BYTEBIT(k, i), "bits_get: bit i");
  unsigned bit = nondet_uint(); ASSUME(bit <= 1);
  urkel_bits_set(&v, i, bit);
  ASSERT_(LD(v.data) == (b | (bit ? ONEAT(i) : U256_0)), "bits_set: or-s bit i in, nothing else");
  REACH("bit");
}
#endif
#ifdef L_slice
int main(void) {
  u256 v = nondet_u256(); unsigned s = nondet_uint(), e = nondet_uint(), q = nondet_uint();
  ASSUME(s <= e && e <= 256 && q < 256);
  ASSERT_(BITAT(SPEC_slice(v, s, e), q) == (q < e - s ? BITAT(v, s + q) : 0), "slice, bit by bit");
  REACH("slice");
}
#endif
#ifdef L_join
int main(void) {
  u256 l = nondet_u256(), r = nondet_u256(), o = nondet_u256(); unsigned ls = nondet_uint(), rs = nondet_uint(), b = nondet_uint(), q = nondet_uint();
  ASSUME(ls <= 255 && rs <= 255 && ls + rs + 1 <= 256 && b <= 1 && q < 256);
  /* the two postconditions of bits_join */
  ASSUME((o & MASKN(ls + 1)) == ((l & MASKN(ls)) | (b ? ONEAT(ls) : U256_0)));
  ASSUME(SHL(o, ls + 1) == (r & MASKN(rs)));
  ASSERT_(BITAT(o, q) == (q < ls ? BITAT(l, q) : q == ls ? b : q < ls + 1 + rs ? BITAT(r, q - ls - 1) : 0), "join, bit by bit");
  REACH("join");
}
#endif
#ifdef L_has
int main(void) {
  u256 v = nondet_u256(), k = nondet_u256(); unsigned n = nondet_uint(), d = nondet_uint(), q = nondet_uint();
  ASSUME(n <= 256 && d <= 256 && q < 256);
  u256 kd = SHL(k, d), x = (v ^ kd) & MASKN(n), y = nondet_u256();
  _Bool some = 0;
  for (unsigned i = 0; i < 256; i++) some = some || BITAT(y, i);
  ASSERT_((y != 0) == some, "a number is non-zero iff one of its bits is set");
  ASSERT_(q >= 256 - d || BITAT(kd, q) == BITAT(k, d + q), "has: the key shifted by depth, bit by bit");
  ASSERT_(BITAT(x, q) == (q < n && BITAT(v, q) != BITAT(kd, q)), "has: the difference, bit by bit");
  ASSERT_(spec_has(v, n, k, d) == (d + n <= 256 && x == 0), "has: no difference");
  REACH("has");
}
#endif
#ifdef L_count
int main(void) {
  u256 v = nondet_u256(), k = nondet_u256(); unsigned n = nondet_uint(), i0 = nondet_uint(), d = nondet_uint(), q = nondet_uint(); size_t c = nondet_size();
  ASSUME(n <= 256 && i0 <= n && d <= 256 && q < 256);
  ASSUME(spec_is_count(c, v, n, i0, k, d));
  ASSERT_(c <= n - i0 && d + c <= 256, "count: within both strings");
  ASSERT_(q >= c || BITAT(v, i0 + q) == BITAT(k, d + q), "count: the bits before it agree");
  ASSERT_(!(c < n - i0 && d + c < 256) || BITAT(v, i0 + c) != BITAT(k, d + c), "count: it stops at a difference");
  REACH("count");
}
#endif
