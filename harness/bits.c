/* Enforcement harnesses for bits.c: real body against the contract. */
#define VF_DEFINE_ABORT
#include "vf.h"
#include "bits_spec.h"

#ifdef CASE_LO
#define CASES(v, lim) for (v = CASE_LO; v < CASE_HI && v <= (lim); v++)
#else
#define CASES(v, lim)
#endif

#ifdef H_slice
static void one(size_t s) {
  urkel_bits_t in, out;
  size_t e = nondet_size();
  ASSUME(in.size <= 256 && PRE_slice(in.size, s, e));
  u256 IN_v = LD(in.data); size_t n = in.size;
  urkel_bits_slice(&out, &in, s, e);
  ASSERT_(out.size == e - s, "slice: size is end-start");
  ASSERT_(LD(out.data) == SPEC_slice(IN_v, s, e), "slice: bits are v[start..end), rest zero");
  ASSERT_(LD(in.data) == IN_v && in.size == n, "slice: source unchanged");
  REACH("slice");
}
int main(void) {
#ifdef CASE_LO
  for (size_t s = CASE_LO; s < CASE_HI; s++) one(s);
#else
  one(nondet_size());
#endif
}
#endif

#ifdef H_count
static void one(unsigned d) {
  urkel_bits_t in; unsigned char key[32];
  ASSUME(in.size <= 256 && d <= 256);
  u256 b = LD(in.data), k = LD(key); size_t n = in.size;
  size_t c = urkel_bits_count(&in, key, d);
  ASSERT_(spec_is_count(c, b, n, 0, k, d), "count: longest common prefix with key[depth..]");
  ASSERT_(LD(in.data) == b && in.size == n && LD(key) == k, "count: operands unchanged");
  REACH("count");
}
int main(void) {
#ifdef CASE_LO
  for (unsigned d = CASE_LO; d < CASE_HI; d++) one(d);
#else
  one(nondet_uint());
#endif
}
#endif

#ifdef H_has
/* urkel_bits_count is replaced by its contract. */
int main(void) {
  urkel_bits_t in; unsigned char key[32]; unsigned d = nondet_uint();
  ASSUME(in.size <= 256 && d <= 256);
  u256 b = LD(in.data), k = LD(key); size_t n = in.size;
  int h = urkel_bits_has(&in, key, d);
  ASSERT_(h == spec_has(b, n, k, d), "has: every prefix bit equals the key bit");
  ASSERT_(LD(in.data) == b && in.size == n && LD(key) == k, "has: operands unchanged");
  REACH("has");
}
#endif

#ifdef H_collide
/* urkel_bits_slice is replaced by its contract. */
static void one(unsigned d) {
  urkel_bits_t in, out; unsigned char key[32];
  ASSUME(in.size <= 256 && d <= in.size);
  u256 b = LD(in.data), k = LD(key); size_t n = in.size;
  urkel_bits_collide(&out, &in, key, d);
  ASSERT_(spec_is_count(out.size, b, n, d, k, d), "collide: length of the common run from depth");
  ASSERT_(LD(out.data) == SPEC_slice(b, d, d + out.size), "collide: the common run itself, rest zero");
  ASSERT_(LD(in.data) == b && in.size == n && LD(key) == k, "collide: operands unchanged");
  REACH("collide");
}
int main(void) {
#ifdef CASE_LO
  for (unsigned d = CASE_LO; d < CASE_HI; d++) one(d);
#else
  one(nondet_uint());
#endif
}
#endif

#ifdef H_join
static void one(size_t ls) {
  urkel_bits_t l, r, out; unsigned bit = nondet_uint();
  l.size = ls;
#ifdef RANGE_LO
  ASSUME(ls >= RANGE_LO && ls < RANGE_HI);
#endif
  ASSUME(ls <= 255 && r.size <= 255 && ls + r.size + 1 <= 256 && bit <= 1);
  u256 a = LD(l.data), b = LD(r.data); size_t rs = r.size;
  ASSUME((a & ~MASKN(ls)) == 0); /* prefixes carry no bits past their size */
  urkel_bits_join(&out, &l, &r, bit);
  ASSERT_(out.size == ls + rs + 1, "join: size is left+1+right");
  u256 o = LD(out.data);
  ASSERT_((o & MASKN(ls + 1)) == ((a & MASKN(ls)) | (bit ? ONEAT(ls) : U256_0)), "join: left bits, then the bit");
  ASSERT_(SHL(o, ls + 1) == (b & MASKN(rs)), "join: then the right bits, rest zero");
  ASSERT_(LD(l.data) == a && LD(r.data) == b && l.size == ls && r.size == rs, "join: operands unchanged");
  REACH("join");
}
int main(void) {
#ifdef CASE_LO
  for (size_t s = CASE_LO; s < CASE_HI; s++) one(s);
#else
  one(nondet_size());
#endif
}
#endif

#ifdef H_split
/* urkel_bits_slice is replaced by its contract. */
int main(void) {
  urkel_bits_t in, a, b; size_t i = nondet_size();
  ASSUME(in.size <= 256 && i < in.size);
  u256 v = LD(in.data); size_t n = in.size;
  urkel_bits_split(&a, &b, &in, i);
  ASSERT_(a.size == i && LD(a.data) == SPEC_slice(v, 0, i), "split: front is v[0..i)");
  ASSERT_(b.size == n - i - 1 && LD(b.data) == SPEC_slice(v, i + 1, n), "split: back is v[i+1..n)");
  ASSERT_(LD(in.data) == v && in.size == n, "split: source unchanged");
  REACH("split");
}
#endif

#ifdef H_codec
int main(void) {
  urkel_bits_t in, out; size_t len = nondet_size();
  unsigned char buf[40];
  ASSUME(in.size <= 256);
  u256 v = LD(in.data); size_t n = in.size;
  size_t sz = urkel_bits_size(&in);
  ASSERT_(sz == spec_bits_size(n), "bits size: one or two length bytes and ceil(n/8) bytes");
  unsigned char before = buf[sz];
  unsigned char *end = urkel_bits_write(&in, buf);
  ASSERT_(end == buf + sz, "bits write: advances by the advertised size");
  ASSERT_(sz >= 40 || buf[sz] == before, "bits write: writes no further");
  if (n < 0x80) ASSERT_(buf[0] == n, "bits write: short length byte");
  else ASSERT_(buf[0] == (0x80 | (n >> 8)) && buf[1] == (n & 0xff), "bits write: long length, high bit first");
  ASSUME((v & ~MASKN(n)) == 0);
  ASSUME(len <= 34);
  int ok = urkel_bits_read(&out, buf, len);
  ASSERT_(ok == (len >= sz), "bits read: accepts exactly when enough bytes are left");
  if (ok) ASSERT_(out.size == n && LD(out.data) == v, "bits read: inverse of write");
  REACH("codec");
}
#endif

#ifdef H_read
/* arbitrary bytes, arbitrary remaining length: total, in bounds, canonical length */
int main(void) {
  urkel_bits_t out; size_t len = nondet_size();
  ASSUME(len <= 64);
  unsigned char *buf = malloc(len);
  int ok = urkel_bits_read(&out, buf, len);
  if (ok) {
    ASSERT_(out.size <= 256, "bits read: size in range");
    ASSERT_(urkel_bits_size(&out) <= len, "bits read: consumes no more than is there");
    size_t h = out.size >= 0x80 ? 2 : 1;
    size_t got = h == 1 ? buf[0] : ((size_t)(buf[0] & 0x7f) << 8 | buf[1]);
    ASSERT_((h == 2) == (buf[0] >> 7), "bits read: shortest length form only");
    ASSERT_(got == out.size, "bits read: length field");
    size_t q = nondet_size(); ASSUME(q < 32);
    ASSERT_(out.data[q] == (q < (out.size + 7) / 8 ? buf[h + q] : 0), "bits read: data bytes, rest zero");
  }
  REACH("read");
}
#endif
