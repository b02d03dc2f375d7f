/* Contracts of util.c, enforced on the real bodies. BLAKE2b is known by its
 * contract: the digest is a function of the digest length, the key and the
 * bytes absorbed, in order. What is absorbed is watched at one arbitrary
 * position (W) of each message. */
#define VF_DEFINE_ABORT
#include "util.c"
#include "vf.h"
#include "bits_spec.h"

static urkel_blake2b_t *CTX; static size_t OL[2], KL[2], TOTAL[2], W; static unsigned char GOT[2]; static _Bool KEYOK[2], OPEN_; static unsigned NH;
static const unsigned char *KEY; static size_t KI;   /* an arbitrary byte of the key */
static unsigned char DIG[2][64]; unsigned char nondet_dig(void);
void urkel_blake2b_init(urkel_blake2b_t *ctx, size_t outlen, const unsigned char *key, size_t keylen) {
  ASSERT_(!OPEN_ && NH < 2, "hash: one at a time");
  ASSERT_(outlen >= 1 && outlen <= 64 && keylen <= 64, "contract of blake2b_init");
  CTX = ctx; OL[NH] = outlen; KL[NH] = keylen; TOTAL[NH] = 0; OPEN_ = 1;
  ASSERT_(keylen == 0 || key == KEY, "hash: the key it was given");
}
void urkel_blake2b_update(urkel_blake2b_t *ctx, const void *data, size_t len) {
  ASSERT_(OPEN_ && ctx == CTX, "contract of blake2b_update: an initialised context");
  ASSERT_(len == 0 || __CPROVER_r_ok(data, len), "contract of blake2b_update: readable data");
  if (W >= TOTAL[NH] && W - TOTAL[NH] < len) GOT[NH] = ((const unsigned char *)data)[W - TOTAL[NH]];
  TOTAL[NH] += len;
}
void urkel_blake2b_final(urkel_blake2b_t *ctx, unsigned char *out) {
  ASSERT_(OPEN_ && ctx == CTX, "contract of blake2b_final: an initialised context");
  ASSERT_(__CPROVER_w_ok(out, OL[NH]), "contract of blake2b_final: room for the digest");
  for (unsigned i = 0; i < 64; i++) { DIG[NH][i] = nondet_dig(); if (i < OL[NH]) out[i] = DIG[NH][i]; }
  OPEN_ = 0; NH++;
}
int urkel_sys_random(void *dst, size_t size) { ASSERT_(size == 32 && __CPROVER_w_ok(dst, 32), "sys_random: 32 bytes"); return nondet_bool(); }
void urkel_time_get(urkel_timespec_t *ts) { }
static void start(void) { W = nondet_size(); NH = 0; OPEN_ = 0; KEY = NULL; TOTAL[0] = TOTAL[1] = 0; }
#define DIGEST(out, k, n) do { unsigned i_ = nondet_uint(); ASSUME(i_ < (n)); ASSERT_((out)[i_] == DIG[k][i_], "hash: the output is the digest"); } while (0)

#ifdef OP_internal
int main(void) {
  urkel_bits_t *p = malloc(sizeof(*p)); unsigned char *l = malloc(32), *r = malloc(32), *out = malloc(32); size_t n = 0; unsigned char want = 0;
  ASSUME(p->size <= 256);
  size_t s = p->size, b = (s + 7) / 8;
  unsigned char l0[32], r0[32]; for (int i = 0; i < 32; i++) { l0[i] = l[i]; r0[i] = r[i]; }
  start();
  if (s == 0) { if (W == 0) want = 1; n = 1; }
  else { if (W == 0) want = 2; if (W == 1) want = s & 255; if (W == 2) want = s >> 8; if (W >= 3 && W < 3 + b) want = p->data[W - 3]; n = 3 + b; }
  if (W >= n && W < n + 32) want = l[W - n];
  if (W >= n + 32 && W < n + 64) want = r[W - n - 32];
  urkel_hash_internal(out, p, l, r);
  ASSERT_(NH == 1 && OL[0] == 32 && KL[0] == 0, "hash_internal: one unkeyed 256-bit hash");
  ASSERT_(TOTAL[0] == n + 64, "hash_internal: covers tag, prefix length, prefix and both children, and nothing else");
  if (W < n + 64) ASSERT_(GOT[0] == want, "hash_internal: tag 1, or tag 2 with the prefix length and the prefix bits; then left and right child");
  DIGEST(out, 0, 32);
  REACH("hash_internal");
}
#endif
#ifdef OP_leaf
int main(void) {
  unsigned char *k = malloc(32), *v = malloc(32), *out = malloc(32), want = 0;
  start();
  if (W >= 1 && W < 33) want = k[W - 1];
  if (W >= 33 && W < 65) want = v[W - 33];
  urkel_hash_leaf(out, k, v);
  ASSERT_(NH == 1 && OL[0] == 32 && KL[0] == 0 && TOTAL[0] == 65, "hash_leaf: one unkeyed 256-bit hash of tag, key and value hash");
  if (W < 65) ASSERT_(GOT[0] == want, "hash_leaf: tag 0, then the key, then the value hash");
  DIGEST(out, 0, 32);
  REACH("hash_leaf");
}
#endif
#ifdef OP_value
int main(void) {
  size_t n = nondet_size(); ASSUME(n <= ((size_t)1 << 40));
  unsigned char *k = malloc(32), *v = malloc(n ? n : 1), *out = malloc(32), want = 0, w0 = 0;
  start();
  if (W < n) w0 = v[W];
  if (W >= 1 && W < 33) want = k[W - 1];
  urkel_hash_value(out, k, n ? v : NULL, n);
  if (W >= 33 && W < 65) want = DIG[0][W - 33];
  ASSERT_(NH == 2 && OL[0] == 32 && KL[0] == 0 && TOTAL[0] == n, "hash_value: first one unkeyed 256-bit hash of the whole value");
  if (W < n) ASSERT_(GOT[0] == w0, "hash_value: every byte of the value, in order");
  ASSERT_(OL[1] == 32 && KL[1] == 0 && TOTAL[1] == 65, "hash_value: then one of tag, key and value hash");
  if (W < 65) ASSERT_(GOT[1] == want, "hash_value: tag 0, then the key, then the value hash");
  DIGEST(out, 1, 32);
  REACH("hash_value");
}
#endif
#ifdef OP_raw
int main(void) {
  size_t n = nondet_size(); ASSUME(n <= ((size_t)1 << 40));
  unsigned char *v = malloc(n ? n : 1), *out = malloc(32), w0 = 0;
  start();
  if (W < n) w0 = v[W];
  if (nondet_bool()) urkel_hash_raw(out, n ? v : NULL, n); else urkel_hash_key(out, n ? v : NULL, n);
  ASSERT_(NH == 1 && OL[0] == 32 && KL[0] == 0 && TOTAL[0] == n, "hash_raw, hash_key: one unkeyed 256-bit hash of all bytes");
  if (W < n) ASSERT_(GOT[0] == w0, "hash_raw, hash_key: every byte, in order");
  DIGEST(out, 0, 32);
  REACH("hash_raw");
}
#endif
#ifdef OP_checksum
int main(void) {
  size_t n = nondet_size(); ASSUME(n <= ((size_t)1 << 40));
  unsigned char *v = malloc(n ? n : 1), *key = malloc(32), *out = malloc(20), w0 = 0;
  start(); KEY = key;
  if (W < n) w0 = v[W];
  unsigned char *e = urkel_checksum(out, v, n, key);
  ASSERT_(e == out + 20, "checksum: twenty bytes");
  ASSERT_(NH == 1 && OL[0] == 20 && KL[0] == 32 && TOTAL[0] == n, "checksum: one 160-bit hash of all bytes under the 32-byte key");
  if (W < n) ASSERT_(GOT[0] == w0, "checksum: every byte, in order");
  DIGEST(out, 0, 20);
  REACH("checksum");
}
#endif
#ifdef OP_random
int main(void) {
  unsigned char *d = malloc(32);
  start();
  urkel_random_bytes(d, 32);
  ASSERT_(NH <= 1 && (NH == 0 || OL[0] == 32), "random_bytes: 32 bytes");
  REACH("random_bytes");
}
#endif
#ifdef OP_parse
int main(void) {
  size_t n = nondet_size(), i; ASSUME(n <= 11);
  char *s = malloc(n + 1);           /* a string of n characters */
  s[n] = 0; for (i = 0; i < 11; i++) if (i < n) ASSUME(s[i] != 0);
  uint32_t out = nondet_u32(), *o = nondet_bool() ? &out : NULL;
  if (nondet_bool() && n == 11) { s = realloc(s, 4000); s[3999] = 0; } /* longer strings: nothing after the eleventh character matters */
  uint64_t want = 0; _Bool ok = n == 10;
  for (i = 0; i < 10; i++) if (i < n) { if (s[i] < '0' || s[i] > '9') ok = 0; want = want * 10 + (uint64_t)(s[i] - '0'); }
  if (ok && want > 0xffffffffull) ok = 0;
  int r = urkel_parse_u32(o, s);
  ASSERT_(r == ok, "parse_u32: accepts exactly ten decimal digits which denote a 32-bit number");
  if (o) ASSERT_(out == (ok ? (uint32_t)want : 0), "parse_u32: gives the number denoted");
  REACH("parse_u32");
}
#endif
#ifdef OP_serialize
/* QU[k], RE[k]: quotient by 10^k and the digit at 10^k, as defined by division with remainder */
uint32_t QU[11], RE[10]; size_t WD;
int main(void) {
  char *s = malloc(11); uint32_t num = nondet_u32(); unsigned i;
  QU[0] = num; WD = nondet_size(); ASSUME(WD < 10);
  for (i = 0; i < 10; i++) { QU[i + 1] = nondet_u32(); RE[i] = nondet_u32(); ASSUME(RE[i] < 10 && (uint64_t)QU[i + 1] * 10 + RE[i] == QU[i]); }
  urkel_serialize_u32(s, num);
  ASSERT_(s[WD] == '0' + (char)RE[9 - WD], "serialize_u32: each character is the decimal digit of its place");
  ASSERT_(s[10] == 0, "serialize_u32: ends with a zero byte");
  REACH("serialize_u32");
}
#endif
