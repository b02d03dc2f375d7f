/* Contracts of blake2b.c, enforced on the real bodies. The message is known
 * by one arbitrary byte of it (position P, value B); the chaining value by one
 * arbitrary word of it. compress is known to its callers by its contract. */
#define VF_DEFINE_ABORT
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
void *vf_memcpy(void *dst, const void *src, size_t n);
#ifdef OP_update
#define memcpy vf_memcpy
#endif
#include "blake2b.c"
#include "vf.h"

static const uint64_t IV_[8] = {0x6A09E667F3BCC908ull,0xBB67AE8584CAA73Bull,0x3C6EF372FE94F82Bull,0xA54FF53A5F1D36F1ull,0x510E527FADE682D1ull,0x9B05688C2B3E6C1Full,0x1F83D9ABFB41BD6Bull,0x5BE0CD19137E2179ull};

#ifdef OP_compress
/* RFC 7693, section 3.2, in lock step with the rotations of the code: each
 * rotation must be of the right word by the right amount; its result is one
 * and the same for the code and the standard, and then left arbitrary. */
static const unsigned char SG[10][16] = {
{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
static const unsigned char AT[8][4] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
static const unsigned char ROT[4] = {32, 24, 16, 63};
static uint64_t V_[16], M_[16]; static unsigned N_;
uint64_t stub_rotr(uint64_t w, unsigned int c) {
  __CPROVER_assert(N_ < 384, "VF lock step: 384 rotations");
  ASSUME(N_ < 384);
#if defined(RND) && RND == 11
#define STEP (N_ / 32 == RND)
#elif defined(RND)
  if (RND < 11 && N_ == 32 * RND + 32) { REACH("compress: next round"); ASSUME(0); }
#define STEP (N_ / 32 == RND)
#else
#define STEP 1
#endif
  unsigned r = N_ / 32 % 10, g = N_ / 4 % 8, s = N_ % 4, x = (s & 1) ? 2 : 0, y = (s & 1) ? 1 : 3;
  const unsigned char *at = AT[g];
  if (s & 1) V_[at[2]] = V_[at[2]] + V_[at[3]];
  else V_[at[0]] = V_[at[0]] + V_[at[1]] + M_[SG[r][2 * g + s / 2]];
  uint64_t want = V_[at[y]] ^ V_[at[x]];
  if (STEP) __CPROVER_assert(c == ROT[s], "VF compress: rotates by the standard's amount");
  if (STEP) __CPROVER_assert(w == want, "VF compress: mixes the words of the standard");
  ASSUME(w == want);
  uint64_t res = nondet_u64();
  V_[at[y]] = res;
  N_++;
  return res;
}
int main(void) {
  urkel_blake2b_t c, o; unsigned char chunk[128]; uint64_t f0 = nondet_u64(); unsigned i, j;
  o = c;
  for (i = 0; i < 16; i++) { M_[i] = 0; for (j = 8; j--;) M_[i] = M_[i] << 8 | chunk[8 * i + j]; }
  for (i = 0; i < 8; i++) { V_[i] = c.h[i]; V_[i + 8] = IV_[i]; }
  V_[12] ^= c.t[0]; V_[13] ^= c.t[1]; V_[14] ^= f0; N_ = 0;
  urkel_blake2b_compress(&c, chunk, f0);
  __CPROVER_assert(N_ == 384, "VF compress: twelve rounds");
#if !defined(RND) || RND == 11
  for (i = 0; i < 8; i++) ASSERT_(c.h[i] == (o.h[i] ^ V_[i] ^ V_[i + 8]), "compress: the new chaining value is the standard's");
  ASSERT_(c.t[0] == o.t[0] && c.t[1] == o.t[1] && c.buflen == o.buflen && c.outlen == o.outlen, "compress: nothing else changes");
  i = nondet_uint(); ASSUME(i < 128); ASSERT_(c.buf[i] == o.buf[i], "compress: the buffer stays");
  REACH("compress");
#endif
}
#endif
#ifdef OP_rotr
int main(void) {
  uint64_t w = nondet_u64(); unsigned c = nondet_uint(), i = nondet_uint();
  ASSUME((c == 32 || c == 24 || c == 16 || c == 63) && i < 64);
  uint64_t r = urkel_rotr64(w, c);
  ASSERT_((r >> i & 1) == (w >> ((i + c) % 64) & 1), "rotr64: every bit moves down by c, around the end");
  REACH("rotr64");
}
#endif

static uint64_t P, T0, T1, GK; static unsigned char B; static unsigned HI; static uint64_t GH; static urkel_blake2b_t *CTX; static const unsigned char *IN0;
static _Bool FIN; static unsigned NFIN; static unsigned J; static unsigned char JB;
uint64_t nondet_h(void);

#ifndef OP_compress
void stub_compress(urkel_blake2b_t *ctx, const unsigned char *chunk, uint64_t f0) {
  ASSERT_(ctx == CTX, "contract of compress: this context");
  ASSERT_(__CPROVER_r_ok(chunk, 128), "contract of compress: a whole block");
  ASSERT_(ctx->h[HI] == GH, "contract of compress: continues from the last chaining value");
  ASSERT_(ctx->t[1] == 0, "contract of compress: the high counter stays zero below 2^64 bytes");
  if (FIN) {
    ASSERT_(f0 == ~(uint64_t)0, "contract of compress: the last block is marked as such");
    ASSERT_(ctx->t[0] == T0, "contract of compress: the last block counts all bytes");
    ASSERT_(chunk[J] == JB, "contract of compress: the last block is the rest of the message, padded with zeros");
    NFIN++;
  } else {
    ASSERT_(f0 == 0, "contract of compress: not the last block");
    ASSERT_(128 * (GK + 1) < T1, "contract of compress: a block is compressed when more of the message follows");
    ASSERT_(ctx->t[0] == 128 * (GK + 1), "contract of compress: counts the bytes up to the end of the block");
    if (P / 128 == GK) ASSERT_(chunk[P % 128] == B, "contract of compress: the blocks are the message's, in order");
    GK++;
  }
  ctx->h[0] = nondet_h(); ctx->h[1] = nondet_h(); ctx->h[2] = nondet_h(); ctx->h[3] = nondet_h();
  ctx->h[4] = nondet_h(); ctx->h[5] = nondet_h(); ctx->h[6] = nondet_h(); ctx->h[7] = nondet_h();
  GH = ctx->h[HI];
}
/* state after T bytes: whole blocks but the last (never empty) one absorbed */
static void state(urkel_blake2b_t *c) {
  T0 = nondet_u64(); P = nondet_u64(); B = nondet_uchar(); HI = nondet_uint();
  ASSUME(T0 <= ((uint64_t)1 << 60) && P <= ((uint64_t)1 << 62) && HI < 8);
  ASSUME(c->buflen == (T0 == 0 ? 0 : (T0 - 1) % 128 + 1));
  ASSUME(c->t[0] == T0 - c->buflen && c->t[1] == 0 && c->outlen >= 1 && c->outlen <= 64);
  if (P >= T0 - c->buflen && P < T0) ASSUME(c->buf[P - (T0 - c->buflen)] == B);
  GK = (T0 - c->buflen) / 128; GH = c->h[HI]; CTX = c;
}
#endif

#ifdef OP_update
void *vf_memcpy(void *dst, const void *src, size_t n) {
  unsigned char *d = dst; const unsigned char *s = src;
  ASSERT_(n <= 128, "update: at most a block is buffered");
  ASSERT_(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "update: copies within bounds");
  ASSERT_(d >= CTX->buf && d + n <= CTX->buf + 128, "update: stays within the buffer");
  /* exactly one byte of the buffer is watched; the others become arbitrary */
  size_t o = d - CTX->buf, k = P % 128;
  for (unsigned i = 0; i < 128; i++) if (i >= o && i < o + n && i != k) CTX->buf[i] = nondet_uchar();
  if (k >= o && k < o + n) CTX->buf[k] = s[k - o];
  return dst;
}
int main(void) {
  urkel_blake2b_t *c = malloc(sizeof(*c)); size_t len = nondet_size(), ol;
  NFIN = 0; FIN = 0; J = 0; JB = 0;
  state(c);
  ASSUME(len <= ((size_t)1 << 40));
  T1 = T0 + len; ol = c->outlen;
  unsigned char *in = malloc(len ? len : 1);
  IN0 = in;
  if (P >= T0 && P < T1) ASSUME(in[P - T0] == B);
  urkel_blake2b_update(c, len ? in : NULL, len);
  ASSERT_(c->buflen == (T1 == 0 ? 0 : (T1 - 1) % 128 + 1), "update: keeps the last, non-empty part of the message back");
  ASSERT_(128 * GK == T1 - c->buflen, "update: every block before it is compressed, once");
  ASSERT_(c->t[0] == 128 * GK && c->t[1] == 0, "update: counts the compressed bytes");
  if (P >= T1 - c->buflen && P < T1) ASSERT_(c->buf[P - (T1 - c->buflen)] == B, "update: what is kept back is the message's end");
  ASSERT_(c->h[HI] == GH, "update: the chaining value is that of the last compressed block");
  ASSERT_(c->outlen == ol, "update: the digest length stays");
  REACH("update");
}
#endif

#ifdef OP_final
int main(void) {
  urkel_blake2b_t *c = malloc(sizeof(*c));
  state(c);
  FIN = 1; NFIN = 0; J = nondet_uint(); ASSUME(J < 128);
  JB = J < c->buflen ? c->buf[J] : 0;
  size_t ol = c->outlen, i = nondet_size(); ASSUME(i < ol);
  unsigned char *out = malloc(ol);
  HI = i / 8; GH = c->h[HI];
  urkel_blake2b_final(c, out);
  ASSERT_(NFIN == 1, "final: compresses the last block once");
  ASSERT_(out[i] == (unsigned char)(GH >> (8 * (i % 8))), "final: the digest is the little-endian chaining value, cut to its length");
  REACH("final");
}
#endif

#ifdef OP_init
static unsigned UPD; static size_t OL, KL; static const unsigned char *KEY;
void stub_update(urkel_blake2b_t *ctx, const void *data, size_t len) {
  ASSERT_(ctx == CTX && len == 128 && __CPROVER_r_ok(data, 128), "init: the key fills one block");
  ASSERT_(ctx->h[HI] == (IV_[HI] ^ (HI ? 0 : 0x01010000 ^ (KL << 8) ^ OL)) && !ctx->t[0] && !ctx->t[1] && !ctx->buflen && ctx->outlen == OL, "init: absorbs the key from the initial state");
  ASSERT_(((const unsigned char *)data)[J] == JB, "init: the key block is the key, padded with zeros");
  UPD++;
}
int main(void) {
  urkel_blake2b_t *c = malloc(sizeof(*c)); CTX = c;
  OL = nondet_size(); KL = nondet_size(); J = nondet_uint(); HI = nondet_uint();
  ASSUME(OL >= 1 && OL <= 64 && KL <= 64 && J < 128 && HI < 8);
  KEY = KL ? malloc(KL) : NULL; JB = J < KL ? KEY[J] : 0; UPD = 0;
  urkel_blake2b_init(c, OL, KEY, KL);
  ASSERT_(UPD == (KL > 0), "init: absorbs the key block exactly when there is a key");
  ASSERT_(c->h[HI] == (IV_[HI] ^ (HI ? 0 : 0x01010000 ^ (KL << 8) ^ OL)), "init: the initial chaining value is the standard's");
  ASSERT_(!c->t[0] && !c->t[1] && !c->buflen && c->outlen == OL, "init: nothing absorbed yet");
  REACH("init");
}
#endif
