/* spec.h - mathematical vocabulary shared by every contract.
 *
 * A 32-byte string is read as a 256-bit big-endian natural number, so bit
 * `i` of a key in the library's sense is bit 255-i of the number.  The same
 * header is compiled by goto-cc (proofs) and by clang (native replay). */
#ifndef VF_SPEC_H
#define VF_SPEC_H

#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifdef VF_CBMC
typedef unsigned __CPROVER_bitvector[256] u256;
#else
typedef unsigned _BitInt(256) u256;
#endif

#define U256_0 ((u256)0)
#define U256_ONES (~(u256)0)

#ifdef VF_RAW
/* Opaque 32-byte identities: no arithmetic is done on them. */
#define LD(p) (*(const u256 *)(p))
#define ST(p, v) (*(u256 *)(p) = (v))
#elif defined(VF_CBMC)
#define LDW(p, i) ((u256)__builtin_bswap64(((const uint64_t *)(p))[i]) << (192 - 64 * (i)))
#define LD(p) (LDW(p, 0) | LDW(p, 1) | LDW(p, 2) | LDW(p, 3))
static inline void ST(unsigned char *p, u256 v) {
  ((uint64_t *)p)[0] = __builtin_bswap64((uint64_t)(v >> 192));
  ((uint64_t *)p)[1] = __builtin_bswap64((uint64_t)(v >> 128));
  ((uint64_t *)p)[2] = __builtin_bswap64((uint64_t)(v >> 64));
  ((uint64_t *)p)[3] = __builtin_bswap64((uint64_t)v);
}
#else
static inline u256 LD(const unsigned char *p) {
  uint64_t a, b, c, d;
  memcpy(&a, p, 8); memcpy(&b, p + 8, 8);
  memcpy(&c, p + 16, 8); memcpy(&d, p + 24, 8);
  return ((u256)__builtin_bswap64(a) << 192) | ((u256)__builtin_bswap64(b) << 128)
       | ((u256)__builtin_bswap64(c) << 64) | (u256)__builtin_bswap64(d);
}

static inline void ST(unsigned char *p, u256 v) {
  uint64_t a = __builtin_bswap64((uint64_t)(v >> 192));
  uint64_t b = __builtin_bswap64((uint64_t)(v >> 128));
  uint64_t c = __builtin_bswap64((uint64_t)(v >> 64));
  uint64_t d = __builtin_bswap64((uint64_t)v);
  memcpy(p, &a, 8); memcpy(p + 8, &b, 8);
  memcpy(p + 16, &c, 8); memcpy(p + 24, &d, 8);
}

#endif

/* Left / right shift, total. */
static inline u256 SHL(u256 v, unsigned n) { return n > 255 ? U256_0 : v << n; }
static inline u256 SHR(u256 v, unsigned n) { return n > 255 ? U256_0 : v >> n; }

/* The first n bits set. */
static inline u256 MASKN(unsigned n) { return n == 0 ? U256_0 : U256_ONES << (256 - n); }

/* Bit i (i < 256) of a key. */
static inline unsigned BITAT(u256 v, unsigned i) { return (unsigned)((v >> (255 - i)) & 1); }

/* A one at position i. */
static inline u256 ONEAT(unsigned i) { return ((u256)1) << (255 - i); }

#endif
