/* bits_spec.h - contracts of bits.c, stated on 256-bit numbers. */
#ifndef VF_BITS_SPEC_H
#define VF_BITS_SPEC_H
#include "spec.h"
#include "bits.h"

#define PRE_slice(n, s, e) ((s) <= (e) && (e) <= 256)
#define SPEC_slice(v, s, e) (SHL((v), (s)) & MASKN((e) - (s)))

/* count = length of the common prefix of `bits[index..]` and `key[depth..]`. */
static inline _Bool spec_is_count(size_t c, u256 bits, size_t size, unsigned index, u256 key, unsigned depth) {
  size_t x = size - index, y = 256 - depth, len = x < y ? x : y;
  u256 d = SHL(bits, index) ^ SHL(key, depth);
  return c <= len && (d & MASKN(c)) == 0 && (c == len || BITAT(d, c) == 1);
}

/* has = every bit of the prefix matches the key from `depth` on. */
static inline _Bool spec_has(u256 bits, size_t size, u256 key, unsigned depth) {
  return size <= 256 - (size_t)depth && ((bits ^ SHL(key, depth)) & MASKN(size)) == 0;
}

static inline u256 spec_join(u256 l, size_t ls, u256 r, size_t rs, unsigned bit) {
  return (l & MASKN(ls)) | ((bit & 1) ? ONEAT(ls) : U256_0) | SHR(r & MASKN(rs), ls + 1);
}

static inline size_t spec_bits_size(size_t n) { return (n >= 0x80 ? 2 : 1) + (n + 7) / 8; }
#endif
