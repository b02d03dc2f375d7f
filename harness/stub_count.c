#include "vf.h"
#include "bits_spec.h"
size_t urkel_bits_count(const urkel_bits_t *bits, const unsigned char *key, unsigned int depth) {
  size_t c = nondet_size();
  ASSERT_(bits->size <= 256 && depth <= 256, "contract of bits_count: size and depth within a key");
  ASSUME(spec_is_count(c, LD(bits->data), bits->size, 0, LD(key), depth));
  return c;
}
