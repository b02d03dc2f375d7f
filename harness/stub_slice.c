#include "vf.h"
#include "bits_spec.h"
void urkel_bits_slice(urkel_bits_t *out, const urkel_bits_t *bits, size_t start, size_t end) {
  ASSERT_(PRE_slice(bits->size, start, end), "contract of bits_slice: start <= end <= 256");
  ASSERT_(out != bits, "contract of bits_slice: no aliasing");
  u256 v = LD(bits->data);
  out->size = end - start;
  ST(out->data, SPEC_slice(v, start, end));
}
