/* Contracts of bits.c as stubs for callers, at the level of the prefix
 * predicates. Each assumed fact is a lemma of lemmas/Bits.lean about the
 * specification functions of bits_spec.h, instantiated here. */
static unsigned D0; static id_t P0; /* position of the step's node */

id_t __CPROVER_uninterpreted_slice(id_t v, n10 s, n10 e);
id_t __CPROVER_uninterpreted_kslice(kid_t v, n10 s, n10 e);
id_t __CPROVER_uninterpreted_join(id_t l, n10 ls, id_t r, n10 rs, b1 bit);
#define SLICEF(v, s, e) __CPROVER_uninterpreted_slice((v), (n10)(s), (n10)(e))
#define KSLICEF(key, s, e) __CPROVER_uninterpreted_kslice(KID(key), (n10)(s), (n10)(e))
#define JOINF(l, ls, r, rs, b) __CPROVER_uninterpreted_join((l), (n10)(ls), (r), (n10)(rs), (b1)((b) != 0))

int urkel_bits_has(const urkel_bits_t *bits, const unsigned char *key, unsigned int depth) {
  ASSERT_(bits->size <= 256 && depth <= 256, "contract of bits_has: size and depth within a key");
  return HASF(LDI(bits->data), bits->size, key, depth);
}

/* [count_full] [count_stop] */
size_t urkel_bits_count(const urkel_bits_t *bits, const unsigned char *key, unsigned int depth) {
  size_t c = nondet_size();
  ASSERT_(bits->size <= 256 && depth <= 256, "contract of bits_count: size and depth within a key");
  id_t v = LDI(bits->data); size_t n = bits->size;
  ASSUME(c <= n && c <= 256 - depth);
  ASSUME((c == n) == HASF(v, n, key, depth));
  ASSUME(HASF(SLICEF(v, 0, c), c, key, depth));
  if (c < n && c < 256 - depth) ASSUME(PBIT(v, c) != BYTEBIT(key, depth + c));
  return c;
}

static void fact_split(id_t v, size_t n, size_t i, unsigned vi, id_t f, id_t b, const unsigned char *key) {
  /* [has_split] */
  ASSUME(HASF(v, n, key, D0) ==
         (HASF(f, i, key, D0) && BYTEBIT(key, D0 + i) == vi && HASF(b, n - i - 1, key, D0 + i + 1)));
}

void urkel_bits_split(urkel_bits_t *left, urkel_bits_t *right, const urkel_bits_t *bits, size_t index) {
  size_t n = bits->size;
  ASSERT_(index < n && n <= 256, "contract of bits_split: index within the bits");
  ASSERT_(left != bits && right != bits && left != right, "contract of bits_split: no aliasing");
  id_t v = LDI(bits->data), f = SLICEF(v, 0, index), b = SLICEF(v, index + 1, n);
  unsigned vi = PBIT(v, index);
  left->size = index; STI(left->data, f);
  right->size = n - index - 1; STI(right->data, b);
  ASSUME(TZF(f, index) && TZF(b, n - index - 1)); /* [slice_tz] */
  if (D0 + n < 256) {
    fact_split(v, n, index, vi, f, b, KB);
    fact_split(v, n, index, vi, f, b, QB);
    /* [ext_split] */
    id_t m = EXTF(P0, D0, f, index, vi);
    ASSUME(EXTF(m, D0 + index + 1, b, n - index - 1, 0) == EXTF(P0, D0, v, n, 0));
    ASSUME(EXTF(m, D0 + index + 1, b, n - index - 1, 1) == EXTF(P0, D0, v, n, 1));
  }
}

void urkel_bits_slice(urkel_bits_t *out, const urkel_bits_t *bits, size_t start, size_t end) {
  ASSERT_(start <= end && end <= 256, "contract of bits_slice: start <= end <= 256");
  ASSERT_(out != bits, "contract of bits_slice: no aliasing");
  out->size = end - start;
  STI(out->data, SLICEF(LDI(bits->data), start, end));
  ASSUME(TZF(SLICEF(LDI(bits->data), start, end), end - start));
}

/* [collide_has] [collide_stop] */
void urkel_bits_collide(urkel_bits_t *out, const urkel_bits_t *bits, const unsigned char *key, unsigned int depth) {
  size_t c = nondet_size();
  ASSERT_(bits->size == 256 && depth <= 256, "contract of bits_collide: a whole key, depth within it");
  ASSERT_(out != bits, "contract of bits_collide: no aliasing");
  const unsigned char *v = bits->data;
  ASSUME(c <= 256 - depth);
  id_t o = KSLICEF(v, depth, depth + c);
  out->size = c; STI(out->data, o);
  ASSUME(TZF(o, c) && HASF(o, c, key, depth) && HASF(o, c, v, depth));
  if (c < 256 - depth) ASSUME(BYTEBIT(bits->data, depth + c) != BYTEBIT(key, depth + c));
  else ASSUME(!(depth == D0 && UNDER(v, P0, D0) && UNDER(key, P0, D0)) || LD(v) == LD(key));
}

static void fact_join(id_t a, size_t ls, id_t b, size_t rs, unsigned bit, id_t j, const unsigned char *key) {
  /* [has_join] */
  ASSUME(HASF(j, ls + rs + 1, key, D0) ==
         (HASF(a, ls, key, D0) && BYTEBIT(key, D0 + ls) == bit && HASF(b, rs, key, D0 + ls + 1)));
}

void urkel_bits_join(urkel_bits_t *out, const urkel_bits_t *left, const urkel_bits_t *right, unsigned int bit) {
  id_t a = LDI(left->data), b = LDI(right->data);
  size_t ls = left->size, rs = right->size;
  ASSERT_(ls <= 255 && rs <= 255 && ls + rs + 1 <= 256, "contract of bits_join: result fits in a key");
  ASSERT_(TZF(a, ls), "contract of bits_join: left carries no bits past its size");
  ASSERT_(bit <= 1 && out != left && out != right, "contract of bits_join: a bit, no aliasing");
  id_t j = JOINF(a, ls, b, rs, bit);
  out->size = ls + rs + 1; STI(out->data, j);
  ASSUME(TZF(j, ls + rs + 1)); /* [join_tz] */
  if (D0 + ls + rs + 1 < 256) {
    fact_join(a, ls, b, rs, bit, j, KB);
    fact_join(a, ls, b, rs, bit, j, QB);
    /* [ext_join] */
    id_t m = EXTF(P0, D0, a, ls, bit);
    ASSUME(EXTF(m, D0 + ls + 1, b, rs, 0) == EXTF(P0, D0, j, ls + rs + 1, 0));
    ASSUME(EXTF(m, D0 + ls + 1, b, rs, 1) == EXTF(P0, D0, j, ls + rs + 1, 1));
  }
}

void urkel_bits_init(urkel_bits_t *bits, size_t size) {
  bits->size = size;
  ST(bits->data, (u256)0);
}
