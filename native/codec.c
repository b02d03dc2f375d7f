/* codec.c - on-disk and proof encodings against their documented layout:
 * little-endian, an own encoder, exact buffers (address sanitizer watches). */
#include "common.h"
#include "store.c"
#include "blake2b.h"
#define C_NODE 1u
#define C_META 2u
#define C_BITS 4u
#define C_HASH 8u
static urkel_pointer_t gen_ptr(unsigned maxsize) {
  urkel_pointer_t p; p.index = rn(3) ? rn(0x8000) : rn(2) ? 0x7fff : rn(300);
  p.pos = rn(3) ? rnd() & 0x7fffffff : rn(2) ? 0x7fffffff - rn(5000) : (uint64_t)1 << rn(31); p.size = rn(3) ? rn(maxsize + 1) : maxsize; return p;
}
static int same(const urkel_pointer_t *a, const urkel_pointer_t *b) { return a->index == b->index && a->pos == b->pos && a->size == b->size; }
static urkel_bits_t gen_bits(unsigned size) { urkel_bits_t b; memset(&b, 0, sizeof b); b.size = size; for (unsigned i = 0; i < size; i++) if (rnd() & 1) b.data[i / 8] |= 0x80 >> (i % 8); return b; }
static unsigned gen_size(void) { static const unsigned s[] = {0, 1, 7, 8, 9, 127, 128, 129, 247, 248, 254, 255, 256}; return rn(3) ? s[rn(13)] : rn(257); }
static void nodes(void) {
  for (int t = 0; t < 6000; t++) {
    unsigned char h1[32], h2[32], raw[200], *buf; urkel_node_t out;
    for (int i = 0; i < 32; i++) { h1[i] = rnd(); h2[i] = rnd(); }
    { urkel_pointer_t p = gen_ptr(1023), q; unsigned char *b = malloc(URKEL_PTR_SIZE), *e = urkel_pointer_write(&p, b); CK(C_NODE, e == b + URKEL_PTR_SIZE, "a pointer takes %ld bytes", (long)(e - b));
      urkel_pointer_read(&q, b); CK(C_NODE, same(&p, &q), "pointer %u/%lu/%lu comes back as %u/%lu/%lu", p.index, (unsigned long)p.pos, (unsigned long)p.size, q.index, (unsigned long)q.pos, (unsigned long)q.size); free(b); }
    if (rn(2)) {
      urkel_node_t *n = urkel_node_create(URKEL_NODE_INTERNAL), *l = urkel_node_create(URKEL_NODE_HASH), *r = urkel_node_create(URKEL_NODE_HASH); unsigned s = gen_size();
      n->u.internal.prefix = gen_bits(s); n->u.internal.left = l; n->u.internal.right = r; l->ptr = gen_ptr(URKEL_NODE_SIZE); r->ptr = gen_ptr(URKEL_NODE_SIZE);
      memcpy(l->hash, h1, 32); memcpy(r->hash, h2, 32); l->flags |= URKEL_FLAG_WRITTEN | URKEL_FLAG_HASHED; r->flags |= URKEL_FLAG_WRITTEN | URKEL_FLAG_HASHED;
      size_t want = 1 + (s > 255 ? 2 : s > 0 ? 1 : 0) + (s + 7) / 8 + 2 * (URKEL_PTR_SIZE + 32), sz = urkel_node_size(n); CK(C_NODE, sz == want, "an internal node with %u prefix bits announces %lu bytes", s, (unsigned long)sz);
      buf = malloc(want); unsigned char *e = urkel_node_write(n, buf); CK(C_NODE, e == buf + want, "an internal node takes %ld bytes instead of %lu", (long)(e - buf), (unsigned long)want);
      CK(C_NODE, buf[0] == (URKEL_NODE_INTERNAL | (s > 0) << 4 | (s > 255) << 5), "internal node: type byte %02x", buf[0]);
      int ok = urkel_node_read(&out, buf, want); CK(C_NODE, ok, "a written internal node with %u prefix bits is refused", s);
      if (ok) { CK(C_NODE, out.type == URKEL_NODE_INTERNAL && out.u.internal.prefix.size == s && !memcmp(out.u.internal.prefix.data, n->u.internal.prefix.data, 32), "prefix of %u bits does not come back", s);
        CK(C_NODE, same(&out.u.internal.left->ptr, &l->ptr) && same(&out.u.internal.right->ptr, &r->ptr), "child pointers do not come back");
        CK(C_NODE, !memcmp(out.u.internal.left->hash, h1, 32) && !memcmp(out.u.internal.right->hash, h2, 32), "child hashes do not come back"); urkel_node_clear(&out); }
      for (int i = 0; i < 3; i++) { size_t k = rn(want); unsigned char *c = malloc(k ? k : 1); memcpy(c, buf, k); ok = urkel_node_read(&out, c, k); CK(C_NODE, !ok, "a truncated internal node is accepted"); if (ok) urkel_node_clear(&out); free(c); }
      free(buf); urkel_node_destroy(n, 1);
    } else {
      unsigned char v[4] = "abc"; urkel_node_t *n = urkel_node_create_leaf(h1, v, 3); n->u.leaf.vptr = gen_ptr(1023); n->flags |= URKEL_FLAG_SAVED;
      size_t want = 1 + URKEL_PTR_SIZE + 32, sz = urkel_node_size(n); CK(C_NODE, sz == want, "a leaf announces %lu bytes", (unsigned long)sz);
      buf = malloc(want); unsigned char *e = urkel_node_write(n, buf); CK(C_NODE, e == buf + want, "a leaf takes %ld bytes", (long)(e - buf));
      int ok = urkel_node_read(&out, buf, want); CK(C_NODE, ok && out.type == URKEL_NODE_LEAF && !memcmp(out.u.leaf.key, h1, 32) && same(&out.u.leaf.vptr, &n->u.leaf.vptr), "a leaf does not come back"); if (ok) urkel_node_clear(&out);
      size_t k = rn(want); unsigned char *c = malloc(k ? k : 1); memcpy(c, buf, k); ok = urkel_node_read(&out, c, k); CK(C_NODE, !ok, "a truncated leaf is accepted"); if (ok) urkel_node_clear(&out); free(c);
      free(buf); urkel_node_destroy(n, 1);
    }
    /* arbitrary bytes */
    size_t k = rn(150); buf = malloc(k ? k : 1); for (size_t i = 0; i < k; i++) buf[i] = rnd();
    static const unsigned char ty[] = {1, 2, 0x11, 0x31, 0x21, 0, 3, 0x33, 0xf1, 0x12}; if (k) buf[0] = rn(4) ? ty[rn(10)] : rnd(); if (k > 2 && rn(2)) { buf[1] = rn(8); buf[2] = rn(3); }
    if (urkel_node_read(&out, buf, k)) { CK(C_NODE, out.type == URKEL_NODE_INTERNAL ? out.u.internal.prefix.size <= 256 : out.type == URKEL_NODE_LEAF, "garbage decodes to a node beyond its limits"); urkel_node_clear(&out); }
    free(buf); (void)raw;
  }
}
static void metas(void) {
  for (int t = 0; t < 3000; t++) {
    urkel_meta_t m, o; unsigned char key[32], *b = malloc(META_SIZE); urkel_meta_init(&m); m.meta_ptr = gen_ptr(1023); m.root_ptr = gen_ptr(URKEL_NODE_SIZE); for (int i = 0; i < 32; i++) key[i] = rnd();
    unsigned char *e = urkel_meta_write(&m, b, key); CK(C_META, e == b + META_SIZE, "a meta record takes %ld bytes", (long)(e - b));
    rb2 s; unsigned char want[20]; rinit(&s, 20, key, 32); rup(&s, b, META_SIZE - 20); rfin(&s, want); CK(C_META, !memcmp(want, b + META_SIZE - 20, 20), "the checksum of a meta record is not BLAKE2b-160 with the database's key");
    urkel_meta_init(&o); CK(C_META, urkel_meta_read(&o, b, key) && same(&o.meta_ptr, &m.meta_ptr) && same(&o.root_ptr, &m.root_ptr), "a meta record does not come back");
    unsigned at = rn(META_SIZE), bit = 1 << rn(8); b[at] ^= bit; CK(C_META, !urkel_meta_read(&o, b, key), "a meta record with a flipped bit in byte %u is accepted", at); b[at] ^= bit;
    key[rn(32)] ^= 1 << rn(8); CK(C_META, !urkel_meta_read(&o, b, key), "a meta record is accepted under another key"); free(b);
  }
}
static void bitss(void) {
  for (int t = 0; t < 8000; t++) {
    unsigned s = gen_size(); urkel_bits_t b = gen_bits(s), o; if (s == 0) continue;
    size_t want = (s >= 128 ? 2 : 1) + (s + 7) / 8, sz = urkel_bits_size(&b); CK(C_BITS, sz == want, "%u bits announce %lu bytes", s, (unsigned long)sz);
    unsigned char *d = malloc(want), *e = urkel_bits_write(&b, d); CK(C_BITS, e == d + want, "%u bits take %ld bytes", s, (long)(e - d));
    memset(&o, 0xcc, sizeof o); CK(C_BITS, urkel_bits_read(&o, d, want) && o.size == s && !memcmp(o.data, b.data, (s + 7) / 8), "%u bits do not come back", s);
    size_t k = rn(want); unsigned char *c = malloc(k ? k : 1); memcpy(c, d, k); CK(C_BITS, !urkel_bits_read(&o, c, k), "truncated bits are accepted"); free(c); free(d);
    k = rn(40); d = malloc(k ? k : 1); for (size_t i = 0; i < k; i++) d[i] = rn(3) ? rnd() : 0x80 | rn(3); if (urkel_bits_read(&o, d, k)) CK(C_BITS, o.size <= 256 && (o.size >= 128 ? 2 : 1) + (o.size + 7) / 8 <= k, "garbage decodes to %lu bits", (unsigned long)o.size); free(d);
    { static const unsigned short odd[] = {0x8000, 0x807f, 0x8101, 0x81ff, 0xffff, 0x8001}; unsigned short q = odd[rn(6)]; unsigned char z[80]; memset(z, 0, 80); z[0] = q >> 8; z[1] = q; int r = urkel_bits_read(&o, z, 80); CK(C_BITS, !r || (q & 0x7fff) <= 256, "bits of length %u are accepted", q & 0x7fff); }
  }
}
static void hashes(void) {
  for (int t = 0; t < 700; t++) {
    unsigned char a[32], b[32], o[32], w[32], *v; for (int i = 0; i < 32; i++) { a[i] = rnd(); b[i] = rnd(); }
    unsigned s = gen_size(); urkel_bits_t p = gen_bits(s); urkel_hash_internal(o, &p, a, b); ref_int(s, p.data, a, b, w); CK(C_HASH, !memcmp(o, w, 32), "hash of an internal node with %u prefix bits", s);
    urkel_hash_leaf(o, a, b); ref_leaf(a, b, w); CK(C_HASH, !memcmp(o, w, 32), "hash of a leaf");
    size_t n = rn(3) ? rn(1024) : (size_t)128 * rn(9); v = malloc(n ? n : 1); for (size_t i = 0; i < n; i++) v[i] = rnd();
    rb2 r; rinit(&r, 32, 0, 0); rup(&r, v, n); unsigned char vh[32]; rfin(&r, vh); ref_leaf(a, vh, w); urkel_hash_value(o, a, v, n); CK(C_HASH, !memcmp(o, w, 32), "hash of a key with a value of %lu bytes", (unsigned long)n);
    urkel_hash_key(o, v, n); CK(C_HASH, !memcmp(o, vh, 32), "hash of a key name of %lu bytes", (unsigned long)n); urkel_hash_raw(o, v, n); CK(C_HASH, !memcmp(o, vh, 32), "hash of %lu bytes", (unsigned long)n);
    urkel_hash(o, v, n); CK(C_HASH, !memcmp(o, vh, 32), "urkel_hash of %lu bytes", (unsigned long)n);
    /* fed in pieces */
    urkel_blake2b_t c; urkel_blake2b_init(&c, 32, NULL, 0); size_t i = 0; while (i < n) { size_t k = rn(3) ? 1 + rn(n - i) : 128 * (1 + rn(3)); if (rn(5) == 0) k = 0; if (k > n - i) k = n - i; urkel_blake2b_update(&c, v + i, k); i += k; } urkel_blake2b_final(&c, o); CK(C_HASH, !memcmp(o, vh, 32), "hash of %lu bytes fed in pieces", (unsigned long)n);
    unsigned ol = 1 + rn(64), kl = rn(65); unsigned char key[64], o2[64], w2[64]; for (unsigned j = 0; j < kl; j++) key[j] = rnd(); urkel_blake2b_init(&c, ol, kl ? key : NULL, kl); urkel_blake2b_update(&c, v, n); urkel_blake2b_final(&c, o2); rinit(&r, ol, key, kl); rup(&r, v, n); rfin(&r, w2); CK(C_HASH, !memcmp(o2, w2, ol), "keyed hash, %u bytes, key of %u", ol, kl);
    unsigned char cs[20], ws[20]; urkel_checksum(cs, v, n, a); rinit(&r, 20, a, 32); rup(&r, v, n); rfin(&r, ws); CK(C_HASH, !memcmp(cs, ws, 20), "checksum of %lu bytes", (unsigned long)n);
    free(v);
  }
}
int main(int argc, char **argv) {
  start(argc, argv);
  for (int r = 0; r < REPS; r++) { if (MODE & C_NODE) nodes(); if (MODE & C_META) metas(); if (MODE & C_BITS) bitss(); if (MODE & C_HASH) hashes(); }
  return finish();
}
