/* Contracts of nodes.c, enforced on the real bodies. Recursive calls of
 * node_destroy and node_hash go to their contracts. */
#define VF_DEFINE_ABORT
#include "nodes.c"
#include "vf.h"
#include "bits_spec.h"

u256 __CPROVER_uninterpreted_hint(size_t n, u256 p, u256 l, u256 r);
u256 __CPROVER_uninterpreted_hval(u256 key, size_t n, u256 vid);
u256 __CPROVER_uninterpreted_mk(const urkel_node_t *n); /* Merkle value of an opaque child */

/* arbitrary byte of an arbitrary-size value */
static size_t GI;
static unsigned char GB; static const unsigned char *GV; static size_t GN; static unsigned char GKEY[32]; static int HV;

/* contract of hash_internal/hash_value: a function of what is passed */
void urkel_hash_internal(unsigned char *out, const urkel_bits_t *prefix, const unsigned char *left, const unsigned char *right) {
  ASSERT_(prefix->size <= 256, "contract of hash_internal: prefix within a key");
  ST(out, __CPROVER_uninterpreted_hint(prefix->size, LD(prefix->data), LD(left), LD(right)));
}
void urkel_hash_value(unsigned char *out, const unsigned char *key, const unsigned char *value, size_t size) {
  ASSERT_(LD(key) == LD(GKEY), "the hash of a leaf covers its key");
  ASSERT_(size == GN, "the hash of a leaf covers its whole value");
  ASSERT_(GI >= size || value[GI] == GB, "the hash of a leaf covers every byte of its value");
  HV++;
  ST(out, __CPROVER_uninterpreted_hval(LD(GKEY), GN, 0));
}
/* cut bodies that only other functions need */
void urkel_hash_raw(unsigned char *out, const void *key, size_t size) { ASSERT_(0, "hash_raw is not used here"); }

#ifdef OP_destroy
static urkel_node_t *D[2]; static int ND;
void stub_destroy(urkel_node_t *node, int recurse) {
  ASSERT_(recurse, "destroy: children go with everything below them");
  ASSERT_(ND < 2, "destroy: at most the two children");
  D[ND++] = node;
  free(node);
}
void real_destroy(urkel_node_t *, int);
int main(void) {
  unsigned type = nondet_uint(); int rec = nondet_int();
  ASSUME(type <= 3);
  urkel_node_t *n = malloc(sizeof(*n)), *l = NULL, *r = NULL;
  n->type = type;
  if (type == URKEL_NODE_INTERNAL) {
    l = malloc(sizeof(*l)); r = malloc(sizeof(*r));
    n->u.internal.left = l; n->u.internal.right = r;
  }
  if (type == URKEL_NODE_LEAF) {
    n->u.leaf.value = NULL;
    if (nondet_bool()) { size_t s = nondet_size(); ASSUME(s <= 1023); n->u.leaf.value = malloc(s + 1); }
  }
  real_destroy(n, rec);
  if (type == URKEL_NODE_INTERNAL) {
    if (rec) ASSERT_(ND == 2 && ((D[0] == l && D[1] == r) || (D[0] == r && D[1] == l)), "destroy: both children, once each");
    else { ASSERT_(ND == 0, "destroy: without recursion the children stay"); free(l); free(r); }
  }
  REACH("destroy");
}
#endif

#ifdef OP_hash
const unsigned char *stub_hash(urkel_node_t *node) {
  if (!(node->flags & URKEL_FLAG_HASHED)) {
    ST(node->hash, __CPROVER_uninterpreted_mk(node));
    node->flags |= URKEL_FLAG_HASHED;
  }
  return node->hash;
}
const unsigned char *real_hash(urkel_node_t *);
int main(void) {
  unsigned type = nondet_uint();
  ASSUME(type <= 3);
  urkel_node_t *n = malloc(sizeof(*n));
  n->type = type;
  ASSUME(n->flags <= 15);
  u256 h0 = LD(n->hash); unsigned f0 = n->flags;
  u256 want;
  urkel_node_t *l = NULL, *r = NULL;
  GI = nondet_size();
  if (type == URKEL_NODE_INTERNAL) {
    l = malloc(sizeof(*l)); r = malloc(sizeof(*r));
    n->u.internal.left = l; n->u.internal.right = r;
    ASSUME(n->u.internal.prefix.size <= 256);
    if (l->flags & URKEL_FLAG_HASHED) ASSUME(LD(l->hash) == __CPROVER_uninterpreted_mk(l));
    if (r->flags & URKEL_FLAG_HASHED) ASSUME(LD(r->hash) == __CPROVER_uninterpreted_mk(r));
    want = __CPROVER_uninterpreted_hint(n->u.internal.prefix.size, LD(n->u.internal.prefix.data),
                                        __CPROVER_uninterpreted_mk(l), __CPROVER_uninterpreted_mk(r));
  } else if (type == URKEL_NODE_LEAF) {
    GN = nondet_size(); ASSUME(GN <= 1023);
    n->u.leaf.size = GN;
    n->u.leaf.value = malloc(GN + 1);
    GV = n->u.leaf.value; if (GI < GN) GB = GV[GI];
    ST(GKEY, LD(n->u.leaf.key));
    ASSUME(f0 & (URKEL_FLAG_HASHED | URKEL_FLAG_VALUE));
    want = __CPROVER_uninterpreted_hval(LD(GKEY), GN, 0);
  } else {
    /* null: all zero; hash: the hash it was read with */
    if (type == URKEL_NODE_NULL) { ASSUME(h0 == 0 && (f0 & URKEL_FLAG_HASHED)); }
    want = h0;
  }
  if (f0 & URKEL_FLAG_HASHED) want = h0;
  const unsigned char *p = real_hash(n);
  ASSERT_(p == n->hash, "hash: returns the node's own hash");
  ASSERT_(LD(n->hash) == want, "hash: the Merkle value of the node from its children or its pair");
  ASSERT_(type == URKEL_NODE_HASH || (n->flags & URKEL_FLAG_HASHED), "hash: is remembered");
  ASSERT_((n->flags & ~1u) == (f0 & ~1u) && n->type == type, "hash: changes nothing else");
  if (type == URKEL_NODE_INTERNAL) ASSERT_(n->u.internal.left == l && n->u.internal.right == r, "hash: keeps the children");
  REACH("hash");
}
#endif

#ifdef OP_leaf
int main(void) {
  unsigned char key[32], out[4]; size_t size = nondet_size();
  ASSUME(size <= 1023);
  unsigned char *value = malloc(size + 1);
  GI = nondet_size(); ASSUME(GI < 1023);
  GN = size; GB = GI < size ? value[GI] : 0; ST(GKEY, LD(key));
  urkel_node_t *n = urkel_node_create_leaf(key, size > 0 || nondet_bool() ? value : NULL, size);
  ASSERT_(n->type == URKEL_NODE_LEAF && n->flags == (URKEL_FLAG_HASHED | URKEL_FLAG_VALUE), "create_leaf: a hashed leaf holding its value");
  ASSERT_(LD(n->u.leaf.key) == LD(key), "create_leaf: its key");
  ASSERT_(n->u.leaf.size == size, "create_leaf: the size of its value");
  ASSERT_(n->u.leaf.value != value && __CPROVER_r_ok(n->u.leaf.value, size), "create_leaf: a copy of the value of its own");
  ASSERT_(GI >= size || n->u.leaf.value[GI] == GB, "create_leaf: every byte of the value");
  ASSERT_(LD(n->hash) == __CPROVER_uninterpreted_hval(LD(key), size, 0) && HV == 1, "create_leaf: hashed");
  ASSERT_(n->ptr.index == 0 && n->ptr.pos == 0 && n->ptr.size == 0 && n->u.leaf.vptr.index == 0, "create_leaf: not stored anywhere");
  /* lookups in it */
  unsigned char k2[32];
  ASSERT_((urkel_node_key_equals(n, k2) != 0) == (LD(k2) == LD(key)), "key_equals: equality of all 32 bytes");
  urkel_bits_t kb; urkel_node_key_bits(n, &kb);
  ASSERT_(kb.size == 256 && LD(kb.data) == LD(key), "key_bits: the whole key");
  size_t s2 = nondet_size(); ASSUME(s2 <= 1023);
  free(n->u.leaf.value); free(n); free(value);
  REACH("leaf");
}
#endif

#ifdef OP_valeq
int main(void) {
  urkel_node_t n; size_t s2 = nondet_size();
  n.type = URKEL_NODE_LEAF;
  ASSUME(n.u.leaf.size <= VMAX && s2 <= VMAX);
  unsigned char a[VMAX], b[VMAX];
  n.u.leaf.value = a;
  _Bool same = n.u.leaf.size == s2;
  for (size_t i = 0; i < VMAX; i++) same = same && (i >= s2 || a[i] == b[i]);
  int e = urkel_node_value_equals(&n, b, s2);
  ASSERT_((e != 0) == (same && (n.flags & URKEL_FLAG_VALUE)), "value_equals: the value is in memory and every byte equals");
  REACH("valeq");
}
#endif

#ifdef OP_small
int main(void) {
  urkel_node_t n, o; unsigned char h[32];
  /* to_hash */
  ASSUME(n.type <= 3 && (n.flags & 3) == 3 && n.flags <= 15 && n.ptr.index <= 0x7fff && n.ptr.pos <= 0x7fffffff && n.ptr.size <= URKEL_NODE_SIZE);
  if (n.type == URKEL_NODE_NULL) ASSUME(LD(n.hash) == 0);
  urkel_node_to_hash(&n, &o);
  ASSERT_(o.type == (n.type == URKEL_NODE_NULL ? URKEL_NODE_NULL : URKEL_NODE_HASH), "to_hash: a hash node (or still empty)");
  ASSERT_(LD(o.hash) == LD(n.hash), "to_hash: keeps the Merkle value");
  ASSERT_((o.flags & 3) == 3, "to_hash: hashed and stored");
  ASSERT_(o.ptr.index == n.ptr.index && o.ptr.pos == n.ptr.pos && o.ptr.size == n.ptr.size, "to_hash: keeps the file position");
  /* mark, save, hashed */
  urkel_node_t m; unsigned f = m.flags; ASSUME(m.type == URKEL_NODE_INTERNAL || m.type == URKEL_NODE_LEAF);
  uint16_t ix = nondet_u16(); uint32_t ps = nondet_u32(); uint8_t sz = nondet_uchar(); uint16_t vs = nondet_u16();
  urkel_node_mark(&m, ix, ps, sz);
  ASSERT_(m.ptr.index == ix && m.ptr.pos == ps && m.ptr.size == sz && m.flags == (f | URKEL_FLAG_WRITTEN), "mark: records where the node is stored");
  if (m.type == URKEL_NODE_LEAF) {
    urkel_node_save(&m, ix, ps, vs);
    ASSERT_(m.u.leaf.vptr.index == ix && m.u.leaf.vptr.pos == ps && m.u.leaf.vptr.size == vs && (m.flags & URKEL_FLAG_SAVED), "save: records where the value is stored");
  }
  unsigned f2 = m.flags;
  urkel_node_hashed(&m, h);
  ASSERT_(LD(m.hash) == LD(h) && m.flags == (f2 | URKEL_FLAG_HASHED), "hashed: takes over the hash");
  /* init */
  unsigned t = nondet_uint(); ASSUME(t <= 3);
  urkel_node_t z;
  urkel_node_init(&z, t);
  ASSERT_(z.type == t && LD(z.hash) == 0 && z.ptr.index == 0 && z.ptr.pos == 0 && z.ptr.size == 0, "init: type, zero hash, nowhere stored");
  ASSERT_(z.flags == (t == URKEL_NODE_NULL ? 3u : t == URKEL_NODE_HASH ? 1u : 0u), "init: flags of a fresh node");
  if (t == URKEL_NODE_LEAF) ASSERT_(z.u.leaf.value == NULL && z.u.leaf.size == 0, "init: leaf without value");
  if (t == URKEL_NODE_INTERNAL) ASSERT_(z.u.internal.prefix.size == 0 && LD(z.u.internal.prefix.data) == 0, "init: internal node without prefix");
  /* create_internal, get */
  urkel_bits_t p; urkel_node_t x, y; unsigned bit = nondet_uint(); ASSUME(bit <= 1);
  urkel_node_t *c = urkel_node_create_internal(&p, &x, &y, bit);
  ASSERT_(c->type == URKEL_NODE_INTERNAL && c->flags == 0, "create_internal: fresh, neither hashed nor stored");
  ASSERT_(c->u.internal.prefix.size == p.size && LD(c->u.internal.prefix.data) == LD(p.data), "create_internal: the prefix");
  ASSERT_(urkel_node_get(c, bit) == &x && urkel_node_get(c, bit ^ 1) == &y, "create_internal: x on side bit, y on the other");
  free(c);
  urkel_node_t *nu = urkel_node_create_null();
  ASSERT_(nu->type == URKEL_NODE_NULL && LD(nu->hash) == 0, "create_null: empty");
  free(nu);
  REACH("small");
}
#endif

#ifdef OP_clear
void stub_destroy(urkel_node_t *node, int recurse) { ASSERT_(recurse, "clear: children go with everything below"); free(node); }
int main(void) {
  unsigned type = nondet_uint();
  ASSUME(type <= 3);
  urkel_node_t *n = malloc(sizeof(*n));
  n->type = type;
  if (type == URKEL_NODE_INTERNAL) { n->u.internal.left = malloc(sizeof(*n)); n->u.internal.right = malloc(sizeof(*n)); }
  if (type == URKEL_NODE_LEAF) n->u.leaf.value = nondet_bool() ? malloc(10) : NULL;
  urkel_node_clear(n);
  if (type == URKEL_NODE_LEAF) ASSERT_(n->u.leaf.value == NULL, "clear: the value is gone");
  ASSERT_(n->type == type, "clear: keeps the type");
  free(n);
  REACH("clear");
}
#endif

#ifdef OP_pointer
int main(void) {
  urkel_pointer_t p, q; unsigned char raw[9];
  ASSUME(p.index <= 0x7fff && p.pos <= 0x7fffffff && p.size <= 0x3ff);
  raw[7] = 0x5a;
  unsigned char *e = urkel_pointer_write(&p, raw);
  ASSERT_(e == raw + URKEL_PTR_SIZE && raw[7] == 0x5a, "pointer: seven bytes");
  urkel_pointer_read(&q, raw);
  ASSERT_(q.index == p.index && q.pos == p.pos && q.size == p.size, "pointer: read back what was written");
  /* documented layout: 15 bits index, 31 bits position, 10 bits size, little endian */
  ASSERT_((raw[0] | raw[1] << 8) == ((p.index << 1) | (p.size >> 9)), "pointer layout: index and top size bit");
  ASSERT_(((uint32_t)raw[2] | (uint32_t)raw[3] << 8 | (uint32_t)raw[4] << 16 | (uint32_t)raw[5] << 24) == (uint32_t)((p.pos << 1) | ((p.size >> 8) & 1)), "pointer layout: position and next size bit");
  ASSERT_(raw[6] == (p.size & 0xff), "pointer layout: low size byte");
  unsigned char any[7]; urkel_pointer_t r;
  urkel_pointer_read(&r, any);
  ASSERT_(r.index <= 0x7fff && r.pos <= 0x7fffffff && r.size <= 0x3ff, "pointer: any bytes give a pointer within its limits");
  urkel_pointer_init(&r);
  ASSERT_(r.index == 0 && r.pos == 0 && r.size == 0, "pointer: fresh is null");
  REACH("pointer");
}
#endif

#ifdef OP_codec
/* contract of the pointer codec: seven bytes, exact round trip (job nodes.pointer) */
static _Bool same_ptr(const urkel_pointer_t *a, const urkel_pointer_t *b) { return a->index == b->index && a->pos == b->pos && a->size == b->size; }
int main(void) {
  urkel_node_t n, l, r, o;
  unsigned char raw[URKEL_NODE_SIZE + 1]; size_t len = nondet_size();
  n.type = LEAFN ? URKEL_NODE_LEAF : URKEL_NODE_INTERNAL;
  if (n.type == URKEL_NODE_INTERNAL) {
    n.u.internal.left = &l; n.u.internal.right = &r;
    ASSUME(n.u.internal.prefix.size >= PLO && n.u.internal.prefix.size <= PHI);
    ASSUME((LD(n.u.internal.prefix.data) & ~MASKN(n.u.internal.prefix.size)) == 0);
    ASSUME((l.flags & 3) == 3 && (r.flags & 3) == 3);
    ASSUME(l.ptr.index <= 0x7fff && l.ptr.pos <= 0x7fffffff && l.ptr.size <= 0x3ff);
    ASSUME(r.ptr.index <= 0x7fff && r.ptr.pos <= 0x7fffffff && r.ptr.size <= 0x3ff);
  } else {
    ASSUME(n.flags & URKEL_FLAG_SAVED);
    ASSUME(n.u.leaf.vptr.index <= 0x7fff && n.u.leaf.vptr.pos <= 0x7fffffff && n.u.leaf.vptr.size <= 0x3ff);
  }
  size_t sz = urkel_node_size(&n);
  ASSERT_(sz <= URKEL_NODE_SIZE, "node size: within the limit");
  raw[sz] = 0x5a;
  unsigned char *e = urkel_node_write(&n, raw);
  ASSERT_(e == raw + sz && raw[sz] == 0x5a, "node write: exactly the announced size");
  ASSUME(len <= sz);
  int ok = urkel_node_read(&o, raw, len);
  ASSERT_((ok != 0) == (len == sz), "node read: needs exactly the whole record");
  if (ok) {
    ASSERT_(o.type == n.type, "node read: same type");
    if (n.type == URKEL_NODE_INTERNAL) {
      ASSERT_(o.u.internal.prefix.size == n.u.internal.prefix.size && LD(o.u.internal.prefix.data) == LD(n.u.internal.prefix.data), "node read: same prefix");
      urkel_node_t *a = o.u.internal.left, *b = o.u.internal.right;
      ASSERT_(a->type == URKEL_NODE_HASH && b->type == URKEL_NODE_HASH && (a->flags & 3) == 3 && (b->flags & 3) == 3, "node read: children are stored, hashed references");
      ASSERT_(LD(a->hash) == LD(l.hash) && LD(b->hash) == LD(r.hash), "node read: same child hashes, left and right");
      ASSERT_(same_ptr(&a->ptr, &l.ptr) && same_ptr(&b->ptr, &r.ptr), "node read: same child positions, left and right");
      ASSERT_(!(o.flags & URKEL_FLAG_HASHED), "node read: hash not known yet");
      free(a); free(b);
    } else {
      ASSERT_(LD(o.u.leaf.key) == LD(n.u.leaf.key) && same_ptr(&o.u.leaf.vptr, &n.u.leaf.vptr), "node read: same key and value position");
      ASSERT_((o.flags & (URKEL_FLAG_SAVED | URKEL_FLAG_VALUE)) == URKEL_FLAG_SAVED && o.u.leaf.value == NULL, "node read: value still on disk");
    }
  }
  REACH("codec");
}
#endif

#ifdef OP_read
int main(void) {
  size_t len = nondet_size(); ASSUME(len <= URKEL_NODE_SIZE + 2);
  unsigned char *raw = malloc(len);
  urkel_node_t o;
  int ok = urkel_node_read(&o, raw, len);
  if (ok) {
    ASSERT_(o.type == URKEL_NODE_INTERNAL || o.type == URKEL_NODE_LEAF, "node read: an internal node or a leaf");
    if (o.type == URKEL_NODE_INTERNAL) {
      ASSERT_(o.u.internal.prefix.size <= 256, "node read: prefix within a key");
      ASSERT_(o.u.internal.left != NULL && o.u.internal.right != NULL && o.u.internal.left != o.u.internal.right, "node read: two children");
      free(o.u.internal.left); free(o.u.internal.right);
    } else ASSERT_(o.u.leaf.vptr.size <= URKEL_VALUE_SIZE, "node read: value within its limit");
  }
  free(raw);
  REACH("read");
}
#endif
