/* ghost.h - ghost state for the modular proofs of the tree operations.
 *
 * A subtree a step function does not look into is a real, separately
 * allocated node object carrying a ghost *view*: what a lookup of the
 * operation's key K and of one arbitrary other key Q in that subtree yields,
 * its Merkle value, and the position (bit path) it lives at. Q is a free
 * variable of every proof, so a postcondition about Q is a postcondition
 * about the whole mapping.
 *
 * Prefix algebra enters through uninterpreted functions; every assumed fact
 * about them names the lemma of lemmas/Bits.lean it instantiates. */
#ifndef VF_GHOST_H
#define VF_GHOST_H
#include "vf.h"
#include "nodes.h"

/* Opaque 32-byte contents (hashes, prefix bits) are 16-bit identities stored
 * sixteen times over; reading one back demands that it moved as a whole. */
typedef uint16_t id_t;
typedef unsigned __CPROVER_bitvector[10] n10; /* sizes and depths */
typedef unsigned __CPROVER_bitvector[4] kid_t;/* which of the keys in play */

static void STI(void *p, id_t i) {
  id_t *q = p;
  q[0] = i; q[1] = i; q[2] = i; q[3] = i; q[4] = i; q[5] = i; q[6] = i; q[7] = i;
  q[8] = i; q[9] = i; q[10] = i; q[11] = i; q[12] = i; q[13] = i; q[14] = i; q[15] = i;
}
static _Bool WHOLE(const void *p) {
  u256 v = *(const u256 *)p;
  return (v >> 16) == (v & (((u256)1 << 240) - 1));
}
static id_t LDI(const void *p) {
  ASSERT_(WHOLE(p), "32 bytes of contents are copied as a whole");
  return *(const id_t *)p;
}

typedef struct { _Bool has; size_t size; id_t cid; } look_t;

typedef struct {
  id_t pos; unsigned d;  /* position: the first d bits of every key below */
  look_t k, q;           /* lookup of K and of Q */
  id_t mk;               /* Merkle value */
  _Bool leaf; unsigned char lkb[32]; /* (resolves to) a leaf, and its key */
  size_t lsize; id_t lcid;
  urkel_node_t *hidden;  /* HASH node: what resolving yields (NULL: opaque) */
  _Bool open;            /* INTERNAL node whose children are objects too */
  uint64_t ppos; uint32_t pindex; size_t psize; /* where it is stored */
} ghost_t;

typedef struct { urkel_node_t n; ghost_t g; } gnode_t;

static unsigned char KB[32], QB[32]; /* the operation's key; an arbitrary key */
static unsigned char LKB[6][32];     /* keys of the leaves in play */
#define K LD(KB)
#define Q LD(QB)

static kid_t KID(const unsigned char *p) {
  u256 v = LD(p);
  return v == K ? 1 : v == Q ? 2 : v == LD(LKB[0]) ? 3 : v == LD(LKB[1]) ? 4 : v == LD(LKB[2]) ? 5
       : v == LD(LKB[3]) ? 6 : v == LD(LKB[4]) ? 7 : v == LD(LKB[5]) ? 8 : 9;
}

/* Bit i of a 32-byte string, the first bit being the high one of byte 0. */
static unsigned BYTEBIT(const unsigned char *p, size_t i) { return (p[i >> 3] >> (7 - (i & 7))) & 1; }

/* has(pv,n,key,d): the n bits of pv equal key[d..d+n).
 * ext(P,d,pv,n,b): the path P (d bits), then n bits of pv, then bit b.
 * under(key,P,d): the first d bits of key are P. tz: no bits past n.
 * pbit(pv,i): bit i of pv. */
typedef unsigned __CPROVER_bitvector[1] b1;
b1 __CPROVER_uninterpreted_has(id_t pv, n10 n, kid_t key, n10 d);
id_t __CPROVER_uninterpreted_ext(id_t p, n10 d, id_t pv, n10 n, b1 b);
b1 __CPROVER_uninterpreted_under(kid_t key, id_t p, n10 d);
b1 __CPROVER_uninterpreted_tz(id_t pv, n10 n);
b1 __CPROVER_uninterpreted_pbit(id_t pv, n10 n);
id_t __CPROVER_uninterpreted_leaf(kid_t key, id_t vh);
id_t __CPROVER_uninterpreted_vhash(n10 size, id_t cid);
id_t __CPROVER_uninterpreted_int(n10 psize, id_t prefix, id_t l, id_t r);
#define HASF(pv, n, key, d) (__CPROVER_uninterpreted_has((pv), (n10)(n), KID(key), (n10)(d)) != 0)
#define EXTF(p, d, pv, n, b) __CPROVER_uninterpreted_ext((p), (n10)(d), (pv), (n10)(n), (b1)((b) != 0))
#define UNDER(key, p, d) (__CPROVER_uninterpreted_under(KID(key), (p), (n10)(d)) != 0)
#define TZF(pv, n) (__CPROVER_uninterpreted_tz((pv), (n10)(n)) != 0)
#define PBIT(pv, n) ((unsigned)(__CPROVER_uninterpreted_pbit((pv), (n10)(n)) != 0))
#define H_VAL(size, cid) __CPROVER_uninterpreted_vhash((n10)(size), (cid))
#define H_LEAF(key, vh) __CPROVER_uninterpreted_leaf(KID(key), (vh))
#define H_INT(n, p, l, r) __CPROVER_uninterpreted_int((n10)(n), (p), (l), (r))

/* The identity of a byte string: 0 for the empty one, its only byte for a
 * string of one byte, else the first two bytes of (opaque) contents. */
static id_t CID(const unsigned char *p, size_t n) { return n > 1 ? *(const id_t *)p : n == 1 ? *p : 0; }
static _Bool id_ok(size_t n, id_t c) { return n > 1 || (n == 1 ? c < 256 : c == 0); }

static ghost_t *g_find(const urkel_node_t *n) {
  return __CPROVER_OBJECT_SIZE(n) == sizeof(gnode_t) ? &((gnode_t *)n)->g : NULL;
}

static gnode_t *g_alloc(unsigned d, id_t pos) {
  gnode_t *o = malloc(sizeof(*o));
  o->g.d = d; o->g.pos = pos; o->g.hidden = NULL; o->g.open = 0;
  return o;
}

static look_t look_leaf(const ghost_t *g, const unsigned char *key) {
  look_t l = {0, 0, 0};
  if (LD(g->lkb) == LD(key)) { l.has = 1; l.size = g->lsize; l.cid = g->lcid; }
  return l;
}

/* The views of a leaf follow from its key and contents. */
static void g_leafview(ghost_t *g) {
  g->k = look_leaf(g, KB); g->q = look_leaf(g, QB);
  g->mk = H_LEAF(g->lkb, H_VAL(g->lsize, g->lcid));
}

static _Bool look_ok(look_t l) {
  return l.has ? l.size <= URKEL_VALUE_SIZE && id_ok(l.size, l.cid) : l.size == 0 && l.cid == 0;
}
static _Bool look_eq(look_t a, look_t b) {
  return a.has == b.has && (!a.has || (a.size == b.size && a.cid == b.cid));
}

/* A leaf is hashed; it is stored exactly when its value is; it holds its
 * value unless that is stored. */
#define LEAF_FLAGS(f) (((f) & URKEL_FLAG_HASHED) && !!((f) & URKEL_FLAG_SAVED) == !!((f) & URKEL_FLAG_WRITTEN) && \
                       ((f) & (URKEL_FLAG_SAVED | URKEL_FLAG_VALUE)))

/* Cached facts in the node object agree with its meaning. */
static _Bool node_ok(const urkel_node_t *n, const ghost_t *g, id_t mk) {
  if ((n->flags & ~15u) != 0) return 0;
  if ((n->flags & URKEL_FLAG_HASHED) && !(WHOLE(n->hash) && *(const id_t *)n->hash == mk)) return 0;
  if ((n->flags & URKEL_FLAG_WRITTEN) &&
      (n->ptr.index != g->pindex || n->ptr.pos != g->ppos || n->ptr.size != g->psize)) return 0;
  return 1;
}

/* An arbitrary well-formed subtree at a position, fields of `o` chosen freely. */
static void g_subtree(gnode_t *o, const unsigned char *lk) {
  urkel_node_t *n = &o->n; ghost_t *g = &o->g;
  if (g->leaf) {
    ST(g->lkb, LD(lk));
    ASSUME(UNDER(g->lkb, g->pos, g->d));
    ASSUME(g->lsize <= URKEL_VALUE_SIZE && id_ok(g->lsize, g->lcid));
    g_leafview(g);
  } else {
    ASSUME(look_ok(g->k) && look_ok(g->q));
    ASSUME(!g->k.has || UNDER(KB, g->pos, g->d));
    ASSUME(!g->q.has || UNDER(QB, g->pos, g->d));
    ASSUME(K != Q || look_eq(g->k, g->q));
    ASSUME(g->d < 256); /* two keys below differ past d [under_full] */
  }
  ASSUME(g->pindex <= 0x7fff && g->ppos <= 0xffffffff && g->psize <= URKEL_NODE_SIZE);
  ASSUME(n->type == (g->leaf ? URKEL_NODE_LEAF : URKEL_NODE_INTERNAL) || n->type == URKEL_NODE_HASH);
  if (n->type == URKEL_NODE_HASH)
    ASSUME((n->flags & 3) == (URKEL_FLAG_HASHED | URKEL_FLAG_WRITTEN));
  if (n->type == URKEL_NODE_LEAF) {
    ASSUME(LD(n->u.leaf.key) == LD(g->lkb));
    ASSUME(LEAF_FLAGS(n->flags));
    if (n->flags & URKEL_FLAG_VALUE) ASSUME(n->u.leaf.size == g->lsize);
  }
  ASSUME(node_ok(n, g, g->mk));
}

static urkel_node_t *g_opaque(unsigned d, id_t pos, const unsigned char *lk) {
  gnode_t *o = g_alloc(d, pos);
  g_subtree(o, lk);
  return &o->n;
}

/* Contract of urkel_node_destroy: gives back the node and, when recursing,
 * everything below it. Children of an opaque node are not materialised. */
static void g_free(urkel_node_t *n) {
  ghost_t *g = g_find(n);
  if (g && g->hidden) { free(g->hidden->u.internal.left); free(g->hidden->u.internal.right); free(g->hidden); }
  free(n);
}
static void g_destroy0(urkel_node_t *n) {
  ghost_t *g = g_find(n);
  __CPROVER_assert(n->type != URKEL_NODE_INTERNAL || (g != NULL && !g->open), "VF unfolding deep enough");
  g_free(n);
}
#define DESTROY(self, below) \
static void self(urkel_node_t *n) { \
  ghost_t *g = g_find(n); \
  if (n->type == URKEL_NODE_INTERNAL && (g == NULL || g->open)) { \
    below(n->u.internal.left); below(n->u.internal.right); \
  } \
  g_free(n); \
}
DESTROY(g_destroy1, g_destroy0)
DESTROY(g_destroy2, g_destroy1)

static void g_destroy(urkel_node_t *n, int recurse) {
  ASSERT_(n->type <= URKEL_NODE_HASH, "contract of node_destroy: a node");
  if (recurse) g_destroy2(n); else g_free(n);
}

/* --- the abstraction function over (partly) concrete structure ---------- */
typedef struct { _Bool null; look_t k, q; id_t mk; } view_t;

static look_t look_int(const urkel_node_t *n, unsigned d, const unsigned char *key, look_t l, look_t r) {
  look_t none = {0, 0, 0};
  const urkel_bits_t *p = &n->u.internal.prefix;
  if (!HASF(LDI(p->data), p->size, key, d)) return none;
  return BYTEBIT(key, d + p->size) ? r : l;
}

static id_t child_pos(const urkel_node_t *n, unsigned d, id_t pos, unsigned b) {
  const urkel_bits_t *p = &n->u.internal.prefix;
  return EXTF(pos, d, LDI(p->data), p->size, b);
}

/* [under_ext] a key is below child b iff it is below the node, has the
 * prefix, and continues with b. */
static void fact_under(const urkel_node_t *n, unsigned d, id_t pos, unsigned b, const unsigned char *key) {
  const urkel_bits_t *p = &n->u.internal.prefix;
  ASSUME(UNDER(key, child_pos(n, d, pos, b), d + p->size + 1) ==
         (UNDER(key, pos, d) && HASF(LDI(p->data), p->size, key, d) && BYTEBIT(key, d + p->size) == b));
}

static _Bool g_view_known(urkel_node_t *n, unsigned d, id_t pos, view_t *v) {
  ghost_t *g = g_find(n);
  look_t none = {0, 0, 0};
  v->null = 0; v->k = none; v->q = none; v->mk = 0;
  if (g) {
    if (g->leaf)
      ASSERT_(UNDER(g->lkb, pos, d), "tree shape: a leaf stays on the path of its key");
    else
      ASSERT_(g->d == d && g->pos == pos, "tree shape: a subtree stays at the position its keys require");
    if (n->type == URKEL_NODE_LEAF)
      ASSERT_(LEAF_FLAGS(n->flags), "a leaf knows its hash and where its value is");
    v->k = g->k; v->q = g->q; v->mk = g->mk;
    return 1;
  }
  if (n->type == URKEL_NODE_NULL) { v->null = 1; return 1; }
  return 0;
}

/* A node the operation created: its meaning follows from its structure. */
static void g_view_int(urkel_node_t *n, unsigned d, view_t *v, view_t l, view_t r) {
  const urkel_bits_t *p = &n->u.internal.prefix;
  ASSERT_(!l.null && !r.null, "tree shape: both children of an internal node hold keys");
  v->k = look_int(n, d, KB, l.k, r.k);
  v->q = look_int(n, d, QB, l.q, r.q);
  v->mk = H_INT(p->size, LDI(p->data), l.mk, r.mk);
  ASSERT_(!(n->flags & URKEL_FLAG_WRITTEN), "a node which was never stored does not claim to be");
  ASSERT_(!(n->flags & URKEL_FLAG_HASHED) || LDI(n->hash) == v->mk, "a cached hash is the Merkle value of the subtree");
}

static void g_leaf_fact(urkel_node_t *c, urkel_node_t *n, unsigned d, id_t pos, unsigned b) {
  ghost_t *g = g_find(c);
  if (g && g->leaf) {
    fact_under(n, d, pos, b, g->lkb);
  }
}

static _Bool g_prefix_ok(urkel_node_t *n, unsigned d) {
  const urkel_bits_t *p = &n->u.internal.prefix;
  ASSERT_(n->type == URKEL_NODE_INTERNAL, "tree shape: a new node is an internal node");
  ASSERT_(p->size <= 255 && d + p->size < 256, "tree shape: prefix fits in the key");
  ASSERT_(TZF(LDI(p->data), p->size), "tree shape: no prefix bits past the prefix size");
  return n->type == URKEL_NODE_INTERNAL && p->size <= 255 && d + p->size < 256;
}

static view_t g_view0(urkel_node_t *n, unsigned d, id_t pos) {
  view_t v;
  _Bool known = g_view_known(n, d, pos, &v);
  __CPROVER_assert(known, "VF unfolding deep enough");
  ASSUME(known);
  return v;
}
#define VIEW(self, below) \
static view_t self(urkel_node_t *n, unsigned d, id_t pos) { \
  view_t v; \
  if (g_view_known(n, d, pos, &v)) return v; \
  if (!g_prefix_ok(n, d)) { ASSUME(0); } \
  unsigned dc = d + n->u.internal.prefix.size + 1; \
  g_leaf_fact(n->u.internal.left, n, d, pos, 0); \
  g_leaf_fact(n->u.internal.right, n, d, pos, 1); \
  view_t l = below(n->u.internal.left, dc, child_pos(n, d, pos, 0)); \
  view_t r = below(n->u.internal.right, dc, child_pos(n, d, pos, 1)); \
  g_view_int(n, d, &v, l, r); \
  return v; \
}
VIEW(g_view1, g_view0)
VIEW(g_view, g_view1)
#endif
