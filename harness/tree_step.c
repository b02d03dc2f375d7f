/* One step of each recursive tree operation, for an arbitrary node at an
 * arbitrary depth. Recursive calls are replaced by the operation's contract,
 * so the postcondition here is the induction step for the whole tree. */
#define VF_RAW
#define VF_DEFINE_ABORT
#ifdef OP_prove
/* memcpy copies n bytes. A value is an identity held in its first bytes: the
 * model moves those and records how much was moved. */
#include <string.h>
void *vf_memcpy(void *dst, const void *src, size_t n);
#define memcpy(d, s, n) (__builtin_constant_p(n) ? (memcpy)(d, s, n) : vf_memcpy(d, s, n))
#endif
#include "tree.c"
#undef memcpy
#include "ghost.h"
#include "stub_bits.h"

static tree_db_t TREE;
static unsigned char VALUE[8];
static size_t SIZE; static id_t VCID;
static urkel_node_t *NODE0;     /* the node of the step, at depth D0, position P0 */
static _Bool RESOLVE_FAILED;    /* the store could not read something */

/* --- contracts of nodes.c and store.c used here ------------------------ */

urkel_node_t *urkel_node_create_leaf(const unsigned char *key, const unsigned char *value, size_t size) {
  ASSERT_(size <= URKEL_VALUE_SIZE, "contract of create_leaf: value size within the limit");
  gnode_t *o = g_alloc(256, 0);
  urkel_node_t *n = &o->n; ghost_t *g = &o->g;
  n->type = URKEL_NODE_LEAF;
  n->flags = URKEL_FLAG_HASHED | URKEL_FLAG_VALUE;
  g->leaf = 1; ST(g->lkb, LD(key)); g->lsize = size; g->lcid = CID(value, size);
  g_leafview(g);
  ST(n->u.leaf.key, LD(g->lkb));
  n->u.leaf.size = size;
  STI(n->hash, g->mk);
  return n;
}

void urkel_node_destroy(urkel_node_t *node, int recurse) { g_destroy(node, recurse); }

int urkel_node_value_equals(const urkel_node_t *node, const unsigned char *value, size_t size) {
  ghost_t *g = g_find(node);
  ASSERT_(g != NULL && node->type == URKEL_NODE_LEAF, "contract of value_equals: a leaf");
  ASSUME(g != NULL);
  /* only leaves holding their value in memory compare equal */
  if (!(node->flags & URKEL_FLAG_VALUE)) return 0;
  return g->lsize == size && g->lcid == CID(value, size);
}

const unsigned char *urkel_node_hash(urkel_node_t *node) {
  ghost_t *g = g_find(node);
  __CPROVER_assert(g != NULL, "VF node_hash of a known node");
  ASSUME(g != NULL);
  ASSERT_(node->type != URKEL_NODE_LEAF || (node->flags & (URKEL_FLAG_HASHED | URKEL_FLAG_VALUE)), "contract of node_hash: a leaf knows its hash or its value");
  STI(node->hash, g->mk);
  node->flags |= URKEL_FLAG_HASHED;
  return node->hash;
}

/* resolve: either the store cannot read the node, or a fresh node with the
 * same contents comes back: never a hash node, marked stored and hashed. */
urkel_node_t *urkel_store_resolve(urkel_store_t *store, const urkel_node_t *node) {
  ghost_t *g = g_find(node);
  ASSERT_(store == TREE.store, "contract of store_resolve: the tree's own store");
  ASSERT_(g != NULL && node->type == URKEL_NODE_HASH, "contract of store_resolve: a hash node");
  ASSUME(g != NULL && node->type == URKEL_NODE_HASH);
  if (nondet_bool()) { RESOLVE_FAILED = 1; return NULL; }
  if (g->hidden) { urkel_node_t *h = g->hidden; g->hidden = NULL; return h; }
  gnode_t *o = g_alloc(g->d, g->pos);
  urkel_node_t *n = &o->n;
  o->g = *g;
  n->type = g->leaf ? URKEL_NODE_LEAF : URKEL_NODE_INTERNAL;
  n->flags = URKEL_FLAG_HASHED | URKEL_FLAG_WRITTEN | (g->leaf ? URKEL_FLAG_SAVED : 0);
  n->ptr = node->ptr;
  STI(n->hash, g->mk);
  if (g->leaf) { ST(n->u.leaf.key, LD(g->lkb)); n->u.leaf.value = NULL; n->u.leaf.size = 0; }
  return n;
}

/* retrieve: the leaf's value, or failure when it lives on disk. */
int urkel_store_retrieve(urkel_store_t *store, const urkel_node_t *node, unsigned char *out, size_t *size) {
  ghost_t *g = g_find(node);
  ASSERT_(store == TREE.store, "contract of store_retrieve: the tree's own store");
  ASSERT_(g != NULL && node->type == URKEL_NODE_LEAF, "contract of store_retrieve: a leaf");
  ASSERT_(out != NULL && size != NULL, "contract of store_retrieve: somewhere to put it");
  ASSUME(g != NULL);
  if (!(node->flags & URKEL_FLAG_VALUE) && nondet_bool()) { RESOLVE_FAILED = 1; return 0; }
  *size = g->lsize;
  if (g->lsize > 0) *(id_t *)out = g->lcid;
  return 1;
}

/* A decreasing measure: the depth grows, or a hash node gives way to a real one. */
static ghost_t *step_pre(const urkel_node_t *n, const unsigned char *key, unsigned depth) {
  ghost_t *g = g_find(n);
  ASSERT_(g != NULL, "recursive call: on a child of the node");
  ASSUME(g != NULL);
  ASSERT_(LD(key) == K, "recursive call: on the same key");
  ASSERT_(depth <= 256, "termination: depth never exceeds the key length");
  ASSERT_(depth > D0 || (depth == D0 && NODE0->type == URKEL_NODE_HASH && n->type != URKEL_NODE_HASH),
          "termination: every recursive call is strictly deeper");
  ASSERT_(g->d == depth && UNDER(KB, g->pos, depth), "recursive call: the depth is the child's depth on the key's path");
  return g;
}

/* --- contracts of the recursive functions ------------------------------ */

int stub_get(tree_db_t *tree, unsigned char *value, size_t *size, urkel_node_t *node, const unsigned char *key, unsigned int depth);
urkel_node_t *stub_insert(tree_db_t *tree, urkel_node_t *node, const unsigned char *key, const unsigned char *value, size_t size, unsigned int depth);
urkel_node_t *stub_remove(tree_db_t *tree, urkel_node_t *node, const unsigned char *key, unsigned int depth);
int stub_prove(tree_db_t *tree, urkel_proof_t *proof, urkel_node_t *node, const unsigned char *key, unsigned int depth);
urkel_node_t *stub_write(tree_db_t *tree, urkel_node_t *node);

static unsigned char *OUTV; static size_t *OUTS;

int stub_get(tree_db_t *tree, unsigned char *value, size_t *size, urkel_node_t *node, const unsigned char *key, unsigned int depth) {
  ghost_t *g = step_pre(node, key, depth);
  ASSERT_(tree == &TREE && value == OUTV && size == OUTS, "recursive get: same tree and outputs");
  if (nondet_bool()) { RESOLVE_FAILED = 1; urkel_errno = URKEL_ECORRUPTION; return 0; }
  if (!g->k.has) { urkel_errno = URKEL_ENOTFOUND; return 0; }
  if (value != NULL && size != NULL) { *size = g->k.size; if (g->k.size > 0) *(id_t *)value = g->k.cid; }
  return 1;
}

urkel_node_t *stub_insert(tree_db_t *tree, urkel_node_t *node, const unsigned char *key, const unsigned char *value, size_t size, unsigned int depth) {
  ghost_t *g = step_pre(node, key, depth);
  ASSERT_(tree == &TREE && size == SIZE && CID(value, size) == VCID, "recursive insert: same value");
  if (nondet_bool()) { RESOLVE_FAILED = 1; urkel_errno = URKEL_ECORRUPTION; return NULL; }
  if (g->k.has && g->k.size == size && g->k.cid == VCID && nondet_bool()) { urkel_errno = URKEL_ENOUPDATE; return NULL; }
  gnode_t *o = g_alloc(g->d, g->pos);
  urkel_node_t *n = &o->n; ghost_t *r = &o->g;
  r->leaf = g->leaf && LD(g->lkb) == K;
  if (r->leaf) { ST(r->lkb, K); r->lsize = size; r->lcid = VCID; ASSUME(n->type == URKEL_NODE_LEAF); }
  else ASSUME(n->type == URKEL_NODE_INTERNAL);
  g_subtree(o, KB);
  if (!r->leaf) {
    look_t want = {1, size, VCID};
    ASSUME(look_eq(r->k, want));
    ASSUME(look_eq(r->q, K == Q ? want : g->q));
  }
  ASSUME(!(n->flags & URKEL_FLAG_WRITTEN));
  g_free(node);
  return n;
}

urkel_node_t *stub_remove(tree_db_t *tree, urkel_node_t *node, const unsigned char *key, unsigned int depth) {
  ghost_t *g = step_pre(node, key, depth);
  ASSERT_(tree == &TREE, "recursive remove: same tree");
  if (nondet_bool()) { RESOLVE_FAILED = 1; urkel_errno = URKEL_ECORRUPTION; return NULL; }
  if (!g->k.has) { urkel_errno = URKEL_ENOTFOUND; return NULL; }
  urkel_node_t *n;
  if (g->leaf) {
    n = malloc(sizeof(*n));
    n->type = URKEL_NODE_NULL;
    n->flags = URKEL_FLAG_HASHED | URKEL_FLAG_WRITTEN;
    STI(n->hash, 0);
  } else {
    n = g_opaque(g->d, g->pos, LKB[4]);
    ghost_t *r = g_find(n);
    ASSUME(n->type != URKEL_NODE_HASH && !r->k.has);
    ASSUME(look_eq(r->q, K == Q ? r->k : g->q));
  }
  g_free(node);
  return n;
}

#ifdef OP_prove
static size_t COPIED;
void *vf_memcpy(void *dst, const void *src, size_t n) {
  ASSERT_(__CPROVER_r_ok(src, n) && __CPROVER_w_ok(dst, n), "memcpy: both sides hold n bytes");
  unsigned char *d = dst; const unsigned char *s = src;
  if (n > 0) d[0] = s[0];
  if (n > 1) d[1] = s[1];
  COPIED = n;
  return dst;
}
/* What the rest of the proof amounts to: hashed upwards from its terminal it
 * gives `fold`, ending at depth `at`. */
static struct { _Bool done; id_t fold; unsigned at; } REST;
static struct { unsigned n; urkel_bits_t prefix; id_t hash; } PUSHED;
static urkel_proof_t *PROOF;

void urkel_proof_push(urkel_proof_t *proof, const urkel_bits_t *prefix, const unsigned char *hash) {
  ASSERT_(proof == PROOF && proof->nodes_len < URKEL_KEY_BITS, "contract of proof_push: room for another node");
  ASSERT_(!REST.done, "prove: nodes are added from the root downwards");
  PUSHED.n++; PUSHED.prefix = *prefix; PUSHED.hash = LDI(hash);
  proof->nodes_len++;
}
void urkel_hash_raw(unsigned char *out, const void *data, size_t size) { STI(out, H_VAL(size, CID(data, size))); }

int stub_prove(tree_db_t *tree, urkel_proof_t *proof, urkel_node_t *node, const unsigned char *key, unsigned int depth) {
  ghost_t *g = step_pre(node, key, depth);
  ASSERT_(tree == &TREE && proof == PROOF && !REST.done, "recursive prove: same tree and proof, once");
  ASSERT_(proof->nodes_len <= depth, "prove: no more nodes than bits of the path");
  if (nondet_bool()) { RESOLVE_FAILED = 1; urkel_errno = URKEL_ECORRUPTION; return 0; }
  size_t more = nondet_size(); unsigned dd = nondet_uint();
  ASSUME(dd <= 256 && dd >= depth && more <= dd - depth);
  proof->nodes_len += more; proof->depth = dd;
  REST.done = 1; REST.fold = g->mk; REST.at = depth;
  unsigned t = nondet_uint();
  ASSUME(t <= 3 && (t == URKEL_TYPE_EXISTS) == g->k.has);
  proof->type = t;
  if (t == URKEL_TYPE_EXISTS) { proof->size = g->k.size; if (g->k.size > 0) *(id_t *)proof->value = g->k.cid; }
  return 1;
}
#endif

#ifdef OP_write
/* Contract of tree_write on a subtree: it is given back as a stored, hashed
 * reference with the same meaning; on failure it stays in place. */
static int WROTE, SAVES;
static urkel_pointer_t NEWPTR, SAVEPTR; static _Bool FLUSH_FAILED;
static _Bool kid_stored(const urkel_node_t *n) {
  ghost_t *g = g_find(n);
  return g != NULL && (n->flags & 3) == 3 && LDI(n->hash) == g->mk &&
         n->ptr.index == g->pindex && n->ptr.pos == g->ppos && n->ptr.size == g->psize;
}
urkel_node_t *stub_write(tree_db_t *tree, urkel_node_t *node) {
  ghost_t *g = g_find(node);
  ASSERT_(g != NULL && tree == &TREE, "recursive write: on a child of the node");
  ASSUME(g != NULL);
  ASSERT_(g->d > D0, "termination: every recursive call is strictly deeper");
  if (nondet_bool()) { FLUSH_FAILED = 1; return NULL; }
  if (node->type == URKEL_NODE_HASH) return node;
  gnode_t *o = g_alloc(g->d, g->pos);
  ghost_t keep = *g;
  o->g = keep;
  if (!(node->flags & URKEL_FLAG_WRITTEN)) { o->g.pindex = nondet_u16() & 0x7fff; o->g.ppos = nondet_u32(); o->g.psize = nondet_uchar(); }
  urkel_node_t *n = &o->n;
  n->type = URKEL_NODE_HASH;
  n->flags = URKEL_FLAG_HASHED | URKEL_FLAG_WRITTEN;
  STI(n->hash, g->mk);
  n->ptr.index = o->g.pindex; n->ptr.pos = o->g.ppos; n->ptr.size = o->g.psize;
  g_free(node);
  return n;
}
void urkel_store_write_value(urkel_store_t *store, urkel_node_t *node) {
  ASSERT_(store == TREE.store && node->type == URKEL_NODE_LEAF, "contract of write_value: a leaf");
  ASSERT_(!(node->flags & URKEL_FLAG_SAVED) && (node->flags & URKEL_FLAG_VALUE), "contract of write_value: a value in memory, not saved yet");
  SAVEPTR.index = nondet_u16(); SAVEPTR.pos = nondet_u32(); SAVEPTR.size = node->u.leaf.size;
  node->u.leaf.vptr = SAVEPTR; node->flags |= URKEL_FLAG_SAVED; SAVES++;
}
void urkel_store_write_node(urkel_store_t *store, urkel_node_t *node) {
  ASSERT_(store == TREE.store && !(node->flags & URKEL_FLAG_WRITTEN), "contract of write_node: not stored yet");
  ASSERT_(node == NODE0, "write: the node itself");
  if (node->type == URKEL_NODE_INTERNAL)
    ASSERT_(kid_stored(node->u.internal.left) && kid_stored(node->u.internal.right), "contract of write_node: both children stored first, with their hashes and positions");
  else
    ASSERT_(node->type == URKEL_NODE_LEAF && (node->flags & URKEL_FLAG_SAVED) && SAVES == 1, "contract of write_node: a leaf's value is saved first");
  NEWPTR.index = nondet_u16() & 0x7fff; NEWPTR.pos = nondet_u32(); NEWPTR.size = nondet_uchar();
  node->ptr = NEWPTR; node->flags |= URKEL_FLAG_WRITTEN; WROTE++;
}
int urkel_store_needs_flush(const urkel_store_t *store) { return nondet_int(); }
int urkel_store_flush(urkel_store_t *store) { ASSERT_(WROTE, "write: flushes what was written"); if (nondet_bool()) { FLUSH_FAILED = 1; return 0; } return 1; }
#endif

/* --- the node of the step ---------------------------------------------- */

static urkel_node_t *L0, *R0;   /* children of an internal NODE0 */
static view_t V0;               /* what NODE0 means before the call */
static unsigned T0; static urkel_node_t BEFORE;

/* An internal node with a legal prefix and two legal children. */
static gnode_t *mk_internal(unsigned d, id_t pos, unsigned slot) {
  gnode_t *o = g_alloc(d, pos);
  urkel_node_t *n = &o->n; ghost_t *g = &o->g;
  urkel_bits_t *p = &n->u.internal.prefix;
  n->type = URKEL_NODE_INTERNAL;
  ASSUME(p->size <= 255 && d + p->size < 256);
  ASSUME(WHOLE(p->data) && TZF(LDI(p->data), p->size));
  unsigned dc = d + p->size + 1;
  urkel_node_t *l = g_opaque(dc, child_pos(n, d, pos, 0), LKB[slot]);
  urkel_node_t *r = g_opaque(dc, child_pos(n, d, pos, 1), LKB[slot + 1]);
  n->u.internal.left = l; n->u.internal.right = r;
  for (unsigned b = 0; b < 2; b++) { fact_under(n, d, pos, b, KB); fact_under(n, d, pos, b, QB); }
  g_leaf_fact(l, n, d, pos, 0);
  g_leaf_fact(r, n, d, pos, 1);
  g->leaf = 0; g->open = 1;
  g->k = look_int(n, d, KB, g_find(l)->k, g_find(r)->k);
  g->q = look_int(n, d, QB, g_find(l)->q, g_find(r)->q);
  g->mk = H_INT(p->size, LDI(p->data), g_find(l)->mk, g_find(r)->mk);
  ASSUME(g->pindex <= 0x7fff && g->ppos <= 0xffffffff && g->psize <= URKEL_NODE_SIZE);
  ASSUME(node_ok(n, g, g->mk));
  return o;
}

static void set_v0(const ghost_t *g) { V0.null = 0; V0.k = g->k; V0.q = g->q; V0.mk = g->mk; }

static void setup(void) {
  ST(KB, nondet_u256()); ST(QB, nondet_u256());
  for (unsigned i = 0; i < 6; i++) ST(LKB[i], nondet_u256());
  SIZE = nondet_size(); VCID = nondet_u16();
  ASSUME(SIZE <= URKEL_VALUE_SIZE && id_ok(SIZE, VCID));
  *(id_t *)VALUE = VCID;
  D0 = nondet_uint(); P0 = nondet_u16();
  ASSUME(D0 <= 256 && UNDER(KB, P0, D0));
  if (D0 == 256) ASSUME(UNDER(QB, P0, D0) == (K == Q)); /* [under_full] */
#if SEL == 0
  ASSUME(D0 == 0);
  NODE0 = malloc(sizeof(*NODE0));
  NODE0->type = URKEL_NODE_NULL;
  NODE0->flags = URKEL_FLAG_HASHED | URKEL_FLAG_WRITTEN;
  STI(NODE0->hash, 0);
  look_t none = {0, 0, 0};
  V0.null = 1; V0.k = none; V0.q = none; V0.mk = 0;
#elif SEL == 1
  ASSUME(D0 < 256);
  gnode_t *o = mk_internal(D0, P0, 0);
  NODE0 = &o->n;
  L0 = NODE0->u.internal.left; R0 = NODE0->u.internal.right;
  set_v0(&o->g);
#else
  NODE0 = g_opaque(D0, P0, LKB[5]);
  ASSUME(NODE0->type == (SEL == 2 ? URKEL_NODE_LEAF : URKEL_NODE_HASH));
  if (D0 == 256) ASSUME(LD(g_find(NODE0)->lkb) == K); /* [under_full] */
  set_v0(g_find(NODE0));
#endif
  T0 = NODE0->type;
  BEFORE = *NODE0;
  urkel_errno = 0;
}

/* On failure the tree is exactly what it was (hash caches may fill in). */
static void unchanged(void) {
  ASSERT_(NODE0->type == T0, "a failed operation leaves the node alone");
  ASSERT_((NODE0->flags & ~URKEL_FLAG_HASHED) == (BEFORE.flags & ~URKEL_FLAG_HASHED), "a failed operation leaves the flags alone");
  ASSERT_(!(NODE0->flags & URKEL_FLAG_HASHED) || LDI(NODE0->hash) == V0.mk, "a cached hash stays right");
  if (T0 == URKEL_NODE_INTERNAL) {
    ASSERT_(NODE0->u.internal.left == L0 && NODE0->u.internal.right == R0, "a failed operation keeps the children");
    ASSERT_(NODE0->u.internal.prefix.size == BEFORE.u.internal.prefix.size &&
            LD(NODE0->u.internal.prefix.data) == LD(BEFORE.u.internal.prefix.data), "a failed operation keeps the prefix");
  }
  if (T0 == URKEL_NODE_LEAF)
    ASSERT_(LD(NODE0->u.leaf.key) == LD(BEFORE.u.leaf.key) && NODE0->u.leaf.value == BEFORE.u.leaf.value, "a failed operation keeps the leaf");
}

/* Ownership: after giving back everything reachable from `out`, nothing the
 * operation was given or allocated may be left (memory-leak obligation) and
 * nothing may be freed twice (pointer obligations). */
static void release(urkel_node_t *out) { g_destroy(out, 1); }

#ifdef OP_get
int real_get(tree_db_t *, unsigned char *, size_t *, urkel_node_t *, const unsigned char *, unsigned int);
int main(void) {
  setup();
  unsigned char buf[URKEL_VALUE_SIZE]; size_t sz;
  if (nondet_bool()) { OUTV = buf; OUTS = &sz; }
  u256 k0 = K;
  int ret = real_get(&TREE, OUTV, OUTS, NODE0, KB, D0);
  if (ret) {
    ASSERT_(V0.k.has, "get: succeeds only for a key which is present");
    if (OUTV) {
      ASSERT_(sz == V0.k.size, "get: returns the size of the value last inserted");
      ASSERT_(CID(buf, sz) == V0.k.cid, "get: returns the value last inserted");
    }
  } else {
    ASSERT_(urkel_errno == URKEL_ENOTFOUND || urkel_errno == URKEL_ECORRUPTION, "get: reports why it failed");
    ASSERT_(urkel_errno != URKEL_ENOTFOUND || !V0.k.has, "get: a present key is never reported absent");
    ASSERT_(urkel_errno != URKEL_ECORRUPTION || RESOLVE_FAILED, "get: corruption is reported only when the store fails");
  }
  ASSERT_(K == k0, "get: key untouched");
  unchanged();
  release(NODE0);
  REACH("get");
}
#endif

#ifdef OP_insert
urkel_node_t *real_insert(tree_db_t *, urkel_node_t *, const unsigned char *, const unsigned char *, size_t, unsigned int);
int main(void) {
  setup();
  u256 k0 = K;
  urkel_node_t *out = real_insert(&TREE, NODE0, KB, VALUE, SIZE, D0);
  ASSERT_(K == k0, "insert: key untouched");
  if (out == NULL) {
    ASSERT_(urkel_errno == URKEL_ENOUPDATE || urkel_errno == URKEL_ECORRUPTION, "insert: reports why nothing changed");
    ASSERT_(urkel_errno != URKEL_ENOUPDATE || (V0.k.has && V0.k.size == SIZE && V0.k.cid == VCID), "insert: no update only when the pair is already there");
    ASSERT_(urkel_errno != URKEL_ECORRUPTION || RESOLVE_FAILED, "insert: corruption is reported only when the store fails");
    unchanged();
    release(NODE0);
#if SEL != 0
    REACH("insert fails");
#endif
  } else {
    view_t v = g_view(out, D0, P0);
    look_t want = {1, SIZE, VCID};
    ASSERT_(!v.null, "insert: the result holds a key");
    ASSERT_(look_eq(v.k, want), "insert: the key now has the inserted value");
    ASSERT_(look_eq(v.q, K == Q ? want : V0.q), "insert: every other key keeps its value");
    release(out);
    REACH("insert succeeds");
  }
}
#endif

#ifdef OP_remove
#ifndef SIDE
#define SIDE 0
#endif
urkel_node_t *real_remove(tree_db_t *, urkel_node_t *, const unsigned char *, unsigned int);

/* Removal may merge the sibling into its parent: give child SIDE visible
 * structure (arbitrary prefix, arbitrary subtrees) behind its view. */
static void open_sibling(void) {
  urkel_node_t *y = SIDE ? R0 : L0;
  ghost_t *gy = g_find(y);
  if (gy->leaf) return;
  gnode_t *s = mk_internal(gy->d, gy->pos, 2);
  ASSUME(look_eq(s->g.k, gy->k) && look_eq(s->g.q, gy->q) && s->g.mk == gy->mk);
  if (y->type == URKEL_NODE_HASH) {
    ASSUME(s->n.flags == (URKEL_FLAG_HASHED | URKEL_FLAG_WRITTEN));
    gy->hidden = &s->n;
  } else {
    free(y);
    if (SIDE) R0 = &s->n; else L0 = &s->n;
    NODE0->u.internal.left = L0; NODE0->u.internal.right = R0;
    BEFORE = *NODE0;
  }
}

int main(void) {
  setup();
  u256 k0 = K;
#if SEL == 1
  /* the key continues to the other side */
  ASSUME(BYTEBIT(KB, D0 + NODE0->u.internal.prefix.size) != SIDE);
  open_sibling();
#endif
  urkel_node_t *out = real_remove(&TREE, NODE0, KB, D0);
  ASSERT_(K == k0, "remove: key untouched");
  if (out == NULL) {
    ASSERT_(urkel_errno == URKEL_ENOTFOUND || urkel_errno == URKEL_ECORRUPTION, "remove: reports why nothing changed");
    ASSERT_(urkel_errno != URKEL_ENOTFOUND || !V0.k.has, "remove: a present key is never reported absent");
    ASSERT_(urkel_errno != URKEL_ECORRUPTION || RESOLVE_FAILED, "remove: corruption is reported only when the store fails");
    unchanged();
    release(NODE0);
    REACH("remove fails");
  } else {
    ASSERT_(V0.k.has, "remove: succeeds only for a key which is present");
    view_t v = g_view(out, D0, P0);
    ASSERT_(!v.null || T0 == URKEL_NODE_LEAF || T0 == URKEL_NODE_HASH, "remove: only removing the last key empties a subtree");
    ASSERT_(!v.k.has, "remove: the key is gone");
    if (K != Q) ASSERT_(look_eq(v.q, V0.q), "remove: every other key keeps its value");
    release(out);
#if SEL != 0
    REACH("remove succeeds");
#endif
  }
}
#endif

#ifdef OP_prove
int real_prove(tree_db_t *, urkel_proof_t *, urkel_node_t *, const unsigned char *, unsigned int);
int main(void) {
  setup();
  urkel_proof_t *p = malloc(sizeof(*p));
  PROOF = p;
  size_t len0 = nondet_size();
  ASSUME(len0 <= D0);
  p->nodes_len = len0; p->size = 0; p->prefix.size = 0;
  u256 k0 = K;
  int ret = real_prove(&TREE, p, NODE0, KB, D0);
  ASSERT_(K == k0, "prove: key untouched");
  unchanged();
  if (ret) {
    id_t fold; unsigned at;
    ASSERT_(p->type <= URKEL_TYPE_EXISTS, "prove: a documented proof type");
    ASSERT_((p->type == URKEL_TYPE_EXISTS) == V0.k.has, "prove: claims presence exactly when the key is there");
    if (p->type == URKEL_TYPE_EXISTS) {
      ASSERT_(p->size == V0.k.size, "prove: the size of the value");
      ASSERT_(CID(p->value, p->size) == V0.k.cid, "prove: the value");
      ASSERT_(REST.done || p->size <= 1 || COPIED == p->size, "prove: all of the value");
    } else if (!REST.done) ASSERT_(p->size == 0, "prove: no value when the key is absent");
    if (REST.done) { fold = REST.fold; at = REST.at; }
    else {
      at = p->depth;
      switch (p->type) {
        case URKEL_TYPE_DEADEND: fold = 0; break;
        case URKEL_TYPE_SHORT:
          ASSUME(HASF(LDI(p->prefix.data), 0, KB, D0)); /* nothing is a prefix of everything */
          ASSERT_(p->prefix.size > 0 && p->prefix.size <= 256, "prove: a short proof carries a non-empty prefix");
          ASSERT_(!HASF(LDI(p->prefix.data), p->prefix.size, KB, D0), "prove: the short prefix is not on the key's path");
          fold = H_INT(p->prefix.size, LDI(p->prefix.data), LDI(p->left), LDI(p->right));
          break;
        case URKEL_TYPE_COLLISION:
          ASSERT_(LD(p->key) != K, "prove: the colliding key is another key");
          fold = H_LEAF(p->key, LDI(p->hash));
          break;
        default:
          fold = H_LEAF(KB, H_VAL(p->size, CID(p->value, p->size)));
      }
      if (p->type != URKEL_TYPE_SHORT) ASSERT_(p->prefix.size == 0, "prove: no prefix left in other proofs");
    }
    ASSERT_(PUSHED.n <= 1, "prove: at most one proof node per tree node");
    ASSERT_(REST.done || p->nodes_len == len0 + PUSHED.n, "prove: counts its nodes");
    if (PUSHED.n) {
      ASSERT_(REST.done, "prove: continues below a pushed node");
      const urkel_bits_t *x = &PUSHED.prefix; id_t xv = LDI(x->data);
      ASSERT_(HASF(xv, x->size, KB, D0), "prove: the pushed prefix lies on the key's path");
      ASSERT_(at == D0 + x->size + 1, "prove: depth grows by prefix and branch bit");
      fold = BYTEBIT(KB, D0 + x->size) ? H_INT(x->size, xv, PUSHED.hash, fold) : H_INT(x->size, xv, fold, PUSHED.hash);
      at = D0;
    }
    ASSERT_(at == D0, "prove: the proof spans exactly the path from here");
    ASSERT_(fold == V0.mk, "prove: the proof hashes up to the subtree's Merkle value");
    ASSERT_(p->nodes_len <= p->depth && p->depth <= 256, "prove: no more nodes than depth");
    REACH("prove succeeds");
  } else {
    ASSERT_(urkel_errno == URKEL_ECORRUPTION && RESOLVE_FAILED, "prove: fails only when the store fails");
#if SEL != 0
    REACH("prove fails");
#endif
  }
  release(NODE0); free(p);
}
#endif

#ifdef OP_write
urkel_node_t *real_write(tree_db_t *, urkel_node_t *);
int main(void) {
  setup();
#if SEL == 2
  ghost_t *g0 = g_find(NODE0);
#endif
  urkel_pointer_t stored = NODE0->ptr;
  ghost_t lg, rg;
  if (T0 == URKEL_NODE_INTERNAL) { lg = *g_find(L0); rg = *g_find(R0); }
  _Bool was = NODE0->flags & URKEL_FLAG_WRITTEN;
  urkel_node_t *out = real_write(&TREE, NODE0);
  if (out == NULL) {
    ASSERT_(FLUSH_FAILED, "write: fails only when the store cannot flush");
    ASSERT_(NODE0->type == T0, "failed write: the node stays");
    ASSERT_(WROTE == 0 || (NODE0->flags & URKEL_FLAG_WRITTEN), "failed write: what went to the buffer is remembered");
    ASSERT_(!(NODE0->flags & URKEL_FLAG_WRITTEN) || was || (WROTE == 1 && NODE0->ptr.index == NEWPTR.index && NODE0->ptr.pos == NEWPTR.pos && NODE0->ptr.size == NEWPTR.size), "failed write: its recorded position is right");
    if (T0 == URKEL_NODE_INTERNAL) {
      ghost_t *a = g_find(NODE0->u.internal.left), *b = g_find(NODE0->u.internal.right);
      ASSERT_(a && b, "failed write: both children stay");
      ASSERT_(look_eq(a->k, lg.k) && look_eq(a->q, lg.q) && a->mk == lg.mk && a->d == lg.d, "failed write: the left subtree keeps its meaning");
      ASSERT_(look_eq(b->k, rg.k) && look_eq(b->q, rg.q) && b->mk == rg.mk && b->d == rg.d, "failed write: the right subtree keeps its meaning");
      ASSERT_(NODE0->u.internal.prefix.size == BEFORE.u.internal.prefix.size && LD(NODE0->u.internal.prefix.data) == LD(BEFORE.u.internal.prefix.data), "failed write: keeps the prefix");
    }
    if (T0 == URKEL_NODE_LEAF) {
      ASSERT_(LD(NODE0->u.leaf.key) == LD(BEFORE.u.leaf.key), "failed write: keeps the leaf");
      ASSERT_(LEAF_FLAGS(NODE0->flags), "failed write: the leaf knows where its value is");
    }
    release(NODE0);
#if SEL == 1 || SEL == 2
    REACH("write fails");
#endif
  } else {
    ASSERT_(WROTE == ((T0 == URKEL_NODE_INTERNAL || T0 == URKEL_NODE_LEAF) && !was), "write: every new node goes to the store once");
    ASSERT_(out->type == (T0 == URKEL_NODE_NULL ? URKEL_NODE_NULL : URKEL_NODE_HASH), "write: leaves a reference to the stored node");
    ASSERT_((out->flags & 3) == 3, "write: hashed and stored");
    ASSERT_(LDI(out->hash) == V0.mk, "write: the reference carries the subtree's Merkle value");
    if (WROTE) ASSERT_(out->ptr.index == NEWPTR.index && out->ptr.pos == NEWPTR.pos && out->ptr.size == NEWPTR.size, "write: the reference points where the node went");
    else if (T0 != URKEL_NODE_NULL) ASSERT_(out->ptr.index == stored.index && out->ptr.pos == stored.pos && out->ptr.size == stored.size, "write: the reference points where the node is");
    g_destroy(out, 0);
    REACH("write succeeds");
  }
}
#endif
