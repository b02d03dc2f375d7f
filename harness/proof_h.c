/* Contracts of proof.c. Hashes are opaque 256-bit values; the hash and prefix
 * functions are stubs which, besides their contracts, watch that they are
 * applied to the right proof node at the right depth (the rules of `Accept`
 * in lemmas/Tree.lean, read bottom to top). */
#define VF_RAW
#define VF_DEFINE_ABORT
#include "vf.h"
#include "proof.c"

static urkel_proof_t *P;
static unsigned char KEY[32], ROOT[32];
static urkel_proof_node_t *NA, *NB; static size_t J;

/* --- monitor of the upward walk ---------------------------------------- */
size_t GI;                /* nodes still to be consumed */
size_t GDEP;              /* depth of the point reached */
u256 GTOK;                /* Merkle value of the subtree at that point */
_Bool GSTARTED;           /* the terminal's value is known */
_Bool GHASHED, GCHECKED;  /* for node GI-1: hashed / path checked */
_Bool GREFUSED;           /* a path check failed */
_Bool GSTART_HAS;         /* SHORT: the prefix is on the path */

static const urkel_proof_node_t *cur(void) { return P->nodes[GI - 1]; }
static unsigned kbit(size_t i) { return (KEY[i >> 3] >> (7 - (i & 7))) & 1; }
static void next_node(void) {
  if (GHASHED && GCHECKED) { GDEP -= cur()->prefix.size + 1; GI--; GHASHED = 0; GCHECKED = 0; }
}

int urkel_bits_has(const urkel_bits_t *bits, const unsigned char *key, unsigned int depth) {
  _Bool r = nondet_bool();
  ASSERT_(bits->size <= 256 && depth <= 256, "contract of bits_has: size and depth within a key");
  ASSERT_(LD(key) == LD(KEY), "verify: paths are checked against the claimed key");
  if (bits->size + depth > 256) r = 0;
  if (P->type == URKEL_TYPE_SHORT && !GSTARTED) {
    ASSERT_(bits->size == P->prefix.size && LD(bits->data) == LD(P->prefix.data) && depth == P->depth, "verify: a short proof's prefix is compared at its own depth");
    GSTART_HAS = r;
    return r;
  }
  ASSERT_(GSTARTED && GI > 0, "verify: one path check per proof node");
  ASSUME(GI > 0 && GI <= 256);
  ASSERT_(!GCHECKED && bits->size == cur()->prefix.size && LD(bits->data) == LD(cur()->prefix.data), "verify: the path check is on this node's prefix");
  ASSERT_(GDEP >= bits->size + 1 && depth == GDEP - bits->size - 1, "verify: the path check is at the node's own depth");
  GCHECKED = 1; GREFUSED |= !r;
  next_node();
  return r;
}

void urkel_hash_internal(unsigned char *out, const urkel_bits_t *prefix, const unsigned char *left, const unsigned char *right) {
  u256 l = LD(left), r = LD(right), h = nondet_u256();
  ASSERT_(prefix->size <= 256, "contract of hash_internal: prefix within a key");
  if (!GSTARTED) {
    ASSERT_(P->type == URKEL_TYPE_SHORT, "verify: only a short proof starts from an internal node");
    ASSERT_(prefix->size == P->prefix.size && LD(prefix->data) == LD(P->prefix.data) && l == LD(P->left) && r == LD(P->right), "verify: a short proof's value binds its prefix and both sides");
    GSTARTED = 1;
  } else {
    ASSERT_(GI > 0, "verify: one hash per proof node");
    ASSUME(GI > 0 && GI <= 256);
    const urkel_proof_node_t *n = cur();
    ASSERT_(!GHASHED && prefix->size == n->prefix.size && LD(prefix->data) == LD(n->prefix.data), "verify: the hash binds this node's prefix");
    ASSERT_(GDEP >= 1 && GDEP <= 256, "verify: no hash above the root");
    ASSUME(GDEP >= 1 && GDEP <= 256);
    if (kbit(GDEP - 1)) ASSERT_(l == LD(n->hash) && r == GTOK, "verify: a one bit puts the path on the right");
    else ASSERT_(l == GTOK && r == LD(n->hash), "verify: a zero bit puts the path on the left");
    GHASHED = 1;
  }
  GTOK = h;
  ST(out, h);
  if (GHASHED) next_node();
}
void urkel_hash_leaf(unsigned char *out, const unsigned char *key, const unsigned char *vhash) {
  ASSERT_(P->type == URKEL_TYPE_COLLISION && !GSTARTED, "verify: only a collision starts from a hashed leaf");
  ASSERT_(LD(key) == LD(P->key) && LD(vhash) == LD(P->hash), "verify: the colliding leaf binds its key and value hash");
  GSTARTED = 1; GTOK = nondet_u256(); ST(out, GTOK);
}
void urkel_hash_value(unsigned char *out, const unsigned char *key, const unsigned char *value, size_t size) {
  ASSERT_(P->type == URKEL_TYPE_EXISTS && !GSTARTED, "verify: only an existence proof starts from its value");
  ASSERT_(LD(key) == LD(KEY) && value == P->value && size == P->size, "verify: the leaf binds the claimed key and the whole value");
  GSTARTED = 1; GTOK = nondet_u256(); ST(out, GTOK);
}
int __urkel_memcmp(const void *a, const void *b, size_t n) {
  ASSERT_(n == 32, "whole keys and hashes are compared");
  return LD(a) == LD(b) ? 0 : nondet_bool() ? 1 : -1;
}
int vf_memcmp(const void *a, const void *b, size_t n) { return __urkel_memcmp(a, b, n); }

#ifdef OP_verify
static _Bool sane(void) {
  if (P->depth > 256 || P->nodes_len > 256) return 0;
  if (P->nodes_len > 0 && NA->prefix.size > 256 && J < P->nodes_len) return 0;
  if (P->nodes_len > (J == 0 ? 1 : 0) && NB->prefix.size > 256) return 0;
  switch (P->type) {
    case URKEL_TYPE_DEADEND: case URKEL_TYPE_COLLISION: return P->prefix.size == 0 && P->size == 0;
    case URKEL_TYPE_SHORT: return P->prefix.size > 0 && P->prefix.size <= 256 && P->size == 0;
    case URKEL_TYPE_EXISTS: return P->prefix.size == 0 && P->size <= URKEL_VALUE_SIZE;
  }
  return 0;
}

int main(void) {
  urkel_proof_t p0; urkel_proof_node_t a0, b0;
  P = &p0; NA = &a0; NB = &b0;
  J = nondet_size();
  ST(KEY, nondet_u256()); ST(ROOT, nondet_u256());
#ifdef COUNT
  P->nodes_len = COUNT;
#endif
  for (size_t i = 0; i < 256; i++) P->nodes[i] = i == J ? NA : NB;
  GI = P->nodes_len; GDEP = P->depth; GTOK = 0; GHASHED = 0; GCHECKED = 0; GREFUSED = 0; GSTART_HAS = 0;
  GSTARTED = P->type == URKEL_TYPE_DEADEND;
  _Bool ok = sane();
  unsigned type = P->type, depth = P->depth;
  int ret = urkel_proof_verify(P, KEY, ROOT);
  ASSERT_(P->type == type && P->depth == depth && P->nodes[0] == (J == 0 ? NA : NB), "verify: the proof is not changed");
  switch (ret) {
    case 0:
      ASSERT_(ok, "verify: accepts only proofs within the documented limits");
      ASSERT_(GSTARTED && GI == 0 && !GHASHED && !GCHECKED, "verify: accepts only when every node was hashed and checked");
      ASSERT_(!GREFUSED, "verify: accepts only prefixes on the key's path");
      ASSERT_(GDEP == 0, "verify: accepts only proofs which reach the root");
      ASSERT_(GTOK == LD(ROOT), "verify: accepts only the given root");
      if (type == URKEL_TYPE_SHORT) ASSERT_(!GSTART_HAS, "verify: a short proof must leave the path");
      if (type == URKEL_TYPE_COLLISION) ASSERT_(LD(P->key) != LD(KEY), "verify: a collision must be another key");
      REACH("accepts");
      break;
    case URKEL_EINVAL: ASSERT_(!ok, "verify: a proof within limits is not invalid"); break;
    case URKEL_ESAMEPATH: ASSERT_(ok && type == URKEL_TYPE_SHORT && GSTART_HAS, "verify: same path means the prefix is on the path"); break;
    case URKEL_ESAMEKEY: ASSERT_(ok && type == URKEL_TYPE_COLLISION && LD(P->key) == LD(KEY), "verify: same key means the same key"); break;
    case URKEL_ENEGDEPTH: ASSERT_(ok && GI > 0 && GI <= 256 && GDEP < cur()->prefix.size + 1, "verify: negative depth means a node which does not fit above"); break;
    case URKEL_EPATHMISMATCH: ASSERT_(ok && GREFUSED, "verify: path mismatch means a prefix off the path"); break;
    case URKEL_ETOODEEP: ASSERT_(ok && GI == 0 && GDEP != 0, "verify: too deep means the root is not reached"); break;
    case URKEL_EHASHMISMATCH: ASSERT_(ok && GSTARTED && GI == 0 && GTOK != LD(ROOT), "verify: hash mismatch means another root"); break;
    default: ASSERT_(0, "verify: a documented error");
  }
  REACH("verify");
}
#endif
