/* The iterator as a depth-first step machine: urkel_iter_seek enforced on its
 * real body, with the stack operations (push, pop, top) by contract; those are
 * enforced on their bodies in OP_stack. lemmas/Iter.lean: the machine yields
 * the leaves of a tree in order, each once. */
#define VF_DEFINE_ABORT
#include <string.h>
#include "tree.c"
#include "vf.h"

urkel_state_t nondet_state(void); urkel_node_t nondet_node(void);

#ifdef OP_stack
int main(void) {
  tree_iter_t *it = malloc(sizeof(*it)); size_t n = it->stack_len, w = nondet_size(); urkel_node_t *x = malloc(sizeof(*x)); unsigned d = nondet_uint(); int rs = nondet_int();
  ASSUME(n <= URKEL_STACK_SIZE && w < URKEL_STACK_SIZE && w != n);
  urkel_state_t o = it->stack[w], t; urkel_node_t *node = it->node; int done = it->done;
  unsigned which = WHICH;
  if (which == 0) {
    ASSUME(n < URKEL_STACK_SIZE);
    urkel_iter_push(it, x, d, rs);
    ASSERT_(it->stack_len == n + 1 && it->stack[n].node == x && it->stack[n].depth == d && it->stack[n].resolved == rs && it->stack[n].child == -1, "push: a fresh frame on top");
  } else {
    ASSUME(n > 0);
    urkel_state_t *s = which == 1 ? urkel_iter_pop(it) : urkel_iter_top(it);
    ASSERT_(s == &it->stack[n - 1], "pop, top: the frame on top");
    ASSERT_(it->stack_len == (which == 1 ? n - 1 : n), "pop takes it off, top leaves it");
  }
  ASSERT_(it->stack[w].node == o.node && it->stack[w].depth == o.depth && it->stack[w].child == o.child && it->stack[w].resolved == o.resolved, "push, pop, top: the other frames stay");
  ASSERT_(it->node == node && it->done == done, "push, pop, top: nothing else changes");
  REACH("stack");
}
#endif

#ifdef OP_seek
static tree_iter_t *IT; static char STMEM, LTOK_, RTOK_;
urkel_node_t *LTOK, *RTOK;
/* the frame on top and its node; frames below are not looked at */
urkel_state_t *TOPF; urkel_node_t *TOPN; int CH0; _Bool RES, RESFAIL; unsigned NPOP, NPUSH, NDEST, ENDED; _Bool POPRES; urkel_node_t *POPN; size_t LEN0;
static urkel_node_t *ROOT, *RN;

static _Bool frame_ok(void) {
  unsigned t = TOPN->type, d = TOPF->depth;
  return t <= URKEL_NODE_HASH && d <= 256 && TOPF->node == TOPN && (t != URKEL_NODE_HASH || !TOPF->resolved)
      && (TOPF->resolved == 0 || TOPF->resolved == 1) && IT->stack_len >= 1 && IT->stack_len <= 2 * (size_t)d + 1 + TOPF->resolved
      && (t != URKEL_NODE_INTERNAL || (TOPN->u.internal.left == LTOK && TOPN->u.internal.right == RTOK && TOPN->u.internal.prefix.size < 256 && d + TOPN->u.internal.prefix.size < 256))
      && (t != URKEL_NODE_NULL || (d == 0 && (IT->stack_len == 1 || TOPF->resolved)))
      && (t == URKEL_NODE_INTERNAL || t == URKEL_NODE_HASH || TOPF->child == -1)
      && TOPF->child >= -1 && TOPF->child <= (t == URKEL_NODE_INTERNAL ? 1 : 0);
}
void stub_push(tree_iter_t *iter, urkel_node_t *node, unsigned int depth, int resolved) {
  ASSERT_(iter == IT && !RESFAIL && !ENDED, "seek: pushes only while it goes on");
  ASSERT_(iter->stack_len < URKEL_STACK_SIZE, "contract of push: the stack has room");
  if (iter->stack_len == 0) ASSERT_(NPUSH == 0 && NPOP == 0 && node == ROOT && depth == 0 && !resolved, "seek: starts at the root");
  else if (TOPN->type == URKEL_NODE_INTERNAL) {
    ASSERT_(TOPF->child == CH0 + 1 && CH0 <= 0, "seek: each side is visited once, the left one first");
    ASSERT_(node == (CH0 < 0 ? LTOK : RTOK), "seek: left before right");
    ASSERT_(depth == TOPF->depth + TOPN->u.internal.prefix.size + 1 && !resolved, "seek: the depth grows by prefix and branch bit");
  } else {
    ASSERT_(TOPN->type == URKEL_NODE_HASH, "seek: only internal and hash nodes have something below");
    ASSERT_(CH0 == -1 && TOPF->child == 0 && RES && node == RN, "seek: a stored node is read and visited once");
    ASSERT_(depth == TOPF->depth && resolved, "seek: a stored node stands where its reference stood, and is freed later");
  }
  unsigned was = iter->stack_len == 0 ? 0 : TOPN->type;
  iter->stack_len++; NPUSH = 1;
  *TOPN = nondet_node(); TOPF->node = TOPN; TOPF->depth = depth; TOPF->resolved = resolved; TOPF->child = -1;
  CH0 = -1; RES = 0;
  ASSERT_(iter->stack_len <= 2 * (size_t)depth + 1 + (resolved != 0), "seek: at most two frames for each bit of depth");
  ASSUME(frame_ok());     /* tree shape: depth within a key, empty nodes only at the root */
  ASSUME(was == 0 || TOPN->type != URKEL_NODE_NULL);
}
urkel_state_t *stub_pop(tree_iter_t *iter) {
  ASSERT_(iter == IT && iter->stack_len > 0 && NPOP == 0 && NPUSH == 0, "seek: one finished frame is taken off, first");
  iter->stack_len--; NPOP = 1;
  return TOPF;
}
urkel_state_t *stub_top(tree_iter_t *iter) {
  ASSERT_(iter == IT && iter->stack_len > 0, "contract of top: the stack is not empty");
  if (NPOP == 1) { /* the frame below: something was pushed from it */
    ASSERT_(NDEST == POPRES, "seek: a node read from disk is freed with its frame");
    NPOP = 2;
    *TOPN = nondet_node(); *TOPF = nondet_state(); TOPF->node = TOPN;
    ASSUME(frame_ok() && (TOPN->type == URKEL_NODE_INTERNAL || TOPN->type == URKEL_NODE_HASH) && TOPF->child >= 0);
  }
  CH0 = TOPF->child; RES = 0;
  return TOPF;
}
void urkel_node_destroy(urkel_node_t *node, int recurse) {
  ASSERT_(NPOP == 1 && POPRES && node == POPN && recurse && NDEST == 0, "seek: frees exactly the node read for the finished frame, with its references");
  NDEST++;
}
urkel_node_t *urkel_store_resolve(urkel_store_t *store, const urkel_node_t *node) {
  ASSERT_(store == (urkel_store_t *)&STMEM && node == TOPN && node->type == URKEL_NODE_HASH && CH0 == -1 && !RES, "seek: resolves the reference on top, once");
  if (nondet_bool()) { RESFAIL = 1; return NULL; }
  RES = 1;
  return RN;
}
int main(void) {
  IT = malloc(sizeof(*IT)); tree_db_t *t = malloc(sizeof(*t)); TOPF = malloc(sizeof(*TOPF)); TOPN = malloc(sizeof(*TOPN)); static urkel_node_t r_, n_;
  t->store = (urkel_store_t *)&STMEM; IT->tree = t; ROOT = &r_; RN = &n_; IT->root = ROOT;
  LTOK = (urkel_node_t *)&LTOK_; RTOK = (urkel_node_t *)&RTOK_;
  NPOP = NPUSH = NDEST = ENDED = 0; RES = RESFAIL = POPRES = 0; CH0 = -1; POPN = NULL;
  ASSUME(IT->done == 0 || IT->done == 1);
  LEN0 = IT->stack_len;
  ASSUME(LEN0 <= URKEL_STACK_SIZE);
  if (IT->done) ASSUME(LEN0 == 0);
  if (LEN0 > 0) { /* the last seek returned this frame: it is finished */
    ASSUME(frame_ok());
    ASSUME(TOPN->type == URKEL_NODE_INTERNAL ? TOPF->child == 1 : TOPN->type == URKEL_NODE_HASH ? TOPF->child == 0 : 1);
    POPRES = TOPF->resolved; POPN = TOPF->node;
  }
  int done0 = IT->done;
  urkel_errno = 0;
  int r = urkel_iter_seek(IT);
  if (r) {
    ASSERT_(!done0 && !RESFAIL && IT->done == 0, "seek: goes on until the end");
    ASSERT_(IT->stack_len >= 1 && frame_ok(), "seek: the frame returned is on the stack");
    ASSERT_(LEN0 == 0 || NPOP == 2, "seek: the finished frame is gone");
    switch (TOPN->type) {
      case URKEL_NODE_INTERNAL: ASSERT_(TOPF->child == 1 && IT->node == NULL, "seek: an internal node is finished after both sides"); break;
      case URKEL_NODE_HASH: ASSERT_(TOPF->child == 0 && IT->node == NULL, "seek: a reference is finished after its node"); break;
      default: ASSERT_(IT->node == TOPN && TOPF->child == -1, "seek: stops at every leaf"); REACH("seek: leaf");
    }
  } else if (RESFAIL) {
    ASSERT_(urkel_errno == URKEL_ECORRUPTION && IT->node == NULL, "seek: a storage failure is reported as such");
    ASSERT_(IT->done == 0, "seek: a storage failure is not the end");
    REACH("seek: failure");
  } else {
    ASSERT_(urkel_errno == URKEL_EITEREND && IT->done == 1 && IT->stack_len == 0 && IT->node == NULL, "seek: the end is reported and stays");
    ASSERT_(done0 || (LEN0 == 1 && NPOP == 1 && NPUSH == 0 && NDEST == POPRES), "seek: ends only when the root's frame is finished");
    REACH("seek: end");
  }
}
#endif
