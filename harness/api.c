/* Contracts of the public calls, over the contracts of the tree operations
 * and the store. Locks are ghost state; taking a lock is the point where
 * other threads may have changed what it protects. */
#define VF_RAW
#define VF_DEFINE_ABORT
#include <string.h>
void *vf_memcpy(void *dst, const void *src, size_t n);
#define memcpy(d, s, n) (__builtin_constant_p(n) ? (memcpy)(d, s, n) : vf_memcpy(d, s, n))
#include "tree.c"
#undef memcpy
#include "vf.h"

enum { FREE_, RD, WR };
typedef struct { int mode, kind; } lk_t;        /* kind: 0 tree, 1 transaction, 2 iterator */
static tree_db_t *T; static tree_tx_t *X; static tree_iter_t *I;
static lk_t *TL;                                /* the tree's lock */
static int TXHELD;                              /* mode of the transaction lock held */
static lk_t *XL;
static u256 SNAP_HASH; static int SNAP_REVERT;  /* tree state under its lock */
static u256 SNAP_ROOT; static urkel_node_t *SNAP_NODE;
static _Bool NEW_TX;                            /* the transaction is being made by this call */
static u256 AH, CH;                             /* arguments: hash; committed root */
static unsigned char KEYB[32], VAL[1023]; static size_t VSIZE;
static _Bool FAILED_STORE, COMMITTED, WROTE, HISTORY; static u256 HISTORY_HASH;
static unsigned LIVE_LOCKS;
#define KEY LD(KEYB)
#define TMODE (TL->mode)
#define XMODE (XL ? XL->mode : FREE_)

void *vf_memcpy(void *dst, const void *src, size_t n) {
  ASSERT_(n == 0 || (__CPROVER_r_ok(src, n) && __CPROVER_w_ok(dst, n)), "memcpy: both sides hold n bytes");
  unsigned char *d = dst; const unsigned char *s = src;
  if (n > 0) d[0] = s[0];
  if (n > 1) { d[n - 1] = s[n - 1]; }
  return dst;
}

/* --- what other threads may do to the tree / the transaction ------------- */
static u256 node_mk(const urkel_node_t *n) { return n->type == URKEL_NODE_NULL ? 0 : *(const u256 *)n->u.leaf.key; }
static urkel_node_t *mk_node(void) {   /* any root: its Merkle value kept aside in the key */
  urkel_node_t *n = malloc(sizeof(*n));
  ASSUME(n != NULL);
  ASSUME(n->type <= URKEL_NODE_HASH && (n->flags & ~15u) == 0);
  if (n->type == URKEL_NODE_NULL || n->type == URKEL_NODE_HASH) ASSUME((n->flags & 3) == 3);
  if (n->type == URKEL_NODE_LEAF) ASSUME(n->flags & URKEL_FLAG_HASHED);
  if (n->flags & URKEL_FLAG_HASHED) ASSUME(LD(n->hash) == node_mk(n));
  return n;
}
static void rely_tree(void) {
  int r = T->revert;
  ST(T->hash, nondet_u256());
  T->revert = nondet_bool();
  if (r) T->revert = 1;                         /* never goes back */
  SNAP_HASH = LD(T->hash); SNAP_REVERT = T->revert;
}
static void rely_tx(void) {
  if (nondet_bool()) { free(X->root); X->root = mk_node(); }
  SNAP_NODE = X->root; SNAP_ROOT = node_mk(X->root);
}
static void guar_tree(void) {
  ASSERT_(TMODE == WR || (LD(T->hash) == SNAP_HASH && T->revert == SNAP_REVERT), "the tree is changed only under its write lock");
  ASSERT_(!SNAP_REVERT || T->revert, "a reverted tree stays marked");
}

/* --- locks ---------------------------------------------------------------- */
urkel_rwlock_t *urkel_rwlock_create(void) {
  lk_t *l = malloc(sizeof(*l));
  l->mode = FREE_; l->kind = 1; LIVE_LOCKS++;
  if (T == NULL || TL == NULL) { l->kind = 0; TL = l; }
  else { ASSERT_(XL == NULL, "one transaction lock per call"); XL = l; }
  return (urkel_rwlock_t *)l;
}
static void acquire(lk_t *l, int mode) {
  ASSERT_(__CPROVER_rw_ok(l, sizeof(lk_t)), "lock: alive");
  ASSERT_(l->mode == FREE_, "lock: never taken twice");
  if (l->kind == 1) ASSERT_(TL->mode == FREE_, "lock: the transaction's before the tree's");
  l->mode = mode;
  if (l->kind == 0 && T) rely_tree();
  if (l->kind == 1 && X && (void *)X->lock == (void *)l && !NEW_TX) rely_tx();
}
static void release(lk_t *l, int mode) {
  ASSERT_(__CPROVER_rw_ok(l, sizeof(lk_t)), "unlock: alive");
  ASSERT_(l->mode == mode, "unlock: held in that mode");
  if (l->kind == 0 && T) guar_tree();
  l->mode = FREE_;
}
void urkel_rwlock_wrlock(urkel_rwlock_t *l) { acquire((lk_t *)l, WR); }
void urkel_rwlock_wrunlock(urkel_rwlock_t *l) { release((lk_t *)l, WR); }
void urkel_rwlock_rdlock(urkel_rwlock_t *l) { acquire((lk_t *)l, RD); }
void urkel_rwlock_rdunlock(urkel_rwlock_t *l) { release((lk_t *)l, RD); }
void urkel_rwlock_destroy(urkel_rwlock_t *l) {
  ASSERT_(((lk_t *)l)->mode == FREE_, "lock: released before it is destroyed");
  if ((lk_t *)l == XL) XL = NULL;
  LIVE_LOCKS--;
  free(l);
}
urkel_mutex_t *urkel_mutex_create(void) { lk_t *l = malloc(sizeof(*l)); l->mode = FREE_; l->kind = 2; LIVE_LOCKS++; return (urkel_mutex_t *)l; }
void urkel_mutex_lock(urkel_mutex_t *m) { lk_t *l = (lk_t *)m; ASSERT_(l->mode == FREE_, "lock: never taken twice"); l->mode = WR; }
void urkel_mutex_unlock(urkel_mutex_t *m) { lk_t *l = (lk_t *)m; ASSERT_(l->mode == WR, "unlock: held in that mode"); l->mode = FREE_; }
void urkel_mutex_destroy(urkel_mutex_t *m) { ASSERT_(((lk_t *)m)->mode == FREE_, "lock: released before it is destroyed"); LIVE_LOCKS--; free(m); }

#define HOLDS_TREE(w) do { ASSERT_(TMODE != FREE_, "the store is used only under the tree's lock"); \
  ASSERT_(!(w) || TMODE == WR, "the store is changed only under the tree's write lock"); } while (0)
#define HOLDS_TX(w) do { ASSERT_(NEW_TX || XMODE != FREE_, "a transaction is read only under its lock"); \
  ASSERT_(NEW_TX || !(w) || XMODE == WR, "a transaction is changed only under its write lock"); } while (0)

/* --- nodes ------------------------------------------------------------------ */
static size_t J_; static _Bool RES_;
static unsigned DESTROYED, KEEPD; static urkel_node_t *KEEPN;
void urkel_node_destroy(urkel_node_t *node, int recurse) {
  ASSERT_(recurse && (X == NULL || node != X->root || NEW_TX || XMODE == WR || XL == NULL), "a transaction's root is freed only under its write lock");
  DESTROYED++;
#ifdef OP_iterdestroy
  KEEPD += node == KEEPN;
#else
  free(node);
#endif
}
const unsigned char *urkel_node_hash(urkel_node_t *n) {
  HOLDS_TX(!(n->flags & URKEL_FLAG_HASHED));
  if (!(n->flags & URKEL_FLAG_HASHED)) { ST(n->hash, node_mk(n)); n->flags |= URKEL_FLAG_HASHED; }
  return n->hash;
}

/* --- store ------------------------------------------------------------------ */
static urkel_store_t *STORE; static unsigned char ROOTH[32];
urkel_store_t *urkel_store_open(const char *prefix) { if (nondet_bool()) return NULL; STORE = malloc(1); return STORE; }
void urkel_store_close(urkel_store_t *store) { ASSERT_(store == STORE && TMODE == WR, "close: under the write lock"); free(store); STORE = NULL; }
static int DRET;
int urkel_store_destroy(const char *prefix) { DRET = nondet_bool(); return DRET; }
int urkel_store__corrupt(const char *prefix) { DRET = nondet_bool(); return DRET; }
const unsigned char *urkel_store_root_hash(urkel_store_t *store) { ASSERT_(store == STORE, "the tree's store"); return ROOTH; }
static urkel_node_t *root_node(u256 h) {
  urkel_node_t *n = mk_node();
  ASSUME((n->type == URKEL_NODE_NULL || n->type == URKEL_NODE_HASH) && node_mk(n) == h && LD(n->hash) == h);
  return n;
}
urkel_node_t *urkel_store_get_root(urkel_store_t *store) {
  ASSERT_(store == STORE, "the tree's store"); HOLDS_TREE(0);
  /* not reverted: the tree's hash is the committed root's */
  HISTORY = 0;
  return root_node(T->revert ? CH : LD(T->hash));
}
int urkel_store_has_history(urkel_store_t *store, const unsigned char *hash) {
  ASSERT_(store == STORE, "the tree's store"); HOLDS_TREE(1);
  HISTORY = nondet_bool(); HISTORY_HASH = LD(hash);
  return HISTORY;
}
urkel_node_t *urkel_store_get_history(urkel_store_t *store, const unsigned char *hash) {
  ASSERT_(store == STORE, "the tree's store"); HOLDS_TREE(1);
  HISTORY = nondet_bool(); HISTORY_HASH = LD(hash);
  return HISTORY ? root_node(LD(hash)) : NULL;
}
int urkel_store_retrieve(urkel_store_t *store, const urkel_node_t *node, unsigned char *out, size_t *size) {
  ASSERT_(store == STORE && node->type == URKEL_NODE_LEAF && out && size, "contract of store_retrieve"); HOLDS_TREE(0);
  if (nondet_bool()) { FAILED_STORE = 1; return 0; }
  ASSERT_(__CPROVER_w_ok(out, 1023), "contract of store_retrieve: room for a value");
  *size = nondet_size(); ASSUME(*size <= 1023);
  return 1;
}
urkel_node_t *urkel_store_resolve(urkel_store_t *store, const urkel_node_t *node) { ASSERT_(0, "not reached: replaced"); return NULL; }
static urkel_node_t *COMMIT_ROOT;
int urkel_store_commit(urkel_store_t *store, const urkel_node_t *root) {
  ASSERT_(store == STORE && WROTE, "commit: the nodes first, then the record"); HOLDS_TREE(1);
  ASSERT_(root == COMMIT_ROOT && root == X->root, "commit: the transaction's own root");
  COMMITTED = nondet_bool();
  return COMMITTED;
}

/* --- tree operations (contracts proved in tree_step.c) ------------------------ */
static unsigned OPS; static int OPRET; static int OPERR;
static void op_pre(tree_db_t *tree, urkel_node_t *node, const unsigned char *key, unsigned depth, _Bool w) {
  ASSERT_(tree == T && node == X->root && depth == 0 && LD(key) == KEY, "the operation runs on the transaction's root with the given key");
  HOLDS_TREE(0); HOLDS_TX(w);
  OPS++;
}
static urkel_node_t *fresh(urkel_node_t *old) { free(old); return mk_node(); }
int stub_get(tree_db_t *tree, unsigned char *value, size_t *size, urkel_node_t *node, const unsigned char *key, unsigned int depth) {
  op_pre(tree, node, key, depth, 0);
  if (nondet_bool()) { urkel_errno = nondet_bool() ? URKEL_ENOTFOUND : URKEL_ECORRUPTION; OPERR = urkel_errno; return OPRET = 0; }
  if (value && size) { VSIZE = nondet_size(); ASSUME(VSIZE <= 1023); *size = VSIZE; }
  return OPRET = 1;
}
static const unsigned char *INV; static size_t INS;
urkel_node_t *stub_insert(tree_db_t *tree, urkel_node_t *node, const unsigned char *key, const unsigned char *value, size_t size, unsigned int depth) {
  op_pre(tree, node, key, depth, 1);
  ASSERT_(size <= URKEL_VALUE_SIZE && value == INV && size == INS, "contract of tree_insert: the given value, within the limit");
  OPRET = 0;
  if (nondet_bool()) { urkel_errno = OPERR = nondet_bool() ? URKEL_ENOUPDATE : URKEL_ECORRUPTION; return NULL; }
  OPRET = 1;
  return fresh(node);
}
urkel_node_t *stub_remove(tree_db_t *tree, urkel_node_t *node, const unsigned char *key, unsigned int depth) {
  op_pre(tree, node, key, depth, 1);
  OPRET = 0;
  if (nondet_bool()) { urkel_errno = OPERR = nondet_bool() ? URKEL_ENOTFOUND : URKEL_ECORRUPTION; return NULL; }
  OPRET = 1;
  return fresh(node);
}
static _Bool PLIVE; static size_t PSIZE; static urkel_proof_t *PP; static _Bool PWROTE;
int stub_prove(tree_db_t *tree, urkel_proof_t *proof, urkel_node_t *node, const unsigned char *key, unsigned int depth) {
  op_pre(tree, node, key, depth, node->type != URKEL_NODE_NULL && node->type != URKEL_NODE_HASH);
  ASSERT_(PLIVE && proof == PP, "prove: into an initialised proof");
  if (nondet_bool()) { urkel_errno = OPERR = URKEL_ECORRUPTION; return OPRET = 0; }
  return OPRET = 1;
}
urkel_node_t *stub_write(tree_db_t *tree, urkel_node_t *node) {
  ASSERT_(tree == T && node == X->root, "commit: the transaction's own root");
  HOLDS_TREE(1); HOLDS_TX(1);
  WROTE = nondet_bool();
  if (!WROTE) return NULL;
  u256 h = node_mk(node);
  if (node->type == URKEL_NODE_NULL || node->type == URKEL_NODE_HASH) { COMMIT_ROOT = node; return node; }
  free(node);
  COMMIT_ROOT = root_node(h);
  return COMMIT_ROOT;
}
/* --- proofs --------------------------------------------------------------------- */
void urkel_proof_init(urkel_proof_t *p) { ASSERT_(!PLIVE, "proof: cleared before it is reused"); PP = p; PLIVE = 1; p->nodes_len = 0; p->size = 0; p->prefix.size = 0; }
void urkel_proof_clear(urkel_proof_t *p) { ASSERT_(p == PP && PLIVE, "proof: cleared once"); PLIVE = 0; p->nodes_len = 0; }
size_t urkel_proof_size(const urkel_proof_t *p) { ASSERT_(p == PP && PLIVE && OPRET, "proof: sized while alive"); PSIZE = nondet_size(); ASSUME(PSIZE >= 4 && PSIZE <= URKEL_PROOF_SIZE); return PSIZE; }
unsigned char *urkel_proof_write(const urkel_proof_t *p, unsigned char *data) {
  ASSERT_(p == PP && PLIVE && __CPROVER_w_ok(data, PSIZE) && PSIZE > 0, "proof: written into a buffer of the announced size");
  PWROTE = 1;
  return data + PSIZE;
}
static unsigned PTYPE;
static const unsigned char *PRAW; static size_t PLEN; static int PREAD, PRES; static unsigned char *RH;
int urkel_proof_read(urkel_proof_t *p, const unsigned char *data, size_t len) {
  ASSERT_(data == PRAW && len == PLEN, "verify: decodes the given bytes");
  PP = p; PLIVE = 1;
  p->nodes_len = nondet_size(); p->type = nondet_uint(); p->size = nondet_size();
  ASSUME(p->nodes_len <= 256 && p->type <= 3 && p->size <= 1023 && (p->size == 0 || p->type == URKEL_TYPE_EXISTS));
  PREAD = nondet_bool(); PTYPE = p->type;
  return PREAD;
}
int urkel_proof_verify(const urkel_proof_t *p, const unsigned char *key, const unsigned char *root) {
  ASSERT_(p == PP && PLIVE && PREAD && LD(key) == KEY && root == RH, "verify: the decoded proof against the given key and root");
  PRES = nondet_int(); ASSUME(PRES >= 0 && PRES <= URKEL_EINVAL);
  PSIZE = p->size;
  return PRES;
}
void urkel_hash_key(unsigned char *out, const void *key, size_t size) { ASSERT_(key == PRAW && size == PLEN, "hash: the given bytes"); ST(out, AH); }

/* --- iterators (contract of urkel_iter_seek: see iter.c) ----------------------------- */
static urkel_node_t *LEAFN; static u256 LEAFK; static int SEEKS, SEEKERR, SEEKRET; static _Bool HELD;
int stub_seek(tree_iter_t *iter) {
  ASSERT_(iter == I && ((lk_t *)I->lock)->mode == WR && HELD, "seek: under the iterator's own lock");
  ASSERT_(TMODE == RD && XMODE == RD, "seek: the transaction and the tree stay locked for reading while iterating");
  ASSERT_(!(SEEKRET == 1 && I->node == LEAFN), "next: stops at a leaf");
  SEEKRET = nondet_bool();
  if (!SEEKRET) { urkel_errno = SEEKERR = nondet_bool() ? URKEL_EITEREND : URKEL_ECORRUPTION; I->node = NULL; return 0; }
  if (nondet_bool()) I->node = NULL;
  else if (nondet_bool()) I->node = X->root;
  else I->node = LEAFN;
  return 1;
}
/* --- harness ------------------------------------------------------------------------ */
static const unsigned char *CROOT;
static void mk_tree(void) {
  T = malloc(sizeof(*T));
  STORE = malloc(1);
  T->store = STORE;
  TL = NULL;
  lk_t *l = malloc(sizeof(*l)); l->mode = FREE_; l->kind = 0; TL = l; LIVE_LOCKS++;
  T->lock = (urkel_rwlock_t *)l;
  T->revert = nondet_bool(); ST(T->hash, nondet_u256());
}
static void mk_tx(void) {
  X = malloc(sizeof(*X));
  lk_t *l = malloc(sizeof(*l)); l->mode = FREE_; l->kind = 1; XL = l; LIVE_LOCKS++;
  X->lock = (urkel_rwlock_t *)l; X->tree = T; X->root = mk_node();
}
static void end_tree(void) {
  ASSERT_(TL->mode == FREE_, "every lock is released");
  ASSERT_(T->store == STORE && (void *)T->lock == (void *)TL, "the tree keeps its store and lock");
  free(STORE); free(TL); free(T); LIVE_LOCKS--;
}
static void end_tx(void) {
  ASSERT_(XL != NULL && XL->mode == FREE_, "every lock is released");
  ASSERT_(X->tree == T && (void *)X->lock == (void *)XL, "the transaction keeps its tree and lock");
  free(X->root); free(XL); free(X); LIVE_LOCKS--;
}
/* contract of urkel_tx_create (proved by api.create) */
static unsigned CREATES; static _Bool CFAIL;
tree_tx_t *stub_create(tree_db_t *tree, const unsigned char *hash) {
  ASSERT_(tree == T && TMODE == FREE_, "one-shot: a transaction on the given tree");
  CREATES++; CROOT = hash;
  if (nondet_bool()) { CFAIL = 1; urkel_errno = URKEL_ENOTFOUND; return NULL; }
  mk_tx();
  return X;
}
static int err0;
static void begin(void) {
  AH = nondet_u256(); CH = nondet_u256(); ST(KEYB, nondet_u256());
  err0 = nondet_int(); urkel_errno = err0;
}
#define WITH_TX begin(); mk_tree(); mk_tx();
#define END_TX end_tx(); end_tree(); ASSERT_(LIVE_LOCKS == 0, "no lock is lost"); REACH("end");

int main(void) {
  unsigned char H[32];
#ifdef OP_open
  begin();
  T = NULL; TL = NULL; ST(ROOTH, nondet_u256());
  T = urkel_open("x");
  if (T == NULL) { ASSERT_(STORE == NULL && urkel_errno == URKEL_EBADOPEN, "open: fails with its own error"); REACH("open fails"); }
  else {
    ASSERT_(T->store == STORE && LD(T->hash) == LD(ROOTH) && !T->revert, "open: starts at the committed root");
    ASSERT_(TL != NULL && (void *)T->lock == (void *)TL && TL->mode == FREE_, "open: with a lock of its own");
    end_tree();
  }
  ASSERT_(LIVE_LOCKS == 0, "no lock is lost");
  REACH("open");
#endif
#ifdef OP_close
  begin(); mk_tree();
  urkel_close(T);
  ASSERT_(STORE == NULL && LIVE_LOCKS == 0, "close: closes the store and destroys the lock");
  REACH("close");
#endif
#ifdef OP_destroy
  begin();
  int r = nondet_bool() ? urkel_destroy("x") : urkel__corrupt("x");
  ASSERT_((r != 0) == (DRET != 0) && (r || urkel_errno == URKEL_EBADOPEN), "destroy: reports what the store reports");
  REACH("destroy");
#endif
#ifdef OP_root
  begin(); mk_tree();
  urkel_root(T, H);
  ASSERT_(LD(H) == SNAP_HASH && LD(T->hash) == SNAP_HASH, "root: the tree's hash while it was locked");
  end_tree(); REACH("root");
#endif
#ifdef OP_hash
  begin(); PRAW = KEYB; PLEN = nondet_size();
  urkel_hash(H, PRAW, PLEN);
  ASSERT_(LD(H) == AH, "hash: the hash of the given bytes");
  REACH("hash");
#endif
#ifdef OP_inject
  begin(); mk_tree(); ST(H, AH);
  int r = urkel_inject(T, H);
  ASSERT_(HISTORY_HASH == AH && (r != 0) == HISTORY, "inject: succeeds exactly for a root in the history");
  if (r) ASSERT_(LD(T->hash) == AH && T->revert, "inject: moves the tree to that root");
  else ASSERT_(urkel_errno == URKEL_ENOTFOUND && LD(T->hash) == SNAP_HASH && T->revert == SNAP_REVERT, "inject: an unknown root changes nothing");
  end_tree(); REACH("inject");
#endif
#ifdef OP_create
  begin(); mk_tree(); ST(H, AH); NEW_TX = 1;
  unsigned char *arg = nondet_bool() ? H : NULL;
  X = urkel_tx_create(T, arg);
  u256 want = arg ? AH : SNAP_HASH;
  if (X == NULL) {
    ASSERT_(urkel_errno == URKEL_ENOTFOUND && !HISTORY && XL == NULL && (arg || SNAP_REVERT), "create: refuses only unknown roots");
    ASSERT_(HISTORY_HASH == want, "create: looks for the requested root");
    REACH("create fails");
  } else {
    ASSERT_(node_mk(X->root) == want && LD(X->root->hash) == want, "create: starts at the requested root, else at the tree's");
    end_tx();
  }
  end_tree(); ASSERT_(LIVE_LOCKS == 0, "no lock is lost"); REACH("create");
#endif
#ifdef OP_txdestroy
  WITH_TX
  urkel_tx_destroy(X);
  ASSERT_(DESTROYED == 1 && XL == NULL, "tx destroy: frees its nodes and its lock");
  end_tree(); ASSERT_(LIVE_LOCKS == 0, "no lock is lost"); REACH("txdestroy");
#endif
#ifdef OP_clear
  WITH_TX
  urkel_tx_clear(X);
  ASSERT_(DESTROYED == 1, "clear: frees the old nodes");
  /* an injected root which can no longer be read leaves only the committed one */
  ASSERT_(node_mk(X->root) == SNAP_HASH || (SNAP_REVERT && HISTORY_HASH == SNAP_HASH && node_mk(X->root) == CH), "clear: back to the tree's root");
  ASSERT_(LD(T->hash) == SNAP_HASH && T->revert == SNAP_REVERT, "clear: leaves the tree alone");
  END_TX
#endif
#ifdef OP_txroot
  WITH_TX
  urkel_tx_root(X, H);
  ASSERT_(LD(H) == SNAP_ROOT && X->root == SNAP_NODE && node_mk(X->root) == SNAP_ROOT, "tx root: the Merkle value of the transaction's root");
  END_TX
#endif
#ifdef OP_txinject
  WITH_TX ST(H, AH);
  int r = urkel_tx_inject(X, H);
  ASSERT_(HISTORY_HASH == AH && (r != 0) == HISTORY, "tx inject: succeeds exactly for a root in the history");
  if (r) ASSERT_(node_mk(X->root) == AH && LD(X->root->hash) == AH && DESTROYED == 1, "tx inject: moves to that root");
  else ASSERT_(urkel_errno == URKEL_ENOTFOUND && X->root == SNAP_NODE && node_mk(X->root) == SNAP_ROOT && DESTROYED == 0, "tx inject: an unknown root changes nothing");
  ASSERT_(LD(T->hash) == SNAP_HASH && T->revert == SNAP_REVERT, "tx inject: leaves the tree alone");
  END_TX
#endif
#ifdef OP_txget
  WITH_TX
  size_t sz = nondet_size();
  int r = urkel_tx_get(X, VAL, &sz, KEYB);
  ASSERT_(OPS == 1 && (r != 0) == OPRET, "tx get: one lookup");
  ASSERT_(r ? sz == VSIZE : sz == 0 && urkel_errno == OPERR, "tx get: the size, or zero and the error");
  ASSERT_(X->root == SNAP_NODE, "tx get: changes nothing");
  END_TX
#endif
#ifdef OP_txhas
  WITH_TX
  int r = urkel_tx_has(X, KEYB);
  ASSERT_(OPS == 1 && (r != 0) == OPRET && (r || urkel_errno == OPERR), "tx has: one lookup, or its error");
  ASSERT_(X->root == SNAP_NODE, "tx has: changes nothing");
  END_TX
#endif
#ifdef OP_txinsert
  WITH_TX INV = VAL; INS = nondet_size();
  int r = urkel_tx_insert(X, KEYB, VAL, INS);
  if (INS > 1023) ASSERT_(!r && urkel_errno == URKEL_EINVAL && OPS == 0, "tx insert: an oversized value is refused");
  else {
    ASSERT_(OPS == 1 && (r != 0) == (OPRET || OPERR == URKEL_ENOUPDATE), "tx insert: one insertion; the same pair again is fine");
    ASSERT_(OPRET || urkel_errno == OPERR, "tx insert: the operation's own error");
    ASSERT_(OPRET || X->root == SNAP_NODE, "tx insert: a failed insertion keeps the root");
  }
  END_TX
#endif
#ifdef OP_txremove
  WITH_TX
  int r = urkel_tx_remove(X, KEYB);
  ASSERT_(OPS == 1 && (r != 0) == OPRET && (r || urkel_errno == OPERR), "tx remove: one removal, or its error");
  ASSERT_(OPRET || X->root == SNAP_NODE, "tx remove: a failed removal keeps the root");
  END_TX
#endif
#ifdef OP_txprove
  WITH_TX
  unsigned char *raw = (unsigned char *)1; size_t len = nondet_size();
  int r = urkel_tx_prove(X, &raw, &len, KEYB);
  ASSERT_(OPS == 1 && (r != 0) == OPRET && !PLIVE, "tx prove: one proof, freed again");
  if (r) { ASSERT_(PWROTE && len == PSIZE && __CPROVER_OBJECT_SIZE(raw) == len, "tx prove: a buffer of exactly the proof's size"); free(raw); }
  else ASSERT_(raw == NULL && len == 0 && urkel_errno == OPERR, "tx prove: no buffer on failure");
  ASSERT_(X->root == SNAP_NODE, "tx prove: keeps the root");
  END_TX
#endif
#ifdef OP_txcommit
  WITH_TX
  int r = urkel_tx_commit(X);
  ASSERT_((r != 0) == (WROTE && COMMITTED), "commit: succeeds exactly when everything reached the files");
  ASSERT_(node_mk(X->root) == SNAP_ROOT, "commit: the transaction keeps its mapping");
  if (r) ASSERT_(LD(T->hash) == SNAP_ROOT, "commit: the tree is at the new root");
  else ASSERT_(urkel_errno == URKEL_EBADWRITE && LD(T->hash) == SNAP_HASH && T->revert == SNAP_REVERT, "commit: a failed one changes nothing and says so");
  if (r) REACH("commit succeeds"); else REACH("commit fails");
  END_TX
#endif
#ifdef OP_itercreate
  WITH_TX
  I = urkel_iter_create(X);
  ASSERT_(TMODE == RD && XMODE == RD, "iter create: keeps the transaction and the tree locked for reading");
  ASSERT_(I->tree == T && I->tx == X && I->root == SNAP_NODE && X->root == SNAP_NODE && I->node == NULL && I->stack_len == 0 && !I->done && !I->transient, "iter create: at the start of the transaction's tree");
  ASSERT_(((lk_t *)I->lock)->kind == 2 && ((lk_t *)I->lock)->mode == FREE_, "iter create: with a lock of its own");
  urkel_mutex_destroy(I->lock); free(I);
  TL->mode = FREE_; XL->mode = FREE_;
  END_TX
#endif
#ifdef OP_iterate
  begin(); mk_tree(); ST(H, AH);
  unsigned char *arg = nondet_bool() ? H : NULL;
  I = urkel_iterate(T, arg);
  ASSERT_(CREATES == 1 && CROOT == arg, "iterate: on the requested root, else on the tree's");
  if (I == NULL) ASSERT_(CFAIL && urkel_errno == URKEL_ENOTFOUND, "iterate: refuses only unknown roots");
  else {
    ASSERT_(TMODE == RD && XMODE == RD && I->tree == T && I->tx == X && I->root == X->root && I->stack_len == 0 && !I->done && I->transient, "iterate: owns its transaction");
    urkel_mutex_destroy(I->lock); free(I);
    TL->mode = FREE_; XL->mode = FREE_;
    end_tx();
  }
  end_tree(); ASSERT_(LIVE_LOCKS == 0, "no lock is lost"); REACH("iterate");
#endif
#ifdef OP_iterdestroy
  static urkel_node_t own, rn; static tree_db_t t0; static tree_tx_t *x0; static lk_t tl; lk_t *xl = malloc(sizeof(*xl)), *il = malloc(sizeof(*il));
  ASSUME(xl != NULL && il != NULL);
  begin(); T = &t0; TL = &tl; tl.kind = 0; tl.mode = RD; T->lock = (urkel_rwlock_t *)TL;
  X = malloc(sizeof(*X)); ASSUME(X != NULL);
  XL = xl; xl->kind = 1; xl->mode = RD; X->lock = (urkel_rwlock_t *)xl; X->tree = T; X->root = &rn; il->mode = FREE_; il->kind = 2; LIVE_LOCKS = 2; DESTROYED = 0; KEEPD = 0;
  SNAP_HASH = LD(T->hash); SNAP_REVERT = T->revert; NEW_TX = 1;
  static const tree_iter_t zero; I = malloc(sizeof(*I)); ASSUME(I != NULL); *I = zero;
  I->tree = T; I->tx = X; I->root = X->root; I->node = NULL;
  I->lock = (urkel_mutex_t *)il; I->transient = nondet_bool(); I->done = nondet_bool();
  /* one arbitrary entry of the stack is watched; the others are borrowed nodes */
  I->stack_len = nondet_size(); ASSUME(I->stack_len <= URKEL_STACK_SIZE);
  J_ = nondet_size(); ASSUME(J_ < URKEL_STACK_SIZE);
  RES_ = nondet_bool(); KEEPN = &own;
  I->stack[J_].resolved = RES_; I->stack[J_].node = &own;
  _Bool owned = J_ < I->stack_len && RES_, trans = I->transient;
  urkel_iter_destroy(I);
  ASSERT_(KEEPD == owned && DESTROYED == owned + trans, "iter destroy: frees exactly the nodes the iterator read itself, and its own transaction");
  ASSERT_(TMODE == FREE_, "iter destroy: releases the tree");
  if (trans) ASSERT_(XL == NULL && LIVE_LOCKS == 0, "iter destroy: releases and frees its own transaction");
  else ASSERT_(XL == xl && xl->mode == FREE_ && LIVE_LOCKS == 1, "iter destroy: releases the transaction");
  REACH("iterdestroy");
#endif
#ifdef OP_iternext
  static tree_iter_t it; static tree_db_t t0; static tree_tx_t x0; static lk_t il, tl, xl; static urkel_node_t lf, rn; static unsigned char out[1023], kout[32], st;
  begin(); T = &t0; X = &x0; TL = &tl; XL = &xl; STORE = (urkel_store_t *)&st;
  T->store = STORE; T->lock = (urkel_rwlock_t *)TL; X->tree = T; X->root = &rn; X->lock = (urkel_rwlock_t *)XL;
  tl.kind = 0; tl.mode = RD; xl.kind = 1; xl.mode = RD; il.mode = FREE_; il.kind = 2;
  FAILED_STORE = 0; SEEKRET = 0; SEEKERR = 0; NEW_TX = 0;
  I = &it; I->tree = T; I->tx = X; I->root = X->root; I->node = NULL; I->lock = (urkel_mutex_t *)&il;
  LEAFN = &lf; lf.type = URKEL_NODE_LEAF; LEAFK = LD(lf.u.leaf.key); HELD = 1;
  rn.type = nondet_uint(); ASSUME(rn.type <= URKEL_NODE_HASH && rn.type != URKEL_NODE_LEAF);
  size_t sz = nondet_size(); _Bool want = nondet_bool();
  int r = want ? urkel_iter_next(I, kout, out, &sz) : urkel_iter_next(I, kout, NULL, NULL);
  ASSERT_(il.mode == FREE_ && TMODE == RD && XMODE == RD, "iter next: releases the iterator's lock and keeps the others");
  if (r) ASSERT_(SEEKRET == 1 && I->node == LEAFN && LD(kout) == LEAFK && !FAILED_STORE && (!want || sz <= 1023), "iter next: the key and value of the next leaf");
  else ASSERT_(FAILED_STORE ? urkel_errno == URKEL_ECORRUPTION : SEEKRET == 0 && urkel_errno == SEEKERR, "iter next: ends only at the end, else reports what failed");
  REACH("iternext");
#endif
#ifdef OP_wrap
  /* the one-shot calls on a database */
  begin(); mk_tree(); ST(H, AH);
  unsigned which = nondet_uint(); ASSUME(which < 5);
  unsigned char *arg = nondet_bool() ? H : NULL;
  unsigned char *raw = (unsigned char *)1; size_t len = nondet_size();
  INV = VAL; INS = nondet_size();
  int r = 0;
  switch (which) {
    case 0: r = urkel_get(T, VAL, &len, KEYB, arg);
      ASSERT_((r != 0) == (OPS == 1 && OPRET) && (r ? len == VSIZE : len == 0), "get: the size, or zero"); break;
    case 1: r = urkel_has(T, KEYB, arg); ASSERT_((r != 0) == (OPS == 1 && OPRET), "has: what the lookup says"); break;
    case 2: r = urkel_insert(T, KEYB, VAL, INS);
      ASSERT_((r != 0) == (WROTE && COMMITTED) && (!r || (OPS == 1 && (OPRET || OPERR == URKEL_ENOUPDATE))), "insert: done when inserted and committed");
      ASSERT_(r || OPS || urkel_errno == URKEL_ENOTFOUND || (urkel_errno == URKEL_EINVAL && INS > 1023), "insert: an oversized value or an unknown root has its own error");
      ASSERT_(INS <= 1023 || !WROTE, "insert: an oversized value changes nothing"); break;
    case 3: r = urkel_remove(T, KEYB);
      ASSERT_((r != 0) == (WROTE && COMMITTED) && (!r || (OPS == 1 && OPRET)), "remove: done when removed and committed"); break;
    case 4: r = urkel_prove(T, &raw, &len, KEYB, arg);
      ASSERT_((r != 0) == (OPS == 1 && OPRET), "prove: what the operation says");
      if (r) { ASSERT_(PWROTE && len == PSIZE && __CPROVER_OBJECT_SIZE(raw) == len, "prove: a buffer of exactly the proof's size"); free(raw); }
      else ASSERT_(raw == NULL && len == 0, "prove: no buffer on failure"); break;
  }
  if (!r) ASSERT_(OPS ? (OPRET || (which == 2 && OPERR == URKEL_ENOUPDATE)) ? urkel_errno == URKEL_EBADWRITE : urkel_errno == OPERR : (urkel_errno == URKEL_ENOTFOUND || (which == 2 && urkel_errno == URKEL_EINVAL)), "one-shot: the error of the step which failed");
  ASSERT_(CREATES <= 1 && (CREATES == 0 || CROOT == ((which == 2 || which == 3) ? NULL : arg)), "one-shot: runs on the requested root, else on the tree's");
  ASSERT_(XL == NULL && !PLIVE, "one-shot: the transaction is gone");
  end_tree(); ASSERT_(LIVE_LOCKS == 0, "no lock is lost"); REACH("wrap");
#endif
#ifdef OP_verify
  begin(); ST(H, AH);
  PRAW = KEYB; PLEN = nondet_size(); RH = nondet_bool() ? H : NULL;
  int exists = 7; size_t vlen = nondet_size();
  unsigned char out[1023];
  int r = urkel_verify(&exists, out, &vlen, PRAW, PLEN, KEYB, RH);
  ASSERT_(!PLIVE, "verify: gives back the nodes of the proof, decoded or not");
  if (RH == NULL) ASSERT_(!r && urkel_errno == URKEL_EINVAL, "verify: a root is required");
  else if (!PREAD) ASSERT_(!r && urkel_errno == URKEL_EINVAL, "verify: a malformed proof is invalid");
  else ASSERT_((r != 0) == (PRES == 0) && urkel_errno == PRES, "verify: the verdict and its reason");
  if (!r) ASSERT_(exists == 0 && vlen == 0, "verify: nothing is reported for a refused proof");
  else ASSERT_(exists == (PTYPE == URKEL_TYPE_EXISTS) && vlen == (exists ? PSIZE : 0), "verify: presence and size as proved");
  REACH("verify");
#endif
}
