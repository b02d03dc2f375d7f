/* readfault.c - every operation with a read that fails at each point: the answer is
 * right or a storage failure, nothing has changed, no lock is kept, nothing leaks. */
#include <stdint.h>
#include "common.h"
#define R_MAP 1u
#define R_PROOF 2u
#define R_ITER 4u
#define R_HIST 8u
#define R_ERR 16u
#define R_LOCK 32u
#define R_ROOT 64u
#define R_COMMIT 128u
static char DIR[600]; static urkel_t *DB; static urkel_tx_t *TX; static map_t CUR, COM;
static unsigned char HR[20][32]; static map_t HM[20]; static int NH;
/* reads */
int __real_urkel_file_pread(const void *, void *, size_t, uint64_t);
static long FN, FAT, FHIT; static int FALL;
int __wrap_urkel_file_pread(const void *f, void *d, size_t n, uint64_t p) {
  if (FAT && (++FN == FAT || (FALL && FN > FAT))) { FHIT++; return 0; }
  return __real_urkel_file_pread(f, d, n, p);
}
/* writes */
int __real_urkel_file_write(void *, const void *, size_t); static int WFAIL;
int __wrap_urkel_file_write(void *f, const void *d, size_t n) { if (WFAIL) { FHIT++; return 0; } return __real_urkel_file_write(f, d, n); }
/* locks */
static struct { void *l; int w, r; } LK[4096]; static int NLK; static long HELD;
static int lk(void *l) { for (int i = 0; i < NLK; i++) if (LK[i].l == l) return i; if (NLK == 4096) FAILX("locks"); LK[NLK].l = l; LK[NLK].w = LK[NLK].r = 0; return NLK++; }
static void lk_gone(void *l) { int i = lk(l); CK(R_LOCK, !LK[i].w && !LK[i].r, "a lock is destroyed while it is held"); LK[i] = LK[--NLK]; }
static void lk_w(void *l) { int i = lk(l); CK(~0u, !LK[i].w && !LK[i].r, "a lock is taken which is held already"); LK[i].w = 1; HELD++; }
static void lk_wu(void *l) { int i = lk(l); CK(R_LOCK, LK[i].w, "a lock is released which is not held exclusively"); if (LK[i].w) { LK[i].w = 0; HELD--; } }
static void lk_r(void *l) { int i = lk(l); CK(~0u, !LK[i].w, "a lock is taken which is held already"); LK[i].r++; HELD++; }
static void lk_ru(void *l) { int i = lk(l); CK(R_LOCK, LK[i].r > 0, "a lock is released which is not held shared"); if (LK[i].r) { LK[i].r--; HELD--; } }
#define WRAPL(n, f) void __real_urkel_##n(void *); void __wrap_urkel_##n(void *l) { if (l == NULL) FAILX("no lock"); f(l); __real_urkel_##n(l); }
WRAPL(rwlock_wrlock, lk_w) WRAPL(rwlock_wrunlock, lk_wu) WRAPL(rwlock_rdlock, lk_r) WRAPL(rwlock_rdunlock, lk_ru) WRAPL(mutex_lock, lk_w) WRAPL(mutex_unlock, lk_wu)
WRAPL(rwlock_destroy, lk_gone) WRAPL(mutex_destroy, lk_gone)
static void free_locks(const char *what) { CK(R_LOCK, HELD == 0, "%s: %ld locks are still held", what, HELD); }

/* a root which cannot be read is reported as one which is not known */
#define NOROOT(e) (STORAGE(e) || (e) == URKEL_ENOTFOUND)
#define STORAGE(e) ((e) != URKEL_ENOTFOUND && (e) != URKEL_EITEREND && (e) != URKEL_EINVAL && (e) != 0)
static int refd(const map_t *m, const unsigned char *k, int r, size_t n, const unsigned char *v, int e, const char *what) {
  size_t i; int w = map_find(m, k, &i);
  if (r) { CK(R_MAP, w && n == m->e[i].n && !memcmp(v, m->e[i].v, n), "%s: a wrong answer when a read fails", what); return 1; }
  CK(R_ERR, n == 0, "%s: failure leaves the size %zu", what, n);
  if (e == URKEL_ENOTFOUND) CK(R_MAP | R_ERR, !w, "%s: reports a present key as absent when a read fails", what);
  else CK(R_ERR, STORAGE(e) && FHIT, "%s: errno %d without a failing read", what, e);
  return 0;
}
static void intact(urkel_tx_t *tx, const map_t *m, unsigned mode, const char *what) {
  unsigned char v[1024], a[32], b[32]; size_t n, i;
  urkel_tx_root(tx, a); ref_root(m, b); CK(mode | R_ROOT, !memcmp(a, b, 32), "%s: the root has changed", what);
  for (i = 0; i < m->n; i++) { urkel_errno = 0; int r = urkel_tx_get(tx, v, &n, m->e[i].k); CK(mode, r && n == m->e[i].n && !memcmp(v, m->e[i].v, n), "%s: a pair is lost or changed (errno %d)", what, urkel_errno); }
}
static void proof(const unsigned char *p, size_t n, const map_t *m, const unsigned char *k) {
  unsigned char root[32], v[1024]; size_t vn = 0, i; int ex = 0, w = map_find(m, k, &i); ref_root(m, root);
  int r = urkel_verify(&ex, v, &vn, p, n, k, root);
  CK(R_PROOF, r && !!ex == w && (!w || (vn == m->e[i].n && !memcmp(v, m->e[i].v, vn))), "a proof made while a read failed is wrong");
}
static void iterate(urkel_iter_t *it, const map_t *m) {
  unsigned char k[32], v[1024]; size_t n, i = 0; int val = rn(3); long held = HELD; /* an iterator keeps its locks */
  for (;;) {
    urkel_errno = 0; long h = FHIT;
    int r = val ? urkel_iter_next(it, k, v, &n) : urkel_iter_next(it, k, NULL, NULL), e = urkel_errno;
    CK(R_LOCK, HELD == held, "iter_next keeps a lock or gives one up");
    if (!r) {
      if (e == URKEL_EITEREND) CK(R_ITER, i == m->n, "iteration ends after %zu of %zu pairs, %ld reads failed", i, m->n, FHIT);
      else CK(R_ITER | R_ERR, STORAGE(e) && FHIT > h, "iteration: errno %d", e);
      break;
    }
    CK(R_ITER, i < m->n, "iteration yields too many pairs"); if (i >= m->n) break;
    CK(R_ITER, !memcmp(k, m->e[i].k, 32) && (!val || (n == m->e[i].n && !memcmp(v, m->e[i].v, n))), "iteration yields a wrong pair when a read fails"); i++;
  }
}
static void off(void) { FAT = FALL = WFAIL = 0; }
static void open_(void) { DB = urkel_open(DIR); if (!DB) FAILX("open, errno %d", urkel_errno); TX = urkel_tx_create(DB, NULL); if (!TX) FAILX("tx, errno %d", urkel_errno); map_copy(&CUR, &COM); }
static void close_(void) { urkel_tx_destroy(TX); urkel_close(DB); free_locks("close"); }
int main(int argc, char **argv) {
  start(argc, argv); snprintf(DIR, sizeof DIR, "%s/db", WORK); unsigned char k[32], v[1024], w[1024], a[32], b[32]; size_t n, l;
  for (int rep = 0; rep < REPS; rep++) {
    rmrf(DIR); keys_init(); CUR.n = COM.n = 0; NH = 0; open_();
    for (int c = 0; c < 8; c++) {
      for (int o = 0; o < 8; o++) { gen_key(k, &CUR); l = gen_val(v); if (l > 300) l %= 300; if (rn(5)) { if (!urkel_tx_insert(TX, k, v, l)) FAILX("insert"); map_put(&CUR, k, v, l); } else { urkel_tx_remove(TX, k); map_del(&CUR, k); } }
      if (!urkel_tx_commit(TX)) FAILX("commit"); map_copy(&COM, &CUR); memset(&HM[NH], 0, sizeof *HM); map_copy(&HM[NH], &COM); ref_root(&COM, HR[NH++]);
    }
    close_();
    for (int t = 0; t < 260; t++) {
      open_();
      for (int o = rn(3); o > 0; o--) { gen_key(k, &CUR); l = gen_val(v); if (urkel_tx_insert(TX, k, v, l)) map_put(&CUR, k, v, l); }
      gen_key(k, &CUR); l = gen_val(v); if (l > 200) l %= 200; memset(w, 0x5a, sizeof w);
      int op = rn(13), h = rn(NH), was = map_find(&CUR, k, NULL); n = 77; FN = FHIT = 0; FAT = 1 + rn(op == 3 || op > 8 ? 30 : 8); FALL = rn(2); urkel_errno = 0;
      const char *what = "operation";
      switch (op) {
        case 0: { what = "get"; int r = urkel_tx_get(TX, w, &n, k), e = urkel_errno; off(); refd(&CUR, k, r, n, w, e, what); break; }
        case 1: { what = "has"; int r = urkel_tx_has(TX, k), e = urkel_errno; off(); CK(R_MAP, !r || was, "has: a wrong answer"); if (!r && e == URKEL_ENOTFOUND) CK(R_MAP | R_ERR, !was, "has: a present key is absent"); else if (!r) CK(R_ERR, STORAGE(e) && FHIT, "has: errno %d", e); break; }
        case 2: { what = "prove"; unsigned char *p = (void *)1; int r = urkel_tx_prove(TX, &p, &n, k), e = urkel_errno; off(); if (r) { proof(p, n, &CUR, k); urkel_free(p); } else CK(R_PROOF | R_ERR, p == NULL && n == 0 && STORAGE(e) && FHIT, "prove: errno %d", e); break; }
        case 3: { what = "iterate"; urkel_iter_t *it = urkel_iter_create(TX); if (!it) { off(); CK(R_ERR, STORAGE(urkel_errno) && FHIT, "iter_create"); break; } iterate(it, &CUR); off(); urkel_iter_destroy(it); break; }
        case 4: case 5: { what = "insert"; int r = urkel_tx_insert(TX, k, v, l), e = urkel_errno; off(); if (r) map_put(&CUR, k, v, l); else CK(R_MAP | R_ERR, STORAGE(e) && FHIT, "insert fails, errno %d", e); break; }
        case 6: case 7: { what = "remove"; int r = urkel_tx_remove(TX, k), e = urkel_errno; off(); if (r) { CK(R_MAP, was, "an absent key is removed"); map_del(&CUR, k); } else if (e == URKEL_ENOTFOUND) CK(R_MAP | R_ERR, !was, "remove reports a present key as absent"); else CK(R_ERR, STORAGE(e) && FHIT, "remove fails, errno %d", e); break; }
        case 8: { what = "tx_create"; urkel_tx_t *t2 = urkel_tx_create(DB, HR[h]); int e = urkel_errno; off(); if (t2) { intact(t2, &HM[h], R_HIST, what); urkel_tx_destroy(t2); } else CK(R_HIST | R_ERR, NOROOT(e) && FHIT, "tx_create of a committed root: errno %d", e); break; }
        case 9: { what = "tx_inject"; int r = urkel_tx_inject(TX, HR[h]), e = urkel_errno; off(); if (r) map_copy(&CUR, &HM[h]); else CK(R_HIST | R_ERR, NOROOT(e) && FHIT, "tx_inject of a committed root: errno %d", e); break; }
        case 10: { what = "inject"; int r = urkel_inject(DB, HR[h]), e = urkel_errno; off(); if (!r) CK(R_HIST | R_ERR, NOROOT(e) && FHIT, "inject of a committed root: errno %d", e); urkel_root(DB, a); ref_root(&COM, b); CK(R_HIST, !memcmp(a, r ? HR[h] : b, 32), "inject: the tree has another root"); break; }
        case 11: { int s = rn(6); what = "one-off operation"; size_t i; const map_t *m = rn(2) ? &HM[h] : &COM; const unsigned char *root = m == &COM ? NULL : HR[h]; was = map_find(&COM, k, NULL);
          if (s == 0) { int r = urkel_get(DB, w, &n, k, root), e = urkel_errno; off(); if (root && !r && e == URKEL_ENOTFOUND && FHIT) break; refd(m, k, r, n, w, e, "get"); }
          else if (s == 1) { unsigned char *p = (void *)1; int r = urkel_prove(DB, &p, &n, k, root), e = urkel_errno; off(); if (r) { proof(p, n, m, k); urkel_free(p); } else CK(R_PROOF | R_ERR, p == NULL && n == 0 && (root ? NOROOT(e) : STORAGE(e)) && FHIT, "prove: errno %d", e); }
          else if (s == 2) { urkel_iter_t *it = urkel_iterate(DB, root); if (it) iterate(it, m); else CK(R_ERR, (root ? NOROOT(urkel_errno) : STORAGE(urkel_errno)) && FHIT, "iterate"); off(); if (it) urkel_iter_destroy(it); }
          else if (s == 3) { int r = urkel_has(DB, k, root), e = urkel_errno; off(); CK(R_MAP, !r || map_find(m, k, &i), "has"); if (!r && e == URKEL_ENOTFOUND && !(root && FHIT)) CK(R_MAP | R_ERR, !map_find(m, k, &i), "has: a present key is absent"); }
          else if (s == 4) { if (rn(3) == 0) WFAIL = 1; int r = urkel_insert(DB, k, v, l), e = urkel_errno; off(); if (r) map_put(&COM, k, v, l); else CK(R_COMMIT | R_ERR, STORAGE(e) && FHIT, "insert fails, errno %d", e); }
          else { if (rn(3) == 0) WFAIL = 1; int r = urkel_remove(DB, k), e = urkel_errno; off(); if (r) { CK(R_MAP, was, "an absent key is removed"); map_del(&COM, k); } else if (e == URKEL_ENOTFOUND) CK(R_MAP | R_ERR, !was, "remove: a present key is absent"); else CK(R_COMMIT | R_ERR, STORAGE(e) && FHIT, "remove fails, errno %d", e); }
          urkel_root(DB, a); ref_root(&COM, b); CK(R_ROOT | R_COMMIT, !memcmp(a, b, 32), "%s: the committed root is another", what);
          break; }
        case 12: { what = "commit"; if (rn(2)) WFAIL = 1; int r = urkel_tx_commit(TX), e = urkel_errno; off(); free_locks(what); if (!r) { CK(R_COMMIT | R_ERR, STORAGE(e) && FHIT, "commit fails, errno %d", e); urkel_root(DB, a); ref_root(&COM, b); CK(R_COMMIT, !memcmp(a, b, 32), "a failed commit changes the root");
            if (rn(2)) { r = urkel_tx_commit(TX); CK(R_COMMIT, r, "the retried commit fails, errno %d", urkel_errno); } }
          if (r) map_copy(&COM, &CUR); else { FAT = 0; urkel_tx_destroy(TX); TX = urkel_tx_create(DB, NULL); if (!TX) FAILX("no transaction"); map_copy(&CUR, &COM); } break; }
      }
      free_locks(what);
      intact(TX, &CUR, op < 8 ? R_MAP : op < 11 ? R_HIST : R_COMMIT, what); free_locks("read");
      close_();
    }
    open_(); intact(TX, &CUR, R_COMMIT, "in the end"); close_(); rmrf(DIR);
    for (int i = 0; i < NH; i++) { free(HM[i].e); memset(&HM[i], 0, sizeof *HM); }
  }
  free(CUR.e); free(COM.e);
  return finish();
}
