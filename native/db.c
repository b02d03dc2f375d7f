/* db.c - random histories of the public API against the reference model. */
#include "common.h"
#define M_MAP 1u
#define M_ROOT 2u
#define M_PROOF 4u
#define M_FORGE 8u
#define M_DISK 16u
#define M_ITER 32u
#define M_HIST 64u
#define M_API 128u
#ifndef CHAIN
#define CHAIN 40
#endif

typedef struct { unsigned char root[32]; map_t m; } hist_t;
static hist_t H[64]; static int NH;
static urkel_t *DB; static urkel_tx_t *TX; static map_t CUR, COM; static char DIR[600];
static unsigned char REVERT[32]; static int REVERTED;

static void check_get(urkel_tx_t *tx, const map_t *m, const unsigned char *k, unsigned mode) {
  unsigned char v[1024]; size_t n = 7777, i;
  memset(v, 0xa5, sizeof v); urkel_errno = 0;
  int r = urkel_tx_get(tx, v, &n, k), e = urkel_errno, h = urkel_tx_has(tx, k), want = map_find(m, k, &i);
  CK(mode, r == want, "get returns %d (errno %d), the map says %d", r, e, want);
  CK(mode, h == want, "has returns %d, the map says %d", h, want);
  if (want) {
    CK(mode, n == m->e[i].n, "get: size %zu instead of %zu", n, m->e[i].n);
    CK(mode, memcmp(v, m->e[i].v, n) == 0, "get: wrong value");
    CK(mode | M_API, v[n] == 0xa5, "get writes past the value");
  } else { CK(mode | M_API, e == URKEL_ENOTFOUND, "get of an absent key: errno %d", e); CK(mode | M_API, n == 0, "get of an absent key: size %zu", n); }
}
static void check_root(urkel_tx_t *tx, const map_t *m) {
  unsigned char a[32], b[32];
  urkel_tx_root(tx, a); ref_root(m, b);
  CK(M_ROOT, memcmp(a, b, 32) == 0, "root of %zu pairs differs from the documented construction", m->n);
}
/* the documented rules of a proof, read off the raw bytes */
static int ref_verify(const unsigned char *d, size_t n, const unsigned char *key, const unsigned char *root, int *ex, const unsigned char **val, size_t *vn) {
  static unsigned sz[256]; static unsigned char px[256][32], sb[256][32]; unsigned char cur[32];
  if (n < 4) return 0;
  unsigned f = d[0] | d[1] << 8, cnt = d[2] | d[3] << 8, type = f >> 14, depth = f & 0x3fff, bs = (cnt + 7) / 8, o = 4 + bs;
  if (depth > 256 || cnt > 256 || n < o) return 0;
#define NEED(k) do { if (n - o < (size_t)(k)) return 0; } while (0)
#define BITS(S, B) do { NEED(1); S = d[o++]; if (S & 0x80) { NEED(1); S = (S & 0x7f) << 8 | d[o++]; if (S < 0x80) return 0; } if (S > 256) return 0; NEED((S + 7) / 8); memset(B, 0, 32); memcpy(B, d + o, (S + 7) / 8); o += (S + 7) / 8; } while (0)
  for (unsigned i = 0; i < cnt; i++) { sz[i] = 0; if (d[4 + i / 8] >> (7 - i % 8) & 1) BITS(sz[i], px[i]); NEED(32); memcpy(sb[i], d + o, 32); o += 32; }
#define ONPATH(S, B, at) ({ int y_ = (at) + (S) <= 256; for (unsigned b_ = 0; y_ && b_ < (S); b_++) if (kbit(B, b_) != kbit(key, (at) + b_)) y_ = 0; y_; })
  *ex = 0; *val = NULL; *vn = 0;
  if (type == 0) memset(cur, 0, 32);
  else if (type == 1) { unsigned S; unsigned char B[32]; BITS(S, B); NEED(64); if (ONPATH(S, B, depth)) return 0; ref_int(S, B, d + o, d + o + 32, cur); o += 64; }
  else if (type == 2) { NEED(64); if (!memcmp(d + o, key, 32)) return 0; ref_leaf(d + o, d + o + 32, cur); o += 64; }
  else { NEED(2); unsigned S = d[o] | d[o + 1] << 8; o += 2; NEED(S); if (S > 1023) return 0; rb2 h; unsigned char vh[32]; rinit(&h, 32, 0, 0); rup(&h, d + o, S); rfin(&h, vh); ref_leaf(key, vh, cur); *ex = 1; *val = d + o; *vn = S; o += S; }
  if (o != n) return 0;
  for (unsigned i = cnt; i--;) {
    unsigned char nx[32];
    if (depth < sz[i] + 1) return 0;
    depth--;
    if (kbit(key, depth)) ref_int(sz[i], px[i], sb[i], cur, nx); else ref_int(sz[i], px[i], cur, sb[i], nx);
    memcpy(cur, nx, 32); depth -= sz[i];
    if (!ONPATH(sz[i], px[i], depth)) return 0;
  }
  return depth == 0 && !memcmp(cur, root, 32);
}
static int verify_(int *ex, unsigned char *v, size_t *vn, const unsigned char *raw, size_t n, const unsigned char *key, const unsigned char *root) {
  int ok = urkel_verify(ex, v, vn, raw, n, key, root), rex; const unsigned char *rv; size_t rn_;
  int want = ref_verify(raw, n, key, root, &rex, &rv, &rn_);
  CK(M_FORGE, !ok || want, "a byte string is accepted as a proof which the documented rules refuse");
  CK(M_PROOF | M_FORGE, ok || !want, "a valid proof is refused, errno %d", urkel_errno);
  if (ok && want) CK(M_PROOF | M_FORGE, !!*ex == rex && (!rex || (*vn == rn_ && memcmp(v, rv, rn_) == 0)), "verification does not report what the proof says");
  return ok;
}
static void check_proof(urkel_tx_t *tx, const map_t *m, const unsigned char *k) {
  unsigned char *p = NULL, root[32], v[1024]; size_t n = 0, vn = 99, i; int ex = 7;
  ref_root(m, root);
  int r = urkel_tx_prove(tx, &p, &n, k);
  CK(M_PROOF, r, "prove fails, errno %d", urkel_errno);
  if (!r) return;
  unsigned char *q = malloc(n ? n : 1); memcpy(q, p, n);
  int ok = verify_(&ex, v, &vn, q, n, k, root), want = map_find(m, k, &i);
  CK(M_PROOF, ok, "honest proof does not verify, errno %d", urkel_errno);
  if (ok) {
    CK(M_PROOF, !!ex == want, "honest proof reports presence %d, the map says %d", ex, want);
    if (ex && want) CK(M_PROOF, vn == m->e[i].n && memcmp(v, m->e[i].v, vn) == 0, "honest proof reports a wrong value");
  }
  if (MODE & (M_FORGE | M_API)) {
    /* offered for another key, or changed */
    for (int t = 0; t < 12; t++) {
      unsigned char k2[32], rt[32]; size_t n2 = n;
      memcpy(q, p, n); memcpy(rt, root, 32); memcpy(k2, k, 32);
      if (t < 6) gen_key(k2, m);
      else if (t < 9 && n) q[rn(n > 8 && rn(2) ? 8 : n)] ^= 1 << rn(8);
      else if (t == 9) n2 = rn(n + 1);
      else if (t == 10) rt[rn(32)] ^= 1 << rn(8);
      else if (n > 40) { unsigned c = 4 + rn(n - 36); memmove(q + c, q + c + 1, n - c - 1); n2--; }
      unsigned char *z = malloc(n2 ? n2 : 1); memcpy(z, q, n2);
      vn = 99; ex = 7; memset(v, 0, sizeof v); urkel_errno = 0;
      ok = verify_(&ex, v, &vn, z, n2, k2, rt);
      free(z);
      int w2 = map_find(m, k2, &i);
      if (t == 10) { CK(M_FORGE, !ok, "a proof verifies against another root"); continue; }
      if (ok) {
        CK(M_FORGE, !!ex == w2, "an altered or foreign proof claims presence %d, the map says %d", ex, w2);
        if (ex && w2) CK(M_FORGE, vn == m->e[i].n && memcmp(v, m->e[i].v, vn) == 0, "an altered proof reports a wrong value");
      } else CK(M_API, urkel_errno >= 1 && urkel_errno <= 7 && ex == 0 && vn == 0, "rejected proof: errno %d exists %d size %zu", urkel_errno, ex, vn);
    }
  }
  free(q); urkel_free(p);
}
/* hand-made proofs from the reference tree */
typedef struct { unsigned char b[40000]; size_t n; } buf_t;
static void pb(buf_t *o, const void *p, size_t n) { if (n) memcpy(o->b + o->n, p, n); o->n += n; }
static void pbits(buf_t *o, unsigned n, const unsigned char *b) { unsigned char z[2] = {0x80 | n >> 8, n & 255}; if (n >= 128) pb(o, z, 1); pb(o, z + 1, 1); pb(o, b, (n + 7) / 8); }
typedef struct { unsigned n; unsigned char bits[32], sib[32]; } step_t;
static step_t ST[256];
static void offer(const map_t *m, const unsigned char *k, const unsigned char *root, int type, unsigned depth, int steps, const unsigned char *tail, size_t tn, const char *what) {
  static buf_t o; unsigned char v[1024]; size_t vn = 0, i; int ex = 0;
  o.n = 0;
  unsigned char hd[4] = {depth & 255, (depth >> 8) | type << 6, steps & 255, steps >> 8}; pb(&o, hd, 4);
  unsigned char bm[32] = {0};
  for (int s = 0; s < steps; s++) if (ST[s].n) bm[s / 8] |= 0x80 >> (s % 8);
  pb(&o, bm, (steps + 7) / 8);
  for (int s = 0; s < steps; s++) { if (ST[s].n) pbits(&o, ST[s].n, ST[s].bits); pb(&o, ST[s].sib, 32); }
  pb(&o, tail, tn);
  unsigned char *z = malloc(o.n); memcpy(z, o.b, o.n);
  if (verify_(&ex, v, &vn, z, o.n, k, root)) {
    int w = map_find(m, k, &i);
    CK(M_FORGE, !!ex == w, "forged proof (%s) of type %d claims presence %d, the map says %d", what, type, ex, w);
    if (ex && w) CK(M_FORGE, vn == m->e[i].n && memcmp(v, m->e[i].v, vn) == 0, "forged proof (%s): wrong value", what);
  }
  CASES++;
  free(z);
}
static void forge_walk(const map_t *m, const unsigned char *root, const unsigned char *path, const unsigned char *claim) {
  size_t lo = 0, hi = m->n; unsigned d = 0; int s = 0; buf_t *t = malloc(sizeof *t);
  unsigned char b[32], l[32], r[32], z32[32] = {0};
  while (hi - lo > 1) {
    unsigned n = ref_run(m, lo, hi, d); size_t mid = ref_mid(m, lo, hi, d + n);
    ref_bits(m->e[lo].k, d, n, b); ref_hash(m, lo, mid, d + n + 1, l); ref_hash(m, mid, hi, d + n + 1, r);
    if (n) { t->n = 0; pbits(t, n, b); pb(t, l, 32); pb(t, r, 32); offer(m, claim, root, 1, d, s, t->b, t->n, "short"); }
    int bit = kbit(path, d + n);
    ST[s].n = n; memcpy(ST[s].bits, b, 32); memcpy(ST[s].sib, bit ? l : r, 32); s++;
    if (bit) lo = mid; else hi = mid;
    d += n + 1;
    if (lo == hi) { offer(m, claim, root, 0, d, s, NULL, 0, "dead end"); free(t); return; }
  }
  if (hi > lo) {
    t->n = 0; ref_vhash(&m->e[lo], l); pb(t, m->e[lo].k, 32); pb(t, l, 32);
    offer(m, claim, root, 2, d, s, t->b, t->n, "collision");
    offer(m, claim, root, 2, 0, s, t->b, t->n, "collision at depth 0");
    unsigned dd = d + 1; offer(m, claim, root, 2, dd, s, t->b, t->n, "collision too deep");
    t->n = 0; unsigned char sz[2] = {m->e[lo].n & 255, m->e[lo].n >> 8}; pb(t, sz, 2); pb(t, m->e[lo].v, m->e[lo].n);
    offer(m, claim, root, 3, d, s, t->b, t->n, "exists");
  } else offer(m, claim, root, 0, 0, 0, NULL, 0, "dead end");
  (void)z32; free(t);
}
/* values at and above the limit in otherwise correct proofs, alone and below one step */
static void oversize(void) {
  static const unsigned short sz[] = {0, 1, 1022, 1023, 1024, 1025, 1500, 2048, 16384, 65535};
  static unsigned char q[70000], val[65536], out[70000]; unsigned char k[32], vh[32], root[32], sib[32], nx[32]; rb2 h;
  for (int i = 0; i < 10; i++) for (int st = 0; st < 2; st++) {
    size_t n = sz[i], o, vn = 9; int ex = 9; unsigned char *z;
    for (int j = 0; j < 32; j++) { k[j] = rnd(); sib[j] = rnd(); }
    for (size_t j = 0; j < n; j++) val[j] = rnd();
    rinit(&h, 32, 0, 0); rup(&h, val, n); rfin(&h, vh); ref_leaf(k, vh, root);
    if (st) { if (kbit(k, 0)) ref_int(0, NULL, sib, root, nx); else ref_int(0, NULL, root, sib, nx); memcpy(root, nx, 32); }
    q[0] = st; q[1] = 3 << 6; q[2] = st; q[3] = 0; o = 4; if (st) { q[o++] = 0; memcpy(q + o, sib, 32); o += 32; }
    q[o++] = n & 255; q[o++] = n >> 8; memcpy(q + o, val, n); o += n;
    z = malloc(o); memcpy(z, q, o);
    int ok = verify_(&ex, out, &vn, z, o, k, root);
    CK(M_FORGE | M_PROOF, ok == (n <= 1023), "a proof of a value of %zu bytes: %d", n, ok);
    free(z);
  }
}
static void check_iter(urkel_tx_t *tx, const map_t *m) {
  urkel_iter_t *it = urkel_iter_create(tx); unsigned char k[32], v[1024]; size_t n, i = 0;
  while (urkel_iter_next(it, k, v, &n)) {
    CK(M_ITER, i < m->n, "iteration yields more pairs than there are");
    if (i < m->n) { CK(M_ITER, memcmp(k, m->e[i].k, 32) == 0, "iteration: pair %zu has a wrong key", i); CK(M_ITER, n == m->e[i].n && memcmp(v, m->e[i].v, n) == 0, "iteration: wrong value"); }
    i++;
    if (i > m->n + 5) break;
  }
  CK(M_ITER, i == m->n, "iteration yields %zu of %zu pairs", i, m->n);
  CK(M_ITER | M_API, urkel_errno == URKEL_EITEREND, "end of iteration: errno %d", urkel_errno);
  if (i == m->n && rn(2)) { int again = urkel_iter_next(it, k, v, &n); CK(M_ITER, !again && urkel_errno == URKEL_EITEREND, "iteration restarts after its end"); }
  urkel_iter_destroy(it);
}
static void sweep(urkel_tx_t *tx, const map_t *m, unsigned mode) {
  for (size_t i = 0; i < m->n; i++) check_get(tx, m, m->e[i].k, mode);
  for (int i = 0; i < 6; i++) { unsigned char k[32]; gen_key(k, m); check_get(tx, m, k, mode); }
}
static void remember(void) {
  unsigned char r[32]; ref_root(&COM, r);
  for (int i = 0; i < NH; i++) if (!memcmp(H[i].root, r, 32)) return;
  if (NH < 64) { memcpy(H[NH].root, r, 32); map_copy(&H[NH].m, &COM); NH++; }
}
static void do_commit(void) {
  int r = urkel_tx_commit(TX); unsigned char a[32], b[32];
  CK(M_DISK | M_MAP, r, "commit fails, errno %d", urkel_errno);
  map_copy(&COM, &CUR); remember();
  urkel_root(DB, a); ref_root(&CUR, b);
  CK(M_ROOT | M_DISK, memcmp(a, b, 32) == 0, "root after commit differs from the documented construction");
}
static void do_insert(const unsigned char *k, const unsigned char *v, size_t n) {
  unsigned char *vc = malloc(n ? n : 1); if (n) memcpy(vc, v, n);
  size_t i; int had = map_find(&CUR, k, &i) && CUR.e[i].n == n && !memcmp(CUR.e[i].v, v, n);
  urkel_errno = 0;
  int r = urkel_tx_insert(TX, k, vc, n);
  free(vc);
  CK(M_MAP | M_API, r, "insert fails, errno %d", urkel_errno);
  (void)had;
  map_put(&CUR, k, v, n);
}
static void do_remove(const unsigned char *k) {
  urkel_errno = 0;
  int want = map_find(&CUR, k, NULL), r = urkel_tx_remove(TX, k);
  CK(M_MAP | M_API, r == want, "remove returns %d, the map says %d", r, want);
  if (!want) CK(M_API, urkel_errno == URKEL_ENOTFOUND, "remove of an absent key: errno %d", urkel_errno);
  map_del(&CUR, k);
}
static void reopen(void) {
  if (TX) urkel_tx_destroy(TX);
  urkel_close(DB); DB = urkel_open(DIR);
  CK(M_DISK | M_HIST, DB != NULL, "the database does not reopen");
  if (!DB) exit(finish());
  unsigned char a[32], b[32]; urkel_root(DB, a); ref_root(&COM, b);
  CK(M_DISK | M_ROOT, memcmp(a, b, 32) == 0, "root after reopening is not the committed one");
  TX = urkel_tx_create(DB, NULL); map_copy(&CUR, &COM); REVERTED = 0;
  CK(M_DISK, TX != NULL, "no transaction after reopening"); if (!TX) exit(finish());
  sweep(TX, &CUR, M_DISK | M_MAP);
}
static void history(int ops, int chain) {
  snprintf(DIR, sizeof DIR, "%s/db", WORK); rmrf(DIR); NH = 0; CUR.n = COM.n = 0; REVERTED = 0; TX = NULL;
  DB = urkel_open(DIR); CK(M_MAP | M_DISK | M_API, DB != NULL, "open fails, errno %d", urkel_errno); if (!DB) exit(finish());
  TX = urkel_tx_create(DB, NULL);
  unsigned char k[32], v[1024]; size_t n;
  remember();
  keys_init();
  if (chain) for (int i = 0; i < chain; i++) { unsigned b = chain >= 256 ? i : 255 - i; memcpy(k, BASE[0], 32); k[b / 8] ^= 0x80 >> (b % 8); n = gen_val(v); if (chain > 100) n %= 20; do_insert(k, v, n); }
  if (chain) { memcpy(k, BASE[0], 32); n = gen_val(v); do_insert(k, v, n); sweep(TX, &CUR, M_MAP); check_root(TX, &CUR); check_proof(TX, &CUR, k); check_iter(TX, &CUR); do_commit(); check_iter(TX, &CUR); check_proof(TX, &CUR, k); }
  for (int o = 0; o < ops; o++) {
    unsigned c = rn(100);
    if (c < 40) { gen_key(k, &CUR); n = gen_val(v); if (rn(2) == 0) { size_t i; if (map_find(&CUR, k, &i)) { /* the same value, or one close to it */
      n = CUR.e[i].n; memcpy(v, CUR.e[i].v, n);
      switch (rn(6)) { case 0: if (n) v[rn(n)] ^= 1 << rn(8); break; case 1: if (n) v[n - 1] ^= 1; break; case 2: if (n) v[0] ^= 128; break; case 3: if (n) n--; break; case 4: if (n < 1023) v[n++] = rnd(); break; } } }
      do_insert(k, v, n); check_get(TX, &CUR, k, M_MAP); }
    else if (c < 62) { gen_key(k, &CUR); do_remove(k); check_get(TX, &CUR, k, M_MAP); }
    else if (c < 66) { sweep(TX, &CUR, M_MAP); check_root(TX, &CUR); }
    else if (c < 74) { gen_key(k, &CUR); check_proof(TX, &CUR, k); }
    else if (c < 78) { if ((MODE & M_FORGE) && !rn(2)) { unsigned char r[32], k2[32]; ref_root(&CUR, r); gen_key(k, &CUR); gen_key(k2, &CUR); forge_walk(&CUR, r, k, k); forge_walk(&CUR, r, k, k2); } else check_root(TX, &CUR); }
    else if (c < 82) check_iter(TX, &CUR);
    else if (c < 88) { if (!REVERTED) { do_commit(); if (rn(2)) sweep(TX, &CUR, M_DISK | M_MAP); } }
    else if (c < 90) reopen();
    else if (c < 93) {
      int h = rn(NH); urkel_tx_t *t = urkel_tx_create(DB, H[h].root);
      CK(M_HIST, t != NULL, "a committed root is not found");
      if (t) { sweep(t, &H[h].m, M_HIST); check_root(t, &H[h].m);
        if (rn(2)) { int g = rn(NH); int r = urkel_tx_inject(t, H[g].root); CK(M_HIST, r, "inject of a committed root fails"); if (r) sweep(t, &H[g].m, M_HIST); 
          unsigned char bad[32]; memcpy(bad, H[g].root, 32); bad[rn(32)] ^= 1 << rn(8); urkel_errno = 0; r = urkel_tx_inject(t, bad);
          int known = 0; for (int i = 0; i < NH; i++) known |= !memcmp(H[i].root, bad, 32);
          if (!known) { CK(M_HIST | M_API, !r && urkel_errno == URKEL_ENOTFOUND, "an unknown root is accepted"); sweep(t, &H[g].m, M_HIST); } }
        sweep(TX, &CUR, M_HIST);
        urkel_tx_destroy(t); } }
    else if (c < 96) { urkel_tx_clear(TX);
      if (REVERTED) { for (int i = 0; i < NH; i++) if (!memcmp(H[i].root, REVERT, 32)) map_copy(&CUR, &H[i].m); } else map_copy(&CUR, &COM);
      sweep(TX, &CUR, M_HIST | M_MAP); check_root(TX, &CUR); }
    else if (c < 98) { int h = rn(NH); int r = urkel_inject(DB, H[h].root); CK(M_HIST, r, "inject of a committed root into the tree fails");
      if (r) { REVERTED = 1; memcpy(REVERT, H[h].root, 32); unsigned char a[32]; urkel_root(DB, a); CK(M_HIST, !memcmp(a, REVERT, 32), "the tree's root is not the injected one");
        sweep(TX, &CUR, M_HIST); urkel_tx_t *t = urkel_tx_create(DB, NULL); CK(M_HIST, t != NULL, "no transaction on an injected root"); if (t) { sweep(t, &H[h].m, M_HIST); urkel_tx_destroy(t); }
        unsigned char lr[32]; ref_root(&COM, lr); r = urkel_inject(DB, lr); CK(M_HIST, r, "inject of the latest root fails"); if (!memcmp(lr, lr, 32)) { memcpy(REVERT, lr, 32); }
        reopen(); } }
    else { unsigned char *p = NULL; size_t pn = 9; unsigned char bad[32]; int ex; memset(bad, 0x77, 32); n = 55; urkel_errno = 0;
      CK(M_API, !urkel_get(DB, v, &n, BASE[3], bad) && urkel_errno == URKEL_ENOTFOUND && n == 0, "get with an unknown root");
      urkel_errno = 0; CK(M_API, !urkel_has(DB, BASE[3], bad) && urkel_errno == URKEL_ENOTFOUND, "has with an unknown root");
      CK(M_API, !urkel_prove(DB, &p, &pn, BASE[3], bad) && p == NULL && pn == 0, "prove with an unknown root");
      CK(M_API, urkel_iterate(DB, bad) == NULL && urkel_errno == URKEL_ENOTFOUND, "iterate with an unknown root");
      CK(M_API | M_HIST, !urkel_inject(DB, bad) && urkel_errno == URKEL_ENOTFOUND, "inject of an unknown root");
      static unsigned char big[5000]; urkel_errno = 0; CK(M_API, !urkel_tx_insert(TX, BASE[3], big, 1024) && urkel_errno == URKEL_EINVAL, "an oversized value is accepted");
      CK(M_API, !urkel_tx_insert(TX, BASE[3], big, (size_t)1 << 32), "an oversized value is accepted");
      n = 3; ex = 4; CK(M_API, !urkel_verify(&ex, v, &n, big, 3, BASE[3], NULL) && urkel_errno == URKEL_EINVAL && ex == 0 && n == 0, "verify without a root");
      urkel_iter_t *it = urkel_iterate(DB, NULL); CK(M_API, it != NULL, "iterate fails"); if (it) urkel_iter_destroy(it);
      sweep(TX, &CUR, M_API | M_MAP); }
  }
  if (MODE & (M_FORGE | M_PROOF)) oversize();
  sweep(TX, &CUR, M_MAP); check_root(TX, &CUR); check_iter(TX, &CUR);
  while (CUR.n) do_remove(CUR.e[rn(CUR.n)].k);
  check_root(TX, &CUR); do_commit(); reopen();
  urkel_tx_destroy(TX); urkel_close(DB);
  CK(M_API, urkel_destroy(DIR), "destroy fails, errno %d", urkel_errno);
  CK(M_API, access(DIR, F_OK) != 0, "destroy leaves the directory");
  for (int i = 0; i < NH; i++) { free(H[i].m.e); H[i].m.e = NULL; H[i].m.cap = 0; }
  free(CUR.e); free(COM.e); memset(&CUR, 0, sizeof CUR); memset(&COM, 0, sizeof COM);
}
int main(int argc, char **argv) {
  start(argc, argv);
  for (int r = 0; r < REPS; r++) {
    history(220, 0);
    history(120, CHAIN);
    if (r == 0) history(25, 256);
    history(400, 0);
  }
  return finish();
}
