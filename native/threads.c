/* threads.c - several threads on one tree and one transaction, under the thread sanitizer. */
#include "common.h"
#include <pthread.h>
#include <signal.h>
static urkel_t *DB; static urkel_tx_t *TX; static char DIR[600]; static int OPS; static unsigned char ROOT0[32];
static __thread uint64_t S; static unsigned r_(unsigned n) { S = S * 6364136223846793005ull + 1442695040888963407ull; return (S >> 33) % n; }
static void key(unsigned char *k, unsigned i) { memset(k, 0, 32); k[0] = i * 37; k[1] = i; k[31] = i; }
static void bad(const char *m) { printf("CASES 1\nFAIL %s\n", m); fflush(stdout); _exit(1); }
static void *work(void *a) {
  int id = (int)(intptr_t)a; unsigned char k[32], v[1024], w[1024], root[32]; size_t n; S = RNG + id * 77; memset(w, id, sizeof w);
  for (int o = 0; o < OPS; o++) {
    unsigned i = r_(24); key(k, i); n = 0;
    switch (r_(id < 2 ? 16 : 10)) {
      case 0: if (urkel_get(DB, v, &n, k, NULL)) { if (n == 0 || n > 100) bad("get gives a size nobody wrote"); for (size_t j = 1; j < n; j++) if (v[j] != v[0]) bad("get gives a mixture of two values"); } break;
      case 1: urkel_root(DB, root); urkel_has(DB, k, r_(2) ? root : NULL); break;
      case 2: { unsigned char *p; int ex; urkel_root(DB, root); if (urkel_prove(DB, &p, &n, k, root)) { size_t vn; if (!urkel_verify(&ex, v, &vn, p, n, k, root)) bad("a proof of a snapshot does not verify"); urkel_free(p); } else bad("prove of a committed root fails"); break; }
      case 3: { urkel_iter_t *it = urkel_iterate(DB, r_(2) ? NULL : ROOT0); unsigned char q[32]; int c = 0, first = 1; if (!it) bad("iterate fails"); while (urkel_iter_next(it, v, w + 512, &n)) { if (!first && memcmp(q, v, 32) >= 0) bad("iteration out of order"); memcpy(q, v, 32); first = 0; c++; } urkel_iter_destroy(it); memset(w, id, sizeof w); break; }
      case 4: urkel_tx_get(TX, v, &n, k); break;
      case 5: { urkel_tx_root(TX, root); urkel_tx_has(TX, k); break; }
      case 6: if (urkel_tx_insert(TX, k, w, 1 + r_(99))) {} break;
      case 7: urkel_tx_remove(TX, k); break;
      case 8: { urkel_tx_t *t = urkel_tx_create(DB, r_(2) ? ROOT0 : NULL); if (!t) bad("transaction fails"); urkel_tx_get(t, v, &n, k); if (r_(2)) urkel_tx_insert(t, k, w, 3); if (r_(2)) urkel_tx_clear(t); if (r_(2)) urkel_tx_inject(t, ROOT0); urkel_tx_destroy(t); break; }
      case 9: { unsigned char *p; if (urkel_tx_prove(TX, &p, &n, k)) urkel_free(p); break; }
      case 10: case 11: if (!urkel_insert(DB, k, w, 1 + r_(99))) bad("insert fails"); break;
      case 12: urkel_remove(DB, k); break;
      case 13: if (!urkel_tx_commit(TX)) bad("commit fails"); break;
      case 14: urkel_tx_clear(TX); break;
      case 15: { urkel_iter_t *it = urkel_iter_create(TX); if (it) { for (int j = 0; j < 3; j++) urkel_iter_next(it, v, NULL, NULL); urkel_iter_destroy(it); } break; }
    }
  }
  return NULL;
}
int main(int argc, char **argv) {
  start(argc, argv); signal(SIGALRM, SIG_DFL); alarm(100); OPS = 250;
  for (int r = 0; r < REPS; r++) {
    pthread_t t[5]; unsigned char k[32];
    snprintf(DIR, sizeof DIR, "%s/db%d", WORK, r); rmrf(DIR); DB = urkel_open(DIR); if (!DB) bad("open fails");
    for (int i = 0; i < 24; i += 2) { key(k, i); if (!urkel_insert(DB, k, (unsigned char *)"aaaaa", 1 + i % 5)) bad("insert fails"); }
    urkel_root(DB, ROOT0); TX = urkel_tx_create(DB, NULL);
    for (int i = 0; i < 5; i++) pthread_create(&t[i], NULL, work, (void *)(intptr_t)i);
    for (int i = 0; i < 5; i++) pthread_join(t[i], NULL);
    CASES += 5 * OPS; urkel_tx_destroy(TX); urkel_close(DB); rmrf(DIR); RNG += 13;
  }
  return finish();
}
