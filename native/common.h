/* common.h - reference model for the native replay programs: its own
 * BLAKE2b, its own Merkle root, its own map. */
#ifndef VF_NATIVE_H
#define VF_NATIVE_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <urkel.h>

#ifdef TRACK
/* every allocation of the library is recorded until it is freed */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static void *TP[1 << 16]; static long LIVE; static int OWN; /* OWN: the program's own allocations */
static unsigned th_(void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) & 0xffff; }
static void tadd(void *p) { if (!p || OWN) return; unsigned i = th_(p); while (TP[i] && TP[i] != (void *)1) i = (i + 1) & 0xffff; TP[i] = p; LIVE++; }
static void tdel(void *p) { if (!p) return; unsigned i = th_(p), n = 0; while (TP[i] && n++ < 0xffff) { if (TP[i] == p) { TP[i] = (void *)1; LIVE--; return; } i = (i + 1) & 0xffff; } }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); tadd(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); tadd(p); return p; }
void *__wrap_realloc(void *o, size_t n) { void *p; tdel(o); p = __real_realloc(o, n); tadd(p); return p; }
void __wrap_free(void *p) { tdel(p); __real_free(p); }
#define malloc __real_malloc
#define realloc __real_realloc
#define calloc __real_calloc
#endif

static uint64_t RNG; static long CASES; static const char *WORK; static int REPS;
static uint64_t rnd(void) { uint64_t z = (RNG += 0x9e3779b97f4a7c15ull); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; }
static unsigned rn(unsigned n) { return n ? (unsigned)(rnd() % n) : 0; }
static void fail_(const char *f, int l, const char *m) { printf("CASES %ld\nFAIL %s (%s:%d)\n", CASES, m, f, l); fflush(stdout); _exit(1); }
#define FAILX(...) do { char b_[400]; snprintf(b_, sizeof b_, __VA_ARGS__); fail_(__FILE__, __LINE__, b_); } while (0)
#ifndef MODE
#define MODE (~0u)
#endif
#define CK(mode, c, ...) do { CASES++; if (!(c) && ((mode) & MODE)) FAILX(__VA_ARGS__); } while (0)
static void start(int argc, char **argv) {
  RNG = argc > 1 ? strtoull(argv[1], 0, 10) * 7919 : 1; REPS = argc > 2 ? atoi(argv[2]) : 1; WORK = argc > 3 ? argv[3] : ".";
  setvbuf(stdout, NULL, _IOLBF, 0);
}
static int finish(void) {
#ifdef TRACK
  if (LIVE) FAILX("%ld allocations of the library are never freed", LIVE);
#endif
  printf("CASES %ld\n", CASES); return 0; }

/* --- BLAKE2b after RFC 7693 -------------------------------------------- */
typedef struct { uint64_t h[8]; unsigned char b[128]; size_t c; uint64_t t; size_t outlen; } rb2;
static const uint64_t RIV[8] = {0x6A09E667F3BCC908ull,0xBB67AE8584CAA73Bull,0x3C6EF372FE94F82Bull,0xA54FF53A5F1D36F1ull,0x510E527FADE682D1ull,0x9B05688C2B3E6C1Full,0x1F83D9ABFB41BD6Bull,0x5BE0CD19137E2179ull};
static const unsigned char RSG[12][16] = {
{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3}};
static uint64_t rror(uint64_t x, int n) { return x >> n | x << (64 - n); }
static void rcomp(rb2 *s, int last) {
  uint64_t v[16], m[16]; int i, j;
  for (i = 0; i < 8; i++) { v[i] = s->h[i]; v[i + 8] = RIV[i]; }
  v[12] ^= s->t; if (last) v[14] = ~v[14];
  for (i = 0; i < 16; i++) { m[i] = 0; for (j = 7; j >= 0; j--) m[i] = m[i] << 8 | s->b[i * 8 + j]; }
#define RG(a,b,c,d,x,y) v[a]+=v[b]+(x);v[d]=rror(v[d]^v[a],32);v[c]+=v[d];v[b]=rror(v[b]^v[c],24);v[a]+=v[b]+(y);v[d]=rror(v[d]^v[a],16);v[c]+=v[d];v[b]=rror(v[b]^v[c],63);
  for (i = 0; i < 12; i++) { const unsigned char *g = RSG[i];
    RG(0,4,8,12,m[g[0]],m[g[1]]) RG(1,5,9,13,m[g[2]],m[g[3]]) RG(2,6,10,14,m[g[4]],m[g[5]]) RG(3,7,11,15,m[g[6]],m[g[7]])
    RG(0,5,10,15,m[g[8]],m[g[9]]) RG(1,6,11,12,m[g[10]],m[g[11]]) RG(2,7,8,13,m[g[12]],m[g[13]]) RG(3,4,9,14,m[g[14]],m[g[15]]) }
  for (i = 0; i < 8; i++) s->h[i] ^= v[i] ^ v[i + 8];
}
static void rup(rb2 *s, const void *p, size_t n) {
  const unsigned char *q = p;
  while (n--) { if (s->c == 128) { s->t += 128; rcomp(s, 0); s->c = 0; } s->b[s->c++] = *q++; }
}
static void rinit(rb2 *s, size_t outlen, const void *key, size_t kl) {
  memset(s, 0, sizeof *s); memcpy(s->h, RIV, 64); s->h[0] ^= 0x01010000 ^ (kl << 8) ^ outlen; s->outlen = outlen;
  if (kl) { unsigned char z[128] = {0}; memcpy(z, key, kl); rup(s, z, 128); }
}
static void rfin(rb2 *s, unsigned char *out) {
  size_t i; s->t += s->c; memset(s->b + s->c, 0, 128 - s->c); rcomp(s, 1);
  for (i = 0; i < s->outlen; i++) out[i] = s->h[i / 8] >> 8 * (i % 8);
}

/* --- the map ------------------------------------------------------------ */
typedef struct { unsigned char k[32]; unsigned char v[1024]; size_t n; } kv_t;
typedef struct { kv_t *e; size_t n, cap; } map_t;
static int map_find(const map_t *m, const unsigned char *k, size_t *at) {
  size_t lo = 0, hi = m->n;
  while (lo < hi) { size_t mid = (lo + hi) / 2; if (memcmp(m->e[mid].k, k, 32) < 0) lo = mid + 1; else hi = mid; }
  if (at) *at = lo;
  return lo < m->n && memcmp(m->e[lo].k, k, 32) == 0;
}
static void map_put(map_t *m, const unsigned char *k, const unsigned char *v, size_t n) {
  size_t i;
  if (!map_find(m, k, &i)) {
    if (m->n == m->cap) { m->cap = m->cap ? m->cap * 2 : 64; m->e = realloc(m->e, m->cap * sizeof(kv_t)); }
    memmove(m->e + i + 1, m->e + i, (m->n - i) * sizeof(kv_t)); m->n++;
    memcpy(m->e[i].k, k, 32);
  }
  if (n) memcpy(m->e[i].v, v, n); m->e[i].n = n;
}
static void map_del(map_t *m, const unsigned char *k) {
  size_t i;
  if (map_find(m, k, &i)) { memmove(m->e + i, m->e + i + 1, (m->n - i - 1) * sizeof(kv_t)); m->n--; }
}
static void map_copy(map_t *d, const map_t *s) { free(d->e); d->n = d->cap = s->n; d->e = malloc((s->n + 1) * sizeof(kv_t)); if (s->n) memcpy(d->e, s->e, s->n * sizeof(kv_t)); }
static unsigned kbit(const unsigned char *k, unsigned i) { return k[i / 8] >> (7 - i % 8) & 1; }

/* --- the documented Merkle construction --------------------------------- */
static void ref_vhash(const kv_t *e, unsigned char *out) { rb2 s; rinit(&s, 32, 0, 0); rup(&s, e->v, e->n); rfin(&s, out); }
static void ref_leaf(const unsigned char *k, const unsigned char *vh, unsigned char *out) { rb2 s; rinit(&s, 32, 0, 0); rup(&s, "\0", 1); rup(&s, k, 32); rup(&s, vh, 32); rfin(&s, out); }
static void ref_bits(const unsigned char *k, unsigned d, unsigned n, unsigned char *out) {
  memset(out, 0, 32); for (unsigned i = 0; i < n; i++) if (kbit(k, d + i)) out[i / 8] |= 0x80 >> (i % 8);
}
static void ref_int(unsigned n, const unsigned char *bits, const unsigned char *l, const unsigned char *r, unsigned char *out) {
  rb2 s; rinit(&s, 32, 0, 0);
  if (n == 0) rup(&s, "\1", 1);
  else { unsigned char z[2] = {n & 255, n >> 8}; rup(&s, "\2", 1); rup(&s, z, 2); rup(&s, bits, (n + 7) / 8); }
  rup(&s, l, 32); rup(&s, r, 32); rfin(&s, out);
}
/* sub-tree of entries [lo,hi) which share their first d bits */
static unsigned ref_run(const map_t *m, size_t lo, size_t hi, unsigned d) {
  unsigned n = 0; const unsigned char *a = m->e[lo].k, *b = m->e[hi - 1].k;
  while (d + n < 256 && kbit(a, d + n) == kbit(b, d + n)) n++;
  return n;
}
static size_t ref_mid(const map_t *m, size_t lo, size_t hi, unsigned d) { size_t i = lo; while (i < hi && !kbit(m->e[i].k, d)) i++; return i; }
static void ref_hash(const map_t *m, size_t lo, size_t hi, unsigned d, unsigned char *out) {
  unsigned char l[32], r[32], b[32];
  if (lo == hi) { memset(out, 0, 32); return; }
  if (hi - lo == 1) { ref_vhash(&m->e[lo], l); ref_leaf(m->e[lo].k, l, out); return; }
  unsigned n = ref_run(m, lo, hi, d); size_t mid = ref_mid(m, lo, hi, d + n);
  ref_bits(m->e[lo].k, d, n, b);
  ref_hash(m, lo, mid, d + n + 1, l); ref_hash(m, mid, hi, d + n + 1, r);
  ref_int(n, b, l, r, out);
}
static void ref_root(const map_t *m, unsigned char *out) { ref_hash(m, 0, m->n, 0, out); }

/* --- inputs ------------------------------------------------------------- */
static unsigned char BASE[4][32];
static void keys_init(void) { for (int i = 0; i < 4; i++) for (int j = 0; j < 32; j++) BASE[i][j] = i == 1 ? 0 : i == 2 ? 255 : rnd(); }
static void gen_key(unsigned char *k, const map_t *m) {
  static const unsigned char pos[] = {0,1,6,7,8,9,15,16,31,32,63,64,119,120,126,127,128,129,136,191,192,247,248,249,253,254,255};
  unsigned c = rn(12);
  if (c < 3 && m && m->n) { memcpy(k, m->e[rn(m->n)].k, 32); return; }   /* a present key */
  if (c < 8 && m && m->n) memcpy(k, m->e[rn(m->n)].k, 32);               /* near a present key */
  else if (c == 11) { for (int j = 0; j < 32; j++) k[j] = rnd(); return; }
  else memcpy(k, BASE[rn(4)], 32);
  unsigned f = 1 + rn(2);
  while (f--) { unsigned p = rn(3) ? pos[rn(sizeof pos)] : rn(256); k[p / 8] ^= 0x80 >> (p % 8); }
}
static size_t gen_val(unsigned char *v) {
  static const unsigned short sz[] = {0,1,2,31,32,33,127,128,129,254,255,256,257,300,511,512,513,1000,1022,1023};
  size_t n = rn(2) ? sz[rn(sizeof sz / sizeof *sz)] : rn(1024);
  unsigned char a = rnd();
  for (size_t i = 0; i < n; i++) v[i] = a + i * 37 + (i >> 3);
  if (n) v[rn(n)] = rnd();
  return n;
}
static void rmrf(const char *dir) { char c[600]; snprintf(c, sizeof c, "rm -rf '%s'", dir); if (system(c)) {} }
#endif
