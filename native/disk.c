/* disk.c - what is in the files: crashes, failing and short transfers, roll
 * over, open handles. Histories against the reference model. */
#include <sys/stat.h>
#include "common.h"
#include "wrapio.h"
#include "io.h"
#include "util.h"
#define D_LAYOUT 1u
#define D_CRASH 2u
#define D_FAULT 4u
#define D_SHORT 8u
#define D_HANDLE 16u
#define D_DESTROY 32u
#define D_UNIT 64u
#define D_PATH 128u
#define D_SYNC 256u /* built with URKEL_FSYNC */
#ifndef MAXFILE
#define MAXFILE 0x7ffff000
#endif
#ifndef MAXOPEN
#define MAXOPEN 32
#endif
static char DIR_[600], DIR2[600];
static urkel_t *DB; static urkel_tx_t *TX; static map_t CUR, COM;
typedef struct { unsigned file; long size; unsigned char root[32]; map_t m; } cp_t;
static cp_t CP[80]; static int NCP;

static void fname(char *o, const char *dir, unsigned i) { snprintf(o, 700, "%s/%010u", dir, i); }
static long fsz(const char *dir, unsigned i) { char f[700]; struct stat s; fname(f, dir, i); return stat(f, &s) ? -1 : (long)s.st_size; }
static unsigned lastf(const char *dir) { unsigned i = 0; while (fsz(dir, i + 1) >= 0) i++; return i; }
static void cpdir(void) { char c[1400]; rmrf(DIR2); snprintf(c, sizeof c, "cp -r '%s' '%s'", DIR_, DIR2); if (system(c)) FAILX("cp"); }
static unsigned char *slurp(const char *dir, unsigned i, long *n) { char f[700]; fname(f, dir, i); *n = fsz(dir, i); if (*n < 0) return NULL; unsigned char *b = malloc(*n + 1); FILE *p = fopen(f, "rb"); if (fread(b, 1, *n, p) != (size_t)*n) FAILX("read"); fclose(p); return b; }

static int get_is(urkel_tx_t *tx, const map_t *m, const unsigned char *k) { /* 1 right, 0 wrong, 2 storage failure */
  unsigned char v[1024]; size_t n = 77, i; urkel_errno = 0;
  int r = urkel_tx_get(tx, v, &n, k), w = map_find(m, k, &i);
  if (!r) return urkel_errno == URKEL_ENOTFOUND ? !w : 2;
  return w && n == m->e[i].n && !memcmp(v, m->e[i].v, n);
}
static void check_map(urkel_tx_t *tx, const map_t *m, unsigned mode, const char *what) {
  unsigned char a[32], b[32], k[32];
  for (size_t i = 0; i < m->n; i++) CK(mode, get_is(tx, m, m->e[i].k) == 1, "%s: a committed pair is not read back (errno %d)", what, urkel_errno);
  for (int i = 0; i < 4; i++) { gen_key(k, m); CK(mode, get_is(tx, m, k) == 1, "%s: a lookup is wrong (errno %d)", what, urkel_errno); }
  urkel_tx_root(tx, a); ref_root(m, b); CK(mode, !memcmp(a, b, 32), "%s: wrong root", what);
}
static void check_db(urkel_t *db, const map_t *m, unsigned mode, const char *what) {
  unsigned char a[32], b[32]; urkel_tx_t *t = urkel_tx_create(db, NULL);
  urkel_root(db, a); ref_root(m, b); CK(mode, !memcmp(a, b, 32), "%s: the database has another root", what);
  CK(mode, t != NULL, "%s: no transaction", what); if (!t) exit(finish());
  check_map(t, m, mode, what); urkel_tx_destroy(t);
}
static void mutate(int n) {
  unsigned char k[32], v[1024]; size_t l;
  while (n--) { gen_key(k, &CUR); if (rn(4)) { l = gen_val(v); CK(~0u, urkel_tx_insert(TX, k, v, l), "insert fails"); map_put(&CUR, k, v, l); }
    else { int w = map_find(&CUR, k, NULL); CK(~0u, urkel_tx_remove(TX, k) == w, "remove is wrong"); map_del(&CUR, k); } }
}
static void handles(unsigned mode, int bounded) {
  /* which data files are open (descriptor or mapping), how often */
  char line[900], want[700]; int cnt[2000] = {0}, open_ = 0, dup = 0; unsigned big = 0;
  snprintf(want, sizeof want, "%s/0", DIR_);
  FILE *f = fopen("/proc/self/maps", "r");
  while (fgets(line, sizeof line, f)) { char *p = strstr(line, want); if (p) { unsigned i = strtoul(p + strlen(DIR_) + 1, 0, 10); if (i < 2000) { cnt[i]++; if (i > big) big = i; } } }
  fclose(f);
  for (int i = 0; i < 2000; i++) { open_ += cnt[i] > 0; dup += cnt[i] > 1; }
  CK(mode, !dup, "a data file is mapped twice");
  if (bounded) CK(mode, open_ <= MAXOPEN, "%d data files are open after a commit", open_);
  int fds = 0, fc[2000] = {0}; char l[900], fn[64]; DIR *d = opendir("/proc/self/fd"); struct dirent *e;
  while ((e = __real_readdir(d))) { snprintf(fn, sizeof fn, "/proc/self/fd/%.20s", e->d_name); int n = readlink(fn, l, sizeof l - 1); if (n < 0) continue; l[n] = 0;
    if (!strncmp(l, want, strlen(want))) { unsigned i = strtoul(l + strlen(DIR_) + 1, 0, 10); if (i < 2000 && ++fc[i] > 1) dup = 1; fds++; } }
  closedir(d);
  CK(mode, !dup, "a data file is open twice"); if (bounded) CK(mode, fds <= MAXOPEN, "%d descriptors of data files are open", fds);
}
static void no_handles(unsigned mode) {
  char line[900], want[700]; int n = 0; snprintf(want, sizeof want, "%s/", DIR_);
  FILE *f = fopen("/proc/self/maps", "r"); while (fgets(line, sizeof line, f)) n += strstr(line, want) != NULL; fclose(f);
  char l[900], fn[64]; DIR *d = opendir("/proc/self/fd"); struct dirent *e;
  while ((e = __real_readdir(d))) { snprintf(fn, sizeof fn, "/proc/self/fd/%.20s", e->d_name); int k = readlink(fn, l, sizeof l - 1); if (k < 0) continue; l[k] = 0; n += !strncmp(l, want, strlen(want)); }
  closedir(d); CK(mode, n == 0, "%d handles are still open after the database was closed", n);
}
static unsigned char *SNAP[2000]; static long SNAPN[2000]; static unsigned NSNAP;
static void snap_free(void) { for (unsigned i = 1; i <= NSNAP; i++) free(SNAP[i]); NSNAP = 0; }
static void layout(unsigned mode) {
  /* nothing written is altered, files within their limit, data only appended */
  unsigned n = lastf(DIR_);
  for (unsigned i = 1; i <= n && i < 2000; i++) {
    long z = fsz(DIR_, i); CK(mode, z <= MAXFILE, "file %u has %ld bytes", i, z);
    if (i <= NSNAP) { unsigned char *b = slurp(DIR_, i, &z); CK(mode, z >= SNAPN[i] && !memcmp(b, SNAP[i], SNAPN[i]), "bytes already written to file %u are altered", i);
      CK(mode, i == NSNAP || z == SNAPN[i], "an older file grows"); free(b); }
  }
  CK(mode, n >= NSNAP, "a data file vanishes");
  snap_free(); for (unsigned i = 1; i <= n && i < 2000; i++) SNAP[i] = slurp(DIR_, i, &SNAPN[i]);
  NSNAP = n < 2000 ? n : 1999;
}
static void checkpoint(void) {
  if (NCP == 80) return;
  cp_t *c = &CP[NCP++]; c->file = lastf(DIR_); c->size = fsz(DIR_, c->file); ref_root(&COM, c->root); memset(&c->m, 0, sizeof c->m); map_copy(&c->m, &COM);
}
static void synced(const char *what) { CK(D_SYNC, W_NDIRTY == 0, "%s: the commit reports success, but data file %s was written after its last successful sync", what, W_DIRTY[0]); W_NDIRTY = 0; }
static void begin(void) {
  W_TRACK = (MODE & D_SYNC) != 0; W_NDIRTY = 0;
  snprintf(DIR_, sizeof DIR_, "%s/db", WORK); snprintf(DIR2, sizeof DIR2, "%s/cp", WORK); rmrf(DIR_); CUR.n = COM.n = 0; snap_free();
  for (int i = 0; i < NCP; i++) free(CP[i].m.e); NCP = 0; keys_init();
  DB = urkel_open(DIR_); if (!DB) FAILX("open fails, errno %d", urkel_errno); TX = urkel_tx_create(DB, NULL);
}
static void end(void) { urkel_tx_destroy(TX); urkel_close(DB); no_handles(D_HANDLE); rmrf(DIR_); rmrf(DIR2); }
static void commit_ok(unsigned mode, const char *what) {
  int r = urkel_tx_commit(TX); CK(mode, r, "%s: commit fails, errno %d", what, urkel_errno); map_copy(&COM, &CUR); if (r) synced(what);
}
static void build_history(int commits, int size) {
  begin();
  for (int c = 0; c < commits; c++) {
    mutate(1 + rn(size)); commit_ok(D_LAYOUT | D_SHORT, "history"); handles(D_HANDLE, 1); layout(D_LAYOUT); check_map(TX, &CUR, D_LAYOUT | D_SHORT, "after a commit"); checkpoint();
    if (rn(3) == 0) { urkel_tx_t *t = urkel_tx_create(DB, CP[rn(NCP)].root); CK(D_LAYOUT, t != NULL, "an earlier root is gone"); if (t) urkel_tx_destroy(t); handles(D_HANDLE, 0); }
    if (rn(4) == 0) { urkel_tx_destroy(TX); urkel_close(DB); no_handles(D_HANDLE); DB = urkel_open(DIR_); CK(D_LAYOUT | D_SHORT, DB != NULL, "does not reopen"); if (!DB) exit(finish()); layout(D_LAYOUT); TX = urkel_tx_create(DB, NULL); check_map(TX, &COM, D_LAYOUT | D_SHORT, "after reopening"); }
  }
}
/* a crash: the tail is cut off somewhere, garbage may follow */
static void crash(void) {
  build_history(10 + rn(8), 12);
  unsigned nf = lastf(DIR_);
  for (int t = 0; t < 14; t++) {
    cpdir(); unsigned f = nf - (rn(3) ? 0 : rn(nf)); long z = fsz(DIR_, f), p = rn(z + 1); char fn[700];
    int b = rn(NCP); if (rn(2)) { f = CP[b].file; p = CP[b].size - (rn(2) ? rn(40) : 0); if (rn(8) == 0) p = CP[b].size; if (p < 0) p = 0; }
    for (unsigned i = f + 1; i <= nf; i++) { fname(fn, DIR2, i); if (__real_unlink(fn)) FAILX("unlink"); }
    fname(fn, DIR2, f); if (truncate(fn, p)) FAILX("truncate");
    int want = -1; for (int i = 0; i < NCP; i++) if (CP[i].file < f || (CP[i].file == f && CP[i].size <= p)) want = i;
    unsigned g = rn(4); 
    if (g) { /* garbage after the cut; kind 2: a torn record with the right start */
      int fd = __real_open(fn, O_WRONLY | O_APPEND); unsigned char gb[300]; size_t gn = 1 + rn(300); for (size_t i = 0; i < gn; i++) gb[i] = g == 3 ? 0 : rnd();
      if (g == 2) { size_t a = (38 - p % 38) % 38; memset(gb, 0, a); memcpy(gb + a, "\x6c\x6b\x72\x6d", 4); gn = a + 4 + rn(35); if (gn > a + 37) gn = a + 37; }
      if (__real_write(fd, gb, gn) < 0) FAILX("write"); close(fd); }
    W_NUNL = 0;
    long keep0 = fsz(DIR_, 1); (void)keep0;
    urkel_t *db = urkel_open(DIR2); CK(D_CRASH, db != NULL, "a database with a torn tail does not open, errno %d", urkel_errno); if (!db) exit(finish());
    map_t none = {0}; const map_t *m = want >= 0 ? &CP[want].m : &none;
    check_db(db, m, D_CRASH, "after a crash");
    unsigned lf = lastf(DIR2); long lz = fsz(DIR2, lf);
    if (want >= 0) CK(D_CRASH, lf == CP[want].file && lz == CP[want].size, "recovery leaves %u/%ld, the newest intact commit ends at %u/%ld", lf, lz, CP[want].file, CP[want].size);
    for (unsigned i = 1; i <= lf && want >= 0; i++) { long x, y; unsigned char *o = slurp(DIR_, i, &x), *n = slurp(DIR2, i, &y); CK(D_CRASH, y <= x && !memcmp(o, n, y) && (i == lf || x == y), "recovery alters older data in file %u", i); free(o); free(n); }
    /* goes on from there */
    urkel_tx_t *x = urkel_tx_create(db, NULL); map_t cur = {0}; map_copy(&cur, m); unsigned char k[32], v[1024];
    for (int i = 0; i < 6; i++) { gen_key(k, &cur); size_t n = gen_val(v); CK(D_CRASH, urkel_tx_insert(x, k, v, n), "insert after recovery"); map_put(&cur, k, v, n); }
    CK(D_CRASH, urkel_tx_commit(x), "commit after recovery fails"); check_map(x, &cur, D_CRASH, "after recovery and commit");
    urkel_tx_destroy(x); urkel_close(db); db = urkel_open(DIR2); CK(D_CRASH, db != NULL, "does not reopen after recovery"); if (!db) exit(finish());
    check_db(db, &cur, D_CRASH, "after recovery, commit and reopening");
    for (int i = 0; i <= want; i++) if (rn(2)) { urkel_tx_t *h = urkel_tx_create(db, CP[i].root); CK(D_CRASH, h != NULL, "an older committed root is lost by recovery"); if (h) { check_map(h, &CP[i].m, D_CRASH, "older root after recovery"); urkel_tx_destroy(h); } }
    urkel_close(db); free(cur.e); rmrf(DIR2);
  }
  /* a file that cannot be read is not deleted */
  urkel_tx_destroy(TX); urkel_close(DB);
  for (int t = 1; t < 12; t++) {
    W_KINDS = rn(2) ? K_READ : K_READ | K_OPEN | K_STAT | K_DIR | K_UNLINK; W_FAIL = t; W_N = W_HIT = 0; W_NUNL = 0;
    DB = urkel_open(DIR_); W_FAIL = 0; int hit = W_HIT;
    for (int i = 0; i < W_NUNL; i++) CK(D_CRASH, strstr(W_UNL[i], "/lock"), "opening deletes %s after a failing read", W_UNL[i]);
    CK(D_CRASH, DB || hit, "the database does not open although nothing failed");
    if (DB) { check_db(DB, &COM, D_CRASH, "opened although a call failed"); urkel_close(DB); }
    layout(D_CRASH);
  }
  DB = urkel_open(DIR_); CK(D_CRASH, DB != NULL, "does not open after failures"); if (!DB) exit(finish()); check_db(DB, &COM, D_CRASH, "after failed attempts to open it"); TX = urkel_tx_create(DB, NULL); end();
}
/* a call of the operating system fails during a commit */
static void fault(void) {
  build_history(3, 10);
  for (int t = 0; t < 40; t++) {
    map_t before = {0}; map_copy(&before, &COM); unsigned char root0[32], r1[32]; urkel_root(DB, root0);
    urkel_tx_t *other = urkel_tx_create(DB, NULL);
    mutate(1 + rn(t % 5 == 0 ? 40 : 12));
    static const unsigned kinds[] = {K_WRITE, K_WRITE, K_WRITE, K_OPEN, K_SYNC, K_MMAP, K_WRITE | K_OPEN | K_SYNC | K_STAT};
    int rounds = 1 + rn(3), last = 0;
    for (int q = 0; q < rounds; q++) {
      W_KINDS = kinds[rn(7)]; W_FAIL = 1 + rn(rn(3) ? 2 : 6); W_N = W_HIT = 0; W_KEEP = rn(3) ? 1 + rn(200) : 0;
      int r = urkel_tx_commit(TX); W_FAIL = 0; last = r;
      if (!W_HIT || W_HIT == K_MMAP) { if (!W_HIT) CK(D_FAULT, r, "commit fails although nothing failed, errno %d", urkel_errno); }
      else CK(D_FAULT | D_SYNC, !r || W_HIT == K_OPEN || W_HIT == K_STAT, "commit reports success although a %s failed", W_HIT == K_WRITE ? "write" : "sync");
      if (r) { synced("with a failing system call"); map_copy(&COM, &CUR); break; }
      urkel_root(DB, r1); CK(D_FAULT, !memcmp(r1, root0, 32), "a failed commit moves the root");
      check_db(DB, &before, D_FAULT, "after a failed commit"); check_map(other, &before, D_FAULT, "another transaction after a failed commit");
      for (size_t i = 0; i < CUR.n && i < 40; i++) CK(D_FAULT, get_is(TX, &CUR, CUR.e[i].k), "after a failed commit the transaction reads a wrong value");
      if (t % 7 == 3 && q == 0) { /* given up: the files still hold the old state */
        urkel_tx_destroy(TX); urkel_tx_destroy(other); urkel_close(DB); DB = urkel_open(DIR_); CK(D_FAULT, DB != NULL, "does not reopen after a failed commit"); if (!DB) exit(finish());
        check_db(DB, &before, D_FAULT, "reopened after a failed commit"); TX = urkel_tx_create(DB, NULL); other = urkel_tx_create(DB, NULL); map_copy(&CUR, &before); map_copy(&COM, &before); mutate(5); }
      else if (rn(2)) { /* goes on: a key that can still be reached is changed */
        unsigned char k[32], v[1024]; gen_key(k, &CUR); size_t n = gen_val(v); if (urkel_tx_insert(TX, k, v, n)) map_put(&CUR, k, v, n); }
    }
    if (!last) { int r = urkel_tx_commit(TX); CK(D_FAULT, r, "the retried commit fails, errno %d", urkel_errno); if (r) synced("retried"); map_copy(&COM, &CUR); }
    check_map(TX, &CUR, D_FAULT, "after the retried commit"); check_map(other, &before, D_FAULT, "another transaction after the retried commit");
    check_db(DB, &COM, D_FAULT, "after the retried commit");
    handles(D_FAULT | D_HANDLE, 0);
    urkel_tx_destroy(other); free(before.e);
    if (t % 4 == 0) { urkel_tx_destroy(TX); urkel_close(DB); DB = urkel_open(DIR_); CK(D_FAULT, DB != NULL, "does not reopen after a retried commit"); if (!DB) exit(finish()); check_db(DB, &COM, D_FAULT, "reopened after a retried commit"); TX = urkel_tx_create(DB, NULL); map_copy(&CUR, &COM); }
  }
  end();
}
static void shorts(void) { W_SHORT = 1; wz_ ^= rnd() | 1; build_history(8, 25); W_SHORT = 0; end(); }
/* the file layer itself against a model */
static void unit(void) {
  char f[700]; static unsigned char model[40000], buf[9000], out[9000]; size_t sz = 0;
  snprintf(f, sizeof f, "%s/unit", WORK); __real_unlink(f);
  W_SHORT = 1;
  urkel_file_t *p = urkel_file_open(f, URKEL_O_RDWR | URKEL_O_CREAT | URKEL_O_APPEND | (rn(2) ? URKEL_O_MMAP : 0), 0640); CK(D_UNIT, p != NULL, "file_open fails"); if (!p) return;
  for (int i = 0; i < 120; i++) {
    size_t n = rn(4) ? rn(500) : rn(9000);
    if (rn(2)) { if (sz + n > sizeof model) continue; for (size_t j = 0; j < n; j++) buf[j] = rnd();
      int bad = rn(5) == 0; if (bad) { W_KINDS = K_WRITE; W_FAIL = 1 + rn(3); W_N = W_HIT = 0; W_KEEP = rn(300); }
      int r = urkel_file_write(p, buf, n); W_FAIL = 0;
      if (bad && W_HIT) CK(D_UNIT, !r, "a failed write is reported as success"); else CK(D_UNIT, r, "an interrupted or split write is reported as failure");
      if (r) { memcpy(model + sz, buf, n); sz += n; }
      W_HIT = 0;
      CK(D_UNIT, p->size == sz, "the recorded size is %lu instead of %lu", (unsigned long)p->size, (unsigned long)sz);
      struct stat st; stat(f, &st); CK(D_UNIT, (size_t)st.st_size == sz, "the file has %ld bytes instead of %lu", (long)st.st_size, (unsigned long)sz);
    } else { size_t o = rn(4) ? rn(sz + 1) : sz > 100 ? sz - rn(100) : 0; memset(out, 0xee, sizeof out); if (rn(30) == 0) o = (size_t)-(1 + rn(50));
      int r = urkel_file_pread(p, out, n, o), w = n == 0 || (o + n >= o && o + n <= sz);
      CK(D_UNIT, r == w, "pread of %lu bytes at %lu of %lu returns %d", (unsigned long)n, (unsigned long)o, (unsigned long)sz, r);
      if (r && n) CK(D_UNIT, !memcmp(out, model + o, n), "pread gives other bytes");
      CK(D_UNIT, out[n < sizeof out ? n : sizeof out - 1] == 0xee || n == sizeof out, "pread writes past the request"); }
    if (rn(15) == 0) { CK(D_UNIT, urkel_file_close(p), "close fails"); p = urkel_file_open(f, URKEL_O_RDWR | URKEL_O_APPEND | (rn(2) ? URKEL_O_MMAP : 0), 0); CK(D_UNIT, p && p->size == sz, "reopened file has another size"); if (!p) return; }
  }
  urkel_file_close(p);
  /* the raw layer */
  int fd = urkel_fs_open(f, URKEL_O_RDWR, 0); CK(D_UNIT, fd >= 0, "fs_open fails");
  for (int i = 0; i < 60; i++) {
    size_t n = rn(3000), o = rn(sz + 1); memset(out, 0xee, sizeof out); int r = urkel_fs_pread(fd, out, n, o), w = o + n <= sz || n == 0;
    CK(D_UNIT, r == w, "fs_pread reports %d for %lu bytes at %lu of %lu", r, (unsigned long)n, (unsigned long)o, (unsigned long)sz); if (r && n) CK(D_UNIT, !memcmp(out, model + o, n), "fs_pread gives other bytes");
    if (o + n <= sz) { for (size_t j = 0; j < n; j++) buf[j] = rnd(); r = urkel_fs_pwrite(fd, buf, n, o); CK(D_UNIT, r, "fs_pwrite fails"); memcpy(model + o, buf, n); }
    urkel_fs_seek(fd, o, URKEL_SEEK_SET); r = urkel_fs_read(fd, out, n); CK(D_UNIT, r == w, "fs_read reports %d", r); if (r && n) CK(D_UNIT, !memcmp(out, model + o, n), "fs_read gives other bytes");
  }
  urkel_fs_close(fd); W_SHORT = 0; __real_unlink(f);
}
/* destroying */
static void destroy(void) {
  char c[1400], f[900];
  for (int t = 0; t < 12; t++) {
    build_history(3, 8); urkel_tx_destroy(TX); urkel_close(DB);
    static const char *odd[] = {"0000000001x", "000000001", "00000000001", "notes.txt", "metadata", "Meta", "lock2", "+000000001", "000000000a", "4294967296", "9999999999", ".hidden", "0x00000001", " 000000001", "-000000001", "000000001 ",};
    int k = rn(sizeof odd / sizeof *odd), extra = t > 1, inner = rn(4) == 0;
    if (extra) { snprintf(f, sizeof f, "%s/%s", DIR_, odd[k]); if (inner) { if (mkdir(f, 0755)) FAILX("mkdir"); } else { FILE *p = fopen(f, "w"); fputs("mine", p); fclose(p); } }
    W_NUNL = 0; W_NRMDIR = 0; urkel_errno = 0;
    int r = urkel_destroy(DIR_);
    for (int i = 0; i < W_NUNL; i++) { const char *b = strrchr(W_UNL[i], '/') + 1; int own = !strcmp(b, "meta") || !strcmp(b, "lock");
      if (strlen(b) == 10) { own = strspn(b, "0123456789") == 10 && strtoull(b, 0, 10) <= 0xffffffffull; }
      CK(D_DESTROY, own && !strncmp(W_UNL[i], DIR_, strlen(DIR_)) && W_UNL[i][strlen(DIR_)] == '/' && b == W_UNL[i] + strlen(DIR_) + 1, "destroy unlinks %s", W_UNL[i]); }
    if (extra) { CK(D_DESTROY, !r && access(f, F_OK) == 0, "destroy removes or ignores the foreign file %s", odd[k]); CK(D_DESTROY, urkel_errno != 0, "failing destroy sets no error"); }
    else CK(D_DESTROY, r && access(DIR_, F_OK) != 0, "destroy of a database fails or leaves the directory");
    rmrf(DIR_);
  }
  /* in use: nothing happens */
  build_history(2, 8); urkel_tx_destroy(TX); urkel_close(DB);
  int pp[2], q[2]; if (pipe(pp) || pipe(q)) FAILX("pipe"); fflush(stdout);
  if (fork() == 0) { urkel_t *d = urkel_open(DIR_); char x = d ? 'y' : 'n'; if (__real_write(pp[1], &x, 1)) {} if (__real_read(q[0], &x, 1)) {} if (d) urkel_close(d); _exit(0); }
  char x; if (__real_read(pp[0], &x, 1) != 1 || x != 'y') FAILX("child cannot open");
  W_NUNL = 0; int r = urkel_destroy(DIR_);
  CK(D_DESTROY, !r && W_NUNL == 0 && access(DIR_, F_OK) == 0, "destroy acts on a database which another process has open");
  layout(D_DESTROY);
  if (__real_write(q[1], "x", 1)) {} sleep(0); int st; wait_: if (waitpid(-1, &st, 0) < 0 && errno == EINTR) goto wait_;
  CK(D_DESTROY, urkel_destroy(DIR_), "destroy of a closed database fails");
  snprintf(c, sizeof c, "%s/none", WORK); CK(D_DESTROY, !urkel_destroy(c), "destroy of nothing succeeds");
}
/* names and paths */
static void paths(void) {
  for (int t = 0; t < 4000; t++) {
    uint32_t n = rn(3) ? rnd() : rn(2000), m = n + 1; char s[16]; memset(s, 'z', sizeof s);
    urkel_serialize_u32(s, n); char w[16]; snprintf(w, sizeof w, "%010u", n);
    CK(D_PATH, !strcmp(s, w), "file number %u is named %s", n, s); CK(D_PATH, urkel_parse_u32(&m, s) && m == n, "name %s gives %u", s, m);
    int at = rn(10); char o = s[at]; s[at] = rn(3) ? " +-/:aAxX.\1"[rn(11)] : rnd(); unsigned long long v = 0; int good = strlen(s) == 10 && strspn(s, "0123456789") == 10; if (good) v = strtoull(s, 0, 10);
    int r = urkel_parse_u32(&m, s); CK(D_PATH, r == (good && v <= 0xffffffffull), "name '%s' is %s", s, r ? "accepted" : "refused"); if (r && good) CK(D_PATH, m == v, "name %s gives %u", s, m);
    s[at] = o; s[rn(10)] = 0; CK(D_PATH, !urkel_parse_u32(&m, s), "a short name is accepted"); snprintf(w, sizeof w, "%010u0", n); CK(D_PATH, !urkel_parse_u32(&m, w), "a long name is accepted");
  }
  for (unsigned long long v = 4294967290ull; v < 4294967310ull; v++) { char s[16]; uint32_t m = 5; snprintf(s, sizeof s, "%010llu", v); int r = urkel_parse_u32(&m, s); CK(D_PATH, r == (v <= 0xffffffffull) && (!r || m == v), "name %s: %d %u", s, r, m); }
  /* directory names up to and over the limit */
  char *base = realpath(WORK, NULL), p[3000]; if (!base || strlen(base) > 300) return;
  for (int len = 990; len < 1045; len++) {
    strcpy(p, base); size_t n = strlen(p); 
    while ((int)n < len) { size_t k = (size_t)len - n; p[n++] = '/'; k--; if (k > 200) k = k - 200 >= 2 ? 200 : k - 2; for (size_t j = 0; j < k; j++) p[n++] = 'd'; p[n] = 0; if ((int)n < len) mkdir(p, 0755); if (k == 0) break; }
    if ((int)n != len) continue;
    char r[3100]; snprintf(r, sizeof r, "%s", p); CASES++;
    urkel_t *d = urkel_open(r); /* address sanitizer watches the buffers */
    if (d) { urkel_tx_t *t = urkel_tx_create(d, NULL); unsigned char k[32] = {1}; urkel_tx_insert(t, k, k, 32); CK(D_PATH, urkel_tx_commit(t), "commit under a long path fails"); urkel_tx_destroy(t); urkel_close(d); CK(D_PATH, urkel_destroy(r), "destroy under a long path fails"); CK(D_PATH, access(p, F_OK), "destroy under a long path leaves it"); }
    else { CK(D_PATH, access(p, F_OK) != 0, "a refused name leaves a directory"); CK(D_PATH, len > 1000, "a path of %d bytes is refused", len); urkel_destroy(r); }
  }
  static const char *const pt[][2] = {{"/a/b", "/a/b"}, {"/a//b/", "/a/b"}, {"/a/./b/.", "/a/b"}, {"/a/../b", "/b"}, {"/..", "/"}, {"/../..//x", "/x"}, {"/", "/"}, {"//", "/"}, {"/a/b/../../..", "/"}, {"/a/...", "/a/..."}, {"/a/.b/..c", "/a/.b/..c"}, {"/a/b/..", "/a"}};
  for (unsigned i = 0; i < sizeof pt / sizeof *pt; i++) { char *r = urkel_path_resolve(pt[i][0]); CK(D_PATH, r && !strcmp(r, pt[i][1]), "%s resolves to %s", pt[i][0], r ? r : "nothing"); free(r); }
  char cwd[2000]; if (getcwd(cwd, sizeof cwd)) { char w[2100]; snprintf(w, sizeof w, "%s/q", cwd); char *r = urkel_path_resolve("x/../q"); CK(D_PATH, r && !strcmp(r, w), "a relative path resolves to %s", r ? r : "nothing"); free(r); }
  for (int n = 8150; n < 8250; n++) { char *q = malloc(n + 1); memset(q, 'y', n); q[n] = 0; for (int i = 100; i < n; i += 100) q[i] = '/'; char *r = urkel_path_resolve(q); free(r); q[0] = '/'; r = urkel_path_resolve(q); free(r); free(q); CASES++; }
  free(base);
}
#include <sys/wait.h>
int main(int argc, char **argv) {
  start(argc, argv);
  for (int r = 0; r < REPS; r++) {
    if (MODE & (D_LAYOUT | D_HANDLE)) for (int i = 0; i < 3; i++) { build_history(22, 20); end(); }
    if (MODE & D_CRASH) for (int i = 0; i < 2; i++) crash();
    if (MODE & D_SYNC) { for (int i = 0; i < 2; i++) { build_history(22, 20); end(); } fault(); }
    if (MODE & D_FAULT) for (int i = 0; i < 2; i++) fault();
    if (MODE & D_SHORT) for (int i = 0; i < 3; i++) shorts();
    if (MODE & D_UNIT) for (int i = 0; i < 6; i++) unit();
    if (MODE & D_DESTROY) destroy();
    if (MODE & D_PATH && r == 0) paths();
  }
  return finish();
}
