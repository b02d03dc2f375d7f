/* store.c, second part: file handles, recovery, opening, closing, destroying. */
#define VF_DEFINE_ABORT
#include <stdlib.h>
#include <string.h>
#ifdef OP_filemap
void *vf_realloc(void *p, size_t n);
#define realloc vf_realloc
#endif
#if defined(OP_small) && SMALL == 0
size_t vf_strlen(const char *s);
void *vf_memcpy(void *d, const void *s, size_t n);
#define strlen vf_strlen
#define memcpy vf_memcpy
#endif
#ifdef OP_destroy
void *vf_memcpy(void *d, const void *s, size_t n);
#define memcpy vf_memcpy
#endif
#if defined(OP_path)
void *vf_memcpy(void *d, const void *s, size_t n);
#define memcpy vf_memcpy
#endif
#include "store.c"
#undef memcpy
#undef strlen
#undef realloc
#include "vf.h"
#if defined(OP_small) && SMALL == 0 || defined(OP_path)
static size_t MK_; /* an arbitrary byte of the copy, and its end */
void *vf_memcpy(void *d, const void *s, size_t n) {
  ASSERT_(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "memcpy: both sides hold n bytes");
  if (MK_ < n) ((char *)d)[MK_] = ((const char *)s)[MK_];
  if (n > 0) ((char *)d)[n - 1] = ((const char *)s)[n - 1];
  return d;
}
#endif
#ifdef OP_destroy
void *vf_memcpy(void *d, const void *s, size_t n) {
  ASSERT_(n <= 12, "VF copies of at most 12 bytes");
  for (size_t i = 0; i < 12; i++) if (i < n) ((char *)d)[i] = ((const char *)s)[i];
  return d;
}
#endif
#ifdef OP_filemap
void *vf_realloc(void *p, size_t n) {
  void **r = malloc(n), **o = p;
  if (o) { for (size_t i = 0; i < NMAP; i++) if ((i + 1) * sizeof(void *) <= n && (i + 1) * sizeof(void *) <= __CPROVER_OBJECT_SIZE(p)) r[i] = o[i]; free(p); }
  return r;
}
#endif
urkel_node_t nondet_node(void);
urkel_meta_t nondet_meta(void);
int __urkel_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
static uint32_t SER; static _Bool SERED;
void urkel_serialize_u32(char *out, uint32_t num) {
  ASSERT_(__CPROVER_w_ok(out, 11), "a file name needs eleven bytes");
  memcpy(out, "0123456789", 11);
  SER = num; SERED = 1;
}
static int LOCKED, RWLIVE; static char LOCKMEM;
urkel_rwlock_t *urkel_rwlock_create(void) { RWLIVE++; return (urkel_rwlock_t *)&LOCKMEM; }
void urkel_rwlock_destroy(urkel_rwlock_t *l) { ASSERT_(!LOCKED, "rwlock: destroyed when free"); RWLIVE--; }
void urkel_rwlock_wrlock(urkel_rwlock_t *l) { ASSERT_(!LOCKED, "rwlock: not held twice"); LOCKED = 2; }
void urkel_rwlock_wrunlock(urkel_rwlock_t *l) { ASSERT_(LOCKED == 2, "rwlock: write lock held"); LOCKED = 0; }
void urkel_rwlock_rdlock(urkel_rwlock_t *l) { ASSERT_(!LOCKED, "rwlock: not held twice"); LOCKED = 1; }
void urkel_rwlock_rdunlock(urkel_rwlock_t *l) { ASSERT_(LOCKED == 1, "rwlock: read lock held"); LOCKED = 0; }

#ifdef OP_path
int main(void) {
  data_store_t *S = malloc(sizeof(*S));
  char path[URKEL_PATH_MAX + 1];
  size_t k = nondet_size();
  ASSUME(S->prefix_len <= URKEL_PATH_MAX - 11);
  MK_ = k;
  char kb = S->prefix[k < S->prefix_len ? k : 0];
  uint32_t index = nondet_u32();
  if (nondet_bool()) {
    urkel_store_path_index(S, path, index);
    ASSERT_(SERED && SER == index, "path: the ten digits of the file number");
    ASSERT_(memcmp(path + S->prefix_len, "/0123456789", 12) == 0, "path: directory, separator, name, end");
  } else {
    urkel_store_path(S, path, "meta");
    ASSERT_(memcmp(path + S->prefix_len, "/meta", 6) == 0, "path: directory, separator, name, end");
  }
  if (k < S->prefix_len) ASSERT_(path[k] == kb, "path: starts with the directory");
  free(S);
  REACH("path");
}
#endif

#ifdef OP_openfile
static data_store_t *S; static urkel_file_t *HAVE, *NEW, *INS; static uint32_t WANT; static _Bool FAILOPEN, EVICTED, LOOKED;
urkel_file_t *stub_lookup(urkel_filemap_t *fm, size_t index) {
  ASSERT_(fm == &S->files && index == WANT && !LOOKED, "open: looks the file up first");
  LOOKED = 1;
  return HAVE;
}
void stub_path_index(const data_store_t *store, char *path, uint32_t index) {
  ASSERT_(__CPROVER_w_ok(path, URKEL_PATH_MAX + 1), "open: room for any path");
  ASSERT_(index == WANT, "open: the path of the requested file");
  path[0] = 'p'; path[1] = 0;
}
static int FLAGS;
urkel_file_t *urkel_file_open(const char *name, int flags, uint32_t mode) {
  ASSERT_(name[0] == 'p' && HAVE == NULL && LOOKED && NEW == NULL, "open: opens only what is not open");
  ASSERT_(flags == FLAGS && mode == 0640, "open: with the requested flags");
  if (nondet_bool()) { FAILOPEN = 1; return NULL; }
  NEW = malloc(sizeof(*NEW));
  return NEW;
}
void stub_evict(data_store_t *store) { ASSERT_(FLAGS == WRITE_FLAGS && INS == NULL, "open: a reader never closes other files"); EVICTED = 1; }
urkel_file_t *stub_insert(urkel_filemap_t *fm, urkel_file_t *file) {
  ASSERT_(fm == &S->files && file == NEW && file->index == WANT, "open: kept under its number");
  if (nondet_bool()) { free(NEW); INS = malloc(sizeof(*INS)); INS->index = WANT; } else INS = NEW;
  return INS;
}
int main(void) {
  S = malloc(sizeof(*S));
  WANT = nondet_u32(); FLAGS = nondet_bool() ? WRITE_FLAGS : READ_FLAGS;
  ASSUME(S->index < MAX_FILES);
  if (nondet_bool()) { HAVE = malloc(sizeof(*HAVE)); HAVE->index = WANT; }
  urkel_file_t *r = urkel_store_open_file(S, WANT, FLAGS);
  _Bool in = WANT >= 1 && WANT <= S->index + (FLAGS == WRITE_FLAGS); /* a reader never opens the file yet to be appended to */
  if (!in) ASSERT_(r == NULL && NEW == NULL && !LOOKED, "open: numbers out of range are refused");
  else if (HAVE) ASSERT_(r == HAVE && NEW == NULL, "open: an open file is used again");
  else if (FAILOPEN) ASSERT_(r == NULL && INS == NULL && !EVICTED, "open: failure leaves everything");
  else ASSERT_(r == INS && r != NULL && EVICTED == (FLAGS == WRITE_FLAGS), "open: the handle kept under the number");
  if (r != NULL) { ASSERT_(r->index == WANT, "open: the handle of exactly the requested file"); free(r); }
  else free(HAVE);
  free(S);
  REACH("openfile");
}
#endif

#ifdef OP_closefile
static data_store_t *S; static urkel_file_t *F; static uint32_t WANT; static unsigned NC;
urkel_file_t *stub_remove(urkel_filemap_t *fm, size_t index) { ASSERT_(fm == &S->files && index == WANT, "close: takes it out of the map"); return F; }
int urkel_file_close(urkel_file_t *f) { ASSERT_(f == F && f != NULL, "close: exactly this handle"); NC++; free(f); return nondet_bool(); }
int main(void) {
  S = malloc(sizeof(*S)); WANT = nondet_u32();
  urkel_file_t *other = malloc(sizeof(*other));
  if (nondet_bool()) { F = malloc(sizeof(*F)); F->index = WANT; }
  _Bool cur = nondet_bool(); uint32_t i0 = S->index;
  S->current = cur && F ? F : other;
  _Bool was = S->current == F;
  urkel_store_close_file(S, WANT);
  ASSERT_(NC == (F != NULL), "close: closed once");
  ASSERT_(was ? (S->current != F && S->index == 0) : (S->current == other && S->index == i0), "close: nothing points to a closed handle");
  free(other); free(S);
  REACH("closefile");
}
#endif

#ifdef OP_evict
#ifndef EXTRA
#define EXTRA 2
#endif
#define NFM (MAX_OPEN_FILES + EXTRA + 2)
static data_store_t *S; static unsigned NC; static urkel_file_t FS[NFM + 1]; static urkel_file_t *ITEMS[NFM + 1];
void stub_close(data_store_t *store, uint32_t index) {
  ASSERT_(index >= 1 && index < S->files.len && S->files.items[index] != NULL, "evict: closes an open file");
  ASSERT_(index != S->index, "evict: never the file being appended to");
  S->files.items[index] = NULL; S->files.size -= 1; NC++;
}
uint32_t stub_rand(urkel_rng_t *rng) { return nondet_u32(); }
int main(void) {
  S = malloc(sizeof(*S));
  S->files.items = ITEMS; S->files.len = nondet_size(); S->files.size = 0;
  ASSUME(S->files.len <= NFM + 1);
  for (size_t i = 0; i < NFM + 1; i++) {
    ITEMS[i] = NULL;
    if (i >= 1 && i < S->files.len && nondet_bool()) { ITEMS[i] = &FS[i]; S->files.size++; }
  }
  ASSUME(S->index >= 1 && S->files.size <= MAX_OPEN_FILES + EXTRA);
  size_t n0 = S->files.size;
  urkel_store_evict(S);
  ASSERT_(S->files.size <= MAX_OPEN_FILES, "evict: at most the limit stays open");
  ASSERT_(NC == (n0 > MAX_OPEN_FILES ? n0 - MAX_OPEN_FILES : 0), "evict: closes only as many as needed");
  REACH("evict");
}
#endif

#ifdef OP_filemap
#ifndef NMAP
#endif
static unsigned NC; static urkel_file_t *CLOSEDF;
int urkel_file_close(urkel_file_t *f) { NC++; CLOSEDF = f; free(f); return nondet_bool(); }
int main(void) {
  urkel_filemap_t fm; fm.len = nondet_size(); ASSUME(fm.len <= NMAP);
  size_t size = 0;
  fm.items = fm.len ? malloc(fm.len * sizeof(urkel_file_t *)) : NULL;
  urkel_file_t *old[NMAP];
  for (size_t i = 0; i < NMAP; i++) {
    old[i] = NULL;
    if (i < fm.len) {
      fm.items[i] = NULL;
      if (i > 0 && nondet_bool()) { old[i] = fm.items[i] = malloc(sizeof(urkel_file_t)); old[i]->index = i; size++; }
    }
  }
  fm.size = size; fm.lock = (urkel_rwlock_t *)&LOCKMEM;
  size_t idx = nondet_size(), k = nondet_size(); ASSUME(k < NMAP && idx < NMAP);
  size_t l0 = fm.len;
  urkel_file_t *was = idx < l0 ? old[idx] : NULL;
#if FM == 0
  urkel_file_t *r = urkel_filemap_lookup(&fm, idx);
  ASSERT_(r == was && fm.len == l0 && fm.size == size, "lookup: exactly the handle of that file");
#elif FM == 1
  urkel_file_t *f = malloc(sizeof(*f)); f->index = idx;
  urkel_file_t *r = urkel_filemap_insert(&fm, f);
  ASSERT_(fm.len > idx && fm.items[idx] == r && r->index == idx, "insert: kept under its number");
  ASSERT_(was ? (r == was && NC == 1 && CLOSEDF == f && fm.size == size) : (r == f && NC == 0 && fm.size == size + 1), "insert: one handle per file, a second one is closed");
  ASSERT_(fm.len >= l0, "insert: no handle is dropped");
  if (k != idx && k < fm.len) ASSERT_(fm.items[k] == (k < l0 ? old[k] : NULL), "insert: other files stay");
#elif FM == 2
  urkel_file_t *r = urkel_filemap_remove(&fm, idx);
  ASSERT_(r == was && NC == 0 && fm.size == size - (was != NULL), "remove: gives the handle back");
  ASSERT_(fm.len == l0 && (idx >= l0 || fm.items[idx] == NULL), "remove: the slot is free");
  if (k != idx && k < l0) ASSERT_(fm.items[k] == old[k], "remove: other files stay");
  free(r);
#elif FM == 3
  RWLIVE = 1;
  urkel_filemap_clear(&fm);
  ASSERT_(NC == size && RWLIVE == 0, "clear: every handle is closed once");
#endif
  ASSERT_(!LOCKED, "filemap: lock released");
#if FM != 3
  for (size_t i = 0; i < NMAP; i++) if (i < fm.len && fm.items[i]) free(fm.items[i]);
  free(fm.items);
#endif
  REACH("filemap");
}
#endif

#ifdef OP_findmeta
static int FD_; static uint64_t FSIZE, QN, CNT, CNT0, LASTP; static _Bool LASTV; static uint64_t TRUNC, NTRUNC, RPOS; static size_t RLEN; static _Bool RDOK, OPENED, CLOSED, IOFAIL, TFAIL; static unsigned char *SLAB; static data_store_t *S;
static _Bool QV; /* is record QN, an arbitrary one, intact */
int urkel_fs_open(const char *name, int flags, uint32_t mode) {
  ASSERT_(flags == (URKEL_O_RDWR | URKEL_O_RANDOM), "find_meta: opens without creating or truncating");
  if (nondet_bool()) { IOFAIL = 1; return -1; }
  OPENED = 1; return FD_;
}
int urkel_fs_fstat(int fd, urkel_stat_t *st) {
  ASSERT_(fd == FD_ && OPENED && !CLOSED, "find_meta: size of the open file");
  if (nondet_bool()) { IOFAIL = 1; return 0; }
  st->st_size = FSIZE; return 1;
}
int urkel_fs_pread(int fd, void *dst, size_t len, int64_t pos) {
  ASSERT_(fd == FD_ && OPENED && !CLOSED && dst == SLAB, "find_meta: reads the open file into the buffer");
  ASSERT_(len <= SLAB_SIZE && pos >= 0 && pos + len <= FSIZE, "find_meta: reads within the file and the buffer");
  if (nondet_bool()) { IOFAIL = 1; RDOK = 0; return 0; }
  RPOS = pos; RLEN = len; RDOK = 1;
  return 1;
}
int stub_meta_read(urkel_meta_t *meta, const unsigned char *data, const unsigned char *key) {
  ASSERT_(RDOK && __CPROVER_POINTER_OBJECT(data) == __CPROVER_POINTER_OBJECT(SLAB) && data >= SLAB && (size_t)(data - SLAB) + META_SIZE <= RLEN, "find_meta: looks only at bytes that were read");
  ASSERT_(key == S->key, "find_meta: checks with this database's key");
  uint64_t p = RPOS + (data - SLAB);
  ASSERT_(CNT >= 1, "find_meta: no record before the first");
  CNT -= 1;
  ASSERT_(p == CNT * META_SIZE, "find_meta: looks at every record, from the newest to the oldest");
  LASTV = CNT == QN ? QV : nondet_bool(); LASTP = p;
  if (LASTV) { meta->meta_ptr.pos = p; meta->root_ptr.pos = p + 1; }
  return LASTV;
}
int urkel_fs_ftruncate(int fd, int64_t size) {
  ASSERT_(fd == FD_ && OPENED && !CLOSED && NTRUNC == 0, "find_meta: cuts the open file, once");
  TRUNC = size; NTRUNC++;
  if (nondet_bool()) { TFAIL = 1; return 0; }
  return 1;
}
int urkel_fs_close(int fd) { ASSERT_(fd == FD_ && OPENED && !CLOSED, "find_meta: closes what it opened"); CLOSED = 1; return nondet_bool(); }
int main(void) {
  S = malloc(sizeof(*S)); ASSUME(S != NULL);
  SLAB = malloc(SLAB_SIZE); ASSUME(SLAB != NULL);
  FD_ = nondet_int(); FSIZE = nondet_u64(); QN = nondet_u64(); LASTP = 0; LASTV = 0; CNT0 = FSIZE / META_SIZE; CNT = CNT0; QV = nondet_bool(); TRUNC = 0; NTRUNC = 0; RPOS = 0; RLEN = 0; RDOK = 0; OPENED = 0; CLOSED = 0; IOFAIL = 0; TFAIL = 0;
  ASSUME(FD_ >= 0 && FSIZE <= 0x7fffffffUL && FSIZE - FSIZE % META_SIZE == CNT0 * META_SIZE && QN < CNT0);
  urkel_meta_t meta; uint64_t off = nondet_u64(); char path[2] = "p";
  meta = nondet_meta();
  uint64_t m0 = meta.meta_ptr.pos;
  int ret = urkel_store_find_meta(S, &meta, &off, path, SLAB);
  ASSERT_(CLOSED == OPENED, "find_meta: closes what it opened");
  ASSERT_(ret == -1 || ret == 0 || ret == 1, "find_meta: found, not found or unreadable");
  if (ret == 1) {
    ASSERT_(off == CNT * META_SIZE && CNT < CNT0, "find_meta: the place of a record");
    ASSERT_(LASTV && LASTP == off && meta.meta_ptr.pos == off && meta.root_ptr.pos == off + 1, "find_meta: a valid record, decoded");
    ASSERT_(!(QV && QN > CNT), "find_meta: the newest valid record of the file");
    ASSERT_(NTRUNC == 1 && TRUNC == off + META_SIZE, "find_meta: everything after it is cut off");
    ASSERT_(!TFAIL, "find_meta: the rest really is cut off");
  } else if (ret == 0) {
    ASSERT_(!QV, "find_meta: no valid record is overlooked");
    ASSERT_(NTRUNC == 0 && !IOFAIL, "find_meta: a file without record is left as it is");
  } else ASSERT_(IOFAIL || TFAIL, "find_meta: fails only when the file cannot be read or cut");
  if (ret == -1 && !TFAIL) ASSERT_(NTRUNC == 0, "find_meta: cuts nothing when it fails");
  REACH("findmeta");
}
#endif

#ifdef OP_recover
static data_store_t *S; static uint32_t I0, PI; static int FOUND; static _Bool UNLFAIL, DONEF; static uint32_t NEXTI; static urkel_meta_t FM; static uint64_t FOFF; static unsigned char *SL;
void stub_path_index(const data_store_t *store, char *path, uint32_t index) {
  ASSERT_(store == S && __CPROVER_w_ok(path, URKEL_PATH_MAX + 1), "recover: room for the path");
  PI = index;
}
int stub_find_meta(const data_store_t *store, urkel_meta_t *meta, uint64_t *off, const char *path, unsigned char *slab) {
  ASSERT_(store == S && __CPROVER_w_ok(slab, SLAB_SIZE), "recover: passes the buffer");
  ASSERT_(PI == NEXTI && PI >= 1 && !DONEF && !UNLFAIL, "recover: newest file first, one after the other, none twice");
  FOUND = nondet_int(); ASSUME(FOUND >= -1 && FOUND <= 1);
  if (FOUND == 1) { *meta = FM; FOFF = nondet_u64(); *off = FOFF; }
  else *meta = nondet_meta(); /* a refused record may have been decoded in part */
  if (FOUND != 0) DONEF = 1;
  NEXTI = PI - 1;
  return FOUND;
}
int urkel_fs_unlink(const char *name) {
  ASSERT_(FOUND == 0 && NEXTI == PI - 1, "recover: only a readable file without any intact commit is deleted");
  FOUND = 2;
  if (nondet_bool()) { UNLFAIL = 1; return 0; }
  return 1;
}
void urkel_pointer_init(urkel_pointer_t *p) { p->index = 0; p->pos = 0; p->size = 0; }
void urkel_node_init(urkel_node_t *node, unsigned type) { node->type = type; node->flags = 3; ST(node->hash, 0); node->ptr.index = 0; }
int main(void) {
  S = malloc(sizeof(*S)); ASSUME(S != NULL);
  PI = 0; FOUND = 2; UNLFAIL = 0; DONEF = 0; FOFF = 0; FM = nondet_meta();
  I0 = nondet_u32(); ASSUME(I0 <= MAX_FILES);
  NEXTI = I0;
  urkel_meta_t state, meta; uint32_t index = I0;
  int ret = urkel_store_recover_state(S, &state, &meta, &index);
  if (ret && FOUND == 1) {
    ASSERT_(index == PI && state.meta_ptr.index == PI && state.meta_ptr.pos == FOFF, "recover: the newest intact commit and where it is");
    ASSERT_(state.root_ptr.index == FM.root_ptr.index && state.root_ptr.pos == FM.root_ptr.pos && state.root_ptr.size == FM.root_ptr.size, "recover: its root");
    ASSERT_(meta.meta_ptr.index == FM.meta_ptr.index && meta.meta_ptr.pos == FM.meta_ptr.pos && meta.root_ptr.pos == FM.root_ptr.pos, "recover: history continues at the commit before it");
  } else if (ret) {
    ASSERT_(index == 1 && NEXTI == 0 && !DONEF, "recover: no commit anywhere starts afresh");
    ASSERT_(state.meta_ptr.index == 0 && state.root_ptr.index == 0 && state.root_node.type == URKEL_NODE_NULL && LD(state.root_node.hash) == 0, "recover: an empty database");
  } else ASSERT_(FOUND == -1 || UNLFAIL, "recover: fails only when a file cannot be read or removed");
  REACH("recover");
}
#endif

#ifdef OP_findindex
#ifndef NLIST
#define NLIST 5
#endif
static size_t CNT; static urkel_dirent_t *L[NLIST]; static _Bool ISN[NLIST]; static uint32_t NUM[NLIST]; static urkel_dirent_t **LIST; static _Bool SCANOK;
int urkel_fs_scandir(const char *name, urkel_dirent_t ***out, size_t *count) {
  SCANOK = nondet_bool();
  if (!SCANOK) { *out = NULL; *count = 0; return 0; }
  CNT = nondet_size(); ASSUME(CNT <= NLIST);
  LIST = malloc(sizeof(urkel_dirent_t *) * (NLIST + 1));
  for (size_t i = 0; i < NLIST; i++) if (i < CNT) { L[i] = LIST[i] = malloc(sizeof(urkel_dirent_t)); ISN[i] = nondet_bool(); NUM[i] = nondet_u32(); }
  *out = LIST; *count = CNT; return 1;
}
int urkel_parse_u32(uint32_t *out, const char *str) {
  for (size_t i = 0; i < NLIST; i++) if (i < CNT && str == L[i]->d_name) { *out = ISN[i] ? NUM[i] : 0; return ISN[i]; }
  ASSERT_(0, "find_index: parses the names of the directory");
  return 0;
}
int main(void) {
  data_store_t *S = malloc(sizeof(*S)); uint32_t index = nondet_u32();
  int ret = urkel_store_find_index(S, &index);
  if (!SCANOK) ASSERT_(!ret, "find_index: an unreadable directory is an error");
  else {
    uint32_t want = 0; _Bool ok = 1;
    for (size_t i = 0; i < NLIST; i++) if (i < CNT && ISN[i]) { if (NUM[i] != want + 1) ok = 0; want = NUM[i]; }
    ASSERT_(ret == ok && index == want, "find_index: files are numbered without gap, the last one counts");
  }
  free(S);
  REACH("findindex");
}
#endif

#ifdef OP_init
/* urkel_store_open and urkel_store_close: every step may fail */
static int PH; static _Bool LOCKHELD, FMLIVE, CACHELIVE, MAPFILE, UNLINKED, RRFAIL, FAIL; static urkel_file_t *CUR; static uint32_t IDX; static data_store_t *S; static urkel_meta_t REC, LAST; static urkel_node_t ROOTN;
/* each step once, and only after the steps whose results it uses; what it did not need may come in any order */
enum { PFX = 1, META = 2, IDXF = 4, LOCK = 8, RECO = 16, OPN = 32, ROOT = 64 };
static _Bool step(int bit, int need) {
  _Bool ok = nondet_bool();
  ASSERT_((PH & bit) == 0, "open: each step once");
  ASSERT_((PH & need) == need && !FAIL, "open: each step after those it builds on, none after a failed one");
  if (bit != PFX && bit != LOCK) ASSERT_(LOCKHELD, "open: looks at the directory only while it holds the lock");
  PH |= bit; if (!ok) FAIL = 1; return ok;
}
int stub_init_prefix(data_store_t *s, const char *p) { S = s; return step(PFX, 0); }
int stub_init_meta(data_store_t *s) { return step(META, PFX | LOCK); }
int stub_find_index(data_store_t *s, uint32_t *index) { IDX = nondet_u32(); ASSUME(IDX <= MAX_FILES); *index = IDX; return step(IDXF, PFX | LOCK); }
int stub_init_lock(data_store_t *s) { int r = step(LOCK, PFX); LOCKHELD = r; if (r) s->lock_fd = 77; return r; }
int stub_recover(const data_store_t *s, urkel_meta_t *st, urkel_meta_t *m, uint32_t *index) {
  ASSERT_(LOCKHELD && *index == IDX, "open: recovers under the lock");
  ASSERT_(st == &s->state && m == &s->last_meta, "open: recovers into the store");
  *st = REC; *m = LAST; IDX = nondet_u32(); ASSUME(IDX >= 1 && IDX <= MAX_FILES); *index = IDX;
  return step(RECO, META | IDXF | LOCK);
}
void stub_fm_init(urkel_filemap_t *fm) { fm->items = NULL; fm->len = fm->size = 0; FMLIVE = 1; }
void stub_fm_clear(urkel_filemap_t *fm) { ASSERT_(FMLIVE && fm == &S->files, "close: closes the files once"); FMLIVE = 0; if (MAPFILE) { free(CUR); MAPFILE = 0; } }
void stub_cache_init(urkel_cache_t *c) { CACHELIVE = 1; }
void stub_cache_clear(urkel_cache_t *c) { ASSERT_(CACHELIVE && c == &S->cache, "close: clears the cache once"); CACHELIVE = 0; }
void stub_rng_init(urkel_rng_t *r) {}
urkel_file_t *stub_open(data_store_t *s, uint32_t index, int flags) {
  ASSERT_(index == IDX && s->index == IDX && flags == WRITE_FLAGS && FMLIVE && CACHELIVE, "open: opens the newest file for appending");
  if (!step(OPN, RECO)) return NULL;
  CUR = malloc(sizeof(*CUR)); CUR->index = index; MAPFILE = 1;
  return CUR;
}
int stub_read_root(data_store_t *s, urkel_node_t *out, const urkel_pointer_t *ptr) {
  ASSERT_(out == &s->state.root_node && ptr == &s->state.root_ptr, "open: loads the recovered root");
  ASSERT_(FMLIVE && CACHELIVE, "open: reads the root through the store");
  if (!step(ROOT, RECO)) return 0;
  *out = ROOTN;
  return 1;
}
void urkel_fs_close_lock(int fd) { ASSERT_(fd == 77 && LOCKHELD, "close: gives the lock back once"); ASSERT_(!FMLIVE, "close: the lock is given back last"); LOCKHELD = 0; }
int urkel_fs_unlink(const char *name) {
  ASSERT_(LOCKHELD, "close: the lock file is removed only while the lock is held"); UNLINKED = 1; return nondet_bool();
}
void stub_path(const data_store_t *store, char *path, const char *name) { ASSERT_(strcmp(name, "lock") == 0, "close: the only path it makes is that of the lock file"); path[0] = 0; }
int main(void) {
  REC = nondet_meta(); LAST = nondet_meta(); ROOTN = nondet_node();
  data_store_t *s = urkel_store_open("x");
  if (s == NULL) {
    ASSERT_(FAIL, "open: fails only when a step fails");
    ASSERT_(!LOCKHELD && !FMLIVE && !CACHELIVE && !MAPFILE, "open: a failed open keeps nothing open");
  } else {
    ASSERT_(!FAIL && PH == (PFX | META | IDXF | LOCK | RECO | OPN | ROOT), "open: every step succeeded");
    ASSERT_(LOCKHELD && s->current == CUR && s->index == CUR->index, "open: the newest file is the current one");
    ASSERT_(s->slab.file_index == CUR->index && s->slab.file_pos == CUR->size && s->slab.data_len == 0 && s->slab.data_off == 0 && s->slab.steps == 0 && s->slab.start == 0 && s->slab.data_size == 0 && s->slab.offsets_len == 0, "open: appending continues at the end of the newest file");
    ASSERT_(s->state.meta_ptr.index == REC.meta_ptr.index && s->state.meta_ptr.pos == REC.meta_ptr.pos && s->state.root_ptr.pos == REC.root_ptr.pos, "open: the recovered state counts");
    ASSERT_(LD(s->state.root_node.hash) == LD(ROOTN.hash) && s->state.root_node.type == ROOTN.type, "open: with the root that was read");
    ASSERT_(s->last_meta.meta_ptr.pos == LAST.meta_ptr.pos, "open: history continues at the recovered commit");
    if (nondet_bool()) { s->slab.data = malloc(10); s->slab.offsets = malloc(16); }
    urkel_store_close(s);
    ASSERT_(!LOCKHELD && !FMLIVE && !CACHELIVE && !MAPFILE && UNLINKED, "close: everything is given back");
  }
  REACH("init");
}
#endif

#ifdef OP_small
static int PHS; static _Bool EX, OKF; static int FDL;
int urkel_fs_exists(const char *name) { EX = nondet_bool(); return EX; }
#if SMALL == 0
static size_t PL; static char *RES; static _Bool MK;
char *urkel_path_resolve(const char *path) {
  if (nondet_bool()) return NULL;
  PL = nondet_size(); ASSUME(PL <= 5000);
  RES = malloc(PL + 1);
  RES[PL] = 0;
  return RES;
}
size_t vf_strlen(const char *s) { ASSERT_(s == RES, "strlen of the resolved path"); return PL; }
static size_t K_;
int urkel_fs_mkdir(const char *name, uint32_t mode) { ASSERT_(!EX && mode == 0750, "init_prefix: makes a missing directory"); MK = nondet_bool(); return MK; }
#endif
int urkel_fs_open_lock(const char *name, uint32_t mode) { FDL = nondet_int(); ASSUME(FDL >= -1); return FDL; }
void stub_path(const data_store_t *store, char *path, const char *name) { ASSERT_(__CPROVER_w_ok(path, 1025), "room for the path"); path[0] = name[0]; path[1] = 0; }
static _Bool RNG, WROTE; static const void *KP;
int urkel_fs_read_file(const char *name, void *dst, size_t len) { ASSERT_(EX && name[0] == 'm' && len == 32 && dst == KP, "init_meta: reads the database key"); OKF = nondet_bool(); return OKF; }
int urkel_fs_write_file(const char *name, uint32_t mode, const void *dst, size_t len) { ASSERT_(!EX && RNG && name[0] == 'm' && len == 32 && dst == KP && mode == 0640, "init_meta: writes a fresh random key"); OKF = nondet_bool(); return OKF; }
void urkel_random_bytes(void *dst, size_t len) { ASSERT_(!EX && dst == KP && len == 32, "init_meta: a fresh key only for a new database"); RNG = 1; }
int main(void) {
  data_store_t *S = malloc(sizeof(*S));
#if SMALL == 0
  K_ = MK_ = nondet_size();
  int ret = urkel_store_init_prefix(S, "x");
  if (ret) {
    ASSERT_(S->prefix_len == PL && PL + 11 <= URKEL_PATH_MAX, "init_prefix: every path of the database fits its buffer");
    ASSERT_(S->prefix[PL] == 0, "init_prefix: the directory name is terminated");
    ASSERT_(EX || MK, "init_prefix: the directory exists");
  }
#elif SMALL == 1
  KP = S->key;
  int ret = urkel_store_init_meta(S);
  ASSERT_(ret == OKF, "init_meta: reports whether the key is in place");
#elif SMALL == 2
  int fd0 = S->lock_fd;
  int ret = urkel_store_init_lock(S);
  ASSERT_(ret == (FDL != -1) && S->lock_fd == (ret ? FDL : fd0), "init_lock: reports whether the lock was taken");
#endif
  free(S);
  REACH("small");
}
#endif

#ifdef OP_destroy
/* urkel_store_destroy and the directory it is given */
#ifndef NLIST
#define NLIST 3
#endif
static size_t PL, CNT; static char *RES; static urkel_dirent_t *L[NLIST]; static _Bool ISN[NLIST]; static urkel_dirent_t **LIST;
static _Bool LOCKOK, HELD, SCANOK, GONE[NLIST], RM, RMOK, LOCKGONE, RESOK, LONG; static size_t NUNL;
size_t vf_strlen2(const char *s);
char *urkel_path_resolve(const char *path) {
  if (nondet_bool()) return NULL;
  RESOK = 1;
  PL = nondet_size(); ASSUME(PL >= 1 && PL <= PLMAX);
  RES = malloc(PL + 1);
  for (size_t i = 0; i < PLMAX; i++) if (i < PL) RES[i] = 'd';
  RES[PL] = 0;
  return RES;
}
static int at(const char *path, const char *name) { /* path == dir / name */
  for (size_t i = 0; i < PLMAX; i++) if (i < PL && path[i] != 'd') return 0;
  return path[PL] == '/' && strcmp(path + PL + 1, name) == 0;
}
int urkel_fs_open_lock(const char *name, uint32_t mode) {
  ASSERT_(at(name, "lock") && !HELD, "destroy: locks the database");
  HELD = nondet_bool(); return HELD ? 5 : -1;
}
void urkel_fs_close_lock(int fd) { ASSERT_(fd == 5 && HELD, "destroy: gives the lock back once"); HELD = 0; LOCKOK = 1; }
int urkel_fs_scandir(const char *name, urkel_dirent_t ***out, size_t *count) {
  ASSERT_(HELD && name == RES, "destroy: lists the directory under the lock");
  SCANOK = nondet_bool();
  if (!SCANOK) return 0;
  CNT = nondet_size(); ASSUME(CNT <= NLIST);
  LIST = malloc(sizeof(urkel_dirent_t *) * (NLIST + 1));
  for (size_t i = 0; i < NLIST; i++) if (i < CNT) {
    L[i] = LIST[i] = malloc(sizeof(urkel_dirent_t));
    int k = nondet_int();
    if (k == 0) memcpy(L[i]->d_name, "meta", 5);
    else if (k == 1) memcpy(L[i]->d_name, "lock", 5);
    else if (k == 2) { memcpy(L[i]->d_name, "0000000001", 11); }
    else if (k == 3) memcpy(L[i]->d_name, "metal", 6);
    else memcpy(L[i]->d_name, "user.txt", 9);
    ISN[i] = k == 2;
  }
  *out = LIST; *count = CNT; return 1;
}
int urkel_parse_u32(uint32_t *out, const char *str) { ASSERT_(out == NULL, "destroy: only the form of the name matters"); for (size_t i = 0; i < NLIST; i++) if (i < CNT && L[i] != NULL && str == L[i]->d_name) return ISN[i]; return 0; }
int urkel_fs_unlink(const char *path) {
  if (at(path, "lock")) { ASSERT_(HELD && !LOCKGONE, "destroy: the lock file goes once, while the lock is held"); LOCKGONE = 1; return nondet_bool(); }
  ASSERT_(HELD && SCANOK, "destroy: removes nothing without the lock");
  ASSERT_(at(path, "meta") || at(path, "0000000001"), "destroy: removes only files of the database, in its directory");
  NUNL++;
  return nondet_bool();
}
int urkel_fs_rmdir(const char *path) { ASSERT_(path == RES && SCANOK && LOCKGONE && !HELD, "destroy: removes its directory last, if everything is gone"); RM = 1; RMOK = nondet_bool(); return RMOK; }
int main(void) {
  int ret = urkel_store_destroy("x");
  ASSERT_(ret == (RM && RMOK), "destroy: succeeds only when the directory is gone");
  ASSERT_(!HELD, "destroy: the lock is given back");
  if (!LOCKOK) ASSERT_(NUNL == 0 && !RM && !LOCKGONE, "destroy: does nothing without the lock");
  REACH("destroy");
}
#endif
