/* Contracts of store.c, enforced on the real bodies. The file layer, the node
 * codec and the hash are known by their contracts only (stubs below); static
 * functions of store.c that another job proves are replaced by their contract
 * (vf/jobs_store.py lists which). */
#define VF_DEFINE_ABORT
#ifdef OP_history
#include <string.h>
int vf_memcmp(const void *a, const void *b, size_t n);
#define memcmp vf_memcmp
#endif
#include "store.c"
#include "vf.h"
#ifdef OP_history
#undef memcmp
int vf_memcmp(const void *a, const void *b, size_t n) { ASSERT_(n == 32, "hashes are compared whole"); return LD(a) == LD(b) ? 0 : 1; }
#define memcmp vf_memcmp
#endif

urkel_node_t nondet_node(void);
urkel_meta_t nondet_meta(void);
int __urkel_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }

/* --- dependencies by contract --------------------------------------------- */
static _Bool NEED_HASH_RAW;
void urkel_hash_raw(unsigned char *out, const void *key, size_t size) {
  ASSERT_(size == 32 && __CPROVER_r_ok(key, 32) && __CPROVER_w_ok(out, 32), "hash_raw: 32 bytes in and out");
  ST(out, nondet_u256());
}
/* 18 bytes and a key go in: a function of both */
u256 __CPROVER_uninterpreted_cka(u256 d, u256 key);
static u256 pack18(const unsigned char *p) {
  uint64_t a, b; uint16_t c;
  memcpy(&a, p, 8); memcpy(&b, p + 8, 8); memcpy(&c, p + 16, 2);
  return ((u256)a << 128) | ((u256)b << 64) | c;
}
unsigned char *urkel_checksum(unsigned char *out, const unsigned char *data, size_t len, const unsigned char *key) {
  ASSERT_(len == 18, "the checksum covers the whole meta record");
  ASSERT_(__CPROVER_w_ok(out, 20), "the checksum fits");
  u256 v = __CPROVER_uninterpreted_cka(pack18(data), *(const u256 *)key);
  memcpy(out, &v, 20);
  return out + 20;
}
static uint32_t SER = 0; static _Bool SERED;
void urkel_serialize_u32(char *out, uint32_t num) {
  ASSERT_(__CPROVER_w_ok(out, 11), "a file name needs eleven bytes");
  memcpy(out, "0123456789", 11);
  SER = num; SERED = 1;
}
uint32_t urkel_murmur3(const unsigned char *data, size_t len, uint32_t seed) {
  ASSERT_(len == 32 && __CPROVER_r_ok(data, 32), "murmur3: hashes of 32 bytes");
  uint32_t h = nondet_u32(); return h;
}

/* locks: balanced */
static int LOCKED; /* 0 free, 1 read, 2 write */
#ifndef NO_LOCKS
static char LOCKMEM;
urkel_rwlock_t *urkel_rwlock_create(void) { return (urkel_rwlock_t *)&LOCKMEM; }
void urkel_rwlock_destroy(urkel_rwlock_t *l) { ASSERT_(l == (urkel_rwlock_t *)&LOCKMEM && !LOCKED, "rwlock: destroyed when free"); }
void urkel_rwlock_wrlock(urkel_rwlock_t *l) { ASSERT_(!LOCKED, "rwlock: not held twice"); LOCKED = 2; }
void urkel_rwlock_wrunlock(urkel_rwlock_t *l) { ASSERT_(LOCKED == 2, "rwlock: write lock held"); LOCKED = 0; }
void urkel_rwlock_rdlock(urkel_rwlock_t *l) { ASSERT_(!LOCKED, "rwlock: not held twice"); LOCKED = 1; }
void urkel_rwlock_rdunlock(urkel_rwlock_t *l) { ASSERT_(LOCKED == 1, "rwlock: read lock held"); LOCKED = 0; }
#endif

/* ======================================================================== */
#ifdef OP_slabwrite
int main(void) {
  urkel_slab_t s;
  size_t len = nondet_size(), k = nondet_size(), j = nondet_size(), q = nondet_size();
  ASSUME(len <= 4096);
  unsigned char *in = malloc(len + 1);
  s.data_size = nondet_size(); s.data_len = nondet_size(); s.data_off = nondet_size();
  s.offsets_len = nondet_size(); s.steps = nondet_size(); s.start = nondet_size();
  s.file_pos = nondet_u64(); s.file_index = nondet_u32();
  ASSUME(s.data_size <= ((size_t)1 << 40) && s.data_len <= s.data_size && s.data_off <= s.data_len);
  ASSUME(s.file_pos <= MAX_FILE_SIZE && s.data_off <= s.file_pos && s.file_index < MAX_FILES);
  ASSUME(s.offsets_len <= 100000 && s.steps <= s.offsets_len && s.start <= s.steps);
  if (nondet_bool()) { s.data = NULL; ASSUME(s.data_size == 0); } else { ASSUME(s.data_size > 0); s.data = malloc(s.data_size); }
  if (s.offsets_len == 0) s.offsets = NULL; else s.offsets = malloc((s.offsets_len + 1) * sizeof(size_t));
  urkel_slab_t o = s;
  unsigned char kb = k < s.data_len ? s.data[k] : 0, jb = j < len ? in[j] : 0;
  size_t qb = q < s.steps ? s.offsets[q] : 0;
  _Bool roll = s.file_pos + len > MAX_FILE_SIZE;
  urkel_slab_write(&s, in, len);
  ASSERT_(s.data_len == o.data_len + len && s.data_size >= s.data_len, "slab_write: all bytes are kept");
  if (k < o.data_len) ASSERT_(s.data[k] == kb, "slab_write: earlier bytes stay");
  if (j < len) ASSERT_(s.data[o.data_len + j] == jb, "slab_write: the bytes follow in order");
  if (q < o.steps) ASSERT_(s.offsets[q] == qb, "slab_write: earlier pieces stay");
  ASSERT_(s.start == o.start, "slab_write: flushing position stays");
  if (roll) {
    ASSERT_(s.steps == o.steps + 1 && s.offsets[o.steps] == o.data_off, "slab_write: a full file closes its piece");
    ASSERT_(s.data_off == len && s.file_pos == len && s.file_index == o.file_index + 1, "slab_write: the bytes start the next file");
  } else {
    ASSERT_(s.steps == o.steps && s.data_off == o.data_off + len && s.file_pos == o.file_pos + len && s.file_index == o.file_index, "slab_write: the bytes extend the current file");
  }
  ASSERT_(s.steps <= s.offsets_len && __CPROVER_rw_ok(s.offsets, (s.offsets_len + 1) * sizeof(size_t)), "slab_write: room for one more piece");
  ASSERT_(s.file_pos <= MAX_FILE_SIZE && s.data_off <= s.file_pos, "slab_write: a file stays within its limit");
  if (len > 0) ASSERT_(s.data != NULL, "slab_write: data present");
  free(in); free(s.data); free(s.offsets);
  REACH("slab_write");
}
#endif

#ifdef OP_flush
#ifndef PIECES
#define PIECES 5
#endif
static data_store_t *S; static unsigned char *BASE_; static size_t OFF[PIECES + 1], SUM[PIECES + 2]; static size_t NEXT; static _Bool FAILED;
static unsigned WROTE;
int stub_write(data_store_t *store, const unsigned char *data, size_t size) {
  ASSERT_(store == S && !FAILED, "flush: stops at the first failure");
  ASSERT_(NEXT <= S->slab.steps, "flush: no more pieces than recorded");
  ASSERT_(data == BASE_ + SUM[NEXT], "flush: each piece follows the one before");
  ASSERT_(size == OFF[NEXT], "flush: each piece is written whole");
  if (nondet_bool()) { FAILED = 1; return 0; }
  NEXT++; WROTE++;
  return 1;
}
int main(void) {
  S = malloc(sizeof(*S));
  urkel_slab_t *s = &S->slab;
  ASSUME(s->steps < PIECES && s->start <= s->steps);
  s->offsets = malloc((PIECES + 1) * sizeof(size_t));
  s->offsets_len = PIECES;
  size_t total = 0;
  SUM[0] = 0;
  for (size_t i = 0; i < PIECES; i++) {
    if (i < s->steps) ASSUME(s->offsets[i] <= MAX_FILE_SIZE);
    OFF[i] = i < s->steps ? s->offsets[i] : s->data_off;
    ASSUME(OFF[i] <= MAX_FILE_SIZE);
    SUM[i + 1] = SUM[i] + OFF[i];
    if (i == s->steps) total = SUM[i + 1];
  }
  ASSUME(s->data_len == total && s->data_size == total);
  s->data = BASE_ = malloc(total);
  urkel_slab_t o = *s;
  NEXT = s->start;
  int ret = urkel_store_flush(S);
  ASSERT_(ret == !FAILED, "flush: reports whether everything was written");
  ASSERT_(s->file_pos == o.file_pos && s->file_index == o.file_index && s->data == o.data && s->offsets == o.offsets && s->offsets_len == o.offsets_len && s->data_size == o.data_size, "flush: positions stay");
  if (ret) {
    ASSERT_(NEXT == o.steps + 1, "flush: every piece is written, once");
    ASSERT_(s->data_len == 0 && s->data_off == 0 && s->steps == 0 && s->start == 0, "flush: the buffer is empty afterwards");
  } else {
    ASSERT_(s->start == NEXT, "flush: a later flush goes on with the piece that failed");
    ASSERT_(s->steps == o.steps && s->data_len == o.data_len && s->data_off == o.data_off, "flush: a failed flush keeps everything buffered");
    size_t q = nondet_size();
    if (q < o.steps) ASSERT_(s->offsets[q] == OFF[q], "flush: a failed flush keeps the pieces");
  }
  free(s->data); free(s->offsets); free(S);
  REACH("flush");
}
#endif

#ifdef OP_storewrite
static data_store_t *S; static urkel_file_t *CUR, *NXT; static uint32_t IDX; static uint64_t CS;
static _Bool OPENED, SYNCED, CLOSED, WRITTEN, WFAIL; static const unsigned char *D; static size_t N;
urkel_file_t *stub_open(data_store_t *store, uint32_t index, int flags) {
  ASSERT_(index == IDX + 1 && flags == WRITE_FLAGS, "write: rolls over to the next file, opened for appending");
  ASSERT_(!OPENED && !CLOSED, "write: opens the next file once");
  if (nondet_bool()) return NULL;
  OPENED = 1;
  NXT = malloc(sizeof(*NXT));
  NXT->index = index; NXT->size = 0;
  return NXT;
}
void stub_close(data_store_t *store, uint32_t index) {
  ASSERT_(index == IDX && OPENED && SYNCED && !CLOSED, "write: only the full file is closed, once, after it is synced");
  CLOSED = 1;
  if (store->current == CUR) { store->current = &urkel_null_file; store->index = 0; }
  free(CUR);
}
int urkel_file_datasync(const urkel_file_t *f) {
  ASSERT_(f == CUR && !CLOSED, "write: syncs the file it leaves");
  if (nondet_bool()) return 0;
  SYNCED = 1;
  return 1;
}
int urkel_file_write(urkel_file_t *f, const void *src, size_t len) {
  ASSERT_(f == (CLOSED ? NXT : CUR) && f == S->current, "write: goes to the current file");
  ASSERT_(src == D && len == N && !WRITTEN, "write: all bytes, once");
  ASSERT_(f->size + len <= MAX_FILE_SIZE, "write: a file stays within its limit");
  ASSERT_(f == NXT || CS + N <= MAX_FILE_SIZE, "write: stays in a file with room");
  WRITTEN = 1;
  if (nondet_bool()) { WFAIL = 1; return 0; }
  f->size += len;
  return 1;
}
int main(void) {
  S = malloc(sizeof(*S)); CUR = malloc(sizeof(*CUR));
  S->current = CUR; IDX = S->index; CUR->index = IDX; CS = CUR->size; N = nondet_size();
  ASSUME(IDX >= 1 && IDX < MAX_FILES && CS <= MAX_FILE_SIZE && N <= MAX_FILE_SIZE);
  D = malloc(N);
  int ret = urkel_store_write(S, D, N);
  ASSERT_(ret == (WRITTEN && !WFAIL), "write: reports whether the bytes were written");
  ASSERT_(CLOSED ? S->current == NXT && S->index == IDX + 1 : S->current == CUR && S->index == IDX, "write: the current file and its number agree");
  ASSERT_(CLOSED == (CS + N > MAX_FILE_SIZE && OPENED && SYNCED), "write: rolls over exactly when the file is full");
  REACH("write");
}
#endif

#ifdef OP_writemeta
static data_store_t *S; static unsigned NW; static unsigned char RAW[META_SIZE]; static _Bool LAST;
static uint32_t RI; static uint64_t RP; static _Bool PADDED;
void stub_slab_write(urkel_slab_t *slab, const unsigned char *data, size_t len) {
  ASSERT_(slab == &S->slab && len <= META_SIZE && __CPROVER_r_ok(data, len), "meta: within the buffer");
  if (slab->file_pos + len > MAX_FILE_SIZE) { slab->file_pos = 0; slab->file_index += 1; }
  RI = slab->file_index; RP = slab->file_pos;
  slab->file_pos += len;
  LAST = (len == META_SIZE);
  if (LAST) memcpy(RAW, data, META_SIZE);
  else { size_t i = nondet_size(); PADDED = 1; if (i < len) ASSERT_(data[i] == 0, "meta: padding is zero"); }
  NW++;
}
int main(void) {
  S = malloc(sizeof(*S));
  urkel_node_t root; urkel_meta_t st, chk, old;
  ASSUME(S->slab.file_pos <= MAX_FILE_SIZE && S->slab.file_index >= 1 && S->slab.file_index < MAX_FILES - 4);
  ASSUME(root.type <= 3 && root.flags <= 15 && (root.flags & URKEL_FLAG_WRITTEN) && (root.flags & URKEL_FLAG_HASHED));
  ASSUME(root.ptr.index <= 0x7fff && root.ptr.pos <= 0x7fffffff && root.ptr.size <= 0x3ff);
  if (root.type == URKEL_NODE_NULL) ASSUME(root.ptr.index == 0 && root.ptr.pos == 0 && root.ptr.size == 0 && LD(root.hash) == 0);
  ASSUME(S->state.meta_ptr.index <= 0x7fff && S->state.meta_ptr.pos <= 0x7fffffff && S->state.meta_ptr.size <= 0x3ff);
  old = S->state;
  uint64_t pos0 = S->slab.file_pos; uint32_t idx0 = S->slab.file_index;
  urkel_store_write_meta(S, &st, &root);
  ASSERT_(LAST, "meta: the record comes last");
  ASSERT_(RP % META_SIZE == 0, "meta: the record starts at a multiple of its size");
  ASSERT_(st.meta_ptr.index == RI && st.meta_ptr.pos == RP, "meta: the new state knows where its record is");
  ASSERT_(S->slab.file_pos == RP + META_SIZE && S->slab.file_index == RI && S->slab.file_pos <= MAX_FILE_SIZE, "meta: nothing follows the record");
  ASSERT_(RI > idx0 || (RI == idx0 && RP >= pos0), "meta: written after all nodes");
  ASSERT_(RI <= idx0 + 1, "meta: at most one new file");
  ASSERT_(urkel_meta_read(&chk, RAW, S->key), "meta: the record carries a valid checksum");
  ASSERT_(chk.root_ptr.index == root.ptr.index && chk.root_ptr.pos == root.ptr.pos && chk.root_ptr.size == root.ptr.size, "meta: the record names the root");
  ASSERT_(chk.meta_ptr.index == old.meta_ptr.index && chk.meta_ptr.pos == old.meta_ptr.pos, "meta: the record names the commit before it");
  ASSERT_(st.root_ptr.index == root.ptr.index && st.root_ptr.pos == root.ptr.pos && st.root_ptr.size == root.ptr.size, "meta: the new state names the root");
  ASSERT_(LD(st.root_node.hash) == LD(root.hash) && st.root_node.type == (root.type == URKEL_NODE_NULL ? URKEL_NODE_NULL : URKEL_NODE_HASH), "meta: the new state holds the root hash");
  ASSERT_(st.root_node.ptr.index == root.ptr.index && st.root_node.ptr.pos == root.ptr.pos, "meta: the root can be loaded");
  ASSERT_(S->state.meta_ptr.index == old.meta_ptr.index && S->state.meta_ptr.pos == old.meta_ptr.pos && LD(S->state.root_node.hash) == LD(old.root_node.hash) && S->state.root_ptr.pos == old.root_ptr.pos, "meta: the committed state is not touched yet");
  REACH("meta");
}
#endif

#ifdef OP_commit
static data_store_t *S; static urkel_meta_t NEWST; static const urkel_node_t *R; static urkel_meta_t OLD;
static int PH; static _Bool FOK, SOK, CACHED; static u256 CK;
static int same(const urkel_meta_t *a, const urkel_meta_t *b) {
  return a->meta_ptr.index == b->meta_ptr.index && a->meta_ptr.pos == b->meta_ptr.pos && a->root_ptr.index == b->root_ptr.index && a->root_ptr.pos == b->root_ptr.pos &&
         a->root_ptr.size == b->root_ptr.size && a->root_node.type == b->root_node.type && LD(a->root_node.hash) == LD(b->root_node.hash) && a->root_node.ptr.pos == b->root_node.ptr.pos;
}
void stub_write_meta(data_store_t *store, urkel_meta_t *state, const urkel_node_t *root) {
  ASSERT_(PH == 0 && root == R, "commit: writes one record, for the given root");
  PH = 1; *state = NEWST;
}
int stub_flush(data_store_t *store) {
  ASSERT_(PH == 1 && same(&S->state, &OLD), "commit: flushes before the new state counts");
  PH = 2; FOK = nondet_bool(); return FOK;
}
int stub_cache_insert(urkel_cache_t *c, const urkel_node_t *node) {
  ASSERT_(FOK && SOK && c == &S->cache, "commit: only a written root is cached");
  ASSERT_(node->type == URKEL_NODE_HASH, "commit: cache holds hash nodes");
  CACHED = 1; CK = LD(node->hash); return nondet_bool();
}
void stub_evict(data_store_t *store) { ASSERT_(PH == 2 && FOK, "commit: evicts after success"); PH = 3; }
int urkel_file_datasync(const urkel_file_t *f) {
  ASSERT_(PH == 2 && FOK && f == S->current, "commit: syncs what was written");
#ifdef URKEL_FSYNC
  SOK = nondet_bool(); return SOK;
#else
  return nondet_bool();
#endif
}
int main(void) {
  urkel_node_t root;
  S = malloc(sizeof(*S)); R = &root; OLD = S->state;
  NEWST = nondet_meta();
  ASSUME(NEWST.root_node.type == URKEL_NODE_NULL || NEWST.root_node.type == URKEL_NODE_HASH);
#ifndef URKEL_FSYNC
  SOK = 1;
#endif
  int ret = urkel_store_commit(S, &root);
  ASSERT_(ret == (FOK && SOK), "commit: succeeds exactly when everything is written");
  if (ret) {
    ASSERT_(same(&S->state, &NEWST), "commit: the new state counts");
    ASSERT_(CACHED == (NEWST.root_node.type != URKEL_NODE_NULL) && (!CACHED || CK == LD(NEWST.root_node.hash)), "commit: the new root is known by its hash");
    ASSERT_(PH == 3, "commit: files over the limit are closed");
  } else ASSERT_(same(&S->state, &OLD) && !CACHED, "commit: a failed commit leaves the committed state");
  REACH("commit");
}
#endif

#ifdef OP_metacodec
int main(void) {
  urkel_meta_t m, out; unsigned char raw[META_SIZE], key[32];
  ASSUME(m.meta_ptr.index <= 0x7fff && m.meta_ptr.pos <= 0x7fffffff && m.meta_ptr.size <= 0x3ff);
  ASSUME(m.root_ptr.index <= 0x7fff && m.root_ptr.pos <= 0x7fffffff && m.root_ptr.size <= 0x3ff);
  unsigned char *end = urkel_meta_write(&m, raw, key);
  ASSERT_(end == raw + META_SIZE, "meta: takes exactly its announced size");
  ASSERT_(urkel_meta_read(&out, raw, key), "meta: what was written is accepted");
  ASSERT_(out.meta_ptr.index == m.meta_ptr.index && out.meta_ptr.pos == m.meta_ptr.pos && out.meta_ptr.size == m.meta_ptr.size, "meta: previous commit round trip");
  ASSERT_(out.root_ptr.index == m.root_ptr.index && out.root_ptr.pos == m.root_ptr.pos && out.root_ptr.size == m.root_ptr.size, "meta: root round trip");
  unsigned char *any = malloc(META_SIZE);
  int ok = urkel_meta_read(&out, any, key);
  u256 v = __CPROVER_uninterpreted_cka(pack18(any), *(const u256 *)key);
  _Bool magic = any[0] == 0x6c && any[1] == 0x6b && any[2] == 0x72 && any[3] == 0x6d;
  ASSERT_(ok == (magic && memcmp(any + 18, &v, 20) == 0), "meta: accepted exactly with magic and checksum");
  free(any);
  REACH("metacodec");
}
#endif

#ifdef OP_read
static data_store_t *S; static urkel_file_t *F; static uint32_t WI; static uint64_t WP; static size_t WS; static unsigned char *WO; static unsigned NREAD; static _Bool OKREAD, OKOPEN;
urkel_file_t *stub_open(data_store_t *store, uint32_t index, int flags) {
  ASSERT_(index == WI && flags == READ_FLAGS, "read: opens the recorded file, for reading");
  OKOPEN = nondet_bool();
  return OKOPEN ? F : NULL;
}
int urkel_file_pread(const urkel_file_t *f, void *dst, size_t len, uint64_t pos) {
  ASSERT_(f == F && pos == WP && len == WS, "read: exactly the recorded bytes");
  ASSERT_(__CPROVER_w_ok(dst, len), "read: the buffer holds them");
  NREAD++;
  OKREAD = nondet_bool();
  if (OKREAD && len > 0) { size_t i = nondet_size(); ASSUME(i < len); ((unsigned char *)dst)[i] = nondet_uchar(); }
  return OKREAD;
}
int main(void) {
  S = malloc(sizeof(*S)); F = malloc(sizeof(*F));
  WI = nondet_u32(); WP = nondet_u64(); WS = nondet_size(); ASSUME(WS <= 2000);
  WO = malloc(WS);
  int ret = urkel_store_read(S, WO, WS, WI, WP);
  ASSERT_(ret == (OKOPEN && OKREAD), "read: reports whether the bytes were read");
  REACH("read");
}
#endif

#ifdef OP_load
/* read_node, resolve, retrieve, read_meta over the contract of read */
static data_store_t *S; static urkel_pointer_t P; static _Bool RDOK, DECOK, DONE; static unsigned char *WANT_OUT; static urkel_node_t GOT;
int stub_read(data_store_t *store, unsigned char *out, size_t size, uint32_t index, uint64_t pos) {
  ASSERT_(store == S && size == P.size && index == P.index && pos == P.pos, "load: reads at the pointer");
  ASSERT_(__CPROVER_w_ok(out, size), "load: fits its buffer");
  ASSERT_(!DONE, "load: reads once");
  DONE = 1; RDOK = nondet_bool();
  return RDOK;
}
int urkel_node_read(urkel_node_t *node, const unsigned char *data, size_t len) {
  ASSERT_(RDOK && len == P.size, "load: decodes exactly what was read");
  DECOK = nondet_bool();
  if (DECOK) { *node = GOT; }
  return DECOK;
}
int main(void) {
  S = malloc(sizeof(*S));
  P.index = nondet_u32(); P.pos = nondet_u64(); P.size = nondet_size();
  GOT = nondet_node();
  ASSUME(GOT.type == URKEL_NODE_INTERNAL || GOT.type == URKEL_NODE_LEAF);
  ASSUME(GOT.flags <= 15);
#if LOAD == 0
  urkel_node_t out;
  int ret = urkel_store_read_node(S, &out, &P);
  ASSERT_(ret == (P.size > 0 && P.size <= 113 && DONE && RDOK && DECOK), "read_node: reports whether a node was decoded");
  if (ret) {
    ASSERT_(out.ptr.index == P.index && out.ptr.pos == P.pos && out.ptr.size == P.size, "read_node: the node remembers where it is");
    ASSERT_(out.flags == (GOT.flags | URKEL_FLAG_WRITTEN) && out.type == GOT.type, "read_node: it is known to be on disk");
  }
#elif LOAD == 1
  urkel_node_t h;
  h.type = URKEL_NODE_HASH; h.ptr = P;
  urkel_node_t h0 = h;
  urkel_node_t *out = urkel_store_resolve(S, &h);
  if (out != NULL) {
    ASSERT_(RDOK && DECOK && out->type == GOT.type, "resolve: gives the node at the pointer");
    ASSERT_(LD(out->hash) == LD(h0.hash) && (out->flags & URKEL_FLAG_HASHED), "resolve: the node has the hash it is known by");
    ASSERT_(out->ptr.index == P.index && out->ptr.pos == P.pos && out->ptr.size == P.size && (out->flags & URKEL_FLAG_WRITTEN), "resolve: the node is on disk at its pointer");
    free(out);
  } else ASSERT_(!(DONE && RDOK && DECOK), "resolve: a readable node is found");
  ASSERT_(h.type == URKEL_NODE_HASH && LD(h.hash) == LD(h0.hash), "resolve: its argument stays");
#elif LOAD == 2
  urkel_node_t n; unsigned char out[1023]; size_t size = nondet_size(), size0 = size;
  n.type = URKEL_NODE_LEAF; n.u.leaf.vptr = P;
  unsigned char *v = NULL; size_t i = nondet_size(); unsigned char b = 0;
  ASSUME(n.flags <= 15 && (n.flags & (URKEL_FLAG_VALUE | URKEL_FLAG_SAVED)));
  if (n.flags & URKEL_FLAG_VALUE) {
    ASSUME(n.u.leaf.size <= URKEL_VALUE_SIZE);
    v = n.u.leaf.size ? malloc(n.u.leaf.size) : NULL; n.u.leaf.value = v;
    if (i < n.u.leaf.size) b = v[i];
  }
  int ret = urkel_store_retrieve(S, &n, out, &size);
  if (n.flags & URKEL_FLAG_VALUE) {
    ASSERT_(ret && !DONE && size == n.u.leaf.size && (i >= size || out[i] == b), "retrieve: a value in memory is given whole");
  } else {
    ASSERT_(ret == (P.size <= 1023 && DONE && RDOK), "retrieve: reports whether the value was read");
    if (ret) ASSERT_(size == P.size, "retrieve: the value has its recorded size");
  }
  free(v);
#elif LOAD == 3
  urkel_meta_t m;
  urkel_pointer_t q = P;
  P.size = META_SIZE;
  int ret = urkel_store_read_meta(S, &m, &q);
  ASSERT_(!ret || (DONE && RDOK), "read_meta: only what was read");
#endif
  free(S);
  REACH("load");
}
#endif

#ifdef OP_readroot
static data_store_t *S; static urkel_pointer_t P; static _Bool RN, RV, CLEARED; static urkel_node_t *NODE; static urkel_node_t GOT; static unsigned char VB; static size_t VS, VI; static _Bool STORED, HASHED_;
u256 HV; static _Bool CACHED; static void *TMP;
int stub_read_node(data_store_t *store, urkel_node_t *out, const urkel_pointer_t *ptr) {
  ASSERT_(store == S && ptr->index == P.index && ptr->pos == P.pos && ptr->size == P.size, "read_root: reads the root's pointer");
  RN = nondet_bool();
  if (RN) { *out = GOT; out->ptr = P; out->flags |= URKEL_FLAG_WRITTEN; }
  return RN;
}
int stub_retrieve(data_store_t *store, const urkel_node_t *node, unsigned char *out, size_t *size) {
  ASSERT_(node->type == URKEL_NODE_LEAF && RN, "read_root: loads the value of a root leaf");
  RV = nondet_bool();
  if (RV) { *size = VS; if (VI < VS) out[VI] = VB; }
  return RV;
}
void urkel_node_store(urkel_node_t *node, const unsigned char *data, size_t size) {
  ASSERT_(RV && size == VS && (VI >= VS || data[VI] == VB), "read_root: the leaf gets its own value");
  STORED = 1; TMP = malloc(1); node->u.leaf.value = TMP;
}
const unsigned char *urkel_node_hash(urkel_node_t *node) {
  ASSERT_(node->type == GOT.type && !(node->flags & URKEL_FLAG_HASHED), "read_root: the root hash is computed, not believed");
  ASSERT_(node->type != URKEL_NODE_LEAF || STORED, "read_root: a leaf is hashed with its value");
  HASHED_ = 1; ST(node->hash, HV); node->flags |= URKEL_FLAG_HASHED; NODE = node;
  return node->hash;
}
void urkel_node_to_hash(const urkel_node_t *node, urkel_node_t *out) {
  ASSERT_(HASHED_, "read_root: hashed first");
  memcpy(out->hash, node->hash, 32); out->type = URKEL_NODE_HASH; out->ptr = node->ptr; out->flags = URKEL_FLAG_HASHED | URKEL_FLAG_WRITTEN;
}
void urkel_node_clear(urkel_node_t *node) { CLEARED = 1; if (TMP) { free(TMP); TMP = NULL; } }
void urkel_node_init(urkel_node_t *node, unsigned type) { node->type = type; node->flags = 3; ST(node->hash, 0); }
int stub_cache_insert(urkel_cache_t *c, const urkel_node_t *node) {
  ASSERT_(c == &S->cache && node->type == URKEL_NODE_HASH && LD(node->hash) == HV, "read_root: caches the root under its hash");
  CACHED = 1; return nondet_bool();
}
int main(void) {
  S = malloc(sizeof(*S));
  urkel_node_t out; 
  P.index = nondet_u32(); P.pos = nondet_u64(); P.size = nondet_size(); VS = nondet_size(); VI = nondet_size(); VB = nondet_uchar(); HV = nondet_u256();
  ASSUME(VS <= 1023);
  GOT = nondet_node();
  ASSUME(GOT.type == URKEL_NODE_INTERNAL || GOT.type == URKEL_NODE_LEAF);
  ASSUME((GOT.flags & ~12u) == 0);
  int ret = urkel_store_read_root(S, &out, &P);
  if (P.index == 0) ASSERT_(ret && out.type == URKEL_NODE_NULL && LD(out.hash) == 0, "read_root: no pointer is the empty tree");
  else {
    ASSERT_(ret == (RN && (GOT.type != URKEL_NODE_LEAF || RV)), "read_root: reports whether the root could be read");
    if (ret) {
      ASSERT_(out.type == URKEL_NODE_HASH && LD(out.hash) == HV && out.ptr.index == P.index && out.ptr.pos == P.pos && out.ptr.size == P.size, "read_root: the root by hash and place");
      ASSERT_(CACHED && CLEARED, "read_root: remembered, nothing left behind");
    } else ASSERT_(!CACHED, "read_root: nothing remembered on failure");
  }
  ASSERT_(TMP == NULL, "read_root: frees the value");
  free(S);
  REACH("readroot");
}
#endif

#ifdef OP_history
/* The chain of commits: record i+1 is the one before record i. Its length,
 * roots and readability are arbitrary. */
static data_store_t *S; static u256 WANT; static uint32_t AT; static _Bool MOK, ROK; static urkel_meta_t CURM; static u256 CURH;
static _Bool CHIT; static u256 CROOT; static urkel_pointer_t GPTR; static _Bool PENDING, BADREAD; static unsigned STEPS;
int stub_cache_lookup(urkel_cache_t *c, urkel_node_t *out, const unsigned char *hash) {
  ASSERT_(c == &S->cache && LD(hash) == WANT, "history: looks the wanted root up");
  CHIT = nondet_bool();
  if (CHIT) { out->type = URKEL_NODE_HASH; ST(out->hash, WANT); }
  return CHIT;
}
int stub_read_meta(data_store_t *store, urkel_meta_t *meta, const urkel_pointer_t *ptr) {
  ASSERT_(ptr->index != 0 && !BADREAD, "history: stops at the end of the chain and at a failure");
  ASSERT_(ptr->index == S->last_meta.meta_ptr.index && ptr->pos == S->last_meta.meta_ptr.pos, "history: reads the next older record");
  PENDING = nondet_bool();
  if (PENDING) {
    meta->meta_ptr.index = nondet_u32(); meta->meta_ptr.pos = nondet_u64(); meta->root_ptr.index = nondet_u32(); meta->root_ptr.pos = nondet_u64();
    CURM = *meta;
  } else BADREAD = 1;
  return PENDING;
}
int stub_read_root(data_store_t *store, urkel_node_t *out, const urkel_pointer_t *ptr) {
  ASSERT_(PENDING, "history: a root comes from a record");
  ASSERT_(ptr->index == CURM.root_ptr.index && ptr->pos == CURM.root_ptr.pos, "history: reads the root the record names");
  _Bool ok = nondet_bool();
  if (ok) { out->type = nondet_bool() ? URKEL_NODE_HASH : URKEL_NODE_NULL; CURH = nondet_u256(); ST(out->hash, CURH); GPTR.index = out->ptr.index = ptr->index; GPTR.pos = out->ptr.pos = ptr->pos; }
  else BADREAD = 1;
  return ok;
}
void urkel_node_init(urkel_node_t *node, unsigned type) { node->type = type; node->flags = 3; ST(node->hash, 0); node->ptr.index = 0; }
int main(void) {
  S = malloc(sizeof(*S));
  ASSUME(S != NULL);
  urkel_node_t root; unsigned char h[32];
  MOK = 0; CHIT = 0; PENDING = 0; BADREAD = 0; GPTR.index = 0; GPTR.pos = 0;
  WANT = nondet_u256(); ST(h, WANT); CURH = ~WANT;
  u256 st = LD(S->state.root_node.hash); unsigned sty = S->state.root_node.type; uint32_t si = S->state.root_node.ptr.index; uint64_t sp = S->state.root_node.ptr.pos;
  uint32_t mi = S->state.meta_ptr.index; uint64_t mp = S->state.meta_ptr.pos;
  int ret = urkel_store_read_history(S, &root, h);
  if (ret) {
    ASSERT_(LD(root.hash) == WANT, "history: the root found is the root asked for");
    if (WANT == 0) ASSERT_(root.type == URKEL_NODE_NULL, "history: the zero root is the empty tree");
    else if (WANT == st) ASSERT_(root.type == sty && root.ptr.index == si && root.ptr.pos == sp, "history: the committed root");
    else ASSERT_(CHIT || (CURH == WANT && root.ptr.index == GPTR.index && root.ptr.pos == GPTR.pos && !BADREAD), "history: only roots in memory or in the chain");
  } else {
    ASSERT_(WANT != 0 && WANT != st && !CHIT, "history: known roots are found");
    ASSERT_(BADREAD || S->last_meta.meta_ptr.index == 0, "history: refused only at the end of the chain or when unreadable");
  }
  ASSERT_(LD(S->state.root_node.hash) == st && S->state.meta_ptr.index == mi && S->state.meta_ptr.pos == mp, "history: looking back changes no committed state");
  REACH("history");
}
#endif

#ifdef OP_gethistory
static data_store_t *S; static _Bool HOK; static _Bool CLEARED; static urkel_node_t GOT;
int stub_read_history(data_store_t *store, urkel_node_t *root, const unsigned char *hash) { HOK = nondet_bool(); if (HOK) *root = GOT; return HOK; }
void urkel_node_clear(urkel_node_t *n) { ASSERT_(HOK, "has_history: clears only what it was given"); CLEARED = 1; }
int main(void) {
  S = malloc(sizeof(*S)); unsigned char h[32];
  GOT = nondet_node();
  if (nondet_bool()) { int r = urkel_store_has_history(S, h); ASSERT_((r != 0) == HOK, "has_history: as read_history says"); }
  else {
    urkel_node_t *n = urkel_store_get_history(S, h);
    ASSERT_((n != NULL) == HOK, "get_history: as read_history says");
    if (n) { ASSERT_(n->type == GOT.type && LD(n->hash) == LD(GOT.hash) && n->ptr.pos == GOT.ptr.pos, "get_history: gives that root"); free(n); }
  }
  urkel_node_t *g = urkel_store_get_root(S);
  ASSERT_(g->type == S->state.root_node.type && LD(g->hash) == LD(S->state.root_node.hash) && g->ptr.index == S->state.root_node.ptr.index && g->ptr.pos == S->state.root_node.ptr.pos && g->flags == S->state.root_node.flags, "get_root: a copy of the committed root");
  ASSERT_(urkel_store_root_hash(S) == S->state.root_node.hash, "root_hash: the committed hash");
  free(g);
  ASSERT_((urkel_store_needs_flush(S) != 0) == (S->slab.data_len >= WRITE_BUFFER), "needs_flush: buffer limit");
  free(S);
  REACH("gethistory");
}
#endif

#ifdef OP_writenode
static data_store_t *S; static urkel_node_t *ND_; static unsigned NW; static unsigned char MARK; static size_t SZ; static const void *VAL; static uint32_t LI; static uint64_t LP;
void stub_slab_write(urkel_slab_t *slab, const unsigned char *data, size_t len) {
  ASSERT_(slab == &S->slab && NW == 0, "write: into the buffer, once");
  ASSERT_(len == SZ && (len == 0 || __CPROVER_r_ok(data, len)), "write: exactly the encoded bytes");
#if WHAT == 0
  ASSERT_(data[0] == MARK, "write: the encoding of this node");
#else
  ASSERT_(data == VAL, "write: the value of this leaf");
#endif
  if (slab->file_pos + len > MAX_FILE_SIZE) { slab->file_pos = 0; slab->file_index += 1; }
  LI = slab->file_index; LP = slab->file_pos;
  slab->file_pos += len;
  NW++;
}
unsigned char *urkel_node_write(const urkel_node_t *node, unsigned char *data) {
  ASSERT_(node == ND_ && __CPROVER_w_ok(data, URKEL_NODE_SIZE), "write_node: room for any node");
  data[0] = MARK;
  return data + SZ;
}
int main(void) {
  S = malloc(sizeof(*S)); ND_ = malloc(sizeof(*ND_));
  ASSUME(S->slab.file_pos <= MAX_FILE_SIZE && S->slab.file_index >= 1 && S->slab.file_index < MAX_FILES - 1);
  SZ = nondet_size(); MARK = nondet_uchar();
  ASSUME(ND_->flags <= 15);
  urkel_node_t o;
#if WHAT == 0
  ASSUME(SZ >= 1 && SZ <= URKEL_NODE_SIZE);
  ASSUME(ND_->type == URKEL_NODE_INTERNAL || ND_->type == URKEL_NODE_LEAF);
  ASSUME(!(ND_->flags & URKEL_FLAG_WRITTEN));
  o = *ND_;
  urkel_store_write_node(S, ND_);
  ASSERT_(NW == 1 && ND_->ptr.index == LI && ND_->ptr.pos == LP && ND_->ptr.size == SZ, "write_node: the pointer names where the bytes are");
  ASSERT_(ND_->flags == (o.flags | URKEL_FLAG_WRITTEN) && ND_->type == o.type && LD(ND_->hash) == LD(o.hash), "write_node: marked as written, nothing else");
#else
  ASSUME(SZ <= URKEL_VALUE_SIZE);
  ND_->type = URKEL_NODE_LEAF;
  ASSUME((ND_->flags & URKEL_FLAG_VALUE) && !(ND_->flags & URKEL_FLAG_SAVED));
  ND_->u.leaf.size = SZ; VAL = ND_->u.leaf.value = SZ ? malloc(SZ) : NULL;
  o = *ND_;
  urkel_store_write_value(S, ND_);
  ASSERT_(NW == 1 && ND_->u.leaf.vptr.index == LI && ND_->u.leaf.vptr.pos == LP && ND_->u.leaf.vptr.size == SZ, "write_value: the pointer names where the bytes are");
  ASSERT_(ND_->flags == (o.flags | URKEL_FLAG_SAVED) && LD(ND_->u.leaf.key) == LD(o.u.leaf.key) && ND_->u.leaf.value == o.u.leaf.value, "write_value: marked as saved, nothing else");
#endif
  REACH("writenode");
}
#endif
