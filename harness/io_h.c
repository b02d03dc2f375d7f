/* The file layer against a kernel by contract: it may transfer any part of what
 * is asked for, be interrupted any number of times, report end of file or any
 * error. Contents are followed at one arbitrary byte. */
#undef _POSIX_C_SOURCE
#define _GNU_SOURCE
#define VF_DEFINE_ABORT
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <dirent.h>
#ifdef OP_open
int vf_open(const char *name, int flags, unsigned m);
int vf_fcntl(int fd, int cmd);
#define open(n, f, ...) vf_open(n, f, (0u, ##__VA_ARGS__))
#define fcntl(f, c, ...) vf_fcntl(f, c)
#endif
#undef errno
#define errno MYERRNO
int MYERRNO;
#include "io.c"
#include "vf.h"

int64_t nondet_i64(void);
#define MAXLEN 0x7ffff000ul

#if defined(OP_xfer)
/* WHICH: 0 read, 1 write, 2 pread, 3 pwrite */
int FD; size_t L0, GD, WI; unsigned char *BUF; int64_t POS0, FPOS; unsigned char SEENW, W0; _Bool STOPPED, SEEN;
static ssize_t kernel(int fd, unsigned char *buf, size_t n, int64_t pos) {
  ssize_t r = nondet_i64();
  ASSERT_(fd == FD, "transfer: on the file given");
  ASSERT_(!STOPPED, "transfer: nothing more is asked for after an error or the end of the file");
  ASSERT_(GD < L0 && n >= 1 && n <= L0 - GD, "transfer: asks for no more than is left");
  ASSERT_(buf == BUF + GD, "transfer: continues where the last part ended in memory");
  ASSERT_(pos == POS0 + (int64_t)GD, "transfer: continues where the last part ended in the file");
  ASSUME(r >= -1 && (r < 0 || (size_t)r <= n));
  if (r < 0) {
    MYERRNO = nondet_int();
    if (MYERRNO != EINTR && MYERRNO != EAGAIN) STOPPED = 1;
    return r;
  }
  if (r == 0) { STOPPED = 1; return 0; }
  if (WI >= GD && WI < GD + (size_t)r) {
    SEENW = buf[WI - GD]; /* read: where this byte of the file is put; only the kernel writes to the buffer */
    SEEN = 1;
  }
  GD += r; FPOS += r;
  return r;
}
ssize_t read(int fd, void *b, size_t n) { return kernel(fd, b, n, FPOS); }
ssize_t write(int fd, const void *b, size_t n) { return kernel(fd, (unsigned char *)b, n, FPOS); }
ssize_t pread(int fd, void *b, size_t n, off_t pos) { return kernel(fd, b, n, pos); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t pos) { return kernel(fd, (unsigned char *)b, n, pos); }
int main(void) {
  FD = nondet_int(); L0 = nondet_size(); GD = 0; WI = nondet_size(); POS0 = nondet_i64(); STOPPED = 0; SEEN = 0; MYERRNO = 0; FPOS = POS0;
  ASSUME(L0 <= MAXLEN && POS0 >= 0 && POS0 <= 0x7fffffffffff);
  ASSUME(L0 == 0 ? WI == 0 : WI < L0);
  BUF = malloc(L0 + 1);
  unsigned char guard = BUF[L0];
  int r;
  W0 = BUF[WI];
#if WHICH == 0
  r = urkel_fs_read(FD, BUF, L0);
#elif WHICH == 1
  r = urkel_fs_write(FD, BUF, L0);
#elif WHICH == 2
  r = urkel_fs_pread(FD, BUF, L0, POS0);
#else
  r = urkel_fs_pwrite(FD, BUF, L0, POS0);
#endif
  ASSERT_(r == 0 || r == 1, "transfer: yes or no");
  if (r) ASSERT_(GD == L0, "transfer: success means every byte was transferred");
  else ASSERT_(GD < L0 && STOPPED, "transfer: failure only after an error or the end of the file");
  if (r && L0 > 0) {
    ASSERT_(SEEN, "transfer: each byte is transferred");
#if WHICH == 0 || WHICH == 2
    ASSERT_(BUF[WI] == W0, "transfer: the bytes read are those of the file");
#else
    ASSERT_(SEENW == W0, "transfer: the bytes written are those given");
#endif
  }
  ASSERT_(BUF[L0] == guard, "transfer: nothing beyond the buffer is touched");
  REACH("xfer");
}
#endif

#ifdef OP_file
/* One open file as the kernel sees it: descriptor, length, mapping. */
static int FD; static _Bool FDOPEN; static unsigned CLOSES, UNMAPS; static size_t KLEN; static unsigned char *MAPB; static size_t MAPLEN; static _Bool MAPPED;
static _Bool OPENOK, TRUNCFAIL; static const void *SRC; static void *DST; static size_t N, WP, WN; static unsigned WRITES, TRUNCS, PREADS; static int PRET; static const char *NAME; static int OFLAGS; static uint32_t OMODE;
static _Bool WROTE;

int stub_fs_open(const char *name, int flags, uint32_t mode) {
  ASSERT_(name == NAME && flags == OFLAGS && mode == OMODE, "file_open: opens what is asked for");
  ASSERT_(!FDOPEN, "file_open: opens once");
  if (nondet_bool()) return -1;
  FD = nondet_int(); ASSUME(FD >= 0);
  FDOPEN = 1; OPENOK = 1;
  return FD;
}
int fstat(int fd, struct stat *st) {
  ASSERT_(fd == FD && FDOPEN, "file_open: asks the size of the file opened");
  if (nondet_bool()) return -1;
  struct stat s; ASSUME(s.st_size == (off_t)KLEN); *st = s;
  return 0;
}
int close(int fd) {
  ASSERT_(fd == FD && FDOPEN, "file: closes its own descriptor, once");
  FDOPEN = 0; CLOSES++;
  return nondet_bool() ? 0 : -1;
}
void *mmap(void *a, size_t len, int prot, int fl, int fd, off_t off) {
  ASSERT_(a == NULL && prot == PROT_READ && off == 0 && fd == FD && FDOPEN, "file: maps its own descriptor from the start, for reading");
  ASSERT_(len > 0 && len == KLEN, "file: maps the whole file");
  ASSERT_(fl == MAP_SHARED || fl == MAP_PRIVATE, "file: a file mapping");
  ASSERT_(!MAPPED, "file: keeps one mapping at a time");
  if (nondet_bool()) return MAP_FAILED;
  MAPPED = 1; MAPLEN = len; MAPB = malloc(len);
  return MAPB;
}
int munmap(void *b, size_t len) {
  ASSERT_(MAPPED && b == MAPB && len == MAPLEN, "file: unmaps exactly what it mapped, once");
  if (nondet_bool()) return -1;
  MAPPED = 0; UNMAPS++;
  return 0;
}
int stub_fs_write(int fd, const void *src, size_t len) {
  ASSERT_(fd == FD && FDOPEN && src == SRC && len == N, "file_write: writes the bytes given");
  ASSERT_(!WROTE, "file_write: writes once");
  WROTE = 1; WRITES++;
  size_t done = nondet_size();
  if (nondet_bool()) { KLEN += len; return 1; }
  ASSUME(done < len); KLEN += done;
  return 0;
}
int ftruncate(int fd, off_t size) {
  ASSERT_(fd == FD && FDOPEN, "file_write: cuts its own file");
  ASSERT_((size_t)size <= KLEN, "file_write: never lengthens the file");
  TRUNCS++;
  if (nondet_bool()) { TRUNCFAIL = 1; return -1; }
  KLEN = size;
  return 0;
}
int stub_fs_pread(int fd, void *dst, size_t len, int64_t pos) {
  ASSERT_(fd == FD && FDOPEN, "file_pread: reads its own file");
  ASSERT_(dst == DST && len == N && pos == (int64_t)WP, "file_pread: reads the bytes asked for");
  PREADS++;
  PRET = nondet_bool();
  return PRET;
}
int stub_fs_sync(int fd) { ASSERT_(fd == FD && FDOPEN, "file_sync: its own file"); PREADS++; PRET = nondet_bool(); return PRET; }
static urkel_file_t *mk(size_t max) {
  urkel_file_t *f = malloc(sizeof(*f));
  FD = nondet_int(); ASSUME(FD >= 0); FDOPEN = 1; KLEN = nondet_size(); ASSUME(KLEN <= max);
  f->fd = FD; f->size = KLEN; f->base = NULL;
  if (f->mapped && KLEN > 0 && nondet_bool()) { MAPPED = 1; MAPLEN = KLEN; MAPB = malloc(KLEN); f->base = MAPB; }
  return f;
}
static _Bool inv(urkel_file_t *f) { return f->size == KLEN && (MAPPED ? f->base == MAPB && MAPLEN == KLEN : f->base == NULL); }
int main(void) {
  FDOPEN = 0; CLOSES = UNMAPS = 0; KLEN = nondet_size(); MAPPED = 0; OPENOK = 0; WRITES = TRUNCS = PREADS = 0; TRUNCFAIL = 0; WROTE = 0;
#if WHICH == 0
  NAME = malloc(1); OFLAGS = nondet_int(); OMODE = nondet_u32(); ASSUME(KLEN <= 0x7fffffffffff);
  urkel_file_t *f = urkel_file_open(NAME, OFLAGS, OMODE);
  if (f == NULL) { ASSERT_(!FDOPEN && !MAPPED, "file_open: a failure keeps nothing open"); ASSERT_(CLOSES == OPENOK, "file_open: closes once what it opened"); REACH("open failed"); }
  else {
    ASSERT_(OPENOK && inv(f), "file_open: size and mapping are those of the file");
    ASSERT_(f->index == 0 && (f->mapped == 0 || f->mapped == 1), "file_open: fields are set");
    ASSERT_(f->mapped == ((OFLAGS & URKEL_O_MMAP) != 0), "file_open: maps if and only if asked to");
    ASSERT_(FDOPEN ? f->fd == FD : f->fd == -1, "file_open: the descriptor kept is open");
    ASSERT_(FDOPEN || (MAPPED && (OFLAGS & URKEL_O_RDONLY)), "file_open: the descriptor is given up only for a read-only mapping");
    if (f->mapped && KLEN > 0) ASSERT_(MAPPED, "file_open: a non-empty file is mapped");
    REACH("open");
    free(f); 
  }
  if (f && MAPPED) free(MAPB);
  free((void *)NAME);
#elif WHICH == 1
  urkel_file_t *f = mk(PMAX); size_t pos = nondet_size(); N = nondet_size(); WP = pos; size_t i = nondet_size();
  if (nondet_bool() && f->base) { FDOPEN = 0; f->fd = -1; }
  ASSUME(N <= PMAX && i < N);
  DST = malloc(N); unsigned char d0 = ((unsigned char *)DST)[i];
  int r = urkel_file_pread(f, DST, N, pos);
  if (pos > KLEN || N > KLEN - pos) ASSERT_(r == 0 && PREADS == 0, "file_pread: what is not inside the file is a failure");
  else if (MAPPED) ASSERT_(r == 1 && PREADS == 0 && ((unsigned char *)DST)[i] == MAPB[pos + i], "file_pread: the bytes of the mapping");
  else ASSERT_(r == PRET && PREADS == 1, "file_pread: the result of reading the file");
  ASSERT_(inv(f), "file_pread: the file stays as it was");
  REACH("pread");
#elif WHICH == 2
  urkel_file_t *f = mk(0x7fffffff); size_t old = KLEN; unsigned char *om = MAPB; _Bool wasm = MAPPED; N = nondet_size(); ASSUME(N <= 0x7fffffff); int mapped = f->mapped, fd = f->fd;
  SRC = malloc(1);
  int r = urkel_file_write(f, SRC, N);
  ASSERT_(r == 0 || r == 1, "file_write: yes or no");
  if (r) { ASSERT_(KLEN == old + N && WROTE == (N > 0), "file_write: success means the bytes are appended"); ASSERT_(inv(f), "file_write: later reads see all of the file"); }
  else { ASSERT_(N > 0, "file_write: nothing to write is no failure"); ASSERT_(f->size == old, "file_write: a failure leaves the size"); if (!TRUNCFAIL) ASSERT_(KLEN == old && inv(f), "file_write: a failure leaves the file as it was"); ASSERT_(MAPPED ? f->base == MAPB && MAPLEN == old : f->base == NULL, "file_write: the mapping in use after a failure is a real one"); }
  ASSERT_(FDOPEN && f->fd == fd && f->mapped == mapped, "file_write: keeps the descriptor");
  REACH("write"); 
#elif WHICH == 3
  urkel_file_t *f = mk(0x7fffffff); _Bool m = MAPPED, hadfd = 1;
  if (nondet_bool() && f->base) { FDOPEN = 0; f->fd = -1; hadfd = 0; }
  int r = urkel_file_close(f);
  ASSERT_(r == 0 || r == 1, "file_close: yes or no");
  ASSERT_(!FDOPEN && CLOSES == hadfd, "file_close: the descriptor is closed, once");
  if (r) ASSERT_(!MAPPED && UNMAPS == m, "file_close: the mapping is given up, once");
  REACH("close");
  if (m) free(MAPB);
#else
  urkel_file_t *f = mk(0x7fffffff);
  int r = nondet_bool() ? urkel_file_sync(f) : urkel_file_datasync(f);
  ASSERT_(PREADS == 1 && r == PRET && inv(f), "file_sync: passes on the result of synchronising its file");
  REACH("sync");
  if (MAPPED) free(MAPB);
  free(f);
#endif
}
#endif

#ifdef OP_whole
/* urkel_fs_read_file / urkel_fs_write_file / open_lock / close_lock over the contracts of open, read, write, flock, close */
static _Bool STOK, NMOK, SAME; static uint64_t INO1, INO2, DEV1, DEV2;
/* the locked file and the file the name denotes now */
int stub_fs_fstat(int fd, urkel_stat_t *st);
int stub_fs_stat(const char *name, urkel_stat_t *st);
static int FD; static _Bool OPENED, OPEN_, LOCKED; static unsigned OPENS, CLOSES, XF; static const char *NAME; static void *BUF; static size_t N; static int XRET, LRET, WFLAGS; static uint32_t WMODE;
int stub_fs_open(const char *name, int flags, uint32_t mode) {
  ASSERT_(name == NAME && mode == WMODE, "whole file: the file asked for");
  ASSERT_((flags & ~URKEL_O_SEQUENTIAL) == WFLAGS, "whole file: opened for just what is done with it");
  ASSERT_(OPENS == 0, "whole file: opened once"); OPENS++;
  if (nondet_bool()) return -1;
  FD = nondet_int(); ASSUME(FD >= 0); OPENED = OPEN_ = 1; return FD;
}
int stub_fs_close(int fd) { ASSERT_(fd == FD && OPEN_, "whole file: closed once"); OPEN_ = 0; CLOSES++; return nondet_bool(); }
int stub_fs_read(int fd, void *d, size_t n) { ASSERT_(fd == FD && OPEN_ && d == BUF && n == N && XF == 0, "read_file: reads all that is asked for"); XF++; return XRET = nondet_bool(); }
int stub_fs_write(int fd, const void *d, size_t n) { ASSERT_(fd == FD && OPEN_ && d == BUF && n == N && XF == 0, "write_file: writes all that is given"); XF++; return XRET = nondet_bool(); }
int stub_fs_flock(int fd, int op) {
  ASSERT_(fd == FD && OPEN_, "lock: on the open lock file");
#if WHICH == 2
  ASSERT_(op == URKEL_LOCK_EX && !LOCKED, "open_lock: an exclusive lock");
  LRET = nondet_bool(); LOCKED = LRET; return LRET;
#else
  ASSERT_(op == URKEL_LOCK_UN, "close_lock: unlocks"); LOCKED = 0; return nondet_bool();
#endif
}
int stub_fs_fstat(int fd, urkel_stat_t *st) { ASSERT_(fd == FD && OPEN_ && LOCKED, "open_lock: looks at the file it has locked"); STOK = nondet_bool(); st->st_dev = DEV1; st->st_ino = INO1; return STOK; }
int stub_fs_stat(const char *name, urkel_stat_t *st) { ASSERT_(name == NAME && OPEN_ && LOCKED, "open_lock: looks again at what the name denotes, once it has the lock"); NMOK = nondet_bool(); st->st_dev = DEV2; st->st_ino = INO2; return NMOK; }
int main(void) {
  STOK = NMOK = 0; INO1 = nondet_u64(); INO2 = nondet_u64(); DEV1 = nondet_u64(); DEV2 = nondet_u64(); SAME = INO1 == INO2 && DEV1 == DEV2;
  OPENED = OPEN_ = LOCKED = 0; OPENS = CLOSES = XF = 0; XRET = LRET = 0; NAME = malloc(1); BUF = malloc(1); N = nondet_size(); WMODE = nondet_u32();
#if WHICH == 0
  WFLAGS = URKEL_O_RDONLY; WMODE = 0;
  int r = urkel_fs_read_file(NAME, BUF, N);
  ASSERT_(r == (OPENED && XF == 1 && XRET) && !OPEN_ && CLOSES == OPENED, "read_file: success means all was read; always closed");
#elif WHICH == 1
  WFLAGS = URKEL_O_WRONLY | URKEL_O_CREAT | URKEL_O_TRUNC;
  int r = urkel_fs_write_file(NAME, WMODE, BUF, N);
  ASSERT_(r == (OPENED && XF == 1 && XRET) && !OPEN_ && CLOSES == OPENED, "write_file: success means all was written; always closed");
#elif WHICH == 2
  WFLAGS = URKEL_O_RDWR | URKEL_O_CREAT | URKEL_O_TRUNC;
  int r = urkel_fs_open_lock(NAME, WMODE);
  ASSERT_(r == -1 || (r == FD && OPEN_ && LOCKED), "open_lock: the lock is held on success");
  ASSERT_(r != -1 || (!OPEN_ && CLOSES == OPENED), "open_lock: nothing stays open on failure");
  ASSERT_(r == -1 || (STOK && NMOK && SAME), "open_lock: the lock is on the file the name denotes");
  ASSERT_(!(OPENED && LRET && STOK && NMOK && SAME) || r == FD, "open_lock: succeeds when the lock was obtained");
#else
  FD = nondet_int(); ASSUME(FD >= 0); OPEN_ = 1; LOCKED = 1;
  urkel_fs_close_lock(FD);
  ASSERT_(!OPEN_ && CLOSES == 1, "close_lock: closed");
#endif
  REACH("whole");
  free((void *)NAME); free(BUF);
}
#endif

#ifdef OP_small
/* thin wrappers */
static int FD, RET, OPS, FLOP; static int64_t SZ;
int ftruncate(int fd, off_t n) { ASSERT_(fd == FD && n == SZ, "ftruncate: as asked"); OPS++; return RET; }
int fsync(int fd) { ASSERT_(fd == FD, "fsync: as asked"); OPS++; return RET; }
int fdatasync(int fd) { ASSERT_(fd == FD, "fdatasync: as asked"); OPS++; return RET; }
int close(int fd) { ASSERT_(fd == FD, "close: as asked"); OPS++; return RET; }
int main(void) {
  FD = nondet_int(); RET = nondet_int(); OPS = 0; SZ = nondet_i64(); ASSUME(RET == 0 || RET == -1);
  unsigned w = nondet_uint(); int r;
  if (w == 0) r = urkel_fs_ftruncate(FD, SZ); else if (w == 1) r = urkel_fs_fsync(FD); else if (w == 2) r = urkel_fs_fdatasync(FD); else r = urkel_fs_close(FD);
  ASSERT_(OPS == 1 && r == (RET == 0), "wrappers: one call, its result passed on");
  REACH("small");
}
#endif

#ifdef OP_open
/* WHICH 0: urkel_fs__open over open and fcntl; 1: urkel_fs_open over urkel_fs__open */
const char *NAME; int AFLAGS; uint32_t AMODE; int CURFD, NOPEN, GFD; int OOS; uint32_t OMODE_; _Bool CLOX;
static int expect(int f) {
  int o = 0;
  if (f & URKEL_O_WRONLY) o |= O_WRONLY;
  if (f & URKEL_O_RDWR) o |= O_RDWR;
  if (f & URKEL_O_APPEND) o |= O_APPEND;
  if (f & URKEL_O_CREAT) o |= O_CREAT;
  if (f & URKEL_O_EXCL) o |= O_EXCL;
  if (f & URKEL_O_TRUNC) o |= O_TRUNC;
  return o;
}
#if WHICH == 0
int vf_open(const char *name, int flags, unsigned m) {
  ASSERT_(name == NAME, "open: the name given");
  ASSERT_(CURFD == -1, "open: no second open after a success");
  ASSERT_((flags & ~O_CLOEXEC) == expect(AFLAGS), "open: exactly the flags asked for");
  if (flags & O_CREAT) ASSERT_(m == AMODE, "open: created with the mode asked for");
  NOPEN++;
  int fd = nondet_int(); ASSUME(fd >= -1);
  if (fd == -1) MYERRNO = nondet_int();
  CURFD = fd; CLOX = (flags & O_CLOEXEC) != 0;
  return fd;
}
int vf_fcntl(int fd, int cmd) {
  ASSERT_(fd == CURFD && fd != -1 && (cmd == F_GETFD || cmd == F_SETFD), "open: only marks its own descriptor");
  int r = nondet_int(); ASSUME(r >= -1); if (r == -1) MYERRNO = nondet_int();
  return r;
}
#endif
int stub__open(const char *name, int flags, uint32_t mode) {
  ASSERT_(name == NAME && flags == AFLAGS && mode == AMODE, "open: passes on what is asked for");
  ASSERT_(CURFD == -1 && (NOPEN == 0 || MYERRNO == EINTR), "open: tries again only when interrupted");
  NOPEN = 1;
  int fd = nondet_int(); ASSUME(fd >= -1); if (fd == -1) MYERRNO = nondet_int();
  CURFD = fd; return fd;
}
int main(void) {
  NAME = malloc(1); AFLAGS = nondet_int(); AMODE = nondet_u32(); CURFD = -1; NOPEN = 0; MYERRNO = 0; CLOX = 0;
  ASSUME((AFLAGS & ~(URKEL_O_RDONLY | URKEL_O_WRONLY | URKEL_O_RDWR | URKEL_O_APPEND | URKEL_O_CREAT | URKEL_O_EXCL | URKEL_O_TRUNC | URKEL_O_SEQUENTIAL | URKEL_O_RANDOM | URKEL_O_MMAP)) == 0);
  ASSUME((AMODE & ~0777u) == 0);
  int a = AFLAGS & (URKEL_O_RDONLY | URKEL_O_WRONLY | URKEL_O_RDWR); ASSUME(a == URKEL_O_RDONLY || a == URKEL_O_WRONLY || a == URKEL_O_RDWR);
#if WHICH == 0
  int fd = urkel_fs__open(NAME, AFLAGS, AMODE);
#else
  int fd = urkel_fs_open(NAME, AFLAGS, AMODE);
  ASSERT_(fd != -1 || MYERRNO != EINTR, "open: an interruption is no failure");
#endif
  ASSERT_(fd == CURFD && NOPEN >= 1, "open: the descriptor opened, or failure");
  REACH("open");
}
#endif

#ifdef OP_normalize
size_t LEN; char *P;
int main(void) {
  LEN = nondet_size(); ASSUME(LEN <= PMAX);
  P = malloc(LEN + 1); ASSUME(P[LEN] == 0);
  size_t r = urkel_path_normalize(P);
  ASSERT_(r <= LEN, "normalize: never longer than before");
  ASSERT_(P[r] == 0, "normalize: ends at the length returned");
  REACH("normalize");
}
#endif


