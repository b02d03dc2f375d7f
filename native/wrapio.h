/* wrapio.h - system calls of the library go through here (ld --wrap): they can
 * be cut short, interrupted or made to fail. */
#ifndef WRAPIO_H
#define WRAPIO_H
#include <errno.h>
#include <stdarg.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/mman.h>
#include <dirent.h>
ssize_t __real_write(int, const void *, size_t); ssize_t __real_pwrite(int, const void *, size_t, off_t);
ssize_t __real_read(int, void *, size_t); ssize_t __real_pread(int, void *, size_t, off_t);
int __real_open(const char *, int, ...); int __real_ftruncate(int, off_t); int __real_unlink(const char *); int __real_rmdir(const char *);
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_fdatasync(int); int __real_fstat(int, struct stat *);
int __real_munmap(void *, size_t); struct dirent *__real_readdir(DIR *); int __real_mkdir(const char *, mode_t);
static int W_SHORT;                 /* transfers are cut short and interrupted */
static long W_N, W_FAIL;            /* the W_FAIL-th failable call fails (0: never) */
static unsigned W_KINDS; static int W_HIT; static long W_KEEP;
enum { K_WRITE = 1, K_READ = 2, K_OPEN = 4, K_MMAP = 8, K_SYNC = 16, K_STAT = 32, K_UNLINK = 64, K_DIR = 128 };
static uint64_t wz_ = 88172645463325252ull;
static unsigned wr_(unsigned n) { wz_ ^= wz_ << 13; wz_ ^= wz_ >> 7; wz_ ^= wz_ << 17; return n ? (unsigned)((wz_ >> 11) % n) : 0; }
static int fails_(unsigned k) { if (!(W_KINDS & k) || !W_FAIL) return 0; if (++W_N != W_FAIL) return 0; W_HIT = k; return 1; }
static int cut_(size_t *n) { if (W_SHORT) { if (wr_(5) == 0) { errno = wr_(2) ? EINTR : EAGAIN; return 1; } if (wr_(2)) *n = 1 + wr_(*n < 4000 ? *n : 4000); else if (wr_(2)) *n = 1 + wr_(*n); } return 0; }
/* what the library unlinks, truncates and removes is recorded */
static char W_UNL[64][256]; static int W_NUNL; static long W_NTRUNC, W_NRMDIR, W_NWRITE, W_NSYNC;
/* data files (ten digits) with bytes written after their last successful sync */
static int W_TRACK; static char W_DIRTY[256][12]; static int W_NDIRTY;
static char *dfile_(int fd) { static char l[1200]; char f[64]; snprintf(f, sizeof f, "/proc/self/fd/%d", fd); ssize_t n = readlink(f, l, sizeof l - 1); if (n < 11) return NULL; l[n] = 0; return l[n - 11] == '/' && strspn(l + n - 10, "0123456789") == 10 ? l + n - 10 : NULL; }
static void dirty_(int fd) { if (!W_TRACK) return; int e = errno; char *p = dfile_(fd); if (p) { int i = 0; while (i < W_NDIRTY && strcmp(W_DIRTY[i], p)) i++; if (i == W_NDIRTY && i < 256) strcpy(W_DIRTY[W_NDIRTY++], p); } errno = e; }
static void clean_(int fd) { if (!W_TRACK) return; int e = errno; char *p = dfile_(fd); for (int i = 0; p && i < W_NDIRTY; i++) if (!strcmp(W_DIRTY[i], p)) { memmove(W_DIRTY[i], W_DIRTY[--W_NDIRTY], 12); break; } errno = e; }
int __real_fsync(int);
ssize_t __wrap_write(int fd, const void *p, size_t n) { W_NWRITE++;
  if (fails_(K_WRITE)) { if (W_KEEP && n) __real_write(fd, p, W_KEEP < (long)n ? W_KEEP : n - 1 + (n == 1 ? 0 : 0)); errno = ENOSPC; return -1; }
  if (n && cut_(&n)) return -1; { ssize_t r_ = __real_write(fd, p, n); if (r_ > 0) dirty_(fd); return r_; } }
ssize_t __wrap_pwrite(int fd, const void *p, size_t n, off_t o) { W_NWRITE++; if (fails_(K_WRITE)) { errno = ENOSPC; return -1; } if (n && cut_(&n)) return -1; { ssize_t r_ = __real_pwrite(fd, p, n, o); if (r_ > 0) dirty_(fd); return r_; } }
ssize_t __wrap_read(int fd, void *p, size_t n) { if (fails_(K_READ)) { errno = EIO; return -1; } if (n && cut_(&n)) return -1; return __real_read(fd, p, n); }
ssize_t __wrap_pread(int fd, void *p, size_t n, off_t o) { if (fails_(K_READ)) { errno = EIO; return -1; } if (n && cut_(&n)) return -1; return __real_pread(fd, p, n, o); }
int __wrap_open(const char *f, int fl, ...) { va_list a; va_start(a, fl); int m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a);
  if (fails_(K_OPEN)) { errno = EMFILE; return -1; } if (W_SHORT && wr_(6) == 0) { errno = EINTR; return -1; } return __real_open(f, fl, m); }
int __wrap_ftruncate(int fd, off_t n) { W_NTRUNC++; return __real_ftruncate(fd, n); }
int __wrap_unlink(const char *f) { if (fails_(K_UNLINK)) { errno = EACCES; return -1; } if (W_NUNL < 64) snprintf(W_UNL[W_NUNL++], 256, "%s", f); return __real_unlink(f); }
int __wrap_rmdir(const char *f) { W_NRMDIR++; return __real_rmdir(f); }
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (fd >= 0 && fails_(K_MMAP)) { errno = ENOMEM; return MAP_FAILED; } return __real_mmap(a, n, p, f, fd, o); }
int __wrap_fdatasync(int fd) { W_NSYNC++; if (fails_(K_SYNC)) { errno = EIO; return -1; } { int r_ = W_TRACK ? 0 : __real_fdatasync(fd); if (r_ == 0) clean_(fd); return r_; } }
int __wrap_fsync(int fd) { W_NSYNC++; if (fails_(K_SYNC)) { errno = EIO; return -1; } { int r_ = W_TRACK ? 0 : __real_fsync(fd); if (r_ == 0) clean_(fd); return r_; } }
int __wrap_fstat(int fd, struct stat *s) { if (fails_(K_STAT)) { errno = EIO; return -1; } return __real_fstat(fd, s); }
struct dirent *__wrap_readdir(DIR *d) { if (fails_(K_DIR)) { errno = EIO; return NULL; } return __real_readdir(d); }
#endif
