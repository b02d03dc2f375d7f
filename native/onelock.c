/* onelock.c - a database directory is used by one process at a time. Another
 * process acts between two calls of the file layer made by the first one. */
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "common.h"
#include "io.h"
static char DIR_[600], MARK[700];
static int IN, HOOKN, HOOKAT, OFF = 1; static void (*HOOK)(void);
static void step(void) { if (OFF || IN || !HOOK) return; if (++HOOKN == HOOKAT) { IN = 1; HOOK(); IN = 0; } }
#define W1(t, n, a, c) t __real_##n a; t __wrap_##n a { step(); return __real_##n c; }
W1(int, urkel_fs_exists, (const char *p), (p))
W1(int, urkel_fs_mkdir, (const char *p, uint32_t m), (p, m))
W1(int, urkel_fs_rmdir, (const char *p), (p))
W1(int, urkel_fs_unlink, (const char *p), (p))
W1(int, urkel_fs_read_file, (const char *p, void *d, size_t n), (p, d, n))
W1(int, urkel_fs_write_file, (const char *p, uint32_t m, const void *d, size_t n), (p, m, d, n))
W1(int, urkel_fs_scandir, (const char *p, urkel_dirent_t ***o, size_t *c), (p, o, c))
W1(int, urkel_fs_open_lock, (const char *p, uint32_t m), (p, m))
W1(int, urkel_fs_open, (const char *p, int f, uint32_t m), (p, f, m))
W1(int, urkel_fs_pread, (int fd, void *d, size_t n, int64_t o), (fd, d, n, o))
W1(int, urkel_fs_ftruncate, (int fd, int64_t n), (fd, n))
W1(urkel_file_t *, urkel_file_open, (const char *p, int f, uint32_t m), (p, f, m))
W1(int, urkel_file_close, (urkel_file_t *f), (f))
void __real_urkel_fs_close_lock(int fd); void __wrap_urkel_fs_close_lock(int fd) { step(); __real_urkel_fs_close_lock(fd); step(); }
/* the system calls as well: the steps inside the file layer */
W1(int, close, (int fd), (fd))
W1(int, fcntl, (int fd, int op, void *a), (fd, op, a))

typedef struct { int toc, fromc; pid_t pid; } peer_t;
static void key(unsigned char *k, int i) { memset(k, 0, 32); k[0] = i; k[31] = i * 7; }
static int put(urkel_t *db, int i) { unsigned char k[32]; key(k, i); return urkel_insert(db, k, k, 32); }
static int has(urkel_t *db, int i) { unsigned char k[32], v[1024]; size_t n; key(k, i); return urkel_get(db, v, &n, k, NULL) && n == 32 && !memcmp(k, v, 32); }
static char rd(int fd) { char x = 0; int n; do n = read(fd, &x, 1); while (n < 0 && errno == EINTR); return n == 1 ? x : 0; }
static void wrc(int fd, char c) { if (write(fd, &c, 1) != 1) FAILX("pipe"); }
/* another process: opens the database, says whether it could, then obeys:
 * 'w' inserts a pair, 'c' closes and ends, 'x' ends without closing */
static peer_t peer(int id) {
  int a[2], b[2]; if (pipe(a) || pipe(b)) FAILX("pipe");
  fflush(stdout);
  pid_t p = fork(); if (p < 0) FAILX("fork");
  if (p == 0) {
    OFF = 1; alarm(60); __real_close(a[1]); __real_close(b[0]);
    urkel_t *d = urkel_open(DIR_); wrc(b[1], d ? 'y' : 'n'); if (!d) _exit(0);
    for (;;) { char c = rd(a[0]); if (c == 'w') wrc(b[1], put(d, id) ? 'y' : 'n'); else if (c == 'c') { urkel_close(d); wrc(b[1], 'y'); _exit(0); } else _exit(0); }
  }
  close(a[0]); close(b[1]);
  peer_t r = {a[1], b[0], p}; return r;
}
static char ask(peer_t *p, char c) { wrc(p->toc, c); return rd(p->fromc); }
static void gone(peer_t *p) { int st; while (waitpid(p->pid, &st, 0) < 0 && errno == EINTR) {} __real_close(p->toc); __real_close(p->fromc); }
/* the visitor comes by at one step, uses the database and leaves */
static int V_OK, V_ID; 
static void visit(void) { peer_t p = peer(V_ID); V_OK = rd(p.fromc) == 'y'; if (V_OK) { if (ask(&p, 'w') != 'y') V_OK = 0; ask(&p, 'c'); } gone(&p); }
/* or stays */
static peer_t S; static int S_OK, S_ON;
static void stay(void) { S = peer(V_ID); S_ON = 1; S_OK = rd(S.fromc) == 'y'; if (!S_OK) { gone(&S); S_ON = 0; } }
static int other_can_open(void) { IN = 1; peer_t p = peer(99); int r = rd(p.fromc) == 'y'; if (r) ask(&p, 'c'); gone(&p); IN = 0; return r; }

static void setup(int fresh) { rmrf(DIR_); V_OK = S_OK = S_ON = 0; OFF = 1; HOOK = NULL; if (!fresh) { urkel_t *d = urkel_open(DIR_); if (!d || !put(d, 1)) FAILX("setup"); urkel_close(d); } }
static int steps(int fresh, int op) { /* how many steps opening (0), closing (1), destroying (2) takes */
  setup(fresh); HOOKN = 0; HOOKAT = -1; HOOK = visit; urkel_t *d;
  if (op == 0) { OFF = 0; d = urkel_open(DIR_); OFF = 1; if (!d) FAILX("open fails"); urkel_close(d); }
  else if (op == 1) { d = urkel_open(DIR_); OFF = 0; urkel_close(d); OFF = 1; }
  else { OFF = 0; int r = urkel_destroy(DIR_); OFF = 1; if (!r) FAILX("destroy fails"); }
  HOOK = NULL; return HOOKN;
}
static void arm(void (*h)(void), int at, int id) { HOOK = h; HOOKAT = at; HOOKN = 0; V_ID = id; OFF = 0; }
static void disarm(void) { OFF = 1; HOOK = NULL; }
static void check(const char *what, int base, int mine, int theirs) {
  urkel_t *d = urkel_open(DIR_); CK(1, d != NULL, "%s: does not open afterwards", what); if (!d) exit(1);
  if (base) CK(1, has(d, 1), "%s: what was there before is lost", what);
  if (mine) CK(1, has(d, 2), "%s: a committed pair is lost", what);
  if (theirs) CK(1, has(d, 3), "%s: a pair another process committed is lost", what);
  urkel_close(d);
}
static void interleave(int fresh) {
  int n = steps(fresh, 0), m;
  for (int at = 1; at <= n; at++) { /* another process comes by while we open */
    setup(fresh); arm(visit, at, 3); urkel_t *d = urkel_open(DIR_); disarm();
    int mine = 0; if (d) { if (V_OK) CK(1, has(d, 3), "opened, step %d: does not see what another process committed before", at); mine = put(d, 2); CK(1, mine, "opened, step %d: cannot write", at); urkel_close(d); }
    check("a visitor during open", !fresh, mine, V_OK);
    setup(fresh); arm(stay, at, 3); d = urkel_open(DIR_); disarm();
    CK(1, !(d && S_OK), "two processes have the database open (step %d of open)", at);
    if (S_OK) CK(1, !other_can_open(), "a second process can open it (step %d of open)", at);
    if (d && !S_OK) { mine = put(d, 2); } else mine = 0;
    int th = 0; if (S_ON) { th = ask(&S, 'w') == 'y'; CK(1, th, "the process which has it cannot write (step %d of open)", at); ask(&S, 'c'); gone(&S); }
    if (d) urkel_close(d);
    check("another process stays during open", !fresh, mine, th);
  }
  n = steps(fresh, 1);
  for (int at = 1; at <= n; at++) { /* while we close */
    setup(fresh); urkel_t *d = urkel_open(DIR_); if (!d) FAILX("open"); int mine = put(d, 2); arm(stay, at, 3); urkel_close(d); disarm();
    int th = 0; if (S_OK) { CK(1, !other_can_open(), "two processes have the database open (step %d of close)", at); th = ask(&S, 'w') == 'y'; CK(1, th, "the process which has it cannot write (step %d of close)", at); ask(&S, 'c'); gone(&S); }
    check("another process during close", !fresh, mine, th);
  }
  if (fresh) return;
  m = steps(fresh, 2);
  for (int at = 1; at <= m; at++) { /* while we destroy it */
    setup(0); arm(stay, at, 3); int r = urkel_destroy(DIR_); disarm();
    if (S_OK) { CK(1, !r, "destroys a database which another process has open (step %d of destroy)", at);
      CK(1, !other_can_open(), "two processes have the database open (step %d of destroy)", at);
      int th = ask(&S, 'w') == 'y'; CK(1, th, "the process which has it cannot write (step %d of destroy)", at); ask(&S, 'c'); gone(&S);
      check("another process during destroy", 0, 0, th); }
  }
}
static void held(void) {
  setup(0); peer_t p = peer(3); CK(1, rd(p.fromc) == 'y', "does not open"); CK(1, ask(&p, 'w') == 'y', "cannot write");
  for (int i = 0; i < 3; i++) { CK(1, urkel_open(DIR_) == NULL, "opens a database which another process has open"); CK(1, !urkel_destroy(DIR_), "destroys a database which another process has open"); }
  if (rn(2)) ask(&p, 'c'); else wrc(p.toc, 'x');
  gone(&p); check("the other process ended", 1, 0, 1);
}
static void stress(void) {
  volatile int *cnt = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); unsigned char k[32] = {9};
  setup(0); snprintf(MARK, sizeof MARK, "%s/mark", WORK); unlink(MARK);
  pid_t ps[5];
  for (int i = 0; i < 5; i++) if ((ps[i] = fork()) == 0) {
    alarm(50);
    for (int j = 0; j < 12; j++) {
      urkel_t *d = urkel_open(DIR_); unsigned char v[1024] = {0}; size_t n = 0; unsigned c = 0;
      if (!d) { usleep(200 + rnd() % 900); RNG += i; continue; }
      int fd = open(MARK, O_CREAT | O_EXCL | O_WRONLY, 0600); if (fd < 0) { printf("FAIL two processes have the database open\n"); cnt[1] = 1; }
      if (urkel_get(d, v, &n, k, NULL)) memcpy(&c, v, 4);
      if (c != (unsigned)cnt[0]) { printf("FAIL the database holds %u, %d were committed\n", c, cnt[0]); cnt[1] = 1; }
      c++; if (urkel_insert(d, k, (void *)&c, 4)) cnt[0] = c; else cnt[1] = 2;
      if (rnd() & 1) usleep(rnd() % 700);
      unlink(MARK); if (fd >= 0) __real_close(fd);
      if (j == 11 && (rnd() & 1)) _exit(0);
      urkel_close(d);
    }
    _exit(0);
  } 
  for (int i = 0; i < 5; i++) { int st; while (waitpid(ps[i], &st, 0) < 0 && errno == EINTR) {} }
  CK(1, cnt[1] == 0, cnt[1] == 2 ? "a commit fails" : "two processes have the database open at once");
  urkel_t *d = urkel_open(DIR_); CK(1, d != NULL, "does not open after many processes used it"); if (d) { unsigned char v[1024] = {0}; size_t n; unsigned c = 0; if (urkel_get(d, v, &n, k, NULL)) memcpy(&c, v, 4); CK(1, c == (unsigned)cnt[0], "the database holds %u, %d were committed", c, cnt[0]); urkel_close(d); }
}
int main(int argc, char **argv) {
  start(argc, argv); signal(SIGPIPE, SIG_IGN);
  snprintf(DIR_, sizeof DIR_, "%s/db", WORK);
  for (int r = 0; r < REPS && r < 4; r++) { if (r == 0) { interleave(1); interleave(0); } held(); stress(); }
  rmrf(DIR_);
  return finish();
}
