/* cli.c - the command line tool, run in process on a scratch database, against the reference map. */
#include "common.h"
#include <fcntl.h>
#include <sys/wait.h>
#define main urkel_cli
#include "urkel.c"
#undef main
static char OUT[1 << 20], DIR[600]; static size_t ON;
static int cli(const char **a) {
  char f[700]; int n = 0, st; snprintf(f, sizeof f, "%s/out", WORK);
  while (a[n]) n++;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    int fd = open(f, O_RDWR | O_CREAT | O_TRUNC, 0600), nul = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(nul, 2);
    char *av[12]; for (int i = 0; i <= n; i++) av[i] = a[i] ? strdup(a[i]) : NULL;
    int r = urkel_cli(n, av); fflush(stdout); _exit(r);
  }
  waitpid(p, &st, 0);
  int fd = open(f, O_RDONLY); ssize_t g = read(fd, OUT, sizeof OUT - 1); close(fd); ON = g < 0 ? 0 : g; OUT[ON] = 0;
  if (WIFSIGNALED(st)) FAILX("the tool dies of signal %d", WTERMSIG(st));
  CK(1, WEXITSTATUS(st) <= 1, "the tool exits with status %d", WEXITSTATUS(st));
  return WEXITSTATUS(st) == 0;
}
#define CLI(...) cli((const char *[]){"urkel", __VA_ARGS__, NULL})
static void hx(char *o, const unsigned char *d, size_t n, int up) { for (size_t i = 0; i < n; i++) for (int h = 0; h < 2; h++) { int x = h ? d[i] & 15 : d[i] >> 4; *o++ = x < 10 ? '0' + x : ((up == 2 ? rn(2) : up) ? 'A' : 'a') + x - 10; } *o = 0; }
static int isline(const unsigned char *d, size_t n, const char *at, const char **end) {
  char *z = malloc(2 * n + 2); hx(z, d, n, 0); z[2 * n] = '\n'; int r = (size_t)(OUT + ON - at) >= 2 * n + 1 && !memcmp(at, z, 2 * n + 1); free(z); if (end) *end = at + 2 * n + 1; return r;
}
static int isout(const unsigned char *d, size_t n) { const char *e; return isline(d, n, OUT, &e) && e == OUT + ON; }
static void units(void) {
  unsigned char d[1100], s[1100]; char t[2300];
  /* every pair of characters */
  for (int a = 1; a < 256; a++) for (int b = 1; b < 256; b++) {
    char z[3] = {a, b, 0}; size_t n = 4; unsigned char x[4] = {9, 9, 9, 9};
#define HV(c) ((c) >= '0' && (c) <= '9' ? (c) - '0' : (c) >= 'a' && (c) <= 'f' ? (c) - 87 : (c) >= 'A' && (c) <= 'F' ? (c) - 55 : -1)
    int w = HV(a) >= 0 && HV(b) >= 0, r = urkel_base16_decode(x, &n, z);
    CK(1, !!r == w, "decode says %d of the characters %d %d", r, a, b);
    if (r) CK(1, n == 1 && x[0] == HV(a) * 16 + HV(b) && x[1] == 9, "decode gives a wrong byte for %d %d", a, b);
  }
  for (int i = 0; i < 3000; i++) {
    size_t n = rn(4) ? rn(40) : rn(1030), cap, m; memset(d, 0xee, sizeof d);
    for (size_t j = 0; j < n; j++) s[j] = rnd();
    memset(t, '#', sizeof t); urkel_base16_encode(t, s, n);
    char *e = malloc(2 * n + 1); hx(e, s, n, 0); CK(1, memcmp(e, t, 2 * n + 1) == 0 && t[2 * n + 1] == '#', "encode of %zu bytes", n);
    hx(e, s, n, rn(3)); cap = m = rn(3) ? n + rn(3) : rn(n + 2); int bad = 0;
    if (n && !rn(3)) { e[rn(2 * n)] = "/:@G`g \n\xff\x80zZ-x"[rn(14)]; bad = 1; }
    if (n && !rn(5)) { e[2 * n - 1] = 0; bad = 1; }
    unsigned char *o = malloc(cap ? cap : 1);
    int r = urkel_base16_decode(o, &m, e);
    CK(1, !!r == (!bad && n <= cap), "decode says %d of %zu bytes (room for %zu)", r, n, cap);
    if (r) CK(1, m == n && !memcmp(o, s, n), "decode gives wrong bytes");
    unsigned char k[40]; memset(k, 0xee, 40); r = urkel_base16_decode32(k, e);
    CK(1, !!r == (!bad && n == 32), "decode32 says %d of %zu bytes", r, n); CK(1, k[32] == 0xee, "decode32 writes past the key");
    free(o); free(e);
  }
}
int main(int argc, char **argv) {
  start(argc, argv); snprintf(DIR, sizeof DIR, "%s/db", WORK);
  units();
  for (int r = 0; r < REPS; r++) {
    map_t m = {0}; unsigned char k[32], v[1024], root[32]; char kh[80], vh[2100], rh[80]; size_t n, i;
    rmrf(DIR); keys_init();
    CK(1, CLI("-p", DIR, "create") && ON == 0, "create");
    for (int o = 0; o < 70; o++) {
      gen_key(k, &m); hx(kh, k, 32, rn(3)); int have = map_find(&m, k, &i); ref_root(&m, root); hx(rh, root, 32, rn(3));
      switch (rn(10)) {
        case 0: case 1: case 2: {
          n = rn(4) ? gen_val(v) : 1023; int bad = 0; hx(vh, v, n, rn(3));
          if (n && rn(5) == 0) { vh[rn(2 * n)] = 'g'; bad = 1; } else if (n && rn(6) == 0) { vh[2 * n - 1] = 0; bad = 1; } else if (rn(12) == 0) { memset(v, 7, 1024); n = 1024; hx(vh, v, n, 0); bad = 1; } else if (rn(12) == 0) { kh[rn(2) ? 63 : 62] = 0; bad = 1; }
          CK(1, CLI("insert", "-p", DIR, kh, vh) == !bad, "insert of %zu bytes (to be refused: %d)", n, bad); CK(1, ON == 0, "insert prints");
          if (!bad) map_put(&m, k, v, n); break; }
        case 3: CK(1, CLI("remove", kh, "--path", DIR) == have && ON == 0, "remove of a key (present: %d)", have); map_del(&m, k); break;
        case 4: case 5: { int ok = rn(2) ? CLI("get", kh, "-p", DIR) : CLI("get", kh, "-p", DIR, "-r", rh); CK(1, ok == have, "get says %d, the map %d", ok, have); CK(1, ok ? isout(m.e[i].v, m.e[i].n) : ON == 0, "get prints something else than the value"); break; }
        case 6: CK(1, CLI("root", "-p", DIR) && isout(root, 32), "root prints something else than the root"); break;
        case 7: { CK(1, CLI("list", "-p", DIR), "list fails"); const char *at = OUT; for (i = 0; i < m.n; i++) CK(1, isline(m.e[i].k, 32, at, &at), "list: line %zu is not the key", i); CK(1, at == OUT + ON, "list prints more than the keys"); break; }
        case 8: { CK(1, CLI("prove", kh, "-p", DIR), "prove fails"); char *pf = strdup(OUT); size_t pn = ON; CK(1, pn > 8 && pf[pn - 1] == '\n', "prove prints a line"); pf[pn - 1] = 0;
          int ok = CLI("verify", kh, pf, "-r", rh); CK(1, ok, "the proof printed does not verify"); CK(1, have ? isout(m.e[i].v, m.e[i].n) : ON == 0, "verify prints something else than the value");
          CK(1, !CLI("verify", kh, pf) && ON == 0, "verify without a root");
          rh[rn(64)] ^= 1; if (strspn(rh, "0123456789abcdefABCDEF") == 64) CK(1, !CLI("verify", kh, pf, "-r", rh), "the proof verifies against another root");
          free(pf); break; }
        case 9: { char w[20]; unsigned char z[32]; rb2 h; snprintf(w, sizeof w, "w%u", rn(5)); rinit(&h, 32, 0, 0); rup(&h, w, strlen(w)); rfin(&h, z); have = map_find(&m, z, &i);
          if (rn(2)) { n = rn(20); for (size_t j = 0; j < n; j++) v[j] = rnd(); hx(vh, v, n, 0); CK(1, CLI("insert", w, vh, "-H", "-p", DIR), "insert of a hashed key"); map_put(&m, z, v, n); }
          else { int ok = CLI("get", "--hash", w, "-p", DIR); CK(1, ok == have && (ok ? isout(m.e[i].v, m.e[i].n) : ON == 0), "get of a hashed key"); } break; }
      }
    }
    size_t tot = 0; for (i = 0; i < m.n; i++) tot += 32 + m.e[i].n; char want[200]; ref_root(&m, root); hx(rh, root, 32, 0);
    snprintf(want, sizeof want, "Items: %zu\nSize:  %zu\nRoot:  %s\n", m.n, tot, rh);
    CK(1, CLI("info", "-p", DIR) && !strcmp(OUT, want), "info prints something else");
    CK(1, !CLI("get", "-p", DIR) && !CLI("frob", "-p", DIR) && !CLI("root", "-p", DIR, "-x") && !CLI("root", "-p") && !CLI("insert", rh, "-p", DIR), "incomplete or unknown arguments are accepted");
    CK(1, !CLI("root", "-p", DIR, "-r", "00"), "a root of one byte is accepted");
    /* the front of the data file is lost: nothing may be left out silently */
    { char f[700]; snprintf(f, sizeof f, "%s/0000000001", DIR); int fd = open(f, O_RDWR); static unsigned char z[4096]; off_t sz = lseek(fd, 0, SEEK_END), at = 0;
      for (int st = 0; st < 6; st++) { at += rn(sz / 12 > 4000 ? 4000 : sz / 12 + 1); CK(1, pwrite(fd, z, at < 4096 ? at : 4096, at < 4096 ? 0 : at - 4096) >= 0, "scratch file");
        int ok = CLI("list", "-p", DIR); size_t c = 0; for (i = 0; i < ON; i++) c += OUT[i] == '\n';
        CK(1, !ok || c == m.n, "list of a damaged database prints %zu of %zu keys and succeeds", c, m.n);
        ok = CLI("info", "-p", DIR); snprintf(want, sizeof want, "Items: %zu\n", m.n); CK(1, !ok || !strncmp(OUT, want, strlen(want)), "info of a damaged database counts wrong and succeeds"); }
      close(fd); }
    CK(1, CLI("destroy", "-p", DIR) && access(DIR, F_OK) != 0, "destroy leaves the directory");
    CK(1, !CLI("destroy", "-p", DIR), "destroy of nothing succeeds");
    free(m.e);
  }
  return finish();
}
