/* Contracts of the command line tool (src/urkel.c), enforced on the real bodies. */
#define _DEFAULT_SOURCE
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <urkel.h>
#include "vf.h"
static void cli_printf(const char *f, const void *x);
static size_t cli_strlen(const char *s);
int cli_malloced;
#define SECOND_(a, b, ...) (a), (const void *)(b)
#define printf(...) cli_printf(SECOND_(__VA_ARGS__, 0, 0))
#define fprintf(...) ((void)0)
#define VFHEX(c) (((c) >= '0' && (c) <= '9') || ((c) >= 'a' && (c) <= 'f') || ((c) >= 'A' && (c) <= 'F'))
#define VFNIB(c) ((c) <= '9' ? (c) - '0' : ((c) | 32) - 'a' + 10)
#define VFCHR(n) ((n) < 10 ? '0' + (n) : 'a' + (n) - 10)
#ifdef STRLEN_STUB
#define strlen cli_strlen
#endif
#define main urkel_cli
#include "urkel.c"
#undef main
#undef printf
#undef strlen

/* ghosts */
char *SRC; size_t SLEN, WI; unsigned char B0, C0, C1; size_t SN;
#ifdef STRLEN_STUB
static size_t cli_strlen(const char *s) { ASSERT_(s == SRC, "strlen: of the string given"); return SLEN; }
#endif

#ifdef OP_encode
static void cli_printf(const char *f, const void *x) { }
int main(void) {
  SN = nondet_size(); ASSUME(SN <= PMAX); WI = nondet_size(); ASSUME(WI < SN || SN == 0);
  unsigned char *src = malloc(SN ? SN : 1); char *dst = malloc(2 * SN + 1);
  if (SN) B0 = src[WI];
  urkel_base16_charset = "0123456789abcdef"; /* its initial value by cli.table; nothing assigns it */
  urkel_base16_encode(dst, src, SN);
  if (SN) {
    ASSERT_(dst[2 * WI] == VFCHR(B0 >> 4) && dst[2 * WI + 1] == VFCHR(B0 & 15), "encode: each byte becomes its two hex digits, in order");
    ASSERT_(src[WI] == B0, "encode: the source is unchanged");
  }
  ASSERT_(dst[2 * SN] == 0, "encode: ends with a zero byte after the last digit");
  REACH("encode");
}
#endif

#ifdef OP_decode
static void cli_printf(const char *f, const void *x) { }
/* accepted => every digit valid and the bytes are those denoted; odd length or no room => refused */
int main(void) {
  SLEN = nondet_size(); ASSUME(SLEN <= PMAX);
  SRC = malloc(SLEN + 1); SRC[SLEN] = 0;
  size_t cap = nondet_size(), n; ASSUME(cap <= PMAX); n = cap;
  unsigned char *dst = malloc(cap ? cap : 1);
  WI = nondet_size(); ASSUME(WI < SLEN / 2 || SLEN < 2); C0 = C1 = 0;
  if (SLEN >= 2) { C0 = SRC[2 * WI]; C1 = SRC[2 * WI + 1]; }
  int r = urkel_base16_decode(dst, &n, SRC);
  ASSERT_(r == 0 || r == 1, "decode: says yes or no");
  if (r) {
    ASSERT_(SLEN % 2 == 0 && SLEN / 2 <= cap, "decode: accepts only even lengths which fit the destination");
    ASSERT_(n == SLEN / 2, "decode: the size is half the number of digits");
    if (SLEN) ASSERT_(VFHEX(C0) && VFHEX(C1) && dst[WI] == VFNIB(C0) * 16 + VFNIB(C1), "decode: every byte is the one denoted by two valid digits");
  } else
    ASSERT_(n == cap, "decode: a refused string leaves the size alone");
  if (r) REACH("decode accepts"); else REACH("decode refuses");
}
#endif

#ifdef OP_decodeb
static void cli_printf(const char *f, const void *x) { }
/* complete for strings of at most NB digits */
int main(void) {
  SLEN = nondet_size(); ASSUME(SLEN <= NB); SRC = malloc(NB + 1);
  size_t cap = nondet_size(), n; n = cap; ASSUME(cap <= NB); unsigned char *dst = malloc(NB); _Bool ok = SLEN % 2 == 0 && SLEN / 2 <= cap;
  for (unsigned i = 0; i < NB; i++) if (i < SLEN) { ASSUME(SRC[i] != 0); if (!VFHEX((unsigned char)SRC[i])) ok = 0; }
  SRC[SLEN] = 0;
  int r = urkel_base16_decode(dst, &n, SRC);
  ASSERT_(r == ok, "decode: accepts exactly the hex strings of even length which fit");
  if (r) REACH("decode accepts"); else REACH("decode refuses");
}
#endif

#ifdef OP_table
static void cli_printf(const char *f, const void *x) { }
int main(void) {
  unsigned char c = nondet_uchar(), b = nondet_uchar() & 15;
  ASSERT_(VFHEX(c) ? urkel_base16_table[c] == VFNIB(c) : (urkel_base16_table[c] & 0x80) != 0, "table: the value of each hex digit, in either case, and a mark for every other character");
  ASSERT_(urkel_base16_charset[b] == VFCHR(b), "charset: the digit of each value");
  ASSERT_(urkel_base16_table[(unsigned char)urkel_base16_charset[b]] == b, "what is printed decodes to the same value");
  REACH("table");
}
#endif

/* contracts of the two, for their callers */
static unsigned NENC, NPRT, NDEC; static const char *ENCD; static const unsigned char *ENCS; static size_t ENCN; static int DECR[3]; static size_t DECN[3]; static const char *DECS[3]; static unsigned char *DECD[3];
void stub_encode(char *dst, const uint8_t *src, size_t n) {
  ASSERT_(n <= ((size_t)1 << 62) && __CPROVER_w_ok(dst, 2 * n + 1), "contract of encode: room for two digits a byte and the zero");
  ASSERT_(src == ENCS && n == ENCN, "print: encodes the bytes given");
  ENCD = dst; NENC++;
}
int stub_decode(uint8_t *dst, size_t *n, const char *src) {
  ASSERT_(__CPROVER_w_ok(dst, *n), "contract of decode: the destination has the room claimed");
  ASSERT_(NDEC < 3, "decode: once for each argument");
  DECS[NDEC] = src; DECD[NDEC] = dst; DECR[NDEC] = nondet_bool(); DECN[NDEC] = nondet_size(); ASSUME(DECN[NDEC] <= *n);
  if (DECR[NDEC]) { *n = DECN[NDEC]; }
  return DECR[NDEC++];
}

#ifdef OP_print
static void cli_printf(const char *f, const void *x) {
  ASSERT_(f[0] == '%' && f[1] == 's' && f[2] == '\n' && f[3] == 0, "print: one line");
  ASSERT_(NENC == 1 && x == ENCD, "print: the encoded text"); NPRT++;
}
int main(void) {
  ENCN = nondet_size(); ASSUME(ENCN <= ((size_t)1 << 40)); unsigned char *s = malloc(ENCN ? ENCN : 1); ENCS = s; NENC = NPRT = 0;
  urkel_base16_print(s, ENCN);
  ASSERT_(NENC == 1 && NPRT == 1, "print: encodes once and prints once");
  free(s);
  REACH("print");
}
#endif
#ifdef OP_decode32
static void cli_printf(const char *f, const void *x) { }
int main(void) {
  unsigned char *d = malloc(32); char *s = malloc(8); NDEC = 0;
  int r = urkel_base16_decode32(d, s);
  ASSERT_(NDEC == 1 && DECS[0] == s && DECD[0] == d, "decode32: decodes the string given into the destination given");
  ASSERT_(!!r == (DECR[0] && DECN[0] == 32), "decode32: accepts exactly what denotes 32 bytes");
  if (r) REACH("decode32 accepts");
}
#endif

#if defined(OP_main)
/* Each action: the library operation it names, on the decoded arguments. The
 * library is known by its contract only. */
#define NACT 10
static unsigned NOPEN, NCLOSE, NITER, NITD, NCALL, NPR; static int OPENOK, CALLOK, ITOK, ITERR, EXISTS, LEFT; static unsigned LASTOP; static urkel_options_t O; static urkel_t *DB; static urkel_iter_t *IT; static void *PROOF; static size_t VN, PN, ROWS; static unsigned char *VOUT; static _Bool ROOTED; static const unsigned char *PRS; static size_t PRN; static _Bool ENDSEEN;
extern int *__urkel_errno_ptr;
static int ERR; int *__urkel_get_errno(void) { return &ERR; }
static void cli_printf(const char *f, const void *x) { }
void stub_print(const uint8_t *s, size_t n) { ASSERT_(n == 0 || __CPROVER_r_ok(s, n), "contract of print: readable bytes"); PRS = s; PRN = n; NPR++; 
  if (LASTOP == 9) ASSERT_(s == (const uint8_t *)PROOF, "the proof is printed before it is released"); }
urkel_t *urkel_open(const char *p) { ASSERT_(p == O.path && NOPEN == 0, "opens the database of the path given, once"); NOPEN++; OPENOK = nondet_bool(); return OPENOK ? DB : NULL; }
void urkel_close(urkel_t *t) { ASSERT_(t == DB && OPENOK && NCLOSE == 0 && NITD == NITER, "closes what it opened, once, after the iterator is gone"); NCLOSE++; }
int urkel_destroy(const char *p) { ASSERT_(p == O.path, "destroys the database of the path given"); NCALL++; LASTOP = 1; return CALLOK = nondet_bool(); }
#define USEDB ASSERT_(t == DB && OPENOK && !NCLOSE, "uses the open database")
void urkel_root(urkel_t *t, unsigned char *r) { USEDB; ASSERT_(__CPROVER_w_ok(r, 32), "room for the root"); ROOTED = 1; VOUT = r; }
int urkel_get(urkel_t *t, unsigned char *v, size_t *n, const unsigned char *k, const unsigned char *r) { USEDB; ASSERT_(__CPROVER_w_ok(v, 1024) && k == O.key && r == O.root, "get: the key and the root given, room for any value"); NCALL++; LASTOP = 4; VOUT = v; VN = nondet_size(); ASSUME(VN <= 1023); CALLOK = nondet_bool(); *n = CALLOK ? VN : 0; return CALLOK; }
int urkel_insert(urkel_t *t, const unsigned char *k, const unsigned char *v, size_t n) { USEDB; ASSERT_(k == O.key && v == O.value && n == O.value_len, "insert: the key and the value given"); NCALL++; LASTOP = 5; return CALLOK = nondet_bool(); }
int urkel_remove(urkel_t *t, const unsigned char *k) { USEDB; ASSERT_(k == O.key, "remove: the key given"); NCALL++; LASTOP = 6; return CALLOK = nondet_bool(); }
int urkel_prove(urkel_t *t, unsigned char **p, size_t *n, const unsigned char *k, const unsigned char *r) { USEDB; ASSERT_(k == O.key && r == O.root, "prove: the key and the root given"); NCALL++; LASTOP = 9; CALLOK = nondet_bool(); PN = nondet_size(); ASSUME(PN >= 4 && PN < 20000); *p = NULL; *n = 0; if (CALLOK) { PROOF = malloc(PN); *p = PROOF; *n = PN; } return CALLOK; }
int urkel_verify(int *e, unsigned char *v, size_t *n, const unsigned char *p, size_t pn, const unsigned char *k, const unsigned char *r) { ASSERT_(__CPROVER_w_ok(v, 1024) && p == O.proof && pn == O.proof_len && k == O.key && r == O.root && r != NULL, "verify: the proof, the key and the root given"); NCALL++; LASTOP = 10; VOUT = v; VN = nondet_size(); ASSUME(VN <= 1023); CALLOK = nondet_bool(); EXISTS = nondet_bool(); *e = CALLOK && EXISTS; *n = CALLOK && EXISTS ? VN : 0; return CALLOK; }
urkel_iter_t *urkel_iterate(urkel_t *t, const unsigned char *r) { USEDB; ASSERT_(r == O.root && NITER == 0, "iterates over the root given"); ITOK = nondet_bool(); if (ITOK) NITER++; return ITOK ? IT : NULL; }
int urkel_iter_next(urkel_iter_t *t, unsigned char *k, unsigned char *v, size_t *n) {
  ASSERT_(t == IT && NITER == 1 && !NITD && !ENDSEEN && __CPROVER_w_ok(k, 32) && (v == NULL || __CPROVER_w_ok(v, 1024)), "iterates as long as there are pairs");
  if (LASTOP == 7) ASSERT_(NPR == ROWS && (ROWS == 0 || (PRS == VOUT && PRN == 32)), "list: each key, in order");
  VOUT = k;
  if (LEFT > 0) { LEFT--; ROWS++; if (n) { *n = nondet_size(); ASSUME(*n <= 1023); } return 1; }
  ENDSEEN = 1; ITERR = nondet_bool(); ERR = ITERR ? URKEL_ECORRUPTION : URKEL_EITEREND; return 0; }
void urkel_iter_destroy(urkel_iter_t *t) { ASSERT_(t == IT && NITER == 1 && !NITD, "destroys the iterator once"); NITD++; }
void urkel_hash(unsigned char *o, const void *d, size_t n) { }
int main(void) {
  NOPEN = NCLOSE = NITER = NITD = NCALL = NPR = 0; OPENOK = CALLOK = ITOK = ITERR = EXISTS = 0; ROWS = 0; ROOTED = ENDSEEN = 0; PROOF = NULL; ERR = nondet_int();
  DB = malloc(1); IT = malloc(1); LEFT = nondet_int(); ASSUME(LEFT >= 0 && LEFT <= 2);
  { urkel_options_t x; O = x; } O.path = malloc(2); O.action = ACTION; O.root = nondet_bool() ? O.root_data : NULL; O.proof = NULL; O.proof_len = 0; ASSUME(O.value_len <= 1024);
  if (ACTION == URKEL_ACTION_VERIFY) { O.proof_len = nondet_size(); ASSUME(O.proof_len < 20000); O.proof = malloc(O.proof_len + 1); }
  LASTOP = ACTION == URKEL_ACTION_LIST ? 7 : 0;
  int r = urkel_main(&O);
  ASSERT_(r == 0 || r == 1, "yes or no");
  ASSERT_(NOPEN == (ACTION != URKEL_ACTION_DESTROY && ACTION != URKEL_ACTION_VERIFY), "opens the database exactly for actions which use it");
  ASSERT_(NCLOSE == (NOPEN && OPENOK) && NITD == NITER, "everything opened is closed");
  if (NOPEN && !OPENOK) ASSERT_(r == 0 && NCALL == 0 && NPR == 0, "a database which does not open is reported");
  else switch (ACTION) {
    case URKEL_ACTION_CREATE: ASSERT_(r == 1 && NCALL == 0, "create: done once it is open"); break;
    case URKEL_ACTION_DESTROY: ASSERT_(NCALL == 1 && LASTOP == 1 && r == CALLOK, "destroy: succeeds exactly if the library says so"); break;
    case URKEL_ACTION_INSERT: ASSERT_(NCALL == 1 && LASTOP == 5 && r == CALLOK && NPR == 0, "insert: succeeds exactly if the library says so"); break;
    case URKEL_ACTION_REMOVE: ASSERT_(NCALL == 1 && LASTOP == 6 && r == CALLOK && NPR == 0, "remove: succeeds exactly if the library says so"); break;
    case URKEL_ACTION_GET: ASSERT_(NCALL == 1 && LASTOP == 4 && r == CALLOK && NPR == (r ? 1 : 0) && (!r || (PRS == VOUT && PRN == VN)), "get: prints exactly the value, succeeds exactly if the library says so"); break;
    case URKEL_ACTION_PROVE: ASSERT_(NCALL == 1 && LASTOP == 9 && r == CALLOK && NPR == (r ? 1 : 0) && (!r || (PRS == (unsigned char *)PROOF && PRN == PN)), "prove: prints exactly the proof, succeeds exactly if the library says so"); break;
    case URKEL_ACTION_VERIFY: ASSERT_(O.root == NULL ? (NCALL == 0 && r == 0) : (NCALL == 1 && r == CALLOK), "verify: needs a root, succeeds exactly if the library says so"); ASSERT_(NPR == (r && EXISTS ? 1 : 0) && (!NPR || (PRS == VOUT && PRN == VN)), "verify: prints the value exactly if the proof says it exists"); break;
    case URKEL_ACTION_ROOT: ASSERT_(r == 1 && ROOTED && NPR == 1 && PRS == VOUT && PRN == 32, "root: prints the root"); break;
    case URKEL_ACTION_LIST: ASSERT_(r == (ITOK && !ITERR), "list: succeeds exactly if the iteration reaches the end"); ASSERT_(!ITOK || NPR == ROWS, "list: one line a key"); break;
    case URKEL_ACTION_INFO: ASSERT_(r == (ITOK && !ITERR), "info: succeeds exactly if the iteration reaches the end"); break;
  }
  if (r) REACH("succeeds"); 
#if ACTION != 3
  else REACH("fails");
#endif

  if (O.proof) free(O.proof); free((void *)O.path); free(DB); free(IT);
}
#endif

#ifdef OP_options
/* Options and arguments in any order. Bounded: at most NA arguments, each one of a
 * list or an arbitrary string of at most two characters. */
static void cli_printf(const char *f, const void *x) { }
static unsigned NHASH; static const void *HASHS; static unsigned char *HASHD; static size_t HASHN;
void urkel_hash(unsigned char *o, const void *d, size_t n) { ASSERT_(__CPROVER_w_ok(o, 32), "room for the hash"); NHASH++; HASHS = d; HASHD = o; HASHN = n; }
char *getenv(const char *n) { return NULL; }
static int eq(const char *a, const char *b) { return strcmp(a, b) == 0; }
int main(void) {
  static const char *names[] = {"create", "destroy", "info", "root", "get", "insert", "remove", "list", "prove", "verify"};
  char *argv[NA + 1]; const char *pos[NA + 1], *path = NULL, *root = NULL; size_t n = nondet_size(), i, np = 0; int hash = 0, help = 0, bad = 0, rootbad = 0; unsigned nd = 0;
  urkel_options_t *o = malloc(sizeof *o);
  ASSUME(n >= 1 && n <= NA); argv[0] = "urkel"; NDEC = NHASH = 0;
  for (i = 1; i < NA; i++) {
    char *s = malloc(3); unsigned k = nondet_uint(); s[2] = 0;
    argv[i] = k == 0 ? (char *)names[ACTION] : k == 1 ? "-H" : k == 2 ? "--hash" : k == 3 ? "-p" : k == 4 ? "--path" : k == 5 ? "-r" : k == 6 ? "--root" : k == 7 ? "-h" : k == 8 ? "--help" : s;
  }
  int r = urkel_options_init(o, argv, n);
  for (i = 1; i < n && !bad && !help; i++) {
    if (eq(argv[i], "-p") || eq(argv[i], "--path")) { if (i + 1 >= n) bad = 1; else path = argv[++i]; }
    else if (eq(argv[i], "-r") || eq(argv[i], "--root")) { if (i + 1 >= n) bad = 1; else { root = argv[++i]; ASSERT_(NDEC > nd && DECS[nd] == root && DECD[nd] == o->root_data, "options: the root is decoded from its argument"); if (!DECR[nd] || DECN[nd] != 32) bad = 1; nd++; if (nd == 3) ASSUME(0); } }
    else if (eq(argv[i], "-H") || eq(argv[i], "--hash")) hash = 1;
    else if (eq(argv[i], "-h") || eq(argv[i], "--help")) help = 1;
    else if (argv[i][0] == '-') bad = 1;
    else pos[np++] = argv[i];
  }
  if (bad) ASSERT_(!r, "options: unknown or incomplete options are refused");
  else if (help) ASSERT_(r && o->help, "options: help");
  else {
    ASSUME(np == 0 || eq(pos[0], names[ACTION]));
    int needk = ACTION == 4 || ACTION == 5 || ACTION == 6 || ACTION == 8 || ACTION == 9, needv = ACTION == 5 || ACTION == 9, ok = 1;
    if (np < 1 + (unsigned)needk) ok = 0;
    if (ok && needk) {
      if (hash) { ASSERT_(NHASH == 1 && HASHD == o->key && HASHS == pos[1] && HASHN == strlen(pos[1]), "options: the key is the hash of its argument"); }
      else { ASSERT_(NDEC > nd && DECS[nd] == pos[1] && DECD[nd] == o->key && NHASH == 0, "options: the key is decoded from its argument"); ok = DECR[nd] && DECN[nd] == 32; nd++; }
    }
    if (ok && needv) {
      if (np < 3) ok = 0;
      else { ASSERT_(NDEC > nd && DECS[nd] == pos[2] && (ACTION == 5 ? DECD[nd] == o->value : DECD[nd] == o->proof), "options: the value or the proof is decoded from its argument"); ok = DECR[nd]; if (ok) ASSERT_((ACTION == 5 ? o->value_len : o->proof_len) == DECN[nd], "options: its size is the size decoded"); nd++; }
    }
    ASSERT_(!!r == ok, "options: accepted exactly if complete and every argument decodes");
    if (r) { ASSERT_(o->action == ACTION && !o->help, "options: the action named"); ASSERT_(NDEC == nd && NHASH == (unsigned)(hash && needk), "options: decodes nothing else");
             ASSERT_(o->root == (root ? o->root_data : NULL), "options: a root exactly if one was given"); ASSERT_(path ? o->path == path : eq(o->path, "."), "options: the path given, or the current directory");
             REACH("accepted"); }
  }
  urkel_options_clear(o); ASSERT_(o->proof == NULL, "options: cleared");
}
#endif
