/* Contracts of the proof codec. Field transfers are stubs which watch the
 * cursor: the bytes of a proof are consumed (produced) in order, without gaps
 * or overlaps, within the buffer; what is read is an arbitrary value which
 * must end up in the field the format gives it. */
#define VF_RAW
#define VF_DEFINE_ABORT
#include "vf.h"
#include "proof.c"

static urkel_proof_t *P;
const unsigned char *BASE; size_t TOTAL;
size_t GPOS;                       /* next byte */
size_t GN;                         /* complete nodes */
_Bool GPFX, GBAD;                  /* current prefix read / could not be read */
urkel_bits_t GP;                   /* the prefix last read */
u256 GH0, GH1; unsigned GHN;       /* last two 32-byte fields; how many since the last node */
_Bool GVAL;                        /* the value was read */
static unsigned ibit(size_t i) { return (BASE[4 + (i >> 3)] >> (7 - (i & 7))) & 1; }
static size_t U16(size_t at) { return BASE[at] | (size_t)BASE[at + 1] << 8; }
static size_t bsz(size_t n) { return (n >= 0x80 ? 2 : 1) + (n + 7) / 8; }

size_t urkel_bits_size(const urkel_bits_t *bits) {
  ASSERT_(bits->size <= 256, "contract of bits_size: within a key");
  return bsz(bits->size);
}
void urkel_bits_init(urkel_bits_t *bits, size_t size) { bits->size = size; ST(bits->data, (u256)0); }

#ifdef OP_read
int urkel_bits_read(urkel_bits_t *bits, const unsigned char *data, size_t len) {
  ASSERT_(data == BASE + GPOS && len == TOTAL - GPOS, "decode: prefixes are read at the cursor, with the bytes which are left");
  ASSERT_(GN >= U16(2) ? (BASE[1] >> 6) == URKEL_TYPE_SHORT && !GPFX : !GPFX && ibit(GN), "decode: a prefix exactly where the format has one");
  bits->size = 0; ST(bits->data, (u256)0);
  if (nondet_bool()) { GBAD = 1; return 0; }
  size_t n = nondet_size();
  ASSUME(n <= 256 && bsz(n) <= len);
  bits->size = n; ST(bits->data, nondet_u256());
  GP = *bits; GPFX = 1; GPOS += bsz(n);
  return 1;
}
void stub_read(unsigned char *dst, const unsigned char *src, size_t size) {
  /* the value of an existence proof follows its two-byte length, read in place */
  if (GN >= U16(2) && (BASE[1] >> 6) == URKEL_TYPE_EXISTS) {
    ASSERT_(!GVAL && TOTAL - GPOS >= 2 && src == BASE + GPOS + 2 && size <= TOTAL - GPOS - 2, "decode: the value is read at the cursor, within the buffer");
    ASSERT_(size == U16(GPOS) && size <= URKEL_VALUE_SIZE && dst == P->value, "decode: the whole value goes to the proof");
    GPOS += 2 + size; GVAL = 1;
    return;
  }
  ASSERT_(size == 32, "decode: whole hashes and keys");
  ASSERT_(src == BASE + GPOS && TOTAL - GPOS >= 32, "decode: fields are read at the cursor, within the buffer");
  ASSERT_(GN >= U16(2) || GPFX == ibit(GN), "decode: a node's prefix comes before its hash");
  GH0 = GH1; GH1 = nondet_u256(); GHN++;
  ST(dst, GH1);
  GPOS += 32;
}
void stub_push(urkel_proof_t *proof, const urkel_bits_t *prefix, const unsigned char *hash) {
  ASSERT_(proof == P && proof->nodes_len < 256, "contract of proof_push: room for another node");
  ASSERT_(GN < U16(2) && GN == proof->nodes_len && GHN == 1 && LD(hash) == GH1, "decode: a node gets the hash just read");
  if (ibit(GN)) ASSERT_(GPFX && prefix->size == GP.size && prefix->size > 0 && LD(prefix->data) == LD(GP.data), "decode: a node gets the non-empty prefix just read");
  else ASSERT_(prefix->size == 0 && LD(prefix->data) == 0, "decode: a node without prefix gets the empty one");
  proof->nodes_len++; GN++; GPFX = 0; GHN = 0;
}

/* nothing more can be read at the cursor: the only reason to refuse */
static _Bool stuck(void) {
  if (TOTAL < 4) return 1;
  size_t field = U16(0), count = U16(2), left = TOTAL - GPOS;
  unsigned type = field >> 14;
  if ((field & 0x3fff) > 256 || count > 256 || TOTAL - 4 < (count + 7) / 8) return 1;
  if (GBAD || (GPFX && GP.size == 0)) return 1;
  if (GN < count) return (!ibit(GN) || GPFX) && left < 32;
  switch (type) {
    case URKEL_TYPE_DEADEND: return left != 0;
    case URKEL_TYPE_SHORT: return GPFX && (GHN == 0 ? left < 64 : GHN == 2 && left != 0);
    case URKEL_TYPE_COLLISION: return GHN == 0 ? left < 64 : GHN == 2 && left != 0;
    default: return GVAL ? left != 0 : left < 2 || U16(GPOS) > URKEL_VALUE_SIZE || left - 2 < U16(GPOS);
  }
}

int main(void) {
  urkel_proof_t p0; P = &p0;
  TOTAL = nondet_size();
  ASSUME(TOTAL <= 0x7fffffffffff);
  BASE = malloc(TOTAL);
  ASSUME(BASE != NULL);
  GN = 0; GPFX = 0; GBAD = 0; GHN = 0; GVAL = 0;
  GPOS = TOTAL < 4 ? 0 : 4 + (U16(2) + 7) / 8;
#ifdef COUNT
  ASSUME(TOTAL < 4 || U16(2) <= COUNT);
#endif
  int ret = urkel_proof_read(P, BASE, TOTAL);
  ASSERT_(P->nodes_len == GN, "decode: the proof owns exactly the nodes made for it");
  if (ret) {
    ASSERT_(GPOS == TOTAL, "decode: accepts only strings which are consumed completely");
    size_t field = U16(0);
    ASSERT_(P->type == field >> 14 && P->depth == (field & 0x3fff) && P->depth <= 256, "decode: type and depth");
    ASSERT_(P->nodes_len == U16(2), "decode: as many nodes as announced");
    ASSERT_(P->type == URKEL_TYPE_SHORT ? P->prefix.size == GP.size && P->prefix.size > 0 && LD(P->prefix.data) == LD(GP.data) : P->prefix.size == 0, "decode: the terminal's prefix");
    if (P->type == URKEL_TYPE_SHORT) ASSERT_(GHN == 2 && LD(P->left) == GH0 && LD(P->right) == GH1, "decode: both sides of a short proof");
    if (P->type == URKEL_TYPE_COLLISION) ASSERT_(GHN == 2 && LD(P->key) == GH0 && LD(P->hash) == GH1, "decode: key and hash of a collision");
    if (P->type == URKEL_TYPE_EXISTS) ASSERT_(GVAL && P->size <= URKEL_VALUE_SIZE, "decode: the value");
    else ASSERT_(P->size == 0, "decode: no value where none is claimed");
    REACH("accepts");
  } else {
    ASSERT_(stuck(), "decode: refuses only strings which do not follow the format");
    REACH("refuses");
  }
}
#endif

#if defined(OP_write) || defined(OP_size)
/* Two arbitrary nodes: NA at one arbitrary place, NB at every other. */
static urkel_proof_node_t NA, NB; size_t J;
size_t SBASE, CA, CB;
static size_t cost(const urkel_proof_node_t *n) { return (n->prefix.size > 0 ? bsz(n->prefix.size) : 0) + 32; }
/* where node i starts, by the documented layout */
#define START(i) (SBASE + (i) * CB + ((i) > J ? CA - CB : 0))
static void setup(void) {
  static urkel_proof_t p0; P = &p0;
  P->type = nondet_uint(); P->depth = nondet_uint(); P->nodes_len = nondet_size(); P->size = nondet_size();
  ASSUME(P->nodes_len <= 256 && P->type <= 3 && P->depth <= 256 && P->size <= URKEL_VALUE_SIZE);
#ifdef COUNT
  P->nodes_len = COUNT;
#endif
  P->prefix.size = nondet_size();
  ASSUME(P->prefix.size <= 256);
  ST(P->prefix.data, nondet_u256()); ST(P->left, nondet_u256()); ST(P->right, nondet_u256()); ST(P->key, nondet_u256()); ST(P->hash, nondet_u256());
  J = nondet_size(); ASSUME(J < 256);
  NA.prefix.size = nondet_size(); NB.prefix.size = nondet_size();
  ASSUME(NA.prefix.size <= 256 && NB.prefix.size <= 256);
  ST(NA.prefix.data, nondet_u256()); ST(NB.prefix.data, nondet_u256()); ST(NA.hash, nondet_u256()); ST(NB.hash, nondet_u256());
  for (unsigned i = 0; i < 256; i++) P->nodes[i] = i == J ? &NA : &NB;
  SBASE = 4 + (P->nodes_len + 7) / 8; CA = cost(&NA); CB = cost(&NB);
}
static size_t tail(void) {
  switch (P->type) {
    case URKEL_TYPE_SHORT: return bsz(P->prefix.size) + 64;
    case URKEL_TYPE_COLLISION: return 64;
    case URKEL_TYPE_EXISTS: return 2 + P->size;
  }
  return 0;
}
#endif

#ifdef OP_size
int main(void) {
  setup();
  size_t n = urkel_proof_size(P);
  ASSERT_(n == START(P->nodes_len) + tail(), "size: exactly what the documented layout takes");
  REACH("size");
}
#endif

#ifdef OP_write
unsigned char OUT[URKEL_PROOF_SIZE];
size_t SB;        /* an arbitrary node whose bitmap bit is watched */
unsigned GF;      /* fields written since the last node */
static const urkel_proof_node_t *wcur(void) { return GN == J ? &NA : &NB; }
/* the field due at the cursor */
unsigned char *urkel_bits_write(const urkel_bits_t *bits, unsigned char *data) {
  const urkel_bits_t *want = GN < P->nodes_len ? &wcur()->prefix : &P->prefix;
  ASSERT_(data == OUT + GPOS, "encode: fields are written one after the other");
  ASSERT_(GF == 0 && !GPFX && (GN < P->nodes_len ? want->size > 0 : P->type == URKEL_TYPE_SHORT), "encode: a prefix exactly where the format has one");
  ASSERT_(bits->size == want->size && LD(bits->data) == LD(want->data), "encode: the prefix which is due");
  GPFX = 1; GPOS += bsz(bits->size);
  return data + bsz(bits->size);
}
unsigned char *stub_write(unsigned char *dst, const unsigned char *src, size_t size) {
  ASSERT_(dst == OUT + GPOS && size <= sizeof(OUT) - GPOS, "encode: fields are written one after the other, within the announced size");
  ASSERT_(size == 0 || __CPROVER_r_ok(src, size), "encode: fields are as long as their source");
  if (GPOS == 4 && GN == 0 && !GVAL) {
    ASSERT_(size == (P->nodes_len + 7) / 8, "encode: one bit per node");
    for (unsigned k = 0; k < 32; k++) if (k < size) dst[k] = src[k];
    GVAL = 1;
  } else if (GN < P->nodes_len) {
    ASSERT_(size == 32 && LD(src) == LD(wcur()->hash) && GPFX == (wcur()->prefix.size > 0), "encode: each node ends with its hash");
    GN++; GPFX = 0;
  } else if (P->type == URKEL_TYPE_SHORT) {
    ASSERT_(GPFX && GF < 2 && size == 32 && LD(src) == (GF == 0 ? LD(P->left) : LD(P->right)), "encode: prefix, left, right");
    GF++;
  } else if (P->type == URKEL_TYPE_COLLISION) {
    ASSERT_(GF < 2 && size == 32 && LD(src) == (GF == 0 ? LD(P->key) : LD(P->hash)), "encode: key, hash");
    GF++;
  } else {
    ASSERT_(P->type == URKEL_TYPE_EXISTS && GF == 1 && src == P->value && size == P->size, "encode: length, value");
    GF++;
  }
  GPOS += size;
  return dst + size;
}
unsigned char *stub_write16(unsigned char *dst, uint16_t word) {
  ASSERT_(dst == OUT + GPOS && GPOS + 2 <= sizeof(OUT), "encode: fields are written one after the other");
  if (GPOS == 0) ASSERT_(word == (P->type << 14 | P->depth), "encode: type and depth");
  else if (GPOS == 2) ASSERT_(word == P->nodes_len, "encode: number of nodes");
  else { ASSERT_(GN == P->nodes_len && P->type == URKEL_TYPE_EXISTS && GF == 0 && word == P->size, "encode: the value's length"); GF++; }
  GPOS += 2;
  return dst + 2;
}
int main(void) {
  setup();
  SB = nondet_size(); ASSUME(SB < 256);
  GPOS = 0; GN = 0; GPFX = 0; GVAL = 0; GF = 0;
  unsigned char *end = urkel_proof_write(P, OUT);
  ASSERT_(GN == P->nodes_len, "encode: every node is written");
  ASSERT_(P->type == URKEL_TYPE_DEADEND ? GF == 0 : GF == 2, "encode: the terminal is written");
  ASSERT_(GPOS == START(P->nodes_len) + tail() && end == OUT + GPOS, "encode: writes exactly the announced number of bytes");
  if (SB < P->nodes_len) ASSERT_(((OUT[4 + (SB >> 3)] >> (7 - (SB & 7))) & 1) == ((SB == J ? &NA : &NB)->prefix.size > 0), "encode: a node's bit says whether it has a prefix");
  REACH("write");
}
#endif

#ifdef OP_push
int main(void) {
  urkel_proof_t p0; urkel_bits_t b; unsigned char h[32];
  ST(h, nondet_u256()); ST(b.data, nondet_u256()); b.size = nondet_size();
  ASSUME(p0.nodes_len < 256);
  size_t n = p0.nodes_len, q = nondet_size(); ASSUME(q < n);
  urkel_proof_node_t *keep = p0.nodes[q];
  u256 hv = LD(h), bv = LD(b.data);
  urkel_proof_push(&p0, &b, h);
  ASSERT_(p0.nodes_len == n + 1 && __CPROVER_OBJECT_SIZE(p0.nodes[n]) == sizeof(urkel_proof_node_t), "push: a new node at the end");
  ASSERT_(p0.nodes[n]->prefix.size == b.size && LD(p0.nodes[n]->prefix.data) == bv && LD(p0.nodes[n]->hash) == hv, "push: with prefix and hash");
  ASSERT_(p0.nodes[q] == keep, "push: other nodes stay");
  free(p0.nodes[n]);
  REACH("push");
}
#endif

#ifdef OP_init
int main(void) {
  urkel_proof_t p0;
  urkel_proof_init(&p0);
  ASSERT_(p0.nodes_len == 0 && p0.size == 0 && p0.prefix.size == 0, "init: an empty proof");
  REACH("init");
}
#endif
#ifdef OP_clear
/* every node is freed once: nodes_len concrete per pass, all passes enumerated */
int main(void) {
  static urkel_proof_t p0;
  size_t n = nondet_size(); ASSUME(n <= 256);
  for (size_t i = 0; i < 256; i++) p0.nodes[i] = (urkel_proof_node_t *)(i < n ? malloc(1) : NULL);
  p0.nodes_len = n;
  urkel_proof_clear(&p0);
  ASSERT_(p0.nodes_len == 0, "clear: the proof is empty");
  REACH("clear");
}
#endif
