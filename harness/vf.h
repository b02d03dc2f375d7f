/* vf.h - verification-side primitives. */
#ifndef VF_H
#define VF_H
#include "spec.h"
#ifdef VF_CBMC
#define ASSERT_(c, m) __CPROVER_assert((c), m)
#define ASSUME(c) __CPROVER_assume(c)
#define REACH(m) __CPROVER_assert(0, "VF_REACH " m)
#endif
size_t nondet_size(void);
int nondet_int(void);
unsigned nondet_uint(void);
unsigned char nondet_uchar(void);
uint64_t nondet_u64(void);
uint32_t nondet_u32(void);
uint16_t nondet_u16(void);
u256 nondet_u256(void);
_Bool nondet_bool(void);

/* An internal CHECK that can fire would abort the user's process. */
#ifdef VF_DEFINE_ABORT
void __urkel_abort(void) {
  __CPROVER_assert(0, "no internal CHECK fires");
  __CPROVER_assume(0);
}
void __urkel_assert_fail(const char *f, int l, const char *e) {
  (void)f; (void)l; (void)e;
  __CPROVER_assert(0, "no internal assertion fires");
  __CPROVER_assume(0);
}
void abort(void) {
  __CPROVER_assert(0, "abort is not called");
  __CPROVER_assume(0);
}
#endif
#endif
