/* Shared by the CBMC proof build and by the native replay build of every
   harness.  A harness has one global input record `in` (struct IN); under CBMC
   it is fully nondeterministic, in a replay it is loaded from the
   counterexample. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>

#ifdef __CPROVER
#define VP_REQUIRES(x)  __CPROVER_requires(x)
#define VP_ENSURES(x)   __CPROVER_ensures(x)
#define VP_ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define VP_OLD(x)       __CPROVER_old(x)
#define VP_RET          __CPROVER_return_value
#define ASSUME(x)       __CPROVER_assume(x)
#define CHECK(x, msg)   __CPROVER_assert((x), "CHECK: " msg)
/* must be reachable: reported FAILURE by the verifier, otherwise the harness
   is vacuous */
#define REACH(msg)      __CPROVER_assert(0, "REACH: " msg)
#define VP_INPUTS(T)    T in; T nondet_in(void); T vp_in;
#define VP_LOAD()       do { vp_in = nondet_in(); in = vp_in; } while(0)
#else
#include <stdio.h>
#include <stdlib.h>
#define VP_REQUIRES(x)
#define VP_ENSURES(x)
#define VP_ASSIGNS(...)
void vp_assume_failed(const char *);
void vp_check_failed(const char *);
#define ASSUME(x)       do { if(!(x)) vp_assume_failed(#x); } while(0)
#define CHECK(x, msg)   do { if(!(x)) vp_check_failed(msg); } while(0)
#define REACH(msg)      do { } while(0)
#define VP_INPUTS(T)    T in = VP_IN_INITIALISER;
#define VP_LOAD()       do { } while(0)
#endif

#define ARRLEN(a) (sizeof(a) / sizeof((a)[0]))
#endif
