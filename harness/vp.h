/* Interface between harnesses and the symbolic executor (engine/symx.cpp) or
 * the native replay runtime (harness/vp_native.c). */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
uint64_t vp_sym(const char *name, unsigned bytes);                 /* arbitrary value of 1..8 bytes, zero extended */
void vp_sym_bytes(void *p, size_t n, const char *name);            /* arbitrary bytes */
int vp_choice(int n);                                              /* every value in 0..n-1 */
void vp_assume(int c);
void vp_assert(int c, const char *msg);
void vp_reach(const char *label);                                  /* vacuity witness */
void vp_known(const char *id);                                     /* scenario of a listed finding */
void vp_unknown(const char *id);
void vp_observe(const char *tag, uint64_t v);                      /* cross-checked against native execution */
uint64_t vp_concretize(uint64_t v);                                /* fork over the feasible values */
int vp_is_true(int c);                                             /* fork on condition */
int vp_live_allocs(void);
int vp_symbolic_mode(void);
void vp_done(void);                                                /* end of path */
#endif
