/* Stock bitmap functions: a value inside a queried range is never ruled out.
 * W selects the 8, 16 or 64 bit family; the datum is a 4-byte integer. */
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#ifdef DIST
#include "embedDB.h"
#else
#include "embedDBUtility.h"
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define UPD CAT(updateBitmapInt, W)
#define INB CAT(inBitmapInt, W)
#define BLD CAT(CAT(buildBitmapInt, W), FromRange)
#define NB (W / 8)
static int overlap(uint8_t *a, uint8_t *b) {
    uint8_t r = 0;
    for (int i = 0; i < NB; i++) r |= a[i] & b[i];
    return r != 0;
}
static int pop(uint8_t *a) {
    int n = 0;
    for (int i = 0; i < NB; i++) for (int b = 0; b < 8; b++) n += (a[i] >> b) & 1;
    return n;
}
void vp_main(void) {
    /* heap copies of exactly 4 / NB bytes so that any wider access is caught */
    int32_t *v = malloc(4), *lo = malloc(4), *hi = malloc(4);
    uint8_t *bm = malloc(NB), *one = malloc(NB), *rng = malloc(NB), *prev = malloc(NB);
    *v = (int32_t)vp_sym("v", 4);
    memset(one, 0, NB);
    UPD(v, one);
    vp_observe("one0", one[0]);
    vp_assert(pop(one) == 1, "a value sets exactly one bit of an empty bitmap");
    int mode = vp_choice(7);
    if (mode == 0) {
        vp_reach("update");
        vp_sym_bytes(bm, NB, "bm");
        memcpy(prev, bm, NB);
        UPD(v, bm);
        for (int i = 0; i < NB; i++) vp_assert(bm[i] == (prev[i] | one[i]), "update adds the value's bit and keeps the others");
        vp_assert(INB(v, bm) != 0, "a value that was added is reported as possibly present");
    } else if (mode == 1) {
        vp_reach("absent");
        vp_sym_bytes(bm, NB, "bm");
        vp_assert((INB(v, bm) != 0) == overlap(one, bm), "membership test reports exactly the value's bit");
    } else if (mode == 6) {
        /* two-sided range: exactly the buckets selected by both one-sided ranges */
        vp_reach("both");
        *lo = (int32_t)vp_sym("lo", 4);
        *hi = *v;
        vp_assume(*lo <= *hi);
        memset(rng, 0, NB); memset(bm, 0, NB); memset(prev, 0, NB);
        BLD(lo, hi, rng);
        BLD(lo, NULL, bm);
        BLD(NULL, hi, prev);
        for (int i = 0; i < NB; i++) vp_assert(rng[i] == (bm[i] & prev[i]), "two-sided range bitmap is the intersection of the one-sided ones");
    } else {
        /* one-sided ranges (or none): sound, and selects no bucket wholly outside */
        int useLo = mode == 2 || mode == 4, useHi = mode == 3 || mode == 5, outside = mode >= 4;
        int32_t *b = useLo ? lo : hi;
        *b = (int32_t)vp_sym("bound", 4);
        memset(rng, 0, NB);
        int none = vp_choice(2);
        BLD(useLo && !none ? lo : NULL, useHi && !none ? hi : NULL, rng);
        int in = none || (useLo ? *v >= *b : *v <= *b);
        if (!outside) {
            vp_assume(in);
            vp_reach(none ? "none" : useLo ? "lo" : "hi");
            vp_assert(overlap(rng, one), "range bitmap excludes a value inside the range");
            vp_assert(INB(v, rng) != 0, "value inside the range reported as absent from the range bitmap");
        } else if (!none) {
            memset(bm, 0, NB);
            UPD(b, bm);
            vp_assume(!in && !overlap(bm, one));
            vp_reach("outside");
            vp_assert(!overlap(rng, one), "range bitmap selects a bucket wholly outside the range");
        }
    }
    free(v); free(lo); free(hi); free(bm); free(one); free(rng); free(prev);
    vp_done();
}
