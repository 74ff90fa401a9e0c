/* Long-lived spline: many pages through a small circular point array that erases ESZ points at a time (by itself
 * when full, or through cleanSpline when CLEAN).  Early keys follow one of several gap patterns, the keys of the
 * last TAIL pages are arbitrary (ascending).  Keys of the newest pages must stay within the reported bounds. */
#include "dbh.h"
#ifndef NP
#define NP 14
#endif
#ifndef TAIL
#define TAIL 3
#endif
#ifndef ESZ
#define ESZ 1
#endif
#ifndef RUN         /* pages between changes of slope */
#define RUN 1
#endif
#ifndef CLEAN       /* pages kept when cleaning (0: no cleaning) */
#define CLEAN 0
#endif
uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
/* clean for a new oldest page: points may only be dropped up to the one at or before that page */
static void clean(embedDBState *st, uint32_t minPage) {
    spline *s = st->spl;
    uint32_t p0 = 0, p1 = 0, n = s->count;
    memcpy(&p0, (char *)splinePointLocation(s, 0) + KS, 4);
    cleanSpline(st, minPage);
    memcpy(&p1, (char *)splinePointLocation(s, 0) + KS, 4);
    vp_assert(s->count <= n && (n < 2 || s->count >= 2), "cleaning leaves fewer than two points");
    vp_assert(p1 == p0 || p1 <= minPage, "cleaning drops points that stored pages need");
}
void vp_main(void) {
    spline sp;
    uint64_t k[NP];
    splineInit(&sp, SPLP, PERR, KS);
    sp.eraseSize = ESZ;
    embedDBState st;
    memset(&st, 0, sizeof st);
    st.spl = &sp;
    st.keySize = KS;
    int pat = vp_choice(5);
    uint64_t v = 1000;
    int erased = 0;
    for (int i = 0; i < NP; i++) {
        if (i < NP - TAIL) {
            int big = pat < 4 ? (i / RUN) % (pat + 2) == 0 : (i / RUN * (i / RUN)) % 5 < 2;
            v += big ? 400 + (uint64_t)(i / RUN % 2) * 900 : 1;
            k[i] = v;
        } else {
            k[i] = vp_sym("k", KS);
            vp_assume(k[i] > k[i - 1]);
        }
        uint32_t before = sp.pointsStartIndex;
        splineAdd(&sp, &k[i], (uint32_t)i);
        vp_assert(sp.count >= 1 && sp.count <= SPLP, "spline point count outside its array");
        if (CLEAN && i >= CLEAN && i % 3 == 0) clean(&st, (uint32_t)(i - CLEAN + 1));
        if (sp.pointsStartIndex < before) { erased++; vp_reach("around"); }
    }
    for (uint32_t i = 1; i < sp.count; i++)
        vp_assert(key_val(splinePointLocation(&sp, i - 1)) < key_val(splinePointLocation(&sp, i)), "spline points out of order");
    int keep = CLEAN ? CLEAN : 2;
    if (keep > 2 && sp.count == SPLP) keep = 2;
    int j = NP - keep + vp_choice(keep);
    uint64_t q = vp_sym("q", KS);
    vp_assume(q >= k[j]);
    if (j + 1 < NP) vp_assume(q < k[j + 1]);
    uint32_t loc = 0, lo = 0, hi = 0;
    splineFind(&sp, &q, cmp_key_u, &loc, &lo, &hi);
    vp_assert(lo <= (uint32_t)j, "lower page bound above the page of the key");
    vp_assert(hi >= (uint32_t)j, "upper page bound below the page of the key");
    vp_reach("found");
    splineClose(&sp);
    vp_assert(vp_live_allocs() == 0, "memory leaked after close");
    vp_done();
}
