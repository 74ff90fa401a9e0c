/* Spline over NP pages with arbitrary ascending first keys; for an arbitrary key in the
 * range of an arbitrary page, the reported page bounds contain that page. */
#include "dbh.h"
#ifndef NP
#define NP 6
#endif
#ifndef START
#define START 0
#endif
#ifndef STEP
#define STEP 0   /* 1: gaps are free but bounded to KSPAN bytes */
#endif
#ifndef CLEAN
#define CLEAN 0
#endif
#ifndef WORLD
#define WORLD 0
#endif
uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
/* clean for a new oldest page: points may only be dropped up to the one at or before that page */
static void clean(embedDBState *st, uint32_t minPage) {
    spline *s = st->spl;
    uint32_t p0 = 0, p1 = 0, n = s->count;
    memcpy(&p0, (char *)splinePointLocation(s, 0) + KS, 4);
    cleanSpline(st, minPage);
    memcpy(&p1, (char *)splinePointLocation(s, 0) + KS, 4);
    vp_assert(s->count <= n && (n < 2 || s->count >= 2), "cleaning leaves fewer than two points");
    vp_assert(p1 == p0 || p1 <= minPage, "cleaning drops points that stored pages need");
}
/* strictly ascending points */
static void ordered(spline *s) {
    for (uint32_t i = 1; i < s->count; i++) {
        uint64_t a = key_val(splinePointLocation(s, i - 1)), b = key_val(splinePointLocation(s, i));
        vp_assert(a < b, "spline points out of order");
        uint32_t pa, pb;
        memcpy(&pa, (char *)splinePointLocation(s, i - 1) + KS, 4);
        memcpy(&pb, (char *)splinePointLocation(s, i) + KS, 4);
        vp_assert(pa < pb, "spline point pages out of order");
    }
}
void vp_main(void) {
    spline sp;
    uint64_t k[NP + 1];
    splineInit(&sp, SPLP, PERR, KS);
    embedDBState st;
    memset(&st, 0, sizeof st);
    st.spl = &sp;
    st.keySize = KS;
    int minPage = 0;
    for (int i = 0; i < NP; i++) {
#ifdef GAP            /* every gap between two pages is either 1 or GAP */
        uint64_t g = i ? (uint64_t)vp_choice(2) : 0;
        k[i] = i ? k[i - 1] + 1 + g * (GAP - 1) : 5;
#else
        k[i] = vp_sym("k", KS);
        if (i) vp_assume(k[i] > k[i - 1]);
#endif
        splineAdd(&sp, &k[i], (uint32_t)(START + i));
        vp_assert(sp.count >= 1 && sp.count <= SPLP, "spline point count outside its array");
        ordered(&sp);
        if (CLEAN && i >= CLEAN) { minPage = i - CLEAN + 1; clean(&st, (uint32_t)(START + minPage)); }
    }
    if (sp.count > 2) vp_reach("bend");
    if (sp.pointsStartIndex) vp_reach("dropped");
#ifdef GAP            /* the newest, an oldest and a middle page */
    int j = vp_choice(3);
    j = j == 0 ? minPage : j == 1 ? (minPage + NP) / 2 : NP - 2;
#else
    int j = minPage + vp_choice(NP - minPage);
#endif
    uint64_t q = vp_sym("q", KS);
    vp_assume(q >= k[j]);
    if (j + 1 < NP) vp_assume(q < k[j + 1]);
    if (vp_is_true(q > k[j])) vp_reach("inner"); else vp_reach("first");
    uint32_t loc = 0, lo = 0, hi = 0;
    splineFind(&sp, &q, cmp_key_u, &loc, &lo, &hi);
    vp_assert(lo <= (uint32_t)(START + j), "lower page bound above the page of the key");
    vp_assert(hi >= (uint32_t)(START + j), "upper page bound below the page of the key");
    vp_assert(loc >= START && loc < START + NP, "estimated page was never added");
    splineClose(&sp);
    vp_assert(vp_live_allocs() == 0, "memory leaked after close");
    vp_done();
}
