/* N ascending puts (optional flushes at FLM positions), then one iterator with the
 * filters in FIL (1 minKey, 2 maxKey, 4 minData, 8 maxData), compared with a
 * reference scan of the inserted sequence. */
#include "model.h"
#ifndef FLM
#define FLM 0
#endif
#ifndef FIL
#define FIL 0
#endif
static uint64_t minK, maxK;
static dval_t minD, maxD;
static int match(int i) {
    int r = 1;
    if (FIL & 1) r &= mk[i] >= minK;
    if (FIL & 2) r &= mk[i] <= maxK;
    if (FIL & 4) r &= md[i] >= minD;
    if (FIL & 8) r &= md[i] <= maxD;
    return r;
}
void vp_main(void) {
    db_files();
    rfc.eraseKind = 1;
    embedDBState *s = m_init(PARAMS, PERR);
    for (int i = 0; i < N; i++) {
        m_put(s);
#ifndef FLALL
#define FLALL 0     /* bit i: always flush after record i */
#endif
        if ((FLALL >> i) & 1) m_flush(s);
        else if ((FLM >> i) & 1) if (vp_choice(2)) { vp_reach("flush"); m_flush(s); }
    }
    int lo = 0;
#ifdef WRAP
    lo = m_scan(s);
#endif
    embedDBIterator it;
    memset(&it, 0, sizeof it);
    if (FIL & 1) minK = vp_sym("minK", KS);
    if (FIL & 2) maxK = vp_sym("maxK", KS);
    if (FIL & 4) minD = (dval_t)vp_sym("minD", DS);
    if (FIL & 8) maxD = (dval_t)vp_sym("maxD", DS);
    it.minKey = (FIL & 1) ? &minK : NULL;
    it.maxKey = (FIL & 2) ? &maxK : NULL;
    it.minData = (FIL & 4) ? &minD : NULL;
    it.maxData = (FIL & 8) ? &maxD : NULL;
    embedDBInitIterator(s, &it);
    uint64_t k = 0;
    dval_t d = 0;
    int p = lo, cnt = 0;
    while (embedDBNext(s, &it, &k, &d)) {
        while (p < mn && !vp_is_true(match(p))) p++;
        vp_assert(p < mn, "iterator returns a record outside the filters, or one too many");
        vp_assert(k == mk[p] && d == md[p], "iterator skips or corrupts a matching record");
        p++;
        cnt++;
        k = 0;
    }
    vp_observe("cnt", (uint64_t)cnt);
    if (cnt) vp_reach("some"); else vp_reach("none");
    int left = 0;
    for (; p < mn; p++) left |= match(p);
    vp_assert(!left, "iterator ends before the last matching record");
    /* exhausted iterators stay exhausted */
    vp_assert(!embedDBNext(s, &it, &k, &d), "exhausted iterator returns another record");
    embedDBCloseIterator(&it);
    m_end(s);
}
