/* Pages that hold more than 127 (or more than 255) records: lookup in the write buffer and on pages, scan,
 * restart.  Stored keys are fixed, their data arbitrary; the key looked up is any in windows around the
 * 127th/128th and the last record. */
#include "dbh.h"
#ifndef N
#define N 200
#endif
#ifndef GAP
#define GAP 3
#endif
static uint64_t k0;
static dval_t dats[N];
static dval_t dat(int i) { return dats[i]; }
static void big_get(embedDBState *s, int hi) {
    uint64_t k = vp_sym("q", KS);
    dval_t d = 0;
    /* a window around the 127th, 128th or last stored record */
    int mid = vp_choice(2) ? 127 : hi - 1;
    vp_assume(k + GAP * 6 >= k0 + (uint64_t)GAP * mid && k <= k0 + (uint64_t)GAP * (mid + 4));
    k = vp_concretize(k);   /* the slope estimate over a page this large is decided key by key */
    int8_t r = embedDBGet(s, &k, &d);
    uint64_t off = k - k0;
    if (r == 0) {
        vp_reach("present");
        uint64_t i = off;
        vp_assert(i % GAP == 0 && i / GAP < (uint64_t)hi, "key that is not stored is found");
        vp_assert(d == dat((int)(i / GAP)), "lookup returns wrong data");
    } else {
        vp_reach("absent");
        if (off < (uint64_t)hi * GAP) vp_assert(off % GAP != 0, "stored key not found");
    }
}
static void big_scan(embedDBState *s, int hi) {
    embedDBIterator it;
    memset(&it, 0, sizeof it);
    embedDBInitIterator(s, &it);
    uint64_t k = 0;
    dval_t d = 0;
    int n = 0;
    while (embedDBNext(s, &it, &k, &d)) {
        vp_assert(n < hi && k == k0 + (uint64_t)n * GAP && d == dat(n), "scan returns a wrong record");
        n++;
        k = 0;
    }
    vp_assert(n == hi, "scan misses records");
    embedDBCloseIterator(&it);
}
void vp_main(void) {
    db_files();
    embedDBState *s = db_make(PARAMS | EMBEDDB_RESET_DATA, 1);
    vp_assert(embedDBInit(s, PERR) == 0, "init fails");
    int per = s->maxRecordsPerPage;
    vp_assert(per > 127 && N > per, "job does not fill a page");
    k0 = 17;
    for (int i = 0; i < N; i++) {
        uint64_t k = k0 + (uint64_t)i * GAP;
        dval_t d = dats[i] = (dval_t)vp_sym("d", DS);
        vp_assert(embedDBPut(s, &k, &d) == 0, "put fails");
        if (i == per - 2) if (vp_choice(2)) { big_get(s, i + 1); vp_done(); }
    }
    int step = vp_choice(2);
    int hi = N;
    if (step) {
        embedDBClose(s);
        db_free(s);
        s = db_make(PARAMS, 1);
        vp_assert(embedDBInit(s, PERR) == 0, "reopening fails");
        hi = (N - 1) / per * per;
        vp_assert((int)s->nextDataPageId == hi / per, "restart loses pages");
        vp_reach("restart");
    }
    big_scan(s, hi);
    big_get(s, hi);
    embedDBClose(s);
    db_free(s);
    vp_assert(vp_live_allocs() == 0, "memory leaked after close");
    vp_done();
}
