/* A long history: more than 65536 pages written to a small circular file (and index / variable-data file).  Page numbers,
 * eviction, lookups of arbitrary keys, scans and restarts keep working beyond the 16-bit range. */
#include "dbh.h"
#ifndef N
#define N 66000
#endif
#define VARD (PARAMS & EMBEDDB_USE_VDATA)
#define RLCP (PARAMS & EMBEDDB_RECORD_LEVEL_CONSISTENCY)
static uint32_t next[3];
static int chk;
static int8_t lw(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
    RF *f = file;
    if (chk && !(RLCP && f == &fData)) {
        uint32_t id;
        memcpy(&id, buffer, 4);
        vp_assert(id == next[f->id] && pageNum == id % f->maxPages, "page written with a wrong number or to a wrong place");
        next[f->id]++;
    }
    return rf_write(buffer, pageNum, pageSize, file);
}
static dval_t last[3];
static void put(embedDBState *s, int i) {
    uint64_t k = 3 * (uint64_t)i + 1;
    dval_t d = (dval_t)(i % 29);
    if (i >= N - 3 && i < N) d = last[i - (N - 3)];
#if VARD
    uint8_t v[2] = {(uint8_t)i, (uint8_t)(i >> 8)};
    vp_assert(embedDBPutVar(s, &k, &d, v, 2) == 0, "put fails");
#else
    vp_assert(embedDBPut(s, &k, &d) == 0, "put fails");
#endif
}
static int scan(embedDBState *s, int n) {
    embedDBIterator it;
    memset(&it, 0, sizeof it);
    embedDBInitIterator(s, &it);
    uint64_t k = 0;
    dval_t d = 0;
    int i = -1, c = 0;
    while (embedDBNext(s, &it, &k, &d)) {
        if (i < 0) { i = (int)((k - 1) / 3); }
        vp_assert(c++ < n && k == 3 * (uint64_t)i + 1, "scan skips or repeats records");
        if (i < N - 3) vp_assert(d == (dval_t)(i % 29), "scan returns wrong data");
        else if (i < N) vp_assert(d == last[i - (N - 3)], "scan returns wrong data");
        i++;
        k = 0;
    }
    vp_assert(i == n, "scan misses the newest records");
    embedDBCloseIterator(&it);
    return n - c;
}
void vp_main(void) {
    db_files();
    rf_if.write = lw;
    rfc.eraseKind = 1;
    embedDBState *s = db_make(PARAMS | EMBEDDB_RESET_DATA, 1);
    vp_assert(embedDBInit(s, PERR) == 0, "init fails");
    for (int i = 0; i < 3; i++) last[i] = (dval_t)vp_sym("d", DS);
    int per = s->maxRecordsPerPage;
    chk = 1;
    for (int i = 0; i < N; i++) put(s, i);
    vp_assert((int)s->nextDataPageId == (N - 1) / per && s->nextDataPageId > 65536, "harness: not enough pages");
    int n = N;
    if (vp_choice(2)) {
        if (!RLCP) n = (N - 1) / per * per;
        embedDBClose(s);
        db_free(s);
        s = db_make(PARAMS, 1);
        vp_assert(embedDBInit(s, PERR) == 0, "reopening fails");
        vp_assert((int)s->nextDataPageId == (N - 1) / per, "restart loses pages");
        vp_reach("restart");
    }
    int lo = scan(s, n);
    vp_assert(lo <= n - (ND - ES - (RLCP ? 2 * ES : 0)) * per, "records lost that must be retained");
    uint64_t k = vp_sym("q", KS);
    dval_t d = 0;
    vp_assume(k > 3 * (uint64_t)(lo - 2) && k < 3 * (uint64_t)n + 3);
    int8_t r = embedDBGet(s, &k, &d);
    if (vp_is_true(k % 3 == 1 && k > 3 * (uint64_t)lo && k < 3 * (uint64_t)n)) vp_assert(r == 0, "stored key not found");
    else vp_assert(r != 0, "key that is not stored is found");
#if VARD
    int i = lo + vp_choice(n - lo);
    k = 3 * (uint64_t)i + 1;
    embedDBVarDataStream *st = NULL;
    r = embedDBGetVar(s, &k, &d, &st);
    vp_assert(r == 0 || r == 1, "stored key not found");
    if (i > n - (NV - ES) * ((PGS - KS - 4) / 6) + 1) vp_assert(r == 0, "variable data lost that must be retained");
    if (r == 0) {
        uint8_t o[2] = {0, 0};
        vp_assert(st && embedDBVarDataStreamRead(s, st, o, 2) == 2 && o[0] == (uint8_t)i && o[1] == (uint8_t)(i >> 8), "wrong variable data");
        free(st);
        vp_reach("vardata");
    }
#endif
#ifdef QUERY
    embedDBIterator it;
    memset(&it, 0, sizeof it);
    dval_t mind = (dval_t)vp_sym("min", DS);
    it.minData = &mind;
    embedDBInitIterator(s, &it);
    int p = lo;
    while (embedDBNext(s, &it, &k, &d)) {
        while (p < n && !vp_is_true((p < N - 3 ? (dval_t)(p % 29) : last[p - (N - 3)]) >= mind)) p++;
        vp_assert(p < n && k == 3 * (uint64_t)p + 1, "query skips or invents records");
        p++;
        k = 0;
    }
    for (; p < n; p++) vp_assert(!((p < N - 3 ? (dval_t)(p % 29) : last[p - (N - 3)]) >= mind), "query misses records");
    embedDBCloseIterator(&it);
#endif
    for (int i = n; i < n + 5; i++) put(s, i);
    vp_assert(scan(s, n + 5) >= lo, "an evicted record reappears");
    vp_reach("more");
    embedDBClose(s);
    db_free(s);
    vp_assert(vp_live_allocs() == 0, "memory leaked after close");
    vp_done();
}
