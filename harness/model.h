/* Reference model of the stored history and helpers shared by harnesses. */
#ifndef MODEL_H
#define MODEL_H
#include "dbh.h"
#ifndef N
#define N 9
#endif
#ifndef KMAX          /* optional bound on key magnitude: keys < 2^KMAX (0: none) */
#define KMAX 0
#endif
#define MAXREC 40
static uint64_t mk[MAXREC];      /* accepted keys, in order */
static dval_t md[MAXREC];
static int mn;                   /* number of accepted records */
static int mstart[MAXREC + 2];   /* index of the first record of each data page written */
static int mpages;               /* data pages written (full pages, or flushed partial ones) */
static int mdone;                /* records on written pages: durable */
static int mlo;                  /* records below this are known to be gone */
static int USE_RLC;
static void m_page(void) { mstart[mpages++] = mdone; mdone = mn; }
/* oldest record that must still be stored: recycling frees one erase block at a time */
static int m_maxLost(embedDBState *s) {
    int keep = (int)ND - ES - (USE_RLC ? 2 * ES : 0);
    if (mpages <= keep) return 0;
    return mstart[mpages - keep];
}

static uint64_t fresh_key(void) {
    uint64_t k = vp_sym("k", KS);
    if (KMAX) vp_assume(k < ((uint64_t)1 << (KMAX ? KMAX : 1)));
    if (mn) vp_assume(k > mk[mn - 1]);
    return k;
}
#ifndef DSYM          /* records (bit i: record i) with arbitrary data; the others hold 5 */
#define DSYM ~0u
#endif
/* put an arbitrary larger key; it must be accepted */
static void m_put(embedDBState *s) {
#ifdef KCONC
    uint64_t k = 10 * (uint64_t)mn + 7;
#else
    uint64_t k = fresh_key();
#endif
    dval_t d = DSYM >> mn & 1 ? (dval_t)vp_sym("d", DS) : (dval_t)5;
    if (mn - mdone >= s->maxRecordsPerPage) m_page();
    mk[mn] = k;
    md[mn] = d;
    mn++;
    vp_assert(embedDBPut(s, &k, &d) == 0, "put of an ascending key fails");
}
static int m_find(uint64_t k) {
    for (int i = 0; i < mn; i++) if (mk[i] == k) return i;
    return -1;
}
static void m_flush(embedDBState *s) {
    vp_assert(embedDBFlush(s) == 0, "flush fails");
    if (mn > mdone) m_page();
}
/* records that must survive: everything within the last  pages-erase  pages */
static int per_page(embedDBState *s) { return s->maxRecordsPerPage; }
/* Full scan (no filters): must return records lo..mn-1 in order, for some lo; returns lo. */
static int m_scan(embedDBState *s) {
    int maxLost = m_maxLost(s);
    embedDBIterator it;
    memset(&it, 0, sizeof it);
    it.minKey = it.maxKey = it.minData = it.maxData = NULL;
    embedDBInitIterator(s, &it);
    uint64_t k = 0;
    dval_t d = 0;
    int pos = -1, lo = mn, cnt = 0;
    while (embedDBNext(s, &it, &k, &d)) {
        vp_assert(cnt <= mn, "scan returns more records than were inserted");
        if (pos < 0) {
            for (int i = 0; i < mn; i++) if (mk[i] == k) { pos = i; break; }
            vp_assert(pos >= 0, "scan returns a key that was never inserted");
            lo = pos;
        } else {
            vp_assert(pos < mn && mk[pos] == k, "scan skips, repeats or reorders records");
        }
        vp_assert(md[pos] == d, "scan returns wrong data");
        pos++;
        cnt++;
        k = 0;
    }
    if (pos >= 0) vp_assert(pos == mn, "scan stops before the newest record");
    embedDBCloseIterator(&it);
    vp_observe("scan", (uint64_t)(lo * 100 + cnt));
    vp_assert(lo <= maxLost, "records lost that must be retained");
    vp_assert(lo >= mlo, "an evicted record reappears");
    mlo = lo;
    return lo;
}
/* point lookup of an arbitrary key; records below lo are gone */
static void m_get(embedDBState *s) {
    int lo = mlo;
    uint64_t k = vp_sym("q", KS);
    dval_t d = 0;
    int8_t r = embedDBGet(s, &k, &d);
    int idx = m_find(k);
    vp_observe("get", (uint64_t)(uint8_t)r);
    if (idx >= lo) {
        vp_reach("present");
        vp_assert(r == 0, "stored key not found");
        vp_assert(d == md[idx], "lookup returns wrong data");
    } else {
        vp_reach("absent");
        vp_assert(r != 0, "key that is not stored is found");
    }
}
/* iteration with an arbitrary data range returns exactly the matching stored records, in order */
static void m_query(embedDBState *s, int fil) {
    dval_t minD = 0, maxD = 0;
    if (fil & 4) minD = (dval_t)vp_sym("minD", DS);
    if (fil & 8) maxD = (dval_t)vp_sym("maxD", DS);
    embedDBIterator it;
    memset(&it, 0, sizeof it);
    it.minData = (fil & 4) ? &minD : NULL;
    it.maxData = (fil & 8) ? &maxD : NULL;
    embedDBInitIterator(s, &it);
    uint64_t k = 0;
    dval_t d = 0;
    int p = mlo;
#define M_MATCH(i) ((!(fil & 4) | (md[i] >= minD)) & (!(fil & 8) | (md[i] <= maxD)))
    while (embedDBNext(s, &it, &k, &d)) {
        while (p < mn && !vp_is_true(M_MATCH(p))) p++;
        vp_assert(p < mn, "query returns a record outside the range, or one too many");
        vp_assert(k == mk[p] && d == md[p], "query skips or corrupts a matching record");
        vp_reach("match");
        p++;
        k = 0;
    }
    int left = 0;
    for (; p < mn; p++) left |= M_MATCH(p);
    vp_assert(!left, "query misses matching records");
    embedDBCloseIterator(&it);
    vp_reach("query");
}
/* clean or abrupt restart: unwritten records are gone, everything written is back */
static embedDBState *m_reopen(embedDBState *s, int params) {
    embedDBClose(s);
    db_free(s);
    vp_assert(vp_live_allocs() == 0, "memory leaked after close");
    if (!USE_RLC) mn = mdone;
    if (mlo > mn) mlo = mn;
    s = db_make(params, 1);
    vp_assert(embedDBInit(s, PERR) == 0, "reopening an existing database fails");
    if (USE_RLC) { /* records of the temporary page are back in the write buffer */ }
    return s;
}
static embedDBState *m_init(int params, int err) {
    USE_RLC = (params & EMBEDDB_RECORD_LEVEL_CONSISTENCY) != 0;
    embedDBState *s = db_make(params | EMBEDDB_RESET_DATA, 1);
    vp_assert(embedDBInit(s, err) == 0, "init of a valid configuration fails");
    return s;
}
static void m_end(embedDBState *s) {
    embedDBClose(s);
    db_free(s);
    vp_assert(vp_live_allocs() == 0, "memory leaked after close");
    vp_done();
}
#endif
