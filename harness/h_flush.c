/* What a successful flush promises: everything inserted before it - records, variable data, bitmaps - is in storage.
 * The power may be lost at any storage operation after it; everything acknowledged before the flush is
 * back after reopening unless it has been recycled in the meantime.  A flush with nothing to write writes nothing. */
#include "model.h"
#ifndef FLM            /* flushes that may happen before the last one */
#define FLM 0
#endif
#ifndef M              /* inserts after the flush during which the power may be lost */
#define M 2
#endif
#ifndef ERK
#define ERK 1
#endif
#ifndef QUERY
#define QUERY 0
#endif
#ifndef NMIN
#define NMIN N
#endif
#ifdef LENS
static const int lens[] = {LENS};
#define VMAX 64
static int ml[MAXREC], vat[MAXREC];
static uint8_t mv[MAXREC][VMAX];
#endif
static int vpages;
static int8_t wv(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
    int8_t r = rf_write(buffer, pageNum, pageSize, file);
    if (r && file == &fVar) vpages++;
    return r;
}
static int put(embedDBState *s) {
    uint64_t k;
#ifdef KCONC
    if (mn == 0) { k = fresh_key(); vp_assume(k < 0x70000000); } else k = mk[mn - 1] + 10;
#else
    k = fresh_key();
#endif
    dval_t d = (DSYM >> mn & 1) ? (dval_t)vp_sym("d", DS) : (dval_t)(mn * 7 % 30);
    if (mn - mdone >= s->maxRecordsPerPage) m_page();
    mk[mn] = k;
    md[mn] = d;
#ifdef LENS
    ml[mn] = lens[vp_choice(sizeof lens / sizeof lens[0])];
    vat[mn] = vpages;
    uint8_t t[VMAX];
    if (ml[mn]) vp_sym_bytes(mv[mn], ml[mn], "v");
    memcpy(t, mv[mn], VMAX);
    int8_t r = embedDBPutVar(s, &k, &d, ml[mn] ? t : NULL, (uint32_t)ml[mn]);
#else
    int8_t r = embedDBPut(s, &k, &d);
#endif
    mn++;
    if (!rfc.crashed) vp_assert(r == 0, "put of an ascending key fails");
    return r;
}
void vp_main(void) {
    db_files();
    rfc.eraseKind = ERK;
    rf_if.write = wv;
    embedDBState *s = m_init(PARAMS, PERR);
    int n = NMIN + vp_choice(N - NMIN + 1);
    for (int i = 0; i < n; i++) {
        put(s);
        if ((FLM >> i & 1) && vp_choice(2)) {
            m_flush(s);
            vp_assert(rfc.dirty == 0, "flush succeeds but leaves written pages in a file that is not flushed");
        }
    }
    m_flush(s);
    vp_assert(rfc.dirty == 0, "flush succeeds but leaves written pages in a file that is not flushed");
    int done = mn, w0 = rfc.writes, e0 = rfc.erases;
    if (vp_choice(2)) {
        vp_assert(embedDBFlush(s) == 0, "flush with nothing to write fails");
        vp_assert(rfc.writes == w0 && rfc.erases == e0, "flush with nothing to write writes or erases pages");
        vp_reach("again");
    }
    rfc.crashOn = 1;
    rfc.crashBudget = 1;
    int more = vp_choice(M + 1);
    for (int i = 0; i < more && !rfc.crashed; i++) put(s);
    vp_reach(rfc.crashed ? "crashed" : "poweroff");
    rfc.crashed = 1;             /* the power is off: closing changes nothing in storage */
    embedDBClose(s);
    db_free(s);
    rfc.crashed = rfc.crashOn = 0;
    fData.isOpen = fIdx.isOpen = fVar.isOpen = 0;
    s = db_make(PARAMS, 1);
    vp_assert(embedDBInit(s, PERR) == 0, "reopening after the flush fails");
    int maxLost = m_maxLost(s);
    /* every record from the oldest that may have been recycled up to the last before the flush */
    embedDBIterator it;
    memset(&it, 0, sizeof it);
    embedDBInitIterator(s, &it);
    uint64_t k = 0;
    dval_t d = 0;
    int p = -1, lo = mn, cnt = 0;
    while (embedDBNext(s, &it, &k, &d)) {
        vp_assert(cnt++ <= mn, "too many records");
        if (p < 0) {
            p = m_find(k);
            vp_assert(p >= 0, "unknown record after reopening");
            lo = p;
        }
        vp_assert(p < mn && mk[p] == k && md[p] == d, "records wrong or out of order after reopening");
        p++;
        k = 0;
    }
    embedDBCloseIterator(&it);
    vp_assert(p >= done, "flushed record lost");
    vp_assert(lo <= maxLost, "flushed record lost although it was not recycled");
    if (lo) vp_reach("evicted");
    mlo = lo;
#ifdef LENS
    int i = lo + vp_choice(p - lo);
    k = mk[i];
    embedDBVarDataStream *st = NULL;
    int8_t r = embedDBGetVar(s, &k, &d, &st);
    if (i < done) {
        if (r == 1) {
            vp_reach("lost");
            vp_assert(vpages > NV - ES && vat[i] <= vpages - (NV - ES), "flushed variable data lost although its page was not recycled");
        } else {
            vp_assert(r == 0 && d == md[i], "flushed record not found");
            vp_assert((st != NULL) == (ml[i] != 0), "flushed variable data missing");
        }
    }
    if (st) {
        uint8_t o[VMAX];
        vp_assert(embedDBVarDataStreamRead(s, st, o, VMAX) == (uint32_t)ml[i], "flushed variable data shortened");
        int same = 1;
        for (int j = 0; j < ml[i]; j++) same &= o[j] == mv[i][j];
        vp_assert(same, "flushed variable data corrupted");
        free(st);
        vp_reach("vardata");
    }
#endif
    if (QUERY) {
        mn = p;
        m_query(s, QUERY);
    } else {
#ifdef LENS
        k = mk[i];
#elif defined(KCONC)
        k = mk[lo + vp_choice(p - lo)];
#else
        k = vp_sym("q", KS);
#endif
        int r0 = embedDBGet(s, &k, &d), i0 = m_find(k);
        if (i0 >= lo && i0 < done) vp_assert(r0 == 0 && d == md[i0], "flushed record not found by lookup");
        if (i0 < 0) vp_assert(r0 != 0, "lookup finds a record that does not exist");
        vp_reach("get");
    }
    m_end(s);
}
