/* Storage operations fail (up to FAILS times, any of the kinds in FMASK: 1 write, 2 read, 4 erase, 8 flush), having
 * no effect.  The call in progress must report it, nothing acknowledged before may be lost or
 * corrupted, and everything works again as soon as the storage does. */
#include "model.h"
#ifndef FMASK
#define FMASK 5
#endif
#ifndef FAILS
#define FAILS 1
#endif
#ifndef FLM
#define FLM 0
#endif
#ifndef GETM          /* lookup (with possible read failure) after put i */
#define GETM 0
#endif
#ifndef F0            /* failures from put F0 on */
#define F0 0
#endif
#ifndef M
#define M 2
#endif
#ifndef ERK
#define ERK 1
#endif
#ifndef ENDGET
#define ENDGET 0
#endif
#ifndef RETRY         /* flush once more, directly after a (failed) flush */
#define RETRY 0
#endif
#ifndef REOPEN
#define REOPEN 0
#endif
#ifndef DSYM
#define DSYM 0xffffffffu
#endif
#if PARAMS & EMBEDDB_USE_VDATA
#define VARD 1
#ifndef LENS
#define LENS 20
#endif
static const int lens[] = {LENS};
#define NL ((int)(sizeof lens / sizeof lens[0]))
#define VMAX 64
static int mlen[MAXREC];
static uint8_t mvd[MAXREC][VMAX];
#endif
static void sync_pages(embedDBState *s, int before) {
    int np = (int)s->nextDataPageId;
    vp_assert(np == mpages || np == mpages + 1, "wrong number of data pages written");
    if (np == mpages + 1) {
        int t = mn;
        mn = before;
        m_page();
        mn = t;
    }
}
#ifdef VARD
static void check_var(embedDBState *s, int i) {
    uint64_t k = mk[i];
    dval_t d = 0;
    embedDBVarDataStream *st = NULL;
    uint8_t out[VMAX];
    vp_assert(embedDBGetVar(s, &k, &d, &st) == 0 && d == md[i], "acknowledged record with variable data is gone");
    vp_assert((st != NULL) == (mlen[i] >= 0), "variable data missing");
    if (!st) return;
    vp_assert((int)st->totalBytes == mlen[i], "wrong length of variable data");
    vp_assert(embedDBVarDataStreamRead(s, st, out, VMAX) == (uint32_t)mlen[i], "variable data shortened");
    for (int j = 0; j < mlen[i]; j++) vp_assert(out[j] == mvd[i][j], "variable data corrupted");
    free(st);
}
#endif
static void i_put(embedDBState *s, int fails) {
    uint64_t k;
#ifdef KC
    k = (uint64_t)mn * 10 + 7;
#else
    if (mn == 0) { k = fresh_key(); vp_assume(k < 0x70000000); } else k = mk[mn - 1] + 10;
#endif
    dval_t d = ((DSYM >> mn) & 1) ? (dval_t)vp_sym("d", DS) : (dval_t)((mn * 7) % 30);
    int before = mn, f0 = rfc.failed;
    mk[mn] = k;
    md[mn] = d;
#ifdef VARD
    mlen[mn] = lens[vp_choice(NL)];
    vp_sym_bytes(mvd[mn], mlen[mn] ? mlen[mn] : 1, "v");
    uint8_t tmp[VMAX];
    memcpy(tmp, mvd[mn], VMAX);
#endif
    rfc.failOn = fails ? FMASK : 0;
#ifdef VARD
    int8_t r = embedDBPutVar(s, &k, &d, tmp, (uint32_t)mlen[mn]);
#else
    int8_t r = embedDBPut(s, &k, &d);
#endif
    rfc.failOn = 0;
    vp_observe("put", (uint64_t)(uint8_t)r);
    if (r == 0) {
        vp_assert(rfc.failed == f0, "put reports success although a storage operation failed");
        mn++;
    } else {
        vp_assert(rfc.failed > f0, "put fails although every storage operation succeeded");
        vp_reach("putfail");
        uint64_t q = k;
        dval_t e = 0;
        if (embedDBGet(s, &q, &e) == 0) {
            vp_assert(e == d, "record of a failed put is stored with other data");
            mn++;
            vp_reach("maybe");
        }
    }
    sync_pages(s, before);
}
static void i_flush(embedDBState *s, int fails) {
    int f0 = rfc.failed;
    rfc.failOn = fails ? FMASK : 0;
    int8_t r = embedDBFlush(s);
    rfc.failOn = 0;
    if (r == 0) vp_assert(rfc.failed == f0, "flush reports success although a storage operation failed");
    else { vp_assert(rfc.failed > f0, "flush fails although every storage operation succeeded"); vp_reach("flushfail"); }
    sync_pages(s, mn);
    if (r == 0) {
        vp_assert(mdone == mn, "flush reports success but records are not on a page");
        vp_assert(rfc.dirty == 0, "flush reports success but written pages are not flushed");
    }
}
/* lookup and scan of stored records while reads may fail: no wrong answers */
static void i_read(embedDBState *s) {
    int i = vp_choice(mn);
    uint64_t k = mk[i];
    dval_t d = 0;
    int f0 = rfc.failed;
    rfc.failOn = FMASK;
#ifdef VARD
    embedDBVarDataStream *st = NULL;
    int8_t r = embedDBGetVar(s, &k, &d, &st);
    if (r == 0) {
        vp_assert(d == md[i] && st != NULL, "lookup during a storage failure returns wrong data");
        uint8_t out[VMAX];
        int got = 0;
        for (int t = 0; t < 3 && got < mlen[i]; t++) got += (int)embedDBVarDataStreamRead(s, st, out + got, VMAX - got);
        if (rfc.failed == f0) vp_assert(got == mlen[i], "stream ends early");
        vp_assert(got <= mlen[i], "stream too long");
        for (int j = 0; j < got; j++) vp_assert(out[j] == mvd[i][j], "variable data corrupted by a failed read");
        free(st);
    } else {
        vp_assert(rfc.failed > f0 || i < mlo, "lookup of a stored key fails");
        vp_reach("getfail");
    }
#else
    int8_t r = embedDBGet(s, &k, &d);
    if (r == 0) vp_assert(d == md[i], "lookup during a storage failure returns wrong data");
    else { vp_assert(rfc.failed > f0 || i < m_maxLost(s), "lookup of a stored key fails"); vp_reach("getfail"); }
    embedDBIterator it;
    memset(&it, 0, sizeof it);
    embedDBInitIterator(s, &it);
    int p = -1;
    while (embedDBNext(s, &it, &k, &d)) {
        if (p < 0) p = m_find(k); else p++;
        vp_assert(p >= 0 && p < mn && mk[p] == k && md[p] == d, "scan during a storage failure returns wrong records");
        k = 0;
    }
    if (rfc.failed == f0) vp_assert(p == mn - 1, "scan ends early");
    embedDBCloseIterator(&it);
#endif
    rfc.failOn = 0;
}
void vp_main(void) {
    db_files();
    rfc.eraseKind = ERK;
    embedDBState *s = m_init(PARAMS, PERR);
    rfc.failBudget = FAILS;
    for (int i = 0; i < N; i++) {
        i_put(s, i >= F0);
        if ((FLM >> i) & 1) if (vp_choice(2)) { vp_reach("flush"); i_flush(s, i >= F0); if (RETRY && mn && vp_choice(2)) i_flush(s, i >= F0); }
        if (((GETM >> i) & 1) && mn) i_read(s);
    }
    vp_assume(rfc.failed > 0);
    vp_reach("failed");
    for (int i = 0; i < M; i++) i_put(s, 0);
#ifdef VARD
    check_var(s, vp_choice(mn));
#endif
    int lo = m_scan(s);
    if (lo) vp_reach("evicted");
#ifdef QUERY
    m_query(s, QUERY);
#endif
    if (REOPEN) {
        i_flush(s, 0);
        s = m_reopen(s, PARAMS);
        vp_assert((int)s->nextDataPageId == mpages, "restart after a storage failure loses pages");
#ifdef VARD
        check_var(s, vp_choice(mn));
#endif
        m_scan(s);
        i_put(s, 0);
#ifdef QUERY
        m_query(s, QUERY);
#endif
    }
    if (ENDGET) m_get(s);
    vp_assert(rfc.rewrote == 0, "a page is rewritten without being erased first");
    m_end(s);
}
