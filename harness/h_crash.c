/* Power loss before any storage operation of the last CW operations of a history, then
 * recovery.  Without record-level consistency everything on pages that were written comes back;
 * with it every acknowledged record does.  The database then keeps working. */
#include "model.h"
#ifndef ERK
#define ERK 1
#endif
#ifndef FLM
#define FLM 0
#endif
#ifndef FLALL       /* flushes that always happen: before the power loss, and in the work after recovery */
#define FLALL 0
#endif
#ifndef FLALL2
#define FLALL2 0
#endif
#ifndef M
#define M 2
#endif
#ifndef NMIN
#define NMIN N
#endif
#ifndef C0          /* crash may happen from put C0 on */
#define C0 0
#endif
#ifndef CRASHES
#define CRASHES 1
#endif
#ifndef KSYM
#define KSYM 2
#endif
#ifndef DSYM        /* records with arbitrary data (others: fixed values spread over the buckets) */
#define DSYM 0xffffffffu
#endif
#ifdef LENS          /* records carry variable data of one of these lengths (0: none) */
static const int lens[] = {LENS};
static uint8_t mv[MAXREC][50];
static int ml[MAXREC], vstart[MAXREC];
#endif
static int ml0, mi;      /* records with smaller index were attempted before the power loss */
static int vpages;  /* variable-data pages written */
static int dpages;  /* pages of the data file written, observed at the storage interface (no temporary pages) */
static int8_t rf_write_d(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
    int8_t r = rf_write(buffer, pageNum, pageSize, file);
    if (r && file == &fData) dpages++;
    if (r && file == &fVar) vpages++;
    return r;
}
#ifdef LENS
/* every stored record has its variable data; only data on recycled pages may be reported as lost */
static void c_vars(embedDBState *s) {
    for (int i = mlo; i < mn; i++) {
        uint64_t k = mk[i];
        dval_t d = 0;
        embedDBVarDataStream *st = NULL;
        int8_t r = embedDBGetVar(s, &k, &d, &st);
        if (r == 1) {
#ifdef REUSE
            if (i >= ml0 && i < mi) vp_known("var-key-reuse");
#endif
            vp_assert(vpages > NV - ES && vstart[i] <= vpages - (NV - ES) && st == NULL && ml[i] != 0, "variable data reported lost although its page is stored");
#ifdef REUSE
            vp_unknown("var-key-reuse");
#endif
            vp_reach("lost");
            continue;
        }
        vp_assert(r == 0 && d == md[i], "stored record not found");
        if (ml[i] == 0) { vp_assert(st == NULL, "record without variable data returns some"); continue; }
        vp_assert(st != NULL, "record lost its variable data");
        uint8_t o[50];
        vp_assert(embedDBVarDataStreamRead(s, st, o, 50) == (uint32_t)ml[i], "wrong variable data length");
        int same = 1;
        for (int j = 0; j < ml[i]; j++) same &= o[j] == mv[i][j];
        vp_assert(same, "wrong variable data");
        free(st);
        vp_reach("vardata");
    }
}
#else
#define c_vars(s) (void)0
#endif
static int att;
static uint64_t next_key(void) {
#ifdef REUSE
    if (KSYM == 3) return 10 * (uint64_t)mn + 7;
#else
    if (KSYM == 3) return 10 * (uint64_t)att++ + 7;     /* keys move on, as time stamps do */
#endif
    if (KSYM == 1 || mn == 0) {
        uint64_t k = fresh_key();
        if (KSYM != 1) vp_assume(k < 0x70000000);
        return k;
    }
    return mk[mn - 1] + 10;
}
static int inflight;             /* an unacknowledged record sits at index mn */
static int pagePend;             /* the interrupted operation may have completed a page */
static void c_put(embedDBState *s) {
    uint64_t k = next_key();
    dval_t d = ((DSYM >> mn) & 1) ? (dval_t)vp_sym("d", DS) : (dval_t)((mn * 7) % 30);
    int full = mn - mdone >= s->maxRecordsPerPage;
    mk[mn] = k;
    md[mn] = d;
#ifdef LENS
    ml[mn] = lens[vp_choice(sizeof lens / sizeof lens[0])];
    vstart[mn] = vpages;
    vp_sym_bytes(mv[mn], ml[mn], "v");
    int8_t r = embedDBPutVar(s, &k, &d, ml[mn] ? mv[mn] : NULL, ml[mn]);
#else
    int8_t r = embedDBPut(s, &k, &d);
#endif
    if (!rfc.crashed) {
        vp_assert(r == 0, "put of an ascending key fails");
        if (full) m_page();
        mn++;
    } else {
        pagePend = full;
        inflight = 1;
    }
}
static void c_flush(embedDBState *s) {
    int8_t r = embedDBFlush(s);
    if (!rfc.crashed) {
        vp_assert(r == 0, "flush fails");
        if (mn > mdone) m_page();
    } else pagePend = mn > mdone;
}
static embedDBState *c_reopen(embedDBState *s) {
    int crashed = rfc.crashed;
    if (mi < mn + crashed) mi = mn + crashed;
    if (USE_RLC || !crashed) rfc.crashed = 1;   /* power is off: close has no effect on storage */
    embedDBClose(s);
    db_free(s);
    vp_assert(vp_live_allocs() == 0, "memory leaked after close");
    rfc.crashed = 0;
    rfc.crashOn = 0;
    fData.isOpen = fIdx.isOpen = fVar.isOpen = 0;
    s = db_make(PARAMS, 1);
    vp_assert(embedDBInit(s, PERR) == 0, "reopening after power loss fails");
    int np = (int)s->nextDataPageId;
    vp_assert(np == mpages || (pagePend && np == mpages + 1), "recovery loses or invents a data page");
    if (np == mpages + 1) m_page();
    if (!USE_RLC) {
        vp_assert(mpages == dpages, "recovery does not agree with the pages written");
        mn = mdone;
        vp_assert(EMBEDDB_GET_COUNT(s->buffer) == 0, "records appear in the write buffer");
    } else {
        int c = EMBEDDB_GET_COUNT(s->buffer);
        vp_assert(c == mn - mdone || (inflight && c == mn - mdone + 1), "acknowledged records lost from the write buffer");
        if (c == mn - mdone + 1) { mn++; vp_reach("inflight"); }
    }
    inflight = pagePend = 0;
    ml0 = mn;
    if (mlo > mn) mlo = mn;
    vp_reach(crashed ? "crashed" : "poweroff");
    return s;
}
static void work(embedDBState *s, int n, int c0) {
    for (int i = 0; i < n && !rfc.crashed; i++) {
        if (i >= c0) rfc.crashOn = 1;
        c_put(s);
        if (!rfc.crashed && ((FLALL >> i) & 1)) c_flush(s);
        if (!rfc.crashed && ((FLM >> i) & 1)) if (vp_choice(2)) { vp_reach("flush"); c_flush(s); }
    }
}
void vp_main(void) {
    db_files();
    rfc.eraseKind = ERK;
    rf_if.write = rf_write_d;
    embedDBState *s = m_init(PARAMS, PERR);
    rfc.crashBudget = 1;
    work(s, NMIN + vp_choice(N - NMIN + 1), C0);
    s = c_reopen(s);
    int lo = m_scan(s);
    c_vars(s);
    for (int c = 1; c < CRASHES; c++) {
        rfc.crashBudget = 1;
        work(s, M, 0);
        s = c_reopen(s);
        m_scan(s);
        c_vars(s);
    }
    for (int i = 0; i < M; i++) {
        c_put(s);
        if ((FLALL2 >> i) & 1) c_flush(s);
    }
    lo = m_scan(s);
    c_vars(s);
    if (fIdx.exists && s->indexFile && s->minIndexPageId > 0) vp_reach("idxwrap");
    if (lo) vp_reach("evicted");
#ifdef QUERY
    m_query(s, QUERY);
#elif !defined(LENS)
    m_get(s);
#endif
    vp_assert(rfc.rewrote == 0, "a page is rewritten without being erased first");
    m_end(s);
}
