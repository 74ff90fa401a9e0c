/* Iterators kept open while the database is used: inserts, flushes, lookups, other iterators, another instance. */
#include "model.h"
#ifndef T              /* steps after opening the iterators */
#define T 6
#endif
#ifndef OPS            /* operations a step chooses from: bit0 next A, 1 put, 2 next B, 3 get, 4 flush */
#define OPS 3
#endif
#ifndef FILA
#define FILA 0
#endif
#ifndef FILB
#define FILB 0
#endif
#ifndef FLM
#define FLM 0
#endif
#ifndef TAKE           /* records read from A before the steps: any number up to this */
#define TAKE 0
#endif
typedef struct { embedDBIterator it; uint64_t lo, hi; dval_t dl, dh; int fil, n0, last, ended; } IT;
static int i_match(IT *t, int i) {
    return (!(t->fil & 1) | (mk[i] >= t->lo)) & (!(t->fil & 2) | (mk[i] <= t->hi)) & (!(t->fil & 4) | (md[i] >= t->dl)) & (!(t->fil & 8) | (md[i] <= t->dh));
}
static void i_open(embedDBState *s, IT *t, int fil) {
    memset(t, 0, sizeof *t);
    t->fil = fil;
    if (fil & 1) { t->lo = vp_sym("lo", KS); t->it.minKey = &t->lo; }
    if (fil & 2) { t->hi = vp_sym("hi", KS); t->it.maxKey = &t->hi; }
    if (fil & 4) { t->dl = (dval_t)vp_sym("dl", DS); t->it.minData = &t->dl; }
    if (fil & 8) { t->dh = (dval_t)vp_sym("dh", DS); t->it.maxData = &t->dh; }
    t->n0 = mn;
    t->last = mlo - 1;
    embedDBInitIterator(s, &t->it);
}
#ifdef VARD            /* records carry VARD bytes of variable data */
static uint8_t mv[MAXREC][VARD];
static void v_put(embedDBState *s) {
    uint64_t k = fresh_key();
    dval_t d = (dval_t)vp_sym("d", DS);
    if (mn - mdone >= s->maxRecordsPerPage) m_page();
    mk[mn] = k;
    md[mn] = d;
    vp_sym_bytes(mv[mn], VARD, "v");
    vp_assert(embedDBPutVar(s, &k, &d, mv[mn], VARD) == 0, "put of an ascending key fails");
    mn++;
}
#define m_put v_put
static embedDBVarDataStream *vst;
static int8_t v_next(embedDBState *s, embedDBIterator *it, void *k, void *d) { return embedDBNextVar(s, it, k, d, &vst); }
#define embedDBNext v_next
#endif
static void i_next(embedDBState *s, IT *t) {
    if (t->ended) return;
    uint64_t k = 0;
    dval_t d = 0;
    int lost = m_maxLost(s), j;
    if (embedDBNext(s, &t->it, &k, &d)) {
        for (j = t->last + 1; j < mn; j++) if (mk[j] == k) break;
        vp_assert(j < mn, "iterator repeats or reorders records, or returns one that was never stored");
        vp_assert(md[j] == d, "iterator returns wrong data");
        vp_assert(i_match(t, j), "iterator returns a record outside its bounds");
        vp_reach("next");
#ifdef VARD
        vp_assert(vst != NULL, "iterator reports no variable data");
        uint8_t o[VARD];
        vp_assert(embedDBVarDataStreamRead(s, vst, o, VARD) == VARD, "variable data too short");
        vp_assert(embedDBVarDataStreamRead(s, vst, o, 1) == 0, "variable data too long");
        vst->bytesRead = 0;
        vst->fileOffset = vst->dataStart;
        embedDBVarDataStreamRead(s, vst, o, VARD);
        int same = 1;
        for (int i = 0; i < VARD; i++) same &= o[i] == mv[j][i];
        vp_assert(same, "iterator returns wrong variable data");
        free(vst);
#endif
        if (j >= t->n0) vp_reach("newer");
    } else {
        j = t->n0;
        t->ended = 1;
        vp_reach("end");
    }
    int missed = 0;
    for (int i = t->last + 1; i < j; i++) {
        if (i >= lost) missed |= i_match(t, i);
        else vp_reach("skipped");
    }
    vp_assert(!missed, "iterator skips a stored record");
    t->last = j;
}
static void m_get1(embedDBState *s) {
    uint64_t k = vp_sym("q", KS);
    dval_t d = 0;
    int8_t r = embedDBGet(s, &k, &d);
    int i = m_find(k);
    if (i >= m_maxLost(s)) vp_assert(r == 0 && d == md[i], "stored record not found while iterators are open");
    else if (i < 0) vp_assert(r != 0, "key that was never stored is found while iterators are open");
    vp_reach("get");
}
#ifndef MODE
#define MODE 0
#endif
#if MODE == 0
void vp_main(void) {
    db_files();
    rfc.eraseKind = 1;
    embedDBState *s = m_init(PARAMS, PERR);
    for (int i = 0; i < N; i++) {
        m_put(s);
        if ((FLM >> i) & 1) m_flush(s);
    }
    static IT a, b;
    i_open(s, &a, FILA);
    i_open(s, &b, FILB);
    int tk = vp_choice(TAKE + 1);
    for (int i = 0; i < tk; i++) i_next(s, &a);
    int ops[5], no = 0;
    for (int i = 0; i < 5; i++) if ((OPS >> i) & 1) ops[no++] = i;
    for (int i = 0; i < T; i++) {
        switch (ops[vp_choice(no)]) {
            case 0: if (a.ended) { vp_done(); return; } i_next(s, &a); break;
            case 1: m_put(s); break;
            case 2: if (b.ended) { vp_done(); return; } i_next(s, &b); break;
            case 3: m_get1(s); break;
            default: if (mn == mdone) { vp_done(); return; } m_flush(s); break;
        }
    }
    for (int i = 0; i <= mn && !a.ended; i++) i_next(s, &a);
    vp_assert(a.ended, "iterator does not end");
    for (int i = 0; i <= mn && !b.ended; i++) i_next(s, &b);
    vp_assert(b.ended, "iterator does not end");
    embedDBCloseIterator(&a.it);
    embedDBCloseIterator(&b.it);
#ifdef VARD
#undef embedDBNext
#endif
    m_scan(s);
    vp_assert(rfc.rewrote == 0, "a page is rewritten without being erased first");
    m_end(s);
}
#else
/* Two databases of different configuration used alternately: each behaves as if it were alone. */
#ifndef P2
#define P2 EMBEDDB_USE_BINARY_SEARCH
#endif
static RF f2[3];
static uint64_t k2[MAXREC];
static dval_t d2[MAXREC];
static int n2;
void vp_main(void) {
    db_files();
    f2[0] = fData; f2[1] = fIdx; f2[2] = fVar;
    rfc.eraseKind = 1;
    embedDBState *s = m_init(PARAMS, PERR);
    embedDBState *u = db_make(P2 | EMBEDDB_RESET_DATA, 1);
    u->dataFile = &f2[0];
    if (u->indexFile) u->indexFile = &f2[1];
    if (u->varFile) u->varFile = &f2[2];
    free(u->buffer);
    u->bufferSizeInBlocks = 6;
    u->buffer = malloc(6 * PGS);
    vp_assert(embedDBInit(u, 1) == 0, "init of a second instance fails");
    static IT a;
    for (int i = 0; i < N; i++) {
        m_put(s);
        if (i == 1) i_open(s, &a, FILA);
        for (int c = vp_choice(2); c >= 0; c--) {
            uint64_t k = vp_sym("k", KS);
            dval_t d = (dval_t)vp_sym("d", DS);
            if (n2) vp_assume(k > k2[n2 - 1]);
            vp_assert(embedDBPut(u, &k, &d) == 0, "put into the second instance fails");
            k2[n2] = k;
            d2[n2++] = d;
        }
        if (i > 1 && vp_choice(2)) i_next(s, &a);
        if ((FLM >> i) & 1) m_flush(s);
        if ((FLM >> i) & 2) vp_assert(embedDBFlush(u) == 0, "flush of the second instance fails");
    }
    uint64_t q = vp_sym("p", KS);
    dval_t d = 0;
    int8_t r = embedDBGet(u, &q, &d);
    int j = -1;
    for (int i = 0; i < n2; i++) if (k2[i] == q) j = i;
    vp_assert((r == 0) == (j >= 0), "lookup in the second instance is wrong");
    if (j >= 0) { vp_assert(d == d2[j], "lookup in the second instance returns wrong data"); vp_reach("second"); }
    for (int i = 0; i <= mn && !a.ended; i++) i_next(s, &a);
    embedDBCloseIterator(&a.it);
    m_get(s);
    embedDBClose(u);
    db_free(u);
    m_scan(s);
    m_end(s);
}
#endif
