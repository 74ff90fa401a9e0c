/* The sources and the single-file distribution side by side (the distribution's globals carry the prefix dist_).
 * MODE 0: both run the same operations, arbitrary keys and data; every result is equal.
 * MODE 1: sessions by either one over the same files, each checked against the model.
 * MODE 2: utilities and query helpers on equal arguments. */
#include "embedDB/embedDB.h"
#include "query-interface/advancedQueries.h"
#include "embedDBUtility.h"
#define FNS(X) X(embedDBInit) X(embedDBPut) X(embedDBPutVar) X(embedDBGet) X(embedDBGetVar) X(embedDBFlush) \
    X(embedDBInitIterator) X(embedDBNext) X(embedDBNextVar) X(embedDBCloseIterator) X(embedDBClose) X(embedDBVarDataStreamRead)
#define DECL(f) extern __typeof__(f) dist_##f;
FNS(DECL)
struct api {
#define FLD(f) __typeof__(f) *p_##f;
    FNS(FLD)
};
#define S_(f) f,
#define D_(f) dist_##f,
static struct api apis[2] = {{FNS(S_)}, {FNS(D_)}};
static struct api *api = &apis[0];
#define embedDBInit (*api->p_embedDBInit)
#define embedDBPut (*api->p_embedDBPut)
#define embedDBPutVar (*api->p_embedDBPutVar)
#define embedDBGet (*api->p_embedDBGet)
#define embedDBGetVar (*api->p_embedDBGetVar)
#define embedDBFlush (*api->p_embedDBFlush)
#define embedDBInitIterator (*api->p_embedDBInitIterator)
#define embedDBNext (*api->p_embedDBNext)
#define embedDBNextVar (*api->p_embedDBNextVar)
#define embedDBCloseIterator (*api->p_embedDBCloseIterator)
#define embedDBClose (*api->p_embedDBClose)
#define embedDBVarDataStreamRead (*api->p_embedDBVarDataStreamRead)
#include "model.h"
#ifndef FLM
#define FLM 0
#endif
#ifndef FIL
#define FIL 0
#endif
#define USE(i) (api = &apis[i])
#if MODE == 0
static RF f2[3];
static embedDBState *ss[2];
static int io[2][3];
static void count(int i, int sign) { io[i][0] += sign * rfc.reads; io[i][1] += sign * rfc.writes; io[i][2] += sign * rfc.erases; }
#define EACH for (int v = 0; v < 2; v++) { USE(v); embedDBState *s = ss[v]; count(v, -1);
#define END count(v, 1); }
static void same_io(void) { for (int j = 0; j < 3; j++) vp_assert(io[0][j] == io[1][j], "sources and distribution differ in their storage accesses"); }
static void start(int params) {
    for (int v = 0; v < 2; v++) {
        USE(v);
        embedDBState *s = db_make(params, 1);
        if (v) {
            s->dataFile = &f2[0];
            if (s->indexFile) s->indexFile = &f2[1];
            if (s->varFile) s->varFile = &f2[2];
        }
        count(v, -1);
        vp_assert(embedDBInit(s, PERR) == 0, "init fails");
        count(v, 1);
        ss[v] = s;
    }
    same_io();
}
static void both_get(void) {
    uint64_t k = vp_sym("q", KS);
    dval_t d[2] = {0, 0};
    int r[2];
    EACH r[v] = embedDBGet(s, &k, &d[v]); END
    vp_assert(r[0] == r[1], "lookup results differ");
    if (r[0] == 0) { vp_assert(d[0] == d[1], "lookup data differs"); vp_reach("found"); }
    same_io();
}
static void both_scan(void) {
    embedDBIterator it[2];
    uint64_t lo = 0, hi = 0;
    dval_t dl = 0, dh = 0;
    memset(it, 0, sizeof it);
    if (FIL & 1) lo = vp_sym("lo", KS);
    if (FIL & 2) hi = vp_sym("hi", KS);
    if (FIL & 4) dl = (dval_t)vp_sym("dl", DS);
    if (FIL & 8) dh = (dval_t)vp_sym("dh", DS);
    EACH
        if (FIL & 1) it[v].minKey = &lo;
        if (FIL & 2) it[v].maxKey = &hi;
        if (FIL & 4) it[v].minData = &dl;
        if (FIL & 8) it[v].maxData = &dh;
        embedDBInitIterator(s, &it[v]);
    END
    for (;;) {
        uint64_t k[2] = {0, 0};
        dval_t d[2] = {0, 0};
        int r[2];
        EACH r[v] = embedDBNext(s, &it[v], &k[v], &d[v]); END
        vp_assert(r[0] == r[1], "iteration results differ");
        if (!r[0]) break;
        vp_assert(k[0] == k[1] && d[0] == d[1], "iterated records differ");
        vp_reach("row");
    }
    EACH embedDBCloseIterator(&it[v]); (void)s; END
    same_io();
}
void vp_main(void) {
    db_files();
    f2[0] = fData;
    f2[1] = fIdx;
    f2[2] = fVar;
    rfc.eraseKind = 1;
    start(PARAMS | EMBEDDB_RESET_DATA);
    for (int i = 0; i < N; i++) {
        uint64_t k = vp_sym("k", KS);
        dval_t d = (dval_t)vp_sym("d", DS);
        if (i < ASC) { if (i) vp_assume(k > mk[i - 1]); mk[i] = k; }
        int r[2];
#ifdef VARD
        static uint8_t vb[VARD];
        int len = vp_choice(2) ? VARD : 0;
        vp_sym_bytes(vb, VARD, "v");
        EACH r[v] = embedDBPutVar(s, &k, &d, len ? vb : NULL, (uint32_t)len); END
#else
        EACH r[v] = embedDBPut(s, &k, &d); END
#endif
        vp_assert(r[0] == r[1], "insert results differ");
        if (r[0]) vp_reach("refused"); else vp_reach("accepted");
        same_io();
        if ((FLM >> i) & 1) if (vp_choice(2)) {
            EACH r[v] = embedDBFlush(s); END
            vp_assert(r[0] == r[1], "flush results differ");
            same_io();
        }
    }
#ifndef SCANONLY
    both_get();
#endif
    if (vp_choice(2)) {
        for (int v = 0; v < 2; v++) { USE(v); embedDBClose(ss[v]); db_free(ss[v]); }
        start(PARAMS);
        vp_reach("restart");
#ifndef SCANONLY
        both_get();
#endif
    }
    both_scan();
#ifdef VARD
    {
        uint64_t k = vp_sym("q", KS);
        dval_t d[2] = {0, 0};
        int r[2];
        embedDBVarDataStream *st[2] = {NULL, NULL};
        EACH r[v] = embedDBGetVar(s, &k, &d[v], &st[v]); END
        vp_assert(r[0] == r[1] && (st[0] == NULL) == (st[1] == NULL), "variable data lookups differ");
        if (r[0] == 0) vp_assert(d[0] == d[1], "lookup data differs");
        if (st[0]) {
            uint8_t o[2][VARD];
            uint32_t n[2];
            EACH n[v] = embedDBVarDataStreamRead(s, st[v], o[v], VARD); END
            vp_assert(n[0] == n[1], "variable data lengths differ");
            int e = 1;
            for (uint32_t i = 0; i < n[0]; i++) e &= o[0][i] == o[1][i];
            vp_assert(e, "variable data differs");
            free(st[0]);
            free(st[1]);
            vp_reach("vardata");
        }
    }
#endif
    for (int v = 0; v < 2; v++) { USE(v); embedDBClose(ss[v]); db_free(ss[v]); }
    vp_assert(vp_live_allocs() == 0, "memory leaked after close");
    vp_done();
}
#elif MODE == 1
void vp_main(void) {
    db_files();
    rfc.eraseKind = 1;
    int w = vp_choice(2);
    USE(w);
    embedDBState *s = m_init(PARAMS, PERR);
    for (int i = 0; i < N; i++) {
        m_put(s);
        if ((FLM >> i) & 1) if (vp_choice(2)) m_flush(s);
    }
    m_flush(s);
    m_scan(s);
    embedDBClose(s);
    db_free(s);
    USE(!w);
    s = db_make(PARAMS, 1);
    vp_assert(embedDBInit(s, PERR) == 0, "files written by the other variant are not opened");
    vp_reach("switched");
    int before = mlo;
    int lo = m_scan(s);
    if (!(mpages >= ND && mpages % ES == 0)) vp_assert(lo == before, "files written by the other variant lose records");
    for (int i = 0; i < M; i++) m_put(s);
    m_flush(s);
    m_scan(s);
    if (FIL) m_query(s, FIL);
    embedDBClose(s);
    db_free(s);
    USE(w);
    s = db_make(PARAMS, 1);
    vp_assert(embedDBInit(s, PERR) == 0, "files written by the other variant are not opened");
    before = mlo;
    lo = m_scan(s);
    if (!(mpages >= ND && mpages % ES == 0)) vp_assert(lo == before, "files written by the other variant lose records");
    m_get(s);
    m_end(s);
}
#else
#define UT(X) X(updateBitmapInt8) X(buildBitmapInt8FromRange) X(inBitmapInt8) X(updateBitmapInt16) X(buildBitmapInt16FromRange) \
    X(inBitmapInt16) X(updateBitmapInt64) X(buildBitmapInt64FromRange) X(inBitmapInt64) X(int32Comparator) X(int64Comparator) \
    X(embedDBCreateSchema) X(embedDBFreeSchema) X(getRecordSizeFromSchema) X(getColOffsetFromSchema)
UT(DECL)
int8_t compareSignedNumbers(const void *, const void *, int8_t);
int8_t compareUnsignedNumbers(const void *, const void *, int8_t);
int8_t dist_compareSignedNumbers(const void *, const void *, int8_t);
int8_t dist_compareUnsignedNumbers(const void *, const void *, int8_t);
#define BM(W, D) case D: { \
    uint64_t b1 = vp_sym("bm", 8), b2 = b1; \
    int m = vp_choice(4); \
    updateBitmapInt##W(&x, &b1); dist_updateBitmapInt##W(&x, &b2); vp_assert(b1 == b2, "updateBitmap differs"); \
    vp_assert((inBitmapInt##W(&y, &b1) != 0) == (dist_inBitmapInt##W(&y, &b1) != 0), "inBitmap differs"); \
    b1 = b2 = 0; \
    buildBitmapInt##W##FromRange(m & 1 ? &x : NULL, m & 2 ? &y : NULL, &b1); \
    dist_buildBitmapInt##W##FromRange(m & 1 ? &x : NULL, m & 2 ? &y : NULL, &b2); \
    vp_assert(b1 == b2, "buildBitmap differs"); break; }
void vp_main(void) {
    int32_t x = (int32_t)vp_sym("x", 4), y = (int32_t)vp_sym("y", 4);
    switch (vp_choice(6)) {
        BM(8, 0) BM(16, 1) BM(64, 2)
        case 3: vp_assert(int32Comparator(&x, &y) == dist_int32Comparator(&x, &y), "int32Comparator differs"); break;
        case 4: {
            int64_t u = (int64_t)vp_sym("u", 8), v = (int64_t)vp_sym("v", 8);
            vp_assert(int64Comparator(&u, &v) == dist_int64Comparator(&u, &v), "int64Comparator differs");
            break;
        }
        default: {
            int n = 1 + vp_choice(8);
            uint8_t a[8], b[8];
            vp_sym_bytes(a, n, "a");
            vp_sym_bytes(b, n, "b");
            vp_assert(compareSignedNumbers(a, b, n) == dist_compareSignedNumbers(a, b, n), "compareSignedNumbers differs");
            vp_assert(compareUnsignedNumbers(a, b, n) == dist_compareUnsignedNumbers(a, b, n), "compareUnsignedNumbers differs");
        }
    }
    vp_reach("util");
    vp_done();
}
#endif
