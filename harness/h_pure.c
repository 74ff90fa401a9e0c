/* Queries are observers: the same history of inserts, flushes and restarts is run twice, once with queries
 * (lookups, abandoned iterations, variable-data reads, operators) at arbitrary positions in between.  Both runs return
 * the same results and hand exactly the same pages to the storage in the same order. */
#include "model.h"
#ifndef DIST
#include "query-interface/advancedQueries.h"
#endif
#ifndef FLM
#define FLM 0
#endif
#ifndef REM
#define REM 0
#endif
#ifndef QM             /* positions after which a query may be made */
#define QM 0
#endif
#ifndef QK             /* kinds of queries used */
#define QK 0x7
#endif
#ifndef ERK
#define ERK 1
#endif
#if PARAMS & EMBEDDB_USE_VDATA
#ifndef LENS
#define LENS 3, 20
#endif
static const int lens[] = {LENS};
#define NL ((int)(sizeof lens / sizeof lens[0]))
#define VMAX 64
static int vl[N];
static uint8_t vd[N][VMAX];
#endif
#define LOGMAX 48
static struct { uint8_t op, file; uint32_t a, b; uint8_t bytes[PGS]; } lg[LOGMAX];
static int nlog, pos, second, quiet;
static void logop(int op, RF *f, uint32_t a, uint32_t b, const uint8_t *p) {
#define VAR ((PARAMS & EMBEDDB_USE_VDATA) != 0)
    /* a lookup of variable data may write out the buffered variable data first, and then its place differs */
    if (VAR && f == &fVar) return;
    vp_assert(!quiet, "a query writes to or erases storage");
    if (!second) {
        vp_assert(nlog < LOGMAX, "harness: log too small");
        lg[nlog].op = op; lg[nlog].file = f->id; lg[nlog].a = a; lg[nlog].b = b;
        if (p) memcpy(lg[nlog].bytes, p, PGS);
        nlog++;
        return;
    }
    vp_assert(pos < nlog && lg[pos].op == op && lg[pos].file == f->id && lg[pos].a == a && lg[pos].b == b, "queries in between change the storage operations");
    if (p && !VAR) {
        int same = 1;
        for (int i = 0; i < PGS; i++) same &= lg[pos].bytes[i] == p[i];
        vp_assert(same, "queries in between change what is written");
    }
    pos++;
}
static int8_t lw(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) { logop(1, file, pageNum, 0, buffer); return rf_write(buffer, pageNum, pageSize, file); }
static int8_t le(uint32_t s, uint32_t e, uint32_t pageSize, void *file) { logop(2, file, s, e, NULL); return rf_erase(s, e, pageSize, file); }
static uint64_t key[N];
static dval_t dat[N];
static int fl[N], re[N];
static int done;                       /* records inserted in this run */
static void query(embedDBState *s) {
    quiet = 1;
    int kinds[8], nk = 0;
    for (int i = 0; i < 8; i++) if (QK >> i & 1) kinds[nk++] = i;
    int kind = kinds[vp_choice(nk)];
    uint64_t k = 0;
    dval_t d = 0;
    if (kind == 0) {                   /* lookup of any key */
#ifdef KTAB
        k = key[vp_choice(done)];
#else
        k = vp_sym("q", KS);
#endif
        embedDBGet(s, &k, &d);
        vp_reach("get");
    } else if (kind == 1 || kind == 2 || kind == 3) {       /* iteration, possibly given up early: 1 all, 2 from a key, 3 by data */
        embedDBIterator it;
        memset(&it, 0, sizeof it);
        uint64_t mk_ = 0;
        dval_t md_ = 0;
        if (kind == 2) { mk_ = vp_sym("lo", KS); it.minKey = &mk_; }
        if (kind == 3) { md_ = (dval_t)vp_sym("min", DS); it.minData = &md_; }
        embedDBInitIterator(s, &it);
        int steps = vp_choice(2) ? N + 1 : 1;
        while (steps-- && embedDBNext(s, &it, &k, &d)) k = 0;
        embedDBCloseIterator(&it);
        vp_reach("iter");
    }
#if PARAMS & EMBEDDB_USE_VDATA
    else if (kind == 4) {              /* variable data of some record, a part of it */
        int i = vp_choice(done);
        k = key[i];
        embedDBVarDataStream *st = NULL;
        embedDBGetVar(s, &k, &d, &st);
        if (st) {
            uint8_t o[VMAX];
            embedDBVarDataStreamRead(s, st, o, vp_choice(2) ? VMAX : 2);
            free(st);
        }
        vp_reach("getvar");
    } else if (kind == 5) {
        embedDBIterator it;
        memset(&it, 0, sizeof it);
        embedDBInitIterator(s, &it);
        embedDBVarDataStream *st = NULL;
        int steps = vp_choice(2) ? N + 1 : 1;
        while (steps-- && embedDBNextVar(s, &it, &k, &d, &st)) {
            if (st) {
                uint8_t o[VMAX];
                embedDBVarDataStreamRead(s, st, o, VMAX);
                free(st);
            }
            st = NULL;
            k = 0;
        }
        embedDBCloseIterator(&it);
        vp_reach("nextvar");
    }
#endif
    else if (kind == 6) {              /* a selection over a table scan, given up after a row */
        int8_t sz[2] = {KS, DS}, sg[2] = {embedDB_COLUMN_UNSIGNED, embedDB_COLUMN_SIGNED};
        embedDBSchema *sc = embedDBCreateSchema(2, sz, sg);
        embedDBIterator it;
        memset(&it, 0, sizeof it);
        embedDBInitIterator(s, &it);
        dval_t v = (dval_t)vp_sym("v", DS);
        embedDBOperator *op = createTableScanOperator(s, &it, sc);
        op = createSelectionOperator(op, 1, SELECT_GTE, &v);
        op->init(op);
        exec(op);
        op->close(op);
        embedDBFreeOperatorRecursive(&op);
        embedDBFreeSchema(&sc);
        embedDBCloseIterator(&it);
        vp_reach("select");
    } else if (kind == 7) {
        embedDBResetStats(s);
        vp_reach("reset");
    }
    quiet = 0;
}
static int res[N][4];
static uint64_t fin;                   /* looked up at the end */
static void check(int i, int j, int r) {
    if (!second) res[i][j] = r;
    else vp_assert(res[i][j] == r, "queries in between change the result of an operation");
}
static embedDBState *start(int fresh) {
    embedDBState *s = db_make(PARAMS | (fresh ? EMBEDDB_RESET_DATA : 0), 0);
    vp_assert(embedDBInit(s, PERR) == 0, "init fails");
    return s;
}
static void history(int queries) {
    done = 0;
    embedDBState *s = start(1);
    for (int i = 0; i < N; i++) {
        uint8_t kb[KS], db[DS];
        memcpy(kb, &key[i], KS);
        memcpy(db, &dat[i], DS);
#if PARAMS & EMBEDDB_USE_VDATA
        uint8_t t[VMAX];
        memcpy(t, vd[i], VMAX);
        check(i, 0, embedDBPutVar(s, kb, db, vl[i] ? t : NULL, (uint32_t)vl[i]));
#else
        check(i, 0, embedDBPut(s, kb, db));
#endif
        done = i + 1;
        if (queries && (QM >> i & 1)) query(s);
        if (fl[i]) check(i, 1, embedDBFlush(s));
        if (re[i]) {
            embedDBClose(s);
            db_free(s);
            s = start(0);
        }
    }
    check(0, 2, embedDBFlush(s));
    embedDBIterator it;
    memset(&it, 0, sizeof it);
    embedDBInitIterator(s, &it);
    uint64_t k = 0;
    dval_t d = 0;
    int n = 0;
    while (n <= N && embedDBNext(s, &it, &k, &d)) n++;
    check(0, 3, n);
    embedDBCloseIterator(&it);
    k = fin;
    d = 0;
    int r = embedDBGet(s, &k, &d);
    check(1, 2, r);
    if (r == 0) check(1, 3, (int)d);
    embedDBClose(s);
    db_free(s);
    vp_assert(vp_live_allocs() == 0, "memory leaked");
}
static void reset(void) {
    memset(&fData, 0, sizeof fData);
    memset(&fIdx, 0, sizeof fIdx);
    memset(&fVar, 0, sizeof fVar);
    db_files();
    memset(&rfc, 0, sizeof rfc);
    rfc.eraseKind = ERK;
}
void vp_main(void) {
    rf_if.write = lw;
    rf_if.erase = le;
    for (int i = 0; i < N; i++) {
#ifdef KTAB           /* keys with uneven gaps */
        static const uint16_t kt[] = {KTAB};
        key[i] = kt[i];
#elif defined(KCONC)
        key[i] = 10 * (uint64_t)i + 7;
#else
        key[i] = vp_sym("k", KS);
        if (i) vp_assume(key[i] > key[i - 1]);
#endif
        dat[i] = (DSYM >> i & 1) ? (dval_t)vp_sym("d", DS) : (dval_t)(i * 7 % 30);
#if PARAMS & EMBEDDB_USE_VDATA
        vl[i] = lens[vp_choice(NL)];
        if (vl[i]) vp_sym_bytes(vd[i], vl[i], "v");
#endif
        fl[i] = (FLM >> i & 1) ? vp_choice(2) : 0;
        re[i] = (REM >> i & 1) ? vp_choice(2) : 0;
    }
#if defined(KCONC) || defined(KTAB)
    fin = key[vp_choice(3) * (N - 1) / 2];
#else
    fin = vp_sym("fin", KS);
#endif
    reset();
    history(1);
    second = 1;
    reset();
    history(0);
    vp_assert(pos == nlog, "queries in between change the storage operations");
    vp_reach("same");
    vp_done();
}
