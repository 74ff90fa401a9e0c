/* Life cycle: any sequence of operations, abandoned iterators and streams, failing storage, refused reopening; caller buffers
 * have exactly the documented sizes (engine and sanitizers check every access).  After closing everything no memory is
 * allocated, every file that was opened is closed, and nothing is touched after its release. */
#include "model.h"
#ifndef DIST
#include "query-interface/advancedQueries.h"
#endif
#ifndef T              /* steps */
#define T 3
#endif
#ifndef OPM            /* operations allowed in a step */
#define OPM 0x7f
#endif
#ifndef FAILS
#define FAILS 0
#endif
#ifndef FMASK
#define FMASK 7
#endif
#ifndef N0             /* records inserted before the steps */
#define N0 3
#endif
#ifndef LENS
#define LENS 0, 24
#endif
#ifndef ARB            /* 1: queries with arbitrary keys, not just stored ones and their successor */
#define ARB 0
#endif
#define VMAX 48
static const int lens[] = {LENS};
#define IDX_ (PARAMS & (EMBEDDB_USE_INDEX | EMBEDDB_USE_BMAP))
#define VAR_ (PARAMS & EMBEDDB_USE_VDATA)
static int nput, opens[3], closes[3];
static int8_t lopen(void *file, uint8_t mode) {
    RF *f = file;
    if (rf_fail(8)) return 0;
    int8_t r = rf_open(file, mode);
    if (r) opens[f->id]++;
    return r;
}
static int8_t lclose(void *file) { closes[((RF *)file)->id]++; return rf_close(file); }
static embedDBState *s;
static uint64_t base;
static void put(void) {
    uint8_t *k = malloc(KS), *d = malloc(DS), *v = malloc(VMAX);
    uint64_t kv = base + 10 * (uint64_t)nput;
    memcpy(k, &kv, KS);
    vp_sym_bytes(d, DS, "d");
    nput++;
    if (VAR_) {
        int l = lens[vp_choice(sizeof lens / sizeof lens[0])];
        uint8_t *e = malloc(l ? l : 1);
        vp_sym_bytes(e, l ? l : 1, "v");
        embedDBPutVar(s, k, d, l ? e : NULL, (uint32_t)l);
        free(e);
    } else embedDBPut(s, k, d);
    free(k);
    free(d);
    free(v);
}
static uint64_t anykey(void) {
    if (ARB) return vp_sym("q", KS);
    return base + 10 * (uint64_t)vp_choice(nput + 1);
}
static void step(void) {
    int ops[8], n = 0;
    for (int i = 0; i < 8; i++) if (OPM >> i & 1) ops[n++] = i;
    int op = ops[vp_choice(n)];
    uint8_t *k = malloc(KS), *d = malloc(DS);
    uint64_t kv;
    switch (op) {
        case 0: put(); break;
        case 1: embedDBFlush(s); break;
        case 2: {                                   /* lookup */
            kv = anykey();
            memcpy(k, &kv, KS);
            embedDBGet(s, k, d);
            vp_reach("get");
            break;
        }
        case 3: {                                   /* lookup with variable data, partly read */
            kv = anykey();
            memcpy(k, &kv, KS);
            embedDBVarDataStream *st = NULL;
            if (VAR_ && embedDBGetVar(s, k, d, &st) == 0 && st) {
                int len = vp_choice(2) ? 5 : VMAX;
                uint8_t *o = malloc(len);
                embedDBVarDataStreamRead(s, st, o, len);
                free(o);
            }
            free(st);
            vp_reach("getvar");
            break;
        }
        case 4: {                                   /* iteration, abandoned or not */
            embedDBIterator it;
            memset(&it, 0, sizeof it);
            uint8_t *mn_ = malloc(KS), *md_ = malloc(DS);
            int f = vp_choice(3);
            kv = ARB ? anykey() : base + 10;
            memcpy(mn_, &kv, KS);
            memset(md_, 1, DS);
            if (f == 1) it.minKey = mn_;
            if (f == 2) it.minData = md_;
            embedDBInitIterator(s, &it);
            int c = vp_choice(2) ? 1 : MAXREC;
            while (c-- && embedDBNext(s, &it, k, d)) {}
            embedDBCloseIterator(&it);
            free(mn_);
            free(md_);
            vp_reach("iter");
            break;
        }
        case 5: {
            embedDBIterator it;
            memset(&it, 0, sizeof it);
            uint8_t *md_ = malloc(DS);
            memset(md_, 1, DS);
            if (vp_choice(2)) it.maxData = md_;
            embedDBInitIterator(s, &it);
            embedDBVarDataStream *st = NULL;
            int c = vp_choice(2) ? 1 : MAXREC;
            while (c-- && VAR_ && embedDBNextVar(s, &it, k, d, &st)) { free(st); st = NULL; }
            embedDBCloseIterator(&it);
            free(md_);
            vp_reach("itervar");
            break;
        }
        case 6: {                                   /* close, and open again */
            embedDBClose(s);
            db_free(s);
            vp_assert(vp_live_allocs() == 2, "memory leaked after close");
            s = db_make(PARAMS | (vp_choice(2) ? EMBEDDB_RESET_DATA : 0), 1);
            if (embedDBInit(s, PERR) != 0) {
                vp_reach("refused");
                vp_assert(rfc.failed, "reopening fails although the storage works");
                for (int i = 0; i < 3; i++) vp_assert(opens[i] == closes[i], "refused initialisation leaves a file open");
                db_free(s);
                free(k);
                free(d);
                vp_assert(vp_live_allocs() == 0, "refused initialisation leaks memory");
                vp_done();
            }
            vp_reach("reopened");
            break;
        }
        case 7: {                                   /* a query, given up after a row or two */
            int8_t *sz = malloc(2), *sg = malloc(2);
            sz[0] = KS; sz[1] = DS;
            sg[0] = embedDB_COLUMN_UNSIGNED; sg[1] = embedDB_COLUMN_SIGNED;
            embedDBSchema *sc = embedDBCreateSchema(2, sz, sg);
            free(sz);
            free(sg);
            embedDBIterator it;
            memset(&it, 0, sizeof it);
            embedDBInitIterator(s, &it);
            embedDBOperator *o = createTableScanOperator(s, &it, sc);
            int kind = vp_choice(3);
            memset(d, 1, DS);
            uint8_t *cols = malloc(1);
            cols[0] = 1;
            if (kind == 1) o = createSelectionOperator(o, 1, SELECT_NEQ, d);
            if (kind == 2) o = createProjectionOperator(o, 1, cols);
            int c = vp_choice(3);
            if (c) {                                /* c == 0: created, but never used */
                o->init(o);
                while (--c && exec(o)) {}
                o->close(o);
            }
            embedDBFreeOperatorRecursive(&o);
            free(cols);
            embedDBFreeSchema(&sc);
            embedDBCloseIterator(&it);
            vp_reach("query");
        }
    }
    free(k);
    free(d);
}
void vp_main(void) {
    db_files();
    rfc.eraseKind = 1;
    rf_if.open = lopen;
    rf_if.close = lclose;
    base = vp_sym("k", KS);
    vp_assume(base < 0x70000000);
    s = db_make(PARAMS | EMBEDDB_RESET_DATA, 1);
    vp_assert(embedDBInit(s, PERR) == 0, "init fails");
    for (int i = 0; i < N0; i++) put();
    rfc.failOn = FMASK;
    rfc.failBudget = FAILS;
    for (int i = 0; i < T; i++) step();
    if (rfc.failed) vp_reach("failed");
    embedDBClose(s);
    for (int i = 0; i < 3; i++) vp_assert(opens[i] == closes[i], "a file is not closed exactly as often as it was opened");
    vp_assert(!fData.isOpen && !fIdx.isOpen && !fVar.isOpen, "a file stays open");
    db_free(s);
    vp_assert(vp_live_allocs() == 0, "memory leaked");
    vp_done();
}
