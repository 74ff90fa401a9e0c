/* Query operators over table scans: selection, projection, aggregation, key join and their combinations,
 * against a direct evaluation of the query over the inserted records.
 * MODE 1 selection, 2 projection, 3 count/sum/min/max, 4 average, 5 key join, 6 selection->projection->aggregate,
 * 7 selection below a join.  Column 0 is the key, column 1 has any of the sizes in SZS (either signedness),
 * column 2 is fixed. */
#include "dbh.h"
#ifdef DIST
#else
#include "query-interface/advancedQueries.h"
#endif
#ifndef N
#define N 3
#endif
#ifndef NB
#define NB 3
#endif
#ifndef SZS
#define SZS 1,2,3,4,5,6,7,8
#endif
#ifndef C2
#define C2 1
#endif
#ifndef FIL
#define FIL 0
#endif
#ifndef OPS
#define OPS 6
#endif
#ifndef AGN
#define AGN 4      /* 2: count and sum only */
#endif
#define MAXREC 32
static int8_t szs[] = {SZS};
#ifdef CX          /* further columns behind the first three (projection) */
static const int8_t cx[] = {CX};
#define NCOL (3 + (int)sizeof cx)
#else
#define NCOL 3
#endif
static int8_t cols[NCOL];
static int recSize, dataSize;
static uint8_t recs[N > NB ? N : NB][MAXREC];
static uint8_t recs2[NB][MAXREC];
static int asz(int8_t s) { return s < 0 ? -s : s; }
static int coff(int c) { int o = 0; for (int i = 0; i < c; i++) o += asz(cols[i]); return o; }
/* value of a column: its bytes, the top one biased when the column is signed, so that values of equal size
 * compare like unsigned numbers */
typedef struct { const uint8_t *p; int8_t sz; } val_t;
static uint8_t vb(val_t v, int i) { return (uint8_t)(v.p[i] ^ (v.sz < 0 && i == asz(v.sz) - 1 ? 0x80 : 0)); }
static val_t ld(const uint8_t *p, int8_t sz) { val_t v = {p, sz}; return v; }
static int lt(val_t a, val_t b) {
    int r = 0;
    for (int i = 0; i < asz(a.sz); i++) r = (vb(a, i) < vb(b, i)) | ((vb(a, i) == vb(b, i)) & r);
    return r;
}
static int eq(val_t a, val_t b) {
    int r = 1;
    for (int i = 0; i < asz(a.sz); i++) r &= a.p[i] == b.p[i];
    return r;
}
/* the value as a 64-bit number (columns of up to 8 bytes) */
static uint64_t num(val_t v) {
    uint64_t x = 0;
    int n = asz(v.sz);
    for (int i = 0; i < n; i++) x |= (uint64_t)v.p[i] << (8 * i);
    if (v.sz < 0 && n < 8 && vp_is_true(v.p[n - 1] >> 7)) x |= ~(uint64_t)0 << (8 * n);
    return x;
}
static val_t rv(int i, int c) { return ld(recs[i] + coff(c), cols[c]); }
static int holds(val_t a, int op, val_t b) {
    switch (op) {
        case SELECT_GT: return lt(b, a);
        case SELECT_LT: return lt(a, b);
        case SELECT_GTE: return !lt(a, b);
        case SELECT_LTE: return !lt(b, a);
        case SELECT_EQ: return eq(a, b);
        default: return !eq(a, b);
    }
}
static embedDBState *mk(RF *f, int dsz, int n, uint8_t (*out)[MAXREC], const char *nm) {
    embedDBState *s = db_make(PARAMS | EMBEDDB_RESET_DATA, 1);
    s->dataFile = f;
    s->dataSize = dsz;
    vp_assert(embedDBInit(s, PERR) == 0, "init fails");
    uint64_t prev = 0;
    for (int i = 0; i < n; i++) {
        uint64_t k = vp_sym("k", KS);
        if (i) vp_assume(k > prev);
        prev = k;
        memcpy(out[i], &k, KS);
        vp_sym_bytes(out[i] + KS, dsz, nm);
        vp_assert(embedDBPut(s, out[i], out[i] + KS) == 0, "put fails");
#ifdef FLM
        if ((FLM >> i) & 1) vp_assert(embedDBFlush(s) == 0, "flush fails");
#endif
    }
    return s;
}
static embedDBSchema *mkSchema(int8_t *c, int n) {
    int8_t sz[16], sg[16];
    for (int i = 0; i < n; i++) {
        sz[i] = asz(c[i]);
        sg[i] = c[i] < 0 ? embedDB_COLUMN_SIGNED : embedDB_COLUMN_UNSIGNED;
    }
    embedDBSchema *s = embedDBCreateSchema(n, sz, sg);
    vp_assert(s != NULL, "valid schema refused");
    return s;
}
static int filt(int i, uint64_t lo, uint64_t hi) {
    uint64_t k = key_val(recs[i]);
    return (!(FIL & 1) | (k >= lo)) & (!(FIL & 2) | (k <= hi));
}
static int bytes_eq(const void *a, const void *b, int n) {
    const uint8_t *x = a, *y = b;
    int r = 1;
    for (int i = 0; i < n; i++) r &= x[i] == y[i];
    return r;
}
static int8_t sameC2(const void *a, const void *b) {
    int o = coff(2);
    return (int8_t)(((const uint8_t *)a)[o] == ((const uint8_t *)b)[o]);
}
static int8_t projSame(const void *a, const void *b) { /* column 2 right behind column 0 */
    return (int8_t)(((const uint8_t *)a)[asz(cols[0])] == ((const uint8_t *)b)[asz(cols[0])]);
}
static void ended(embedDBOperator *op) { vp_assert(!exec(op), "operator that reported its end returns another row"); }
/* aggregates of column ac over the rows listed in idx, checked group by group */
static void check_agg(embedDBOperator *op, int *idx, int n, int ac) {
    uint8_t *out = (uint8_t *)op->recordBuffer;
    int i = 0, groups = 0;
    while (i < n) {
        int j = i + 1;
        while (j < n && vp_is_true(sameC2(recs[idx[i]], recs[idx[j]]))) j++;
        vp_assert(exec(op), "aggregate misses a group");
        groups++;
        uint32_t c = 0;
        memcpy(&c, out, 4);
        vp_assert((int)c == j - i, "COUNT is wrong");
        uint64_t want = 0, sum;
        for (int t = i; t < j; t++) want += num(rv(idx[t], ac));
        memcpy(&sum, out + 4, 8);
        vp_assert(sum == want, "SUM is wrong");
#if AGN > 2
        val_t mn = rv(idx[i], ac), mx = mn;
        for (int t = i + 1; t < j; t++) {
            val_t v = rv(idx[t], ac);
            if (vp_is_true(lt(v, mn))) mn = v;
            if (vp_is_true(lt(mx, v))) mx = v;
        }
        vp_assert(eq(ld(out + 12, cols[ac]), mn), "MIN is wrong");
        vp_assert(eq(ld(out + 12 + asz(cols[ac]), cols[ac]), mx), "MAX is wrong");
#endif
        i = j;
    }
    if (groups > 1) vp_reach("groups");
    vp_reach("agg");
    ended(op);
}
void vp_main(void) {
    db_files();
    cols[0] = KS;
    int si = vp_choice((int)(sizeof szs) * 2);
    cols[1] = szs[si / 2];
    if (si & 1) cols[1] = -cols[1];
    cols[2] = C2;
    dataSize = asz(cols[1]) + asz(cols[2]);
#ifdef CX
    for (int i = 3; i < NCOL; i++) { cols[i] = cx[i - 3]; dataSize += asz(cols[i]); }
#endif
    recSize = KS + dataSize;
    embedDBState *s = mk(&fData, dataSize, N, recs, "c");
    embedDBSchema *sc = mkSchema(cols, NCOL);
    uint64_t lo = 0, hi = 0;
    embedDBIterator it;
    memset(&it, 0, sizeof it);
    if (FIL & 1) { lo = vp_sym("lo", KS); it.minKey = &lo; }
    if (FIL & 2) { hi = vp_sym("hi", KS); it.maxKey = &hi; }
    embedDBInitIterator(s, &it);
    embedDBOperator *scan = createTableScanOperator(s, &it, sc);
    vp_assert(scan != NULL, "table scan operator not created");
#if MODE == 1
    int c = si ? 1 : vp_choice(3), op = vp_choice(OPS);   /* columns 0 and 2 do not depend on the size of column 1 */
    uint8_t cmp[16];
    vp_sym_bytes(cmp, asz(cols[c]), "v");
    embedDBOperator *sel = createSelectionOperator(scan, c, op, cmp);
    sel->init(sel);
    for (int i = 0; i < N; i++) {
        if (!vp_is_true(filt(i, lo, hi) & holds(rv(i, c), op, ld(cmp, cols[c])))) continue;
        vp_assert(exec(sel), "selection misses a matching record");
        vp_assert(bytes_eq(sel->recordBuffer, recs[i], recSize), "selection returns a record that does not match, or out of order");
        vp_reach("sel");
    }
    ended(sel);
    sel->close(sel);
    embedDBFreeOperatorRecursive(&sel);
#elif MODE == 2
    int m = 1 + vp_choice((1 << NCOL) - 1);
    uint8_t pc[NCOL], np = 0;
    for (int i = 0; i < NCOL; i++) if (m >> i & 1) pc[np++] = (uint8_t)i;
    embedDBOperator *pr = createProjectionOperator(scan, np, pc);
    pr->init(pr);
    vp_assert(pr->schema->numCols == np, "projection has the wrong number of columns");
    for (int j = 0; j < np; j++) vp_assert(pr->schema->columnSizes[j] == cols[pc[j]], "projection schema is wrong");
    for (int i = 0; i < N; i++) {
        if (!vp_is_true(filt(i, lo, hi))) continue;
        vp_assert(exec(pr), "projection misses a record");
        int o = 0;
        for (int j = 0; j < np; j++) {
            vp_assert(bytes_eq((uint8_t *)pr->recordBuffer + o, recs[i] + coff(pc[j]), asz(cols[pc[j]])), "projected column is wrong");
            o += asz(cols[pc[j]]);
        }
        vp_reach("proj");
    }
    ended(pr);
    pr->close(pr);
    embedDBFreeOperatorRecursive(&pr);
#elif MODE == 3
    int ac = si ? 1 : vp_choice(2);
    embedDBAggregateFunc *a[4] = {createCountAggregate(), createSumAggregate(ac), createMinAggregate(ac, cols[ac]), createMaxAggregate(ac, cols[ac])};
    embedDBAggregateFunc fs[4] = {*a[0], *a[1], *a[2], *a[3]};
    embedDBOperator *ag = createAggregateOperator(scan, sameC2, fs, AGN);
    ag->init(ag);
    int idx[N], n = 0;
    for (int i = 0; i < N; i++) if (vp_is_true(filt(i, lo, hi))) idx[n++] = i;
    check_agg(ag, idx, n, ac);
    ag->close(ag);
    embedDBFreeOperatorRecursive(&ag);
    for (int i = 0; i < 4; i++) {
        if (i > 1) free(*(void **)((uint8_t *)a[i]->state + sizeof(void *)));
        free(a[i]->state);
        free(a[i]);
    }
#elif MODE == 4
    int fsz = 4 << vp_choice(2);
    embedDBAggregateFunc *a = createAvgAggregate(1, fsz);
    embedDBAggregateFunc fs[1] = {*a};
    embedDBOperator *ag = createAggregateOperator(scan, sameC2, fs, 1);
    ag->init(ag);
    vp_assert(asz(ag->schema->columnSizes[0]) == fsz, "AVG has the wrong output size");
    int i = 0;
    while (i < N) {
        int j = i + 1;
        uint64_t sum = num(rv(i, 1));
        while (j < N && vp_is_true(sameC2(recs[i], recs[j]))) sum += num(rv(j++, 1));
        vp_assert(exec(ag), "aggregate misses a group");
        uint32_t cnt = (uint32_t)(j - i);
        if (fsz == 8) {
            double want = cols[1] < 0 ? (int64_t)sum / (double)cnt : sum / (double)cnt, got;
            memcpy(&got, ag->recordBuffer, 8);
            uint64_t gb, wb;
            memcpy(&gb, &got, 8);
            memcpy(&wb, &want, 8);
            vp_assert(gb == wb, "AVG is wrong");
        } else {
            float want = cols[1] < 0 ? (int64_t)sum / (float)cnt : sum / (float)cnt, got;
            memcpy(&got, ag->recordBuffer, 4);
            uint32_t gb, wb;
            memcpy(&gb, &got, 4);
            memcpy(&wb, &want, 4);
            vp_assert(gb == wb, "AVG is wrong");
        }
        vp_reach("avg");
        i = j;
    }
    ended(ag);
    ag->close(ag);
    embedDBFreeOperatorRecursive(&ag);
    free(a->state);
    free(a);
#elif MODE == 5 || MODE == 7
    static RF f2;
    f2.id = 3;
    f2.maxPages = ND;
    embedDBState *s2 = mk(&f2, 2, NB, recs2, "b");
    int8_t cols2[2] = {KS, -2};
    embedDBSchema *sc2 = mkSchema(cols2, 2);
    embedDBIterator it2;
    memset(&it2, 0, sizeof it2);
    embedDBInitIterator(s2, &it2);
    embedDBOperator *scan2 = createTableScanOperator(s2, &it2, sc2), *left = scan;
    uint8_t cmp[8];
#if MODE == 7
    vp_sym_bytes(cmp, C2, "v");
    left = createSelectionOperator(scan, 2, SELECT_GTE, cmp);
#endif
    embedDBOperator *jn = createKeyJoinOperator(left, scan2);
    jn->init(jn);
    vp_assert(jn->schema->numCols == 5, "join schema is wrong");
    for (int j = 0; j < 5; j++) vp_assert(jn->schema->columnSizes[j] == (j < 3 ? cols[j] : cols2[j - 3]), "join schema is wrong");
    for (int i = 0; i < N; i++) {
        int t;
        if (!vp_is_true(filt(i, lo, hi))) continue;
#if MODE == 7
        if (!vp_is_true(holds(rv(i, 2), SELECT_GTE, ld(cmp, cols[2])))) continue;
#endif
        for (t = 0; t < NB; t++) if (vp_is_true(key_val(recs[i]) == key_val(recs2[t]))) break;
        if (t == NB) continue;
        vp_assert(exec(jn), "join misses a pair with equal keys");
        vp_assert(bytes_eq(jn->recordBuffer, recs[i], recSize) && bytes_eq((uint8_t *)jn->recordBuffer + recSize, recs2[t], KS + 2), "join returns records that do not match");
        vp_reach("join");
    }
    ended(jn);
    jn->close(jn);
    free(jn);
    if (left != scan) free(left);
    free(scan);
    free(scan2);
    embedDBFreeSchema(&sc2);
    embedDBCloseIterator(&it2);
    embedDBClose(s2);
    db_free(s2);
#elif MODE == 6
    /* SELECT COUNT, SUM, MIN, MAX of the key, grouped by column 2, WHERE column 1 op v, column 1 projected out */
    int op = vp_choice(OPS);
    uint8_t cmp[16];
    vp_sym_bytes(cmp, asz(cols[1]), "v");
    embedDBOperator *sel = createSelectionOperator(scan, 1, op, cmp);
    uint8_t pc[2] = {0, 2};
    embedDBOperator *pr = createProjectionOperator(sel, 2, pc);
    embedDBAggregateFunc *a[4] = {createCountAggregate(), createSumAggregate(0), createMinAggregate(0, cols[0]), createMaxAggregate(0, cols[0])};
    embedDBAggregateFunc fs[4] = {*a[0], *a[1], *a[2], *a[3]};
    embedDBOperator *ag = createAggregateOperator(pr, projSame, fs, AGN);
    ag->init(ag);
    int idx[N], n = 0;
    for (int i = 0; i < N; i++) if (vp_is_true(filt(i, lo, hi) & holds(rv(i, 1), op, ld(cmp, cols[1])))) idx[n++] = i;
    check_agg(ag, idx, n, 0);
    ag->close(ag);
    embedDBFreeOperatorRecursive(&ag);
    for (int i = 0; i < 4; i++) {
        if (i > 1) free(*(void **)((uint8_t *)a[i]->state + sizeof(void *)));
        free(a[i]->state);
        free(a[i]);
    }
#endif
    embedDBFreeSchema(&sc);
    embedDBCloseIterator(&it);
    embedDBClose(s);
    db_free(s);
    vp_assert(vp_live_allocs() == 0, "memory leaked after closing and freeing the query");
    vp_done();
}
