/* Several sessions on the same files.  Each session may initialize with a reset (everything before is gone) or continue, may use
 * other options than the one before (index switched on later, off for a session, ...), inserts some records and ends with or
 * without a flush.  In every session all lookups, scans and data-range queries answer exactly for the records that are there. */
#include "dbh.h"
#ifndef NSESS
#define NSESS 2
#endif
#ifndef SP             /* options of the sessions */
#define SP PARAMS, PARAMS, PARAMS
#endif
#ifndef SN             /* records inserted in the sessions */
#define SN 5, 3, 2
#endif
#ifndef SR             /* reset: 0 no, 1 yes, 2 either */
#define SR 1, 2, 2
#endif
#ifndef SE             /* end of the session: 0 close, 1 flush and close, 2 either */
#define SE 2, 2, 2
#endif
#ifndef KOLD           /* sessions (bit mask) whose keys are known numbers */
#define KOLD 1
#endif
#ifndef DSYM
#define DSYM 0x222222
#endif
static const int sp[] = {SP}, sn[] = {SN}, sr[] = {SR}, se[] = {SE};
#define MAXR 40
static uint64_t mk[MAXR];
static dval_t md[MAXR];
static uint8_t mv[MAXR];
static int mn, done, per, total;
static void put(embedDBState *s, int sess) {
    uint64_t k;
    if (KOLD >> sess & 1) k = 1000 + 7 * (uint64_t)mn;
    else k = vp_sym("k", KS);
    if (mn) vp_assume(k > mk[mn - 1]);
    dval_t d = DSYM >> total & 1 ? (dval_t)vp_sym("d", DS) : (sess & 1) ? (dval_t)25 : (dval_t)5;
    total++;
    if (mn - done >= per) done = mn;
    mk[mn] = k;
    md[mn] = d;
    if (EMBEDDB_USING_VDATA(sp[sess])) {
        mv[mn] = (uint8_t)vp_sym("v", 1);
        uint8_t v[3] = {mv[mn], (uint8_t)mn, (uint8_t)sess};
        vp_assert(embedDBPutVar(s, &k, &d, v, 3) == 0, "put fails");
    } else vp_assert(embedDBPut(s, &k, &d) == 0, "put fails");
    mn++;
    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(sp[sess])) done = mn;
}
static void query(embedDBState *s, int data) {
    embedDBIterator it;
    memset(&it, 0, sizeof it);
    dval_t mind = 0, maxd = 0;
    if (data) {
        mind = (dval_t)vp_sym("min", DS);
        it.minData = &mind;
        if (data > 1) {
            maxd = (dval_t)vp_sym("max", DS);
            it.maxData = &maxd;
        }
    }
    embedDBInitIterator(s, &it);
    uint64_t k = 0;
    dval_t d = 0;
    int p = 0;
    while (embedDBNext(s, &it, &k, &d)) {
        while (p < mn && data && !vp_is_true(md[p] >= mind && (data < 2 || md[p] <= maxd))) p++;
        vp_assert(p < mn && mk[p] == k && md[p] == d, "query skips, invents or changes records");
        p++;
        k = 0;
        d = 0;
    }
    for (; p < mn; p++) vp_assert(data && !(md[p] >= mind && (data < 2 || md[p] <= maxd)), "query misses records");
    embedDBCloseIterator(&it);
}
static void look(embedDBState *s, int var) {
    uint64_t q = vp_sym("q", KS);
    dval_t d = 0;
    int f = -1;
    for (int i = 0; i < mn; i++) if (vp_is_true(q == mk[i])) { f = i; break; }
    int8_t r;
    if (var) {
        embedDBVarDataStream *st = NULL;
        r = embedDBGetVar(s, &q, &d, &st);
        vp_assert((r == 0) == (f >= 0), f >= 0 ? "stored key not found" : "key that is not stored is found");
        if (f >= 0) {
            uint8_t o[4] = {0, 0, 0, 0};
            vp_assert(st && embedDBVarDataStreamRead(s, st, o, 4) == 3 && o[0] == mv[f] && o[1] == (uint8_t)f, "wrong variable data");
            free(st);
        }
    } else {
        r = embedDBGet(s, &q, &d);
        vp_assert((r == 0) == (f >= 0), f >= 0 ? "stored key not found" : "key that is not stored is found");
    }
    if (f >= 0) { vp_assert(d == md[f], "wrong data"); vp_reach("found"); }
    else vp_reach("absent");
}
void vp_main(void) {
    db_files();
    rfc.eraseKind = 1;
    for (int i = 0; i < NSESS; i++) {
        int reset = sr[i] == 2 ? vp_choice(2) : sr[i];
        int var = EMBEDDB_USING_VDATA(sp[i]) != 0;
        embedDBState *s = db_make(sp[i] | (reset ? EMBEDDB_RESET_DATA : 0), 1);
        vp_assert(embedDBInit(s, PERR) == 0, "init fails");
        per = s->maxRecordsPerPage;
        if (reset && i) vp_reach("reset");
        if (reset) mn = done = 0;
        if (i) query(s, 0);
        int n = sn[i];
        for (int j = 0; j < n; j++) put(s, i);
        if (i == NSESS - 1) {
            int w = vp_choice(3);
            if (w == 0) look(s, var);
            else query(s, w);
        }
        int e = se[i] == 2 ? vp_choice(2) : se[i];
        if (e == 1) {
            vp_assert(embedDBFlush(s) == 0, "flush fails");
            done = mn;
        }
        mn = done;
        embedDBClose(s);
        db_free(s);
        vp_assert(vp_live_allocs() == 0, "memory leaked after close");
    }
    vp_reach("end");
    vp_done();
}
