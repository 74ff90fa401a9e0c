/* Storage discipline: every file is a circular log.  Pages are written one after the other, page n to place n modulo the
 * allocated pages; a page is never programmed twice without an erase; erases cover exactly one aligned block, the one
 * that is written next, so that at most one block is given up; outside recovery only pages that hold something are read.
 * Holds for any mix of inserts, flushes, lookups, iterations, clean restarts and power losses. */
#include "model.h"
#ifndef FLM
#define FLM 0
#endif
#ifndef REM            /* clean restart may happen after put i */
#define REM 0
#endif
#ifndef C0             /* power may be lost from put C0 on */
#define C0 99
#endif
#ifndef GETM
#define GETM 0
#endif
#ifndef ITM
#define ITM 0
#endif
#ifndef ERK
#define ERK 1
#endif
#ifndef M
#define M 2
#endif
#ifdef LENS
static const int lens[] = {LENS};
static int hasv[MAXREC];
#endif
static int booting;
static int last[3] = {-1, -1, -1};           /* newest page of each file, -1: none */
static int maxof(RF *f) { return (int)f->maxPages; }
static int8_t dr(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
    RF *f = file;
    if (!booting && !rfc.crashed) vp_assert(pageNum < f->maxPages && f->written[pageNum], "a page is read that was erased or never written");
    return rf_read(buffer, pageNum, pageSize, file);
}
static int8_t dw(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
    RF *f = file;
    if (rfc.crashed) return 0;
    uint32_t id;
    memcpy(&id, buffer, 4);
    vp_assert(pageNum < f->maxPages, "page written outside its file");
    vp_assert(!f->written[pageNum], "a page is programmed twice without an erase");
    int next = last[f->id] + 1, t = 0;
    if (USE_RLC && f == &fData && pageNum != (uint32_t)(next % ND)) {      /* a temporary page: in the two blocks behind the current one */
        t = 1;
        uint32_t rel = (pageNum + ND - (uint32_t)(next / ES * ES % ND)) % ND;
        vp_assert(rel >= ES && rel < 3 * ES, "temporary page outside the two blocks behind the current one");
        vp_assert(id == (uint32_t)next, "temporary page with the wrong page number");
    } else {
        vp_assert(id == (uint32_t)next, "pages are not written in sequence");
        vp_assert(pageNum == (uint32_t)(next % maxof(f)), "page written to the wrong place");
    }
    int8_t r = rf_write(buffer, pageNum, pageSize, file);
    if (r) {
        if (!t) { last[f->id] = next; if (next >= maxof(f)) vp_reach(f == &fData ? "wrapped" : f == &fIdx ? "idxwrapped" : "varwrapped"); }
        else vp_reach("temp");
    }
    return r;
}
static int8_t de(uint32_t a, uint32_t b, uint32_t pageSize, void *file) {
    RF *f = file;
    if (rfc.crashed) return 0;
    vp_assert(a % ES == 0 && b == a + ES && b <= f->maxPages, "erase does not cover exactly one block of the file");
    uint32_t next = (uint32_t)(last[f->id] + 1) % f->maxPages;     /* place of the next page */
    uint32_t dist = (a + f->maxPages - next / ES * ES) % f->maxPages / ES;   /* blocks ahead of the one in use */
    if (USE_RLC && f == &fData) vp_assert(dist <= 3, "erase of a block that is not needed yet");
    else vp_assert(dist <= (next % ES ? 1 : 0), "erase of a block that is not written next");
    /* the pages of the block in use stay: only an untouched block may be erased */
    if (dist == 0) vp_assert(next % ES == 0, "erase of the block being written");
    return rf_erase(a, b, pageSize, file);
}
static int8_t dopen(void *file, uint8_t mode) {
    int8_t r = rf_open(file, mode);
    if (r && mode == EMBEDDB_FILE_MODE_W_PLUS_B) last[((RF *)file)->id] = -1;     /* started anew */
    return r;
}
static embedDBState *boot(int reset) {
    embedDBState *s = db_make(PARAMS | (reset ? EMBEDDB_RESET_DATA : 0), 1);
    booting = 1;
    vp_assert(embedDBInit(s, PERR) == 0, "init fails");
    booting = 0;
    return s;
}
static void put(embedDBState *s) {
    uint64_t k;
    if (mn == 0) { k = fresh_key(); vp_assume(k < 0x70000000); } else k = mk[mn - 1] + 10;
    dval_t d = (DSYM >> mn & 1) ? (dval_t)vp_sym("d", DS) : (dval_t)(mn * 7 % 30);
    mk[mn++] = k;
#ifdef LENS
    uint8_t v[64];
    int l = lens[vp_choice(sizeof lens / sizeof lens[0])];
    memset(v, mn, sizeof v);
    hasv[mn - 1] = l;
    int8_t r = embedDBPutVar(s, &k, &d, l ? v : NULL, (uint32_t)l);
#else
    int8_t r = embedDBPut(s, &k, &d);
#endif
    if (!rfc.crashed) vp_assert(r == 0, "put fails");
}
static void look(embedDBState *s) {          /* a lookup of any stored or absent key */
    uint64_t k = mk[vp_choice(mn)];
    dval_t d;
#ifdef LENS
    embedDBVarDataStream *st = NULL;
    embedDBGetVar(s, &k, &d, &st);
    if (st) {
        uint8_t o[64];
        embedDBVarDataStreamRead(s, st, o, sizeof o);
        free(st);
    }
#else
    embedDBGet(s, &k, &d);
#endif
    vp_reach("get");
}
static void iter(embedDBState *s) {
    embedDBIterator it;
    memset(&it, 0, sizeof it);
    uint64_t k = 0;
    dval_t d, lo = 15;
    if (PARAMS & EMBEDDB_USE_BMAP) it.minData = &lo;
    embedDBInitIterator(s, &it);
#ifdef LENS
    embedDBVarDataStream *st = NULL;
    while (embedDBNextVar(s, &it, &k, &d, &st)) {
        uint8_t o[64];
        if (st) { embedDBVarDataStreamRead(s, st, o, sizeof o); free(st); }
        st = NULL;
    }
#else
    while (embedDBNext(s, &it, &k, &d)) {}
#endif
    embedDBCloseIterator(&it);
    vp_reach("iter");
}
static void off(embedDBState *s, int crashed) {
    rfc.crashed |= crashed;
    embedDBClose(s);
    db_free(s);
    fData.isOpen = fIdx.isOpen = fVar.isOpen = 0;
    rfc.crashed = rfc.crashOn = 0;
}
void vp_main(void) {
    db_files();
    USE_RLC = (PARAMS & EMBEDDB_RECORD_LEVEL_CONSISTENCY) != 0;
    rfc.eraseKind = ERK;
    rf_if.read = dr;
    rf_if.open = dopen;
    rf_if.write = dw;
    rf_if.erase = de;
    embedDBState *s = boot(1);
    rfc.crashBudget = 1;
    for (int i = 0; i < N + M; i++) {
        if (i >= C0 && i < N) rfc.crashOn = 1;
        put(s);
        if (!rfc.crashed && (FLM >> i & 1) && vp_choice(2)) { vp_assert(embedDBFlush(s) == 0 || rfc.crashed, "flush fails"); vp_reach("flush"); }
        if (rfc.crashed) { off(s, 1); s = boot(0); vp_reach("crashed"); i = i < N - 1 ? N - 1 : i; continue; }
        if ((REM >> i & 1) && vp_choice(2)) { off(s, 0); s = boot(0); vp_reach("restart"); }
        if (GETM >> i & 1) look(s);
        if (ITM >> i & 1) iter(s);
    }
    embedDBClose(s);
    db_free(s);
    vp_done();
}
