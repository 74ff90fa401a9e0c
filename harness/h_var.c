/* Variable-length data: N puts, each with a chosen length or no variable data, optional
 * flushes (FLM), optional restart (RE), then lookups / iteration / chunked reads. */
#ifndef PARAMS
#define PARAMS EMBEDDB_USE_VDATA
#endif
#include "model.h"
#ifndef LENS
#define LENS 3, 20
#endif
#ifndef FLM
#define FLM 0
#endif
#ifndef REM            /* restart (after flush) may happen after put i */
#define REM 0
#endif
#ifndef NULLS          /* records without variable data allowed: bit1 PutVar(NULL), bit2 plain Put */
#define NULLS 1
#endif
#ifndef CHMAX          /* read in chunks of 1..CHMAX bytes (0: one read) */
#define CHMAX 0
#endif
#ifndef KSYM
#define KSYM 2   /* 1: arbitrary ascending keys, 2: arbitrary first key, fixed gaps */
#endif
#ifndef MODE           /* 0: lookup of any record, 1: iteration, 2: two lookups with interleaved reads */
#define MODE 0
#endif
#ifndef GETM           /* a lookup may happen after put i */
#define GETM 0
#endif
#ifndef ERK
#define ERK 1
#endif
#define VMAX 64
static const int lens[] = {LENS};
#define NL ((int)(sizeof lens / sizeof lens[0]))
static int mlen[MAXREC];
static uint8_t mvd[MAXREC][VMAX];
static int mvp[MAXREC];
static int vpages;      /* variable pages written so far: observed at the storage interface */
static int8_t rf_write_v(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
    int8_t r = rf_write(buffer, pageNum, pageSize, file);
    if (r && file == &fVar) vpages++;
    return r;
}
static void v_put(embedDBState *s, int i) {
    uint64_t k;
    if (KSYM == 3) k = 10 * (uint64_t)mn + 7;
    else if (KSYM == 1 || mn == 0) k = fresh_key(); else k = mk[mn - 1] + 10;
    if (KSYM == 2 && mn == 0) vp_assume(k < 0x70000000);
    dval_t d = (dval_t)vp_sym("d", DS);
    int nk = NL + ((NULLS & 1) ? 1 : 0) + ((NULLS & 2) ? 1 : 0);
    int op = vp_choice(nk);
    if (mn - mdone >= s->maxRecordsPerPage) m_page();
    mk[mn] = k; md[mn] = d; mvp[mn] = vpages;
    if (op < NL) {
        mlen[mn] = lens[op];
        if (lens[op]) vp_sym_bytes(mvd[mn], lens[op], "v");
        uint8_t tmp[VMAX];
        memcpy(tmp, mvd[mn], VMAX);
        vp_assert(embedDBPutVar(s, &k, &d, tmp, (uint32_t)lens[op]) == 0, "put with variable data fails");
    } else if (op == NL && (NULLS & 1)) {
        mlen[mn] = -1;
        vp_reach("null");
        vp_assert(embedDBPutVar(s, &k, &d, NULL, 0) == 0, "put without variable data fails");
    } else {
        mlen[mn] = -1;
        vp_reach("plain");
        vp_assert(embedDBPut(s, &k, &d) == 0, "plain put fails");
    }
    mn++;
}
/* Recycling frees one erase block at a time.  After a restart of a wrapped file recovery only vouches
 * for records newer than the newest one on the oldest remaining page. */
static int vlost;
static int must_have(int i) { return mvp[i] >= vpages - ((int)NV - ES) && mvp[i] >= vlost; }
/* check the stream of record i; returns whether the data was available */
static void read_stream(embedDBState *s, int i, embedDBVarDataStream *st) {
    uint8_t out[VMAX + 8];
    int ch = CHMAX ? 1 + vp_choice(CHMAX) : VMAX;
    int got = 0;
    memset(out, 0xA5, sizeof out);
    vp_assert((int)st->totalBytes == mlen[i], "wrong length of variable data");
    while (1) {
        int want = ch;
        if (want > VMAX - got) want = VMAX - got;
        uint32_t r = embedDBVarDataStreamRead(s, st, out + got, (uint32_t)want);
        vp_assert((int)r == (want < mlen[i] - got ? want : mlen[i] - got), "stream read returns a wrong number of bytes");
        got += (int)r;
        if (r == 0) break;
    }
    vp_assert(got == mlen[i], "stream ends early");
    for (int j = 0; j < mlen[i]; j++) vp_assert(out[j] == mvd[i][j], "variable data read differs from what was stored");
    for (int j = mlen[i]; j < VMAX + 8; j++) vp_assert(out[j] == 0xA5, "bytes beyond the requested length written");
    vp_reach("data");
}
static void v_get(embedDBState *s, int i) {
    uint64_t k = mk[i];
    dval_t d = 0;
    embedDBVarDataStream *st = (embedDBVarDataStream *)1;
    int8_t r = embedDBGetVar(s, &k, &d, &st);
    vp_observe("getvar", (uint64_t)(uint8_t)r);
    vp_assert(r == 0 || r == 1, "stored record not found");
    vp_assert(d == md[i], "wrong fixed data");
    if (mlen[i] < 0) {
        vp_assert(r == 0 && st == NULL, "variable data reported for a record without any");
    } else if (r == 1) {
        vp_reach("overwritten");
        vp_assert(!must_have(i), "variable data given up although its pages are still allocated");
        vp_assert(st == NULL, "stream returned for overwritten data");
    } else {
        vp_assert(st != NULL, "no stream for a record with variable data");
        read_stream(s, i, st);
        free(st);
    }
}
static void v_iter(embedDBState *s) {
    embedDBIterator it;
    memset(&it, 0, sizeof it);
    uint64_t k = 0;
    dval_t d = 0;
    embedDBVarDataStream *st = NULL;
    embedDBInitIterator(s, &it);
    int p = -1, seen = 0;
    while (embedDBNextVar(s, &it, &k, &d, &st)) {
        vp_assert(seen <= mn, "iteration returns too many records");
        if (p < 0) { p = m_find(k); vp_assert(p >= 0, "unknown key"); }
        else { p++; vp_assert(p < mn && mk[p] == k, "iteration with variable data skips or repeats records"); }
        vp_assert(md[p] == d, "wrong fixed data from iteration");
        if (mlen[p] < 0) vp_assert(st == NULL, "variable data reported for a record without any");
        else if (st == NULL) vp_assert(!must_have(p), "variable data missing from iteration");
        else { read_stream(s, p, st); free(st); }
        seen++;
        k = 0;
        st = NULL;
    }
    vp_assert(seen == mn - mlo, "iteration with variable data misses records");
    vp_reach("iter");
    embedDBCloseIterator(&it);
}
static embedDBState *v_reopen(embedDBState *s) {
    m_flush(s);
    if (vpages > (int)NV - ES && vpages - ((int)NV - ES) + 1 > vlost) vlost = vpages - ((int)NV - ES) + 1;
    if (vpages < (int)NV) vlost = 0;
    s = m_reopen(s, PARAMS);
    vp_reach("restart");
    return s;
}
void vp_main(void) {
    db_files();
    rfc.eraseKind = ERK;
    rf_if.write = rf_write_v;
    embedDBState *s = m_init(PARAMS, PERR);
    for (int i = 0; i < N; i++) {
        v_put(s, i);
        if ((FLM >> i) & 1) if (vp_choice(2)) { m_flush(s); vp_reach("flush"); }
        if ((REM >> i) & 1) if (vp_choice(2)) s = v_reopen(s);
        if ((GETM >> i) & 1) v_get(s, vp_choice(mn));
    }
#if MODE == 0
    v_get(s, vp_choice(mn));
#elif MODE == 1
    v_iter(s);
    v_get(s, vp_choice(mn));
#elif MODE == 2
    {   /* two streams read alternately */
        int a = vp_choice(mn), b = vp_choice(mn);
        embedDBVarDataStream *sa = NULL, *sb = NULL;
        dval_t d;
        uint64_t ka = mk[a], kb = mk[b];
        if (mlen[a] >= 0 && mlen[b] >= 0) {
            vp_assert(embedDBGetVar(s, &ka, &d, &sa) == 0 && embedDBGetVar(s, &kb, &d, &sb) == 0, "stored data not available");
            uint8_t oa[VMAX], ob[VMAX];
            int ga = 0, gb = 0, c = 1 + vp_choice(CHMAX);
            while (ga < mlen[a] || gb < mlen[b]) {
                uint32_t r = embedDBVarDataStreamRead(s, sa, oa + ga, (uint32_t)c);
                vp_assert((int)r == (mlen[a] - ga < c ? mlen[a] - ga : c), "stream read returns a wrong number of bytes");
                ga += (int)r;
                r = embedDBVarDataStreamRead(s, sb, ob + gb, (uint32_t)c);
                vp_assert((int)r == (mlen[b] - gb < c ? mlen[b] - gb : c), "stream read returns a wrong number of bytes");
                gb += (int)r;
                uint64_t kx = mk[0];
                vp_assert(embedDBGet(s, &kx, &d) == 0 && d == md[0], "lookup between stream reads");
            }
            for (int j = 0; j < mlen[a]; j++) vp_assert(oa[j] == mvd[a][j], "streams influence each other");
            for (int j = 0; j < mlen[b]; j++) vp_assert(ob[j] == mvd[b][j], "streams influence each other");
            vp_reach("two");
            free(sa);
            free(sb);
        }
    }
#endif
    vp_assert(rfc.rewrote == 0, "a page is rewritten without being erased first");
    m_end(s);
}
