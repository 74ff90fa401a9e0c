/* Every written page is decoded from the raw file bytes by an independent reader and compared with the model:
 * page ids, record counts, records, min/max summary, bitmaps, index pages, variable-data pointers and pages. */
#include "model.h"
#ifndef FLM
#define FLM 0
#endif
#ifndef REM
#define REM 0
#endif
#ifndef LENS
#define LENS 0
#endif
#define VAR (PARAMS & EMBEDDB_USE_VDATA)
#define IDX (PARAMS & EMBEDDB_USE_INDEX)
#define BM (PARAMS & EMBEDDB_USE_BMAP)
#define MM (PARAMS & EMBEDDB_USE_MAX_MIN)
#define HDR (6 + ((IDX || BM) ? BMS : 0) + (MM ? 2 * KS + 2 * DS : 0))
#define REC (KS + DS + (VAR ? 4 : 0))
#define VMAX 50
static const int lens[] = {LENS};
static uint8_t mv[MAXREC][VMAX];
static int ml[MAXREC];           /* -1: no variable data */
static uint64_t le(const uint8_t *p, int n) { uint64_t v = 0; memcpy(&v, p, n); return v; }
static dval_t ld(const uint8_t *p) { return data_val(p); }
static int pageEnd(int L) { return L + 1 < mpages ? mstart[L + 1] : mdone; }
static uint8_t pageBits(int L) {
    uint8_t b = 0;
    for (int i = mstart[L]; i < pageEnd(L); i++) b |= h_bucket(&md[i]);
    return b;
}
static int touched[RF_MAXPAGES]; /* variable-data pages: last record with bytes on it + 1 */
static void chk_var(int i, uint32_t ptr) {
    if (ml[i] < 0) { vp_assert(ptr == 0xffffffffu, "record without variable data has a pointer"); return; }
    vp_assert(ptr < (uint32_t)(NV * PGS), "variable data pointer outside the file");
    uint32_t a = (uint32_t)vp_concretize(ptr);
    vp_assert(a % PGS >= KS + 4 && a % PGS <= PGS - 4, "variable data pointer into a page header");
    uint8_t *f = fVar.data;
    vp_assert(fVar.written[a / PGS], "variable data pointer to a page that is not written");
    vp_assert(le(f + a, 4) == (uint64_t)ml[i], "wrong variable data length");
    if (touched[a / PGS] < i + 1) touched[a / PGS] = i + 1;
    a += 4;
    int same = 1;
    for (int j = 0; j < ml[i]; j++) {
        if (a % PGS == 0) a = (a + KS + 4) % (NV * PGS);
        vp_assert(fVar.written[a / PGS], "variable data continues on a page that is not written");
        if (touched[a / PGS] < i + 1) touched[a / PGS] = i + 1;
        same &= f[a] == mv[i][j];
        a++;
    }
    vp_assert(same, "wrong variable data bytes");
    if (ml[i]) vp_reach("vardata");
}
static void chk_data(int L) {
    uint8_t *p = fData.data + (L % ND) * PGS;
    int n = pageEnd(L) - mstart[L];
    vp_assert(le(p, 4) == (uint64_t)L, "wrong page id in a data page");
    vp_assert(le(p + 4, 2) == (uint64_t)n, "wrong record count in a data page");
    vp_assert(HDR + n * REC <= PGS, "records do not fit on the page");
    dval_t mind = 0, maxd = 0;
    for (int i = 0; i < n; i++) {
        uint8_t *r = p + HDR + i * REC;
        int m = mstart[L] + i;
        vp_assert(le(r, KS) == mk[m], "wrong key in a data page");
        vp_assert(ld(r + KS) == md[m], "wrong data in a data page");
        if (VAR) chk_var(m, (uint32_t)le(r + KS + DS, 4));
        mind = i == 0 || md[m] < mind ? md[m] : mind;
        maxd = i == 0 || md[m] > maxd ? md[m] : maxd;
    }
    if (MM) {
        uint8_t *q = p + HDR - 2 * KS - 2 * DS;
        vp_assert(le(q, KS) == mk[mstart[L]] && le(q + KS, KS) == mk[mstart[L] + n - 1], "wrong key range in a data page");
        vp_assert(ld(q + 2 * KS) == mind && ld(q + 2 * KS + DS) == maxd, "wrong data range in a data page");
        vp_reach("minmax");
    }
    if (BM) {
        vp_assert(h_getBits(p + 6) == pageBits(L), "wrong bitmap in a data page");
        vp_reach("bitmap");
    }
    vp_reach("page");
}
void vp_main(void) {
    db_files();
    rfc.eraseKind = 1;
    embedDBState *s = m_init(PARAMS, PERR);
    vp_assert(s->maxRecordsPerPage == (PGS - HDR) / REC, "wrong number of records per page");
    for (int i = 0; i < N; i++) {
        uint64_t k = fresh_key();
        dval_t d = (dval_t)vp_sym("d", DS);
        if (mn - mdone >= s->maxRecordsPerPage) m_page();
        mk[mn] = k;
        md[mn] = d;
        ml[mn] = -1;
        if (VAR) {
            int c = vp_choice(1 + sizeof lens / sizeof lens[0]);
            if (c) {
                ml[mn] = lens[c - 1];
                vp_sym_bytes(mv[mn], ml[mn], "v");
            }
            vp_assert(embedDBPutVar(s, &k, &d, c ? mv[mn] : NULL, c ? ml[mn] : 0) == 0, "put of an ascending key fails");
        } else vp_assert(embedDBPut(s, &k, &d) == 0, "put of an ascending key fails");
        mn++;
        if ((FLM >> i) & 1) if (vp_choice(2)) { vp_reach("flush"); m_flush(s); }
        if ((REM >> i) & 1) if (vp_choice(2)) {
            vp_reach("restart");
            m_flush(s);
            s = m_reopen(s, PARAMS);
        }
    }
    int lo = mpages > ND ? mpages - ND : 0, first = -1;
    for (int L = lo; L < mpages; L++) {
        if (!fData.written[L % ND]) { vp_assert(first < 0 && L < mpages - (ND - ES), "a stored page was erased"); continue; }
        if (first < 0) first = L;
        chk_data(L);
    }
    if (VAR) {
        int id = -1, np = 0;
        for (int q = 0; q < NV; q++) if (fVar.written[q]) {
            uint8_t *p = fVar.data + q * PGS;
            np++;
            vp_assert(le(p, 4) % NV == (uint64_t)q, "wrong page id in a variable-data page");
            if (touched[q]) vp_assert(le(p + 4, KS) == mk[touched[q] - 1], "variable-data page does not record its newest key");
        }
        vp_observe("varpages", np);
        (void)id;
    }
    if (IDX) {
        int next = -1, cur = -1;
        uint64_t lowest = ~0ull;
        for (int q = 0; q < NI; q++) if (fIdx.written[q]) {
            uint64_t id = vp_concretize(le(fIdx.data + q * PGS, 4));
            vp_assert(id % NI == (uint64_t)q, "wrong page id in an index page");
            if (id < lowest) { lowest = id; cur = q; }
        }
        for (int c = 0; cur >= 0 && c < NI && fIdx.written[cur]; c++, cur = (cur + 1) % NI) {
            uint8_t *p = fIdx.data + cur * PGS;
            if (le(p, 4) != lowest + c) break;
            int n = (int)vp_concretize(le(p + 4, 2)), f = (int)vp_concretize(le(p + 8, 4));
            vp_assert(n >= 1 && 16 + n * BMS <= PGS, "wrong record count in an index page");
            if (next >= 0) vp_assert(f == next, "index pages do not cover consecutive data pages");
            vp_assert(f + n <= mpages, "index page covers pages that are not written");
            for (int i = 0; i < n; i++) {
                vp_assert(h_getBits(p + 16 + i * BMS) == pageBits(f + i), "wrong bitmap in an index page");
            }
            next = f + n;
            vp_reach("index");
        }
        int buffered = mpages - (next < 0 ? 0 : next);
        vp_assert(buffered <= (PGS - 16) / BMS, "data pages missing from the index file");
    }
    m_end(s);
}
