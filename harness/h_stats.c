/* Statistics equal the storage accesses seen at the interface, and lookups and indexed queries stay within
 * their access bounds: a spline lookup reads at most the pages of its error window, a binary search a
 * logarithmic number, an indexed query only data pages whose bitmap overlaps the query. */
#include "model.h"
#ifndef FLM
#define FLM 0
#endif
#ifndef FIL
#define FIL 4
#endif
#ifndef NG
#define NG 1
#endif
#ifndef RE
#define RE 0
#endif
#define IDX (PARAMS & EMBEDDB_USE_INDEX)
#define VAR (PARAMS & EMBEDDB_USE_VDATA)
#define BIN (PARAMS & EMBEDDB_USE_BINARY_SEARCH)
static int rd[3], wr[3];
static int8_t s_read(void *b, uint32_t p, uint32_t z, void *f) { int8_t r = rf_read(b, p, z, f); if (r) rd[((RF *)f)->id]++; return r; }
static int8_t s_write(void *b, uint32_t p, uint32_t z, void *f) { int8_t r = rf_write(b, p, z, f); if (r) wr[((RF *)f)->id]++; return r; }
static int br[3], bw[3], bh;
static void reset(embedDBState *s) { embedDBResetStats(s); for (int i = 0; i < 3; i++) { br[i] = rd[i]; bw[i] = wr[i]; } }
static void check(embedDBState *s) {
    vp_assert((int)s->numReads == rd[0] - br[0] + rd[2] - br[2], "numReads differs from the page reads");
    vp_assert((int)s->numIdxReads == rd[1] - br[1], "numIdxReads differs from the index page reads");
    vp_assert((int)s->numWrites == wr[0] - bw[0] + wr[2] - bw[2], "numWrites differs from the page writes");
    vp_assert((int)s->numIdxWrites == wr[1] - bw[1], "numIdxWrites differs from the index page writes");
}
static uint8_t qbits(dval_t *lo, dval_t *hi) { uint8_t b[BMS]; h_buildBitmap(lo, hi, b); return h_getBits(b); }
static int pageEnd(int L) { return L + 1 < mpages ? mstart[L + 1] : mdone; }
void vp_main(void) {
    db_files();
    rfc.eraseKind = 1;
    rf_if.read = s_read;
    rf_if.write = s_write;
    embedDBState *s = m_init(PARAMS, PERR);
    reset(s);
    static uint8_t v[24];
    for (int i = 0; i < N; i++) {
#if PARAMS & EMBEDDB_USE_VDATA
        uint64_t k = fresh_key();
        dval_t d = (dval_t)vp_sym("d", DS);
        if (mn - mdone >= s->maxRecordsPerPage) m_page();
        mk[mn] = k;
        md[mn] = d;
        mn++;
        vp_assert(embedDBPutVar(s, &k, &d, v, 20) == 0, "put of an ascending key fails");
#else
        m_put(s);
#endif
        check(s);
        if ((FLM >> i) & 1) if (vp_choice(2)) { m_flush(s); check(s); }
    }
    if (RE) {
        m_flush(s);
        s = m_reopen(s, PARAMS);
        vp_assert(s->numReads == 0 && s->numWrites == 0 && s->numIdxReads == 0 && s->numIdxWrites == 0 && s->bufferHits == 0, "statistics not reset by init");
    }
    reset(s);
    vp_assert(s->numReads == 0 && s->numWrites == 0 && s->numIdxReads == 0 && s->numIdxWrites == 0 && s->bufferHits == 0, "statistics not reset");
    if (IDX) {
        dval_t lo = 0, hi = 0;
        embedDBIterator it;
        memset(&it, 0, sizeof it);
        if (FIL & 4) { lo = (dval_t)vp_sym("lo", DS); it.minData = &lo; }
        if (FIL & 8) { hi = (dval_t)vp_sym("hi", DS); it.maxData = &hi; }
        embedDBInitIterator(s, &it);
        uint64_t k = 0;
        dval_t d = 0;
        uint8_t q = qbits(it.minData, it.maxData);
        while (embedDBNext(s, &it, &k, &d)) vp_reach("row");
        embedDBCloseIterator(&it);
        check(s);
        int need = 0, ib = EMBEDDB_GET_COUNT((int8_t *)s->buffer + EMBEDDB_INDEX_WRITE_BUFFER * PGS);
        for (int L = 0; L < mpages; L++) {
            uint8_t b = 0;
            if (L >= mpages - ib) b = 7;        /* bitmaps not yet in the index file */
            else for (int i = mstart[L]; i < pageEnd(L); i++) b |= h_bucket(&md[i]);
            need += (b & q) != 0;
        }
        vp_assert(rd[0] - br[0] <= need, "indexed query reads data pages that cannot match");
        vp_assert(rd[1] - br[1] <= mpages, "indexed query reads an index page more than once per data page");
        if (vp_is_true(need < mpages)) vp_reach("skip");
    } else for (int g = 0; g < NG; g++) {
        int r0 = rd[0];
        uint64_t k = vp_sym("q", KS);
        dval_t d = 0;
        int8_t r = embedDBGet(s, &k, &d);
        int got = rd[0] - r0;
        check(s);
        int live = mpages - (int)s->minDataPageId, lg = 1;
        for (int p = live; p > 1; p /= 2) lg++;
        vp_assert(got <= live, "lookup reads a page more than once");
        if (BIN) vp_assert(got <= lg, "binary search reads more than a logarithmic number of pages");
        else vp_assert(got <= 2 * PERR + 1, "lookup reads pages outside the error window");
        if (got > 1) vp_reach("several");
        /* the page is buffered now */
        r0 = rd[0];
        int h0 = (int)s->bufferHits;
        if (!BIN && r == 0 && mpages <= ND) {
            vp_assert(embedDBGet(s, &k, &d) == 0 && rd[0] == r0, "repeated lookup reads storage again");
            vp_reach("again");
        }
        (void)h0;
    }
    m_end(s);
}
