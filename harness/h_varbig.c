/* Variable data items longer than 32767 and 65535 bytes (bytes at the ends, around the 16-bit limits and at page borders are
 * arbitrary, the rest a fixed pattern), between two small items; written, optionally flushed or reopened, read in large chunks. */
#include "dbh.h"
#ifndef LEN
#define LEN 70000
#endif
#ifndef CH             /* chunk sizes of the read */
#define CH LEN, 65535, 32768
#endif
static uint8_t v[LEN], o[LEN + 8];
static const int ch[] = {CH};
static void put(embedDBState *s, uint64_t k, uint8_t *p, uint32_t len) {
    dval_t d = (dval_t)k;
    vp_assert(embedDBPutVar(s, &k, &d, p, len) == 0, "put fails");
}
static void get(embedDBState *s, uint64_t k, const uint8_t *p, uint32_t len, uint32_t chunk) {
    dval_t d = 0;
    embedDBVarDataStream *st = NULL;
    vp_assert(embedDBGetVar(s, &k, &d, &st) == 0 && d == (dval_t)k && st, "stored record not found");
    vp_assert(st->totalBytes == len, "wrong length of variable data");
    uint32_t n = 0;
    while (n < len) {
        uint32_t want = len - n < chunk ? len - n : chunk;
        uint32_t r = embedDBVarDataStreamRead(s, st, o + n, chunk);
        vp_assert(r == want, "read returns fewer bytes than asked for");
        n += r;
    }
    vp_assert(embedDBVarDataStreamRead(s, st, o + LEN, 1) == 0, "read after the end");
    int same = 1;
    for (uint32_t i = 0; i < len; i++) same &= o[i] == p[i];
    vp_assert(same, "variable data corrupted");
    free(st);
}
void vp_main(void) {
    db_files();
    embedDBState *s = db_make(PARAMS | EMBEDDB_RESET_DATA, 1);
    vp_assert(embedDBInit(s, PERR) == 0, "init fails");
    for (uint32_t i = 0; i < LEN; i++) v[i] = (uint8_t)(i * 7 + i / 251);
    static const uint32_t at[] = {1, PGS - KS - 9, PGS - KS - 8, 32767, 32768, 65535, 65536, LEN - 1};
    for (unsigned i = 0; i < sizeof at / sizeof at[0]; i++) if (at[i] < LEN) v[at[i]] = (uint8_t)vp_sym("v", 1);
    uint8_t a[4] = {1, 2, 3, 4}, b[4] = {5, 6, 7, 8};
    put(s, 10, a, 4);
    put(s, 20, v, LEN);
    put(s, 30, b, 4);
    int w = vp_choice(3);
    if (w) vp_assert(embedDBFlush(s) == 0, "flush fails");
    if (w == 2) {
        embedDBClose(s);
        db_free(s);
        s = db_make(PARAMS, 1);
        vp_assert(embedDBInit(s, PERR) == 0, "reopening fails");
        vp_reach("restart");
    }
    get(s, 20, v, LEN, ch[vp_choice(sizeof ch / sizeof ch[0])]);
    get(s, 10, a, 4, 4);
    get(s, 30, b, 4, 4);
    vp_reach("data");
    embedDBClose(s);
    db_free(s);
    vp_assert(vp_live_allocs() == 0, "memory leaked after close");
    vp_done();
}
