/* Configuration validation: embedDBInit succeeds exactly for the configurations the documentation allows,
 * whatever the values; a refused configuration leaves nothing open or allocated, an accepted one has a
 * consistent page layout. */
#include "dbh.h"
#ifndef PGS_           /* page sizes tried */
#define PGS_ 7, 13, 40
#endif
#define PGMAX 100
static const int pgs[] = {PGS_};
#ifndef LAYOUT         /* 1: enumerate key, data and bitmap sizes and check the page layout */
#define LAYOUT 0
#endif
#ifndef OPENFAIL
#define OPENFAIL 0
#endif
static int nofail;
static int8_t open_maybe(void *file, uint8_t mode) {
    if (OPENFAIL && nofail > 0 && vp_choice(2)) { nofail--; return 0; }
    return rf_open(file, mode);
}
void vp_main(void) {
    db_files();
    embedDBState *s = db_make(0, 1);
    free(s->buffer);
    int params = PARAMS;
    int ix = (params & EMBEDDB_USE_INDEX) != 0, bm = (params & EMBEDDB_USE_BMAP) != 0, var = (params & EMBEDDB_USE_VDATA) != 0,
        rlc = (params & EMBEDDB_RECORD_LEVEL_CONSISTENCY) != 0, mm = (params & EMBEDDB_USE_MAX_MIN) != 0, bin = (params & EMBEDDB_USE_BINARY_SEARCH) != 0;
    int64_t nb = (int8_t)vp_sym("buffers", 1), pg = pgs[vp_choice(sizeof pgs / sizeof pgs[0])];
#if LAYOUT
    int64_t ks = 1 + vp_choice(8), ds = vp_choice(10) * 3, bms = 1 + vp_choice(bm + ix ? 9 : 1);
#else
    int64_t ks = (int8_t)vp_sym("keySize", 1), ds = (int8_t)vp_sym("dataSize", 1), bms = (int8_t)vp_sym("bitmapSize", 1);
#endif
    int64_t nd = (int64_t)vp_sym("dataPages", 4), ni = (int64_t)vp_sym("indexPages", 4), nv = (int64_t)vp_sym("varPages", 4);
    #if LAYOUT
    int64_t es = 2, sp = 4;
    int hd = 1, hi = 1, hv = 1;
#else
    int64_t es = vp_choice(4), sp = 2 + vp_choice(4);
    int hd = vp_choice(2), hi = ix ? vp_choice(2) : 1, hv = var ? vp_choice(2) : 1;
#endif
    vp_assume(nd < 0x40000000 && ni < 0x40000000 && nv < 0x40000000);
    s->keySize = (int8_t)ks; s->dataSize = (int8_t)ds; s->bufferSizeInBlocks = (int8_t)nb; s->bitmapSize = (int8_t)bms;
    s->pageSize = (count_t)pg; s->numDataPages = (uint32_t)nd; s->numIndexPages = (uint32_t)ni; s->numVarPages = (uint32_t)nv;
    s->eraseSizeInPages = (count_t)es; s->numSplinePoints = (uint32_t)sp;
    s->parameters = (int16_t)(params | EMBEDDB_RESET_DATA);
    s->dataFile = hd ? &fData : NULL; s->indexFile = hi ? &fIdx : NULL; s->varFile = hv ? &fVar : NULL;
    fData.maxPages = fIdx.maxPages = fVar.maxPages = 0xffffffff;
    /* the buffer is sized for the number of buffers a valid configuration needs */
    s->buffer = malloc(PGMAX * NBUF);
    s->dataFile = hd ? &fData : NULL;
    rf_if.open = open_maybe;
    nofail = OPENFAIL;
    int64_t rec = ks + ds + (var ? 4 : 0);
    int64_t hdr = 6 + ((ix || bm) ? bms : 0) + (mm ? 2 * ks + 2 * ds : 0);
    int ok = (ks >= 1) & (ks <= 8) & (ds >= 0) & (nb >= 2 + 2 * ix + 2 * var);
    ok &= (pg >= hdr + rec) & (!(ix | bm) | (bms >= 1)) & (bin | (sp >= 4)) & (hd != 0);
    if (es == 0) ok = 0;
    else {
        ok &= (nd % es == 0) & (nd >= ((rlc || ix) ? 4 : 2) * es);
        if (ix) ok &= (ni % es == 0) & (ni >= 2 * es) & (hi != 0) & (pg >= 16 + bms);
        if (var) ok &= (nv % es == 0) & (nv >= 2 * es) & (hv != 0) & (pg >= ks + 8);
    }
    int8_t r = embedDBInit(s, 1);
    if (nofail < OPENFAIL) {
        vp_reach("openfail");
        vp_assert(r != 0, "init succeeds although a file cannot be opened");
    } else vp_assert((r == 0) == (ok != 0), "configuration wrongly accepted or refused");
    if (r == 0) {
        vp_reach("accepted");
#if LAYOUT
        vp_assert(s->recordSize == rec && s->headerSize == hdr, "wrong record or header size");
        vp_assert(s->maxRecordsPerPage >= 1, "no record fits on a page");
        vp_assert(hdr + (int64_t)s->maxRecordsPerPage * rec <= pg && hdr + ((int64_t)s->maxRecordsPerPage + 1) * rec > pg, "wrong number of records per page");
        if (ix) vp_assert(s->maxIdxRecordsPerPage >= 1 && 16 + (int64_t)s->maxIdxRecordsPerPage * bms <= pg, "wrong number of index records per page");
#endif
        vp_assert(s->numReads == 0 && s->numWrites == 0 && s->bufferHits == 0 && s->numIdxReads == 0 && s->numIdxWrites == 0, "statistics not reset");
        vp_assert(fData.isOpen && fIdx.isOpen == ix && fVar.isOpen == var, "wrong files opened");
        embedDBClose(s);
    } else vp_reach("refused");
    vp_assert(!fData.isOpen && !fIdx.isOpen && !fVar.isOpen, "a file stays open");
    db_free(s);
    vp_assert(vp_live_allocs() == 0, "memory leaked");
    vp_done();
}
