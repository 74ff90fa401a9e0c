/* Common database harness pieces: RAM-backed file interface with page-granular
 * semantics, fault and crash injection, and state construction. */
#ifndef DBH_H
#define DBH_H
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#ifdef DIST
#include "embedDB.h"
#else
#include "embedDB/embedDB.h"
#endif
#if !defined(NO_BITMAP)
#define DBH_BITMAP 1
#endif
#ifndef KS
#define KS 4
#endif
#ifndef DS
#define DS 4
#endif
#ifndef PGS
#define PGS 32
#endif
#ifndef ND
#define ND 8
#endif
#ifndef ES
#define ES 2
#endif
#ifndef NI
#define NI 4
#endif
#ifndef NV
#define NV 8
#endif
#ifndef BMS
#define BMS 1
#endif
#ifndef SPLP
#define SPLP 8
#endif
#ifndef PERR
#define PERR 1
#endif
#ifndef PARAMS
#define PARAMS 0
#endif
#ifndef NBUF
#define NBUF (2 + ((PARAMS & EMBEDDB_USE_INDEX) ? 2 : 0) + ((PARAMS & EMBEDDB_USE_VDATA) ? 2 : 0))
#endif
/* ------------------------------------------------------------ RAM files */
#define RF_MAXPAGES 32
typedef struct {
    int id;              /* 0 data, 1 index, 2 var */
    uint32_t maxPages;   /* pages allocated to this file */
    uint32_t hiPage;     /* file length in pages (reads past it fail) */
    int exists;
    int isOpen;
    uint8_t written[RF_MAXPAGES];   /* page programmed since last erase */
    uint8_t data[RF_MAXPAGES * PGS];
} RF;
static struct {
    int crashed;          /* after a crash point no operation has effect */
    int crashOn;          /* crash points enabled */
    int nops;             /* write / erase operations executed */
    int crashBudget;
    int dirty;            /* files (bit 1<<id) written since they were last flushed */
    int failOn;           /* failure injection on: bit0 write, bit1 read, bit2 erase, bit3 flush */
    int failBudget;
    int failed;           /* number of injected failures */
    int oob;              /* page outside the allocated file touched */
    int rewrote;          /* page written twice without erase in between */
    int erases, writes, reads;
    int eraseKind;        /* 0: erase leaves bytes (desktop), 1: 0xFF, 2: 0x01 bytes (mock) */
    int tear;
} rfc;
static int rf_point(void) {
    if (rfc.crashed) return 1;
    rfc.nops++;
    if (rfc.crashOn && rfc.crashBudget > 0) {
        if (vp_choice(2)) {
            rfc.crashed = 1;
            rfc.crashBudget--;
            return 1;
        }
    }
    return 0;
}
static int rf_fail(int bit) {
    if ((rfc.failOn & bit) && rfc.failBudget > 0) {
        if (vp_choice(2)) {
            rfc.failBudget--;
            rfc.failed++;
            return 1;
        }
    }
    return 0;
}
static int8_t rf_read(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
    RF *f = (RF *)file;
    if (rfc.crashed) return 0;
    vp_assert(f->isOpen, "read of a file that is not open");
    vp_assert(pageSize == PGS, "read with wrong page size");
    rfc.reads++;
    if (pageNum >= f->hiPage) return 0;
    if (rf_fail(2)) { memset(buffer, 0x55, PGS); return 0; }
    memcpy(buffer, f->data + pageNum * PGS, PGS);
    return 1;
}
static int8_t rf_write(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
    RF *f = (RF *)file;
    if (rf_point()) return 0;
    vp_assert(f->isOpen, "write to a file that is not open");
    vp_assert(pageSize == PGS, "write with wrong page size");
    vp_assert(pageNum < f->maxPages, "page write outside the pages allocated to the file");
    rfc.writes++;
    if (rf_fail(1)) return 0;
    if (f->written[pageNum]) rfc.rewrote++;
    f->written[pageNum] = 1;
    rfc.dirty |= 1 << f->id;
    memcpy(f->data + pageNum * PGS, buffer, PGS);
    if (pageNum + 1 > f->hiPage) f->hiPage = pageNum + 1;
    return 1;
}
static int8_t rf_erase(uint32_t s, uint32_t e, uint32_t pageSize, void *file) {
    RF *f = (RF *)file;
    if (rf_point()) return 0;
    vp_assert(f->isOpen, "erase of a file that is not open");
    vp_assert(s < e && e <= f->maxPages, "erase outside the pages allocated to the file");
    vp_assert(s % ES == 0 && e % ES == 0, "erase not aligned to erase blocks");
    rfc.erases++;
    if (rf_fail(4)) return 0;
    for (uint32_t p = s; p < e; p++) {
        f->written[p] = 0;
        if (rfc.eraseKind == 1) memset(f->data + p * PGS, 0xFF, PGS);
        if (rfc.eraseKind == 2) memset(f->data + p * PGS, 1, PGS);
    }
    return 1;
}
static int8_t rf_close(void *file) {
    RF *f = (RF *)file;
    if (rfc.crashed) return 1;
    vp_assert(f->isOpen, "close of a file that is not open");
    f->isOpen = 0;
    rfc.dirty &= ~(1 << f->id);
    return 1;
}
static int8_t rf_open(void *file, uint8_t mode) {
    RF *f = (RF *)file;
    if (rfc.crashed) return 0;
    vp_assert(!f->isOpen, "file opened twice");
    if (mode == EMBEDDB_FILE_MODE_W_PLUS_B) {
        f->exists = 1;
        f->hiPage = 0;
        memset(f->written, 0, sizeof f->written);
    } else if (!f->exists) return 0;
    f->isOpen = 1;
    return 1;
}
static int8_t rf_flush(void *file) {
    if (rfc.crashed) return 0;
    vp_assert(((RF *)file)->isOpen, "flush of a file that is not open");
    if (rf_fail(8)) return 0;
    rfc.dirty &= ~(1 << ((RF *)file)->id);
    return 1;
}
static embedDBFileInterface rf_if = {rf_read, rf_write, rf_erase, rf_close, rf_open, rf_flush};

/* ------------------------------------------------------------ comparators */
static uint64_t key_val(const void *p) { uint64_t v = 0; memcpy(&v, p, KS); return v; }
static int8_t cmp_key_u(void *a, void *b) {
    uint64_t x = key_val(a), y = key_val(b);
    return (int8_t)((x > y) - (x < y));
}
#if DS == 4
typedef int32_t dval_t;
#elif DS == 8
typedef int64_t dval_t;
#elif DS == 2
typedef int16_t dval_t;
#else
typedef int8_t dval_t;
#endif
static dval_t data_val(const void *p) { dval_t v = 0; memcpy(&v, p, sizeof(v) < DS ? sizeof(v) : DS); return v; }
static int8_t cmp_data_s(void *a, void *b) {
    dval_t x = data_val(a), y = data_val(b);
    return (int8_t)((x > y) - (x < y));
}
#ifdef DBH_BITMAP
/* three buckets: below 10, 10..19, 20 and above */
static uint8_t h_bucket(void *data) { dval_t v = data_val(data); return (uint8_t)(1 + (v >= 10) + 2 * (v >= 20)); }
/* one bit per bucket, spread over the bytes of the bitmap: first, middle, last */
#define H_B1 (BMS / 2)
#define H_B2 (BMS - 1)
static void h_setBits(void *bm, uint8_t r) {
    uint8_t *b = (uint8_t *)bm;
    b[0] |= r & 1; b[H_B1] |= r & 2; b[H_B2] |= r & 4;
}
/* the buckets of a bitmap; 0xFF when a bit that stands for no bucket is set */
static uint8_t h_getBits(const void *bm) {
    const uint8_t *b = (const uint8_t *)bm;
    uint8_t r = (uint8_t)((b[0] & 1) | (b[H_B1] & 2) | (b[H_B2] & 4));
    uint8_t t[BMS];
    memset(t, 0, BMS);
    h_setBits(t, r);
    uint8_t x = 0;
    for (int i = 0; i < BMS; i++) x |= t[i] ^ b[i];
    return (uint8_t)(r | (uint8_t)-(x != 0));
}
static void h_updateBitmap(void *data, void *bm) { h_setBits(bm, h_bucket(data)); }
static int8_t h_inBitmap(void *data, void *bm) {
    const uint8_t *b = (const uint8_t *)bm;
    uint8_t k = h_bucket(data);
    return (int8_t)(((k & 1 & b[0]) | (k & 2 & b[H_B1]) | (k & 4 & b[H_B2])) != 0);
}
static void h_buildBitmap(void *mn, void *mx, void *bm) {
    uint8_t r = 7;
    if (mn != NULL) { uint8_t b = h_bucket(mn); r &= (uint8_t)~(b - 1); }
    if (mx != NULL) { uint8_t b = h_bucket(mx); r &= (uint8_t)(b | (b - 1)); }
    memset(bm, 0, BMS);
    h_setBits(bm, r);
}
#endif
/* ------------------------------------------------------------ state */
static RF fData, fIdx, fVar;
static void db_files(void) {
    fData.id = 0; fData.maxPages = ND;
    fIdx.id = 1; fIdx.maxPages = NI;
    fVar.id = 2; fVar.maxPages = NV;
}
static embedDBState *db_make(int params, int fillBuf) {
    embedDBState *s = (embedDBState *)calloc(1, sizeof(embedDBState));
    s->keySize = KS;
    s->dataSize = DS;
    s->pageSize = PGS;
    s->bufferSizeInBlocks = NBUF;
    s->numSplinePoints = SPLP;
    s->buffer = fillBuf ? malloc((size_t)PGS * NBUF) : calloc(NBUF, PGS);
    s->numDataPages = ND;
    s->numIndexPages = NI;
    s->numVarPages = NV;
    s->eraseSizeInPages = ES;
    s->bitmapSize = (params & EMBEDDB_USE_BMAP) ? BMS : 0;
    if (!(params & EMBEDDB_USE_INDEX)) s->numIndexPages = 0;
    if (!(params & EMBEDDB_USE_VDATA)) s->numVarPages = 0;
    s->parameters = params;
    s->fileInterface = &rf_if;
    s->dataFile = &fData;
    s->indexFile = (params & EMBEDDB_USE_INDEX) ? &fIdx : NULL;
    s->varFile = (params & EMBEDDB_USE_VDATA) ? &fVar : NULL;
    s->compareKey = cmp_key_u;
    s->compareData = cmp_data_s;
#ifdef DBH_BITMAP
    if (params & EMBEDDB_USE_BMAP) {  /* not configured without bitmaps */
        s->updateBitmap = h_updateBitmap;
        s->inBitmap = h_inBitmap;
        s->buildBitmapFromRange = h_buildBitmap;
    }
#endif
    return s;
}
static void db_free(embedDBState *s) {
    free(s->buffer);
    free(s);
}
#endif
