/* The shipped file interfaces over a model of the medium (stdio, SD wrapper or data flash calls): page
 * round trips at arbitrary page numbers, failures of every call, open modes, close and erase. */
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#ifndef IF
#define IF 0 /* 0 desktop, 1 desktop with mock erase, 2 SD card, 3 data flash */
#endif
#include <stdio.h>
#if IF < 2
#include "desktopFileInterface.h"
#elif IF == 2
#include "SDFileInterface.h"
#else
#include "dataflashFileInterface.h"
#endif
#ifndef PS
#define PS 512
#endif
#ifndef PMAX
#define PMAX 0xfffffffeu
#endif
#define MAXW 12
#define MAXL (PS * 4)
static struct {
    int open, opens, exists, appends;
    uint64_t len, pos;
    int n;
    struct { uint64_t off; uint32_t len; uint8_t *b; } w[MAXW];
} med;
static char dummy;
static int failBudget, failed;
static int mfail(void) {
    if (failBudget > 0 && vp_choice(2)) { failBudget--; failed++; return 1; }
    return 0;
}
static void med_clear(void) {
    for (int i = 0; i < med.n; i++) free(med.w[i].b);
    med.n = 0;
    med.len = 0;
}
static void med_write(uint64_t off, const void *p, uint32_t len) {
    vp_assert(med.n < MAXW, "harness: too many writes");
    uint8_t *b = malloc(len);
    memcpy(b, p, len);
    med.w[med.n].off = off;
    med.w[med.n].len = len;
    med.w[med.n++].b = b;
    if (off + len > med.len) med.len = off + len;
}
/* newest write that covers the range; ranges that partly overlap never happen for page accesses */
static void med_read(uint64_t off, void *p, uint32_t len) {
    memset(p, 0, len);
    for (int i = med.n - 1; i >= 0; i--) {
        uint64_t o = med.w[i].off, l = med.w[i].len;
        if (vp_is_true((off >= o) & (off + len <= o + l))) {
            memcpy(p, med.w[i].b + (size_t)vp_concretize(off - o), len);
            return;
        }
        vp_assert((off + len <= o) | (off >= o + l), "page accesses overlap partly");
    }
}
static int m_open(const char *name, const char *mode) {
    vp_assert(strcmp(name, "file.bin") == 0, "wrong file opened");
    vp_assert(!med.open, "file opened twice");
    if (mfail()) return 0;
    if (mode[0] == 'w') { med_clear(); med.exists = 1; }
    else if (mode[0] == 'a') med.appends = 1;
    else if (!med.exists) return 0;
    vp_assert(mode[1] == '+' || (mode[1] == 'b' && mode[2] == '+'), "file opened for one direction only");
    med.open = 1;
    med.opens++;
    med.pos = 0;
    return 1;
}
#if IF < 2
FILE *h_fopen(const char *name, const char *mode) { return m_open(name, mode) ? (FILE *)&dummy : NULL; }
#define CHK() vp_assert(f == (FILE *)&dummy && med.open, "stdio call on a file that is not open")
int h_fclose(FILE *f) { CHK(); med.open = 0; return mfail() ? EOF : 0; }
int h_fflush(FILE *f) { CHK(); return mfail() ? EOF : 0; }
int h_fseeko(FILE *f, off_t off, int whence) {
    CHK();
    if (mfail()) return -1;
    if (whence == SEEK_SET && vp_is_true(off < 0)) return -1;
    med.pos = whence == SEEK_SET ? (uint64_t)off : whence == SEEK_CUR ? med.pos + (uint64_t)off : med.len + (uint64_t)off;
    return 0;
}
int h_fseek(FILE *f, long off, int whence) { return h_fseeko(f, off, whence); }
long h_ftell(FILE *f) { CHK(); return (long)med.pos; }
off_t h_ftello(FILE *f) { return h_ftell(f); }
void h_rewind(FILE *f) { CHK(); med.pos = 0; }
int h_ferror(FILE *f) { CHK(); return 0; }
size_t h_fread(void *p, size_t size, size_t n, FILE *f) {
    CHK();
    size_t tot = size * n;
    if (mfail()) { memset(p, 0x5a, tot / 2); return tot / 2 / size; }    /* fails half way */
    if (vp_is_true(med.pos + tot > med.len)) {      /* end of file: whole elements are counted, the rest is delivered all the same */
        size_t have = vp_is_true(med.pos >= med.len) ? 0 : (size_t)vp_concretize(med.len - med.pos);
        memset(p, 0x5b, have);
        return have / size;
    }
    med_read(med.pos, p, (uint32_t)tot);
    med.pos += tot;
    return n;
}
size_t h_fwrite(const void *p, size_t size, size_t n, FILE *f) {
    CHK();
    if (mfail()) return size * n / 2 / size;     /* fails half way */
    med_write(med.pos, p, (uint32_t)(size * n));
    med.pos += size * n;
    return n;
}
#elif IF == 2
/* the SD wrapper (sdcard_c_iface.cpp): seeking past the end fails, fwrite returns bytes or 0 */
SD_FILE *sd_fopen(const char *name, const char *mode) { return m_open(name, mode) ? (SD_FILE *)&dummy : NULL; }
#define CHK() vp_assert(f == (SD_FILE *)&dummy && med.open, "call on a file that is not open")
int sd_fclose(SD_FILE *f) { if (!f) return 0; CHK(); med.open = 0; return 0; }
int sd_fflush(SD_FILE *f) { CHK(); return 0; }
int sd_fseek(SD_FILE *f, unsigned long int off, int whence) {
    CHK();
    if (mfail() || vp_is_true(off > med.len)) return -1;
    med.pos = off;
    return 0;
}
size_t sd_length(SD_FILE *f) { CHK(); return med.len; }
static uint8_t sdb[MAXL + 8];
size_t sd_fread(void *p, size_t size, size_t n, SD_FILE *f) {
    CHK();
    if (mfail()) return 0;
    size_t tot = size * n;
    if (med.pos + tot > med.len) tot = (med.len - med.pos) / size * size;
    memcpy(p, sdb + med.pos, tot);
    med.pos += tot;
    return tot / size;
}
size_t sd_fwrite(void *p, size_t size, size_t n, SD_FILE *f) {
    CHK();
    if (mfail()) return 0;
    size_t tot = size * n;
    vp_assert(med.pos + tot <= MAXL + 8, "write far past the page");
    memcpy(sdb + med.pos, p, tot);
    med.pos += tot;
    if (med.pos > med.len) med.len = med.pos;
    return tot;
}
#else
static uint8_t flash[16][PS];
int32_t dfread(int32_t page, void *p, int32_t size) {
    vp_assert(page >= 4 && page < 4 + 6, "page outside the file's part of the flash is read");
    if (mfail()) return 0;
    memcpy(p, flash[page], size);
    return size;
}
int32_t dfwrite(int32_t page, void *p, int32_t size) {
    vp_assert(page >= 4 && page < 4 + 6, "page outside the file's part of the flash is written");
    if (mfail()) return 0;
    memcpy(flash[page], p, size);
    return size;
}
#endif
static void fill(uint8_t *b, const char *nm, int c) {
    memset(b, c, PS);
    vp_sym_bytes(b, 2, nm);
    vp_sym_bytes(b + PS - 2, 2, nm);
}
static int same(const uint8_t *a, const uint8_t *b) {
    int r = memcmp(a + 2, b + 2, PS - 4) == 0;
    return r & (a[0] == b[0]) & (a[1] == b[1]) & (a[PS - 2] == b[PS - 2]) & (a[PS - 1] == b[PS - 1]);
}
static uint8_t A[PS], B[PS], R[PS];
static uint32_t page(const char *nm) {
    uint32_t p = (uint32_t)vp_sym(nm, 4);
    vp_assume(p <= PMAX);
#if IF >= 2
    p = (uint32_t)vp_concretize(p);
#endif
    return p;
}
void vp_main(void) {
    int before = vp_live_allocs();
    char name[] = "file.bin";
#if IF == 0
    embedDBFileInterface *fi = getFileInterface();
    void *f = setupFile(name);
#elif IF == 1
    embedDBFileInterface *fi = getMockEraseFileInterface();
    void *f = setupFile(name);
#elif IF == 2
    embedDBFileInterface *fi = getSDInterface();
    void *f = setupSDFile(name);
#else
    embedDBFileInterface *fi = getDataflashInterface();
    void *f = setupDataflashFile(4, 6);
#endif
    name[0] = 'x';
    int r;
#if IF < 3
    vp_assert(!fi->open(f, EMBEDDB_FILE_MODE_R_PLUS_B), "opening a missing file succeeds");
    vp_assert(!fi->open(f, 77), "unknown open mode is accepted");
#ifdef OPENFAIL
    failBudget = 1;
    r = fi->open(f, EMBEDDB_FILE_MODE_W_PLUS_B);
    vp_assert((r == 0) == (failed > 0), "result of opening does not tell whether it worked");
    failBudget = 0;
    if (!r) vp_assert(fi->open(f, EMBEDDB_FILE_MODE_W_PLUS_B), "opening fails");
#else
    vp_assert(fi->open(f, EMBEDDB_FILE_MODE_W_PLUS_B), "opening fails");
#endif
    vp_assert(!fi->read(R, 0, PS, f), "page of an empty file is read");
#else
    vp_assert(fi->open(f, EMBEDDB_FILE_MODE_W_PLUS_B), "opening fails");
#endif
    uint32_t p = page("p"), q = page("q");
    fill(A, "A", 0xa1);
    fill(B, "B", 0xb2);
#if IF == 3
    if (p >= 6) {
        vp_reach("outside");
        vp_assert(!fi->write(A, p, PS, f), "page outside the file is written");
        vp_assert(!fi->read(R, p, PS, f), "page outside the file is read");
        vp_done();
    }
    vp_assume(q < 6);
#endif
    failBudget = FAILS;
    int f0 = failed;
    r = fi->write(A, p, PS, f);
    vp_assert((r == 0) == (failed > f0), "result of a page write does not tell whether it worked");
    if (r == 0) { vp_reach("writefail"); int b = failBudget; failBudget = 0; vp_assert(fi->write(A, p, PS, f), "write after a failure does not work"); failBudget = b; }
    f0 = failed;
    r = fi->write(B, q, PS, f);
    vp_assert((r == 0) == (failed > f0), "result of a page write does not tell whether it worked");
    if (r == 0) { vp_reach("writefail"); failBudget = 0; vp_assert(fi->write(B, q, PS, f), "write after a failure does not work"); }
    f0 = failed;
    r = fi->flush(f);
    vp_assert((r == 0) == (failed > f0), "result of flush does not tell whether it worked");
    memset(R, 0x77, PS);
    f0 = failed;
    r = fi->read(R, p, PS, f);
    vp_assert((r == 0) == (failed > f0), "result of a page read does not tell whether it worked");
    if (r == 0) { vp_reach("readfail"); failBudget = 0; vp_assert(fi->read(R, p, PS, f), "read after a failure does not work"); }
    vp_assert(same(R, vp_is_true(p == q) ? B : A), "page read back differs from the page written");
    failBudget = 0;
    vp_reach("roundtrip");
#if IF < 3
    /* close and reopen: contents persist; opening for a fresh database drops them */
    vp_assert(fi->close(f), "close fails");
    vp_assert(!med.open, "close leaves the file open");
#ifdef CUT
    /* the last page was only partly written when the power was lost */
    static const int cuts[] = {1, 4, PS / 2, PS - 1};
    med.len -= cuts[vp_choice(4)];
    vp_assert(fi->open(f, EMBEDDB_FILE_MODE_R_PLUS_B), "reopening fails");
    uint32_t last = vp_is_true(p > q) ? p : q;
    vp_assert(fi->read(R, last, PS, f) == 0, "a page that is cut off at the end of the file is returned");
    vp_assert(fi->read(R, last + 1, PS, f) == 0, "a page past the end of the file is returned");
    if (vp_is_true(p != q)) {
        vp_assert(fi->read(R, last == p ? q : p, PS, f) && same(R, last == p ? B : A), "whole page in front of a cut off one is lost");
        vp_reach("whole");
    }
    vp_assert(fi->write(A, last, PS, f) && fi->read(R, last, PS, f) && same(R, A), "page that was cut off cannot be written");
    vp_reach("cut");
    vp_assert(fi->close(f), "close fails");
    med_clear();
    vp_done();
#endif
    vp_assert(fi->open(f, EMBEDDB_FILE_MODE_R_PLUS_B), "reopening fails");
#endif
    vp_assert(fi->read(R, q, PS, f) && same(R, B), "page is lost on reopening");
    /* erase */
    uint32_t e = (uint32_t)vp_choice(2) + 1;
#if IF == 1
    vp_assume(p <= 0xfffffff0u);
    failBudget = FAILS;
    f0 = failed;
    r = fi->erase(p, p + e, PS, f);
    vp_assert((r == 0) == (failed > f0), "result of erase does not tell whether it worked");
    if (failed > f0) { vp_reach("erasefail"); vp_assert(fi->erase(p, p + e, PS, f), "erase after a failure does not work"); }
    failBudget = 0;
    vp_assert(fi->read(R, p, PS, f) && R[0] == 1 && R[PS - 1] == 1 && R[PS / 2] == 1, "erased page is not erased");
    vp_assert(fi->read(R, q, PS, f), "page is lost by erasing another one");
    if (vp_is_true((q >= p) & (q < p + e))) vp_assert(R[0] == 1 && R[PS - 1] == 1, "erased page is not erased");
    else vp_assert(same(R, B), "erase changes a page outside the range");
#else
    if (p < 0xfffffff0u) vp_assert(fi->erase(p, p + e, PS, f), "erase fails");
#endif
#if IF < 3
    if (vp_choice(2)) vp_assert(fi->close(f), "close fails");
#endif
#if IF < 2
    tearDownFile(f);
#elif IF == 2
    tearDownSDFile(f);
#else
    tearDownDataflashFile(f);
#endif
    vp_assert(!med.open, "file left open");
    med_clear();
    free(fi);
    vp_assert(vp_live_allocs() == before, "memory leaked");
    vp_done();
}
