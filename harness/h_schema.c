/* Schema functions over arbitrary column sizes and signedness values. */
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#ifdef DIST
#include "embedDB.h"
#else
#include "query-interface/schema.h"
#endif
#ifndef NC
#define NC 4
#endif
#ifndef SZMAX
#define SZMAX 127
#endif
void vp_main(void) {
    int n = 1 + vp_choice(NC), valid = 1;
    int8_t sz[NC], sg[NC];
    uint32_t total = 0, off[NC + 1];
    for (int i = 0; i < n; i++) {
#ifdef SIZES
        static const int8_t sizes[] = {SIZES};
        sz[i] = sizes[vp_choice((int)sizeof sizes)];
#else
        sz[i] = (int8_t)vp_sym("size", 1);
#endif
        sg[i] = (int8_t)vp_sym("sign", 1);
        if (SZMAX < 127) vp_assume(sz[i] <= SZMAX);
        off[i] = total;
        valid = valid && vp_is_true(sz[i] > 0) && vp_is_true((sg[i] == embedDB_COLUMN_SIGNED) | (sg[i] == embedDB_COLUMN_UNSIGNED));
        total += (uint32_t)sz[i];
    }
    off[n] = total;
    int before = vp_live_allocs();
    embedDBSchema *s = embedDBCreateSchema((uint8_t)n, sz, sg);
    if (!valid) {
        vp_reach("refused");
        vp_assert(s == NULL, "schema with an invalid column is accepted");
        vp_assert(vp_live_allocs() == before, "refused schema leaks memory");
        vp_done();
    }
    vp_reach("created");
    vp_assert(s != NULL, "valid schema refused");
    embedDBSchema *c = copySchema(s);
    for (int round = 0; round < 2; round++) {
        embedDBSchema *t = round ? c : s;
        vp_assert(t->numCols == n, "wrong number of columns");
        for (int i = 0; i < n; i++) {
            int8_t cs = t->columnSizes[i];
            vp_assert((cs < 0) == (sg[i] == embedDB_COLUMN_SIGNED), "column has the wrong signedness");
            vp_assert((cs < 0 ? -cs : cs) == sz[i], "column has the wrong size");
            vp_assert(embedDB_IS_COL_SIGNED(cs) == (sg[i] == embedDB_COLUMN_SIGNED), "column has the wrong signedness");
            vp_assert(getColOffsetFromSchema(t, (uint8_t)i) == off[i], "wrong column offset");
        }
        vp_assert(getRecordSizeFromSchema(t) == total, "wrong record size");
        if (!round) {
            /* the copy is independent of the original */
            vp_assert(c->columnSizes != s->columnSizes && c != s, "copy shares memory with the original");
            int8_t keep = s->columnSizes[0];
            s->columnSizes[0] = (int8_t)(keep ^ 1);
            vp_assert(c->columnSizes[0] == keep, "copy shares memory with the original");
            embedDBFreeSchema(&s);
            vp_assert(s == NULL, "freed schema pointer is not cleared");
            embedDBFreeSchema(&s);
        }
    }
#ifdef BUF
    uint32_t cap = (uint32_t)vp_concretize(total);
    uint8_t *b = createBufferFromSchema(c);
    vp_assert(b != NULL, "no record buffer");
    for (uint32_t i = 0; i < cap; i++) { vp_assert(b[i] == 0, "record buffer is not zeroed"); b[i] = 1; }
    free(b);
#endif
    embedDBFreeSchema(&c);
    vp_assert(vp_live_allocs() == before, "memory leaked");
    vp_done();
}
