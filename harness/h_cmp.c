/* Shipped comparators: sign of the result is the order of the values, for every pair. */
#include "vp.h"
#ifdef DIST
#include "embedDB.h"
#else
#include "embedDBUtility.h"
#endif
int8_t compareUnsignedNumbers(const void *num1, const void *num2, int8_t numBytes);
int8_t compareSignedNumbers(const void *num1, const void *num2, int8_t numBytes);
static int sg(int x) { return (x > 0) - (x < 0); }
void vp_main(void) {
    int r, want;
#if WHICH == 0
    int32_t a = (int32_t)vp_sym("a", 4), b = (int32_t)vp_sym("b", 4);
    r = int32Comparator(&a, &b);
    want = (a > b) - (a < b);
    vp_observe("r", (uint8_t)r);
#elif WHICH == 1
    int64_t a = (int64_t)vp_sym("a", 8), b = (int64_t)vp_sym("b", 8);
    r = int64Comparator(&a, &b);
    want = (a > b) - (a < b);
#else
    /* byte-wise comparators of the query interface, for every size */
    int n = 1 + vp_choice(16);
    uint8_t a[16], b[16];
    vp_sym_bytes(a, n, "a");
    vp_sym_bytes(b, n, "b");
    int bias = WHICH == 3 ? 0x80 : 0;
    r = WHICH == 3 ? compareSignedNumbers(a, b, n) : compareUnsignedNumbers(a, b, n);
    want = 0;
    for (int i = 0; i < n; i++) {
        int x = a[i] ^ (i == n - 1 ? bias : 0), y = b[i] ^ (i == n - 1 ? bias : 0);
        want = x > y ? 1 : x < y ? -1 : want;
    }
#endif
    vp_assert(sg(r) == want, "comparison result does not match the order of the values");
    if (vp_is_true(want > 0)) vp_reach("greater");
    else if (vp_is_true(want < 0)) vp_reach("less");
    else vp_reach("equal");
    vp_done();
}
