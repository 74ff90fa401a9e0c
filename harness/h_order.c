/* N puts with arbitrary keys interleaved with optional flushes (FLM) and restarts
 * (REM): a put is accepted exactly when its key exceeds the newest stored key, and
 * a refused put changes nothing. */
#include "model.h"
#ifndef FREE          /* the first FREE keys are ascending */
#define FREE 0
#endif
#ifndef FLM
#define FLM 0
#endif
#ifndef FLALL
#define FLALL 0
#endif
#ifndef REM
#define REM 0
#endif
void vp_main(void) {
    db_files();
    rfc.eraseKind = 1;
    embedDBState *s = m_init(PARAMS, PERR);
    for (int i = 0; i < N; i++) {
        uint64_t k = vp_sym("k", KS);
        dval_t d = (dval_t)vp_sym("d", DS);
        int writes = rfc.writes + rfc.erases;
        int ok = mn == 0 || k > mk[mn - 1];
        if (i < FREE) vp_assume(ok);
        uint64_t kk = k;
        int8_t r = embedDBPut(s, &kk, &d);
        vp_observe("put", (uint64_t)(uint8_t)r);
        vp_assert(kk == k, "put modifies the caller's key");
        if (ok) {
            vp_reach("accepted");
            vp_assert(r == 0, "a key above all stored keys is refused");
            if (mn - mdone >= s->maxRecordsPerPage) m_page();
            mk[mn] = k;
            md[mn] = d;
            mn++;
        } else {
            vp_reach("refused");
            vp_assert(r != 0, "a key not above the newest key is accepted");
            vp_assert(rfc.writes + rfc.erases == writes, "a refused put writes to storage");
        }
        if ((FLALL >> i) & 1) m_flush(s);
        else if ((FLM >> i) & 1) if (vp_choice(2)) { vp_reach("flush"); m_flush(s); }
        if ((REM >> i) & 1) if (vp_choice(2)) { vp_reach("restart"); s = m_reopen(s, PARAMS); }
    }
    m_scan(s);
    m_end(s);
}
