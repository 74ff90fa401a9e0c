/* N ascending puts, optional flushes (FLM), then restart; M more puts (FLM2), another
 * restart when RE2.  Everything on written pages is back, nothing else, and work goes on. */
#include "model.h"
#ifndef ERK
#define ERK 1
#endif
#ifndef M
#define M 3
#endif
#ifndef FLM
#define FLM 0
#endif
#ifndef FLM2
#define FLM2 0
#endif
#ifndef RE2
#define RE2 0
#endif
#ifndef ENDFL      /* flush before the restart: 0 never, 1 choice, 2 always */
#define ENDFL 1
#endif
#ifndef NMIN       /* restart after any number of puts in NMIN..N */
#define NMIN N
#endif
static void checks(embedDBState *s, int lo) {
    int lo2 = m_scan(s);
    /* when the full storage is about to recycle its next erase block anyway, recovery may already
     * give up that block (m_scan bounds the loss to one block); otherwise nothing changes */
    if (mpages >= ND && mpages % ES == 0) { if (lo2 > lo) vp_reach("gaveup"); return; }
    vp_assert(lo2 == lo || (lo >= mn && lo2 >= mn), "restart changes which records are stored");
}
static int endfl(embedDBState *s) {
    if (ENDFL == 2 || (ENDFL == 1 && vp_choice(2))) { vp_reach("flushed"); m_flush(s); return 1; }
    return 0;
}
void vp_main(void) {
    db_files();
    rfc.eraseKind = ERK;
    embedDBState *s = m_init(PARAMS, PERR);
    int n = NMIN + vp_choice(N - NMIN + 1);
    for (int i = 0; i < n; i++) {
        m_put(s);
        if ((FLM >> i) & 1) if (vp_choice(2)) m_flush(s);
    }
    endfl(s);
    int lo = m_scan(s);
    if (lo > 0) vp_reach("evicted");
    s = m_reopen(s, PARAMS);
    if (mn) vp_reach("restored");
    checks(s, lo);
    for (int i = 0; i < M; i++) {
        m_put(s);
        if ((FLM2 >> i) & 1) if (vp_choice(2)) m_flush(s);
    }
    if (RE2) {
        endfl(s);
        lo = m_scan(s);
        s = m_reopen(s, PARAMS);
        vp_reach("twice");
        checks(s, lo);
    }
    lo = m_scan(s);
    if (lo > 0) vp_reach("evicted2");
    m_get(s);
    vp_assert(rfc.rewrote == 0, "a page is rewritten without being erased first");
    m_end(s);
}
