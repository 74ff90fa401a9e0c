/* N ascending puts into ND data pages (more than fit), optional flushes (FLM) and a
 * restart (REM); the stored records are always the newest contiguous ones. */
#include "model.h"
#ifndef ERK
#define ERK 1
#endif
#ifndef GETS
#define GETS 1
#endif
#ifndef FLM
#define FLM 0
#endif
#ifndef REM
#define REM 0
#endif
#ifndef SCANM
#define SCANM 0
#endif
void vp_main(void) {
    db_files();
    rfc.eraseKind = ERK;
    embedDBState *s = m_init(PARAMS, PERR);
    for (int i = 0; i < N; i++) {
        m_put(s);
        if ((FLM >> i) & 1) if (vp_choice(2)) { vp_reach("flush"); m_flush(s); }
        if ((REM >> i) & 1) if (vp_choice(2)) { vp_reach("restart"); s = m_reopen(s, PARAMS); }
        if ((SCANM >> i) & 1) m_scan(s);
    }
    int lo = m_scan(s);
    if (lo > 0) vp_reach("evicted");
    if (GETS) m_get(s);
    vp_assert(rfc.rewrote == 0, "a page is rewritten without being erased first");
    m_end(s);
}
