/* N ascending puts, optional flushes at the positions in FLM, one arbitrary lookup. */
#include "model.h"
#ifndef FLM
#define FLM 0
#endif
void vp_main(void) {
    db_files();
    rfc.eraseKind = 1;
    embedDBState *s = m_init(PARAMS, PERR);
    for (int i = 0; i < N; i++) {
        m_put(s);
        if ((FLM >> i) & 1) if (vp_choice(2)) { vp_reach("flush"); m_flush(s); }
    }
    m_get(s);
    m_end(s);
}
