/* Native replay runtime: feeds a solver model to the really compiled code. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include "vp.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
typedef struct { uint64_t v; unsigned n; } In;
static In *ins; static size_t nin, cin;
typedef struct { int seq; unsigned off; unsigned v; } Un;
static Un *uns; static size_t nun;
static int mseq, live;
static void die(int c) { fflush(stdout); fflush(stderr); _exit(c); }
static uint64_t next(unsigned n) {
    if (cin >= nin) return 0;
    (void)n;
    return ins[cin++].v;
}
uint64_t vp_sym(const char *name, unsigned bytes) { (void)name; uint64_t v = next(bytes); return bytes >= 8 ? v : v & ((1ull << (8 * bytes)) - 1); }
void vp_sym_bytes(void *p, size_t n, const char *name) {
    (void)name;
    size_t k = 0;
    while (k < n) {
        unsigned c = n - k < 8 ? (unsigned)(n - k) : 8;
        uint64_t v = next(c);
        memcpy((char *)p + k, &v, c);
        k += c;
    }
}
int vp_choice(int n) { int v = (int)next(4); if (n <= 0) die(78); return v < n ? v : 0; }
void vp_assume(int c) { if (!c) { printf("VP-ASSUME-FAILED\n"); die(78); } }
void vp_assert(int c, const char *msg) { if (!c) { printf("VP-VIOLATION %s\n", msg); die(77); } }
void vp_reach(const char *l) { (void)l; }
void vp_known(const char *l) { printf("VP-KNOWN %s\n", l); }
void vp_unknown(const char *l) { (void)l; }
void vp_observe(const char *t, uint64_t v) { printf("VP-OBS %s %llx\n", t, (unsigned long long)v); }
uint64_t vp_concretize(uint64_t v) { return v; }
int vp_is_true(int c) { return c != 0; }
int vp_live_allocs(void) { return live; }
int vp_symbolic_mode(void) { return 0; }
void vp_done(void) { die(0); }
void *vp_malloc(size_t n) {
    unsigned char *p = malloc(n ? n : 1);
    for (size_t i = 0; i < n; i++) p[i] = 0xA5;
    for (size_t i = 0; i < nun; i++)
        if (uns[i].seq == mseq && uns[i].off < n) p[uns[i].off] = (unsigned char)uns[i].v;
    mseq++;
    live++;
    return p;
}
void *vp_calloc(size_t a, size_t b) { mseq++; live++; return calloc(a ? a : 1, b ? b : 1); }
void *vp_realloc(void *p, size_t n) { if (!p) live++; mseq++; return realloc(p, n ? n : 1); }
void vp_free(void *p) { if (p) live--; free(p); }
void vp_main(void);
int main(int argc, char **argv) {
    if (argc < 2) return 2;
    FILE *f = fopen(argv[1], "r");
    if (!f) return 2;
    static char line[4096];
    size_t capI = 0, capU = 0;
    while (fgets(line, sizeof line, f)) {
        if (line[0] == 'i') {
            uint64_t v = 0;
            unsigned n = 0;
            char *p = line + 2;
            while (p[0] && p[1] && p[0] != '\n') {
                unsigned b;
                if (sscanf(p, "%2x", &b) != 1) break;
                if (n < 8) v |= (uint64_t)b << (8 * n);
                n++;
                p += 2;
            }
            if (nin == capI) ins = realloc(ins, (capI = capI * 2 + 64) * sizeof *ins);
            ins[nin].v = v; ins[nin].n = n; nin++;
        } else if (line[0] == 'u') {
            if (nun == capU) uns = realloc(uns, (capU = capU * 2 + 64) * sizeof *uns);
            Un u;
            if (sscanf(line + 2, "%d %u %u", &u.seq, &u.off, &u.v) == 3) uns[nun++] = u;
        }
    }
    fclose(f);
    vp_main();
    die(0);
    return 0;
}
