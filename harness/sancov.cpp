// Coverage callbacks of the instrumented library (clang -fsanitize-coverage=trace-pc-guard,trace-cmp): which control-flow
// edges a call takes and how close each comparison came, plus the operands compared last.  Used by guided.inc.
#include <cstdint>
#include <cstring>
#include <cstdlib>

enum { NBITS = 1 << 20, NCMP = 64 };
static unsigned char g_seen[NBITS / 8];
static uint64_t g_cmp[NCMP][2];
static unsigned char g_cmpSize[NCMP];
static unsigned g_ncmp;
static bool g_on;
static unsigned g_fresh;

static inline void feature(uint64_t h) {
    h *= 0x9e3779b97f4a7c15ull;
    h >>= 44;
    if (!(g_seen[h >> 3] & (1 << (h & 7)))) { g_seen[h >> 3] |= 1 << (h & 7); g_fresh++; }
}
static inline void cmp(void* pc, uint64_t a, uint64_t b, int size) {
    if (!g_on) return;
    uint64_t p = (uint64_t)pc << 8;
    uint64_t mask = size == 8 ? ~0ull : (1ull << (8 * size)) - 1;
    a &= mask; b &= mask;
    feature(p + __builtin_popcountll(a ^ b));
    uint64_t d = (a > b ? a - b : b - a);
    feature(p + 100 + (d ? 64 - __builtin_clzll(d) : 0));
    if (a != b) {
        // a sample of the operands compared: the first ones, then a moving window
        unsigned i = g_ncmp < NCMP ? g_ncmp : (g_ncmp * 7 + (unsigned)(p >> 10)) % NCMP;
        g_cmp[i][0] = a; g_cmp[i][1] = b; g_cmpSize[i] = size; g_ncmp++;
    }
}
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* s, uint32_t* e) { static uint32_t n; if (s == e || *s) return; for (; s < e; s++) *s = ++n; }
void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (!g_on) return;
    feature(0xabcdef00000000ull + *g);
}
#define PC __builtin_return_address(0)
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cmp(PC, a, b, 1); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmp(PC, a, b, 2); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmp(PC, a, b, 4); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmp(PC, a, b, 8); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cmp(PC, b, a, 1); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cmp(PC, b, a, 2); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cmp(PC, b, a, 4); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cmp(PC, b, a, 8); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* cases) {
    int size = (int)(cases[1] / 8); if (size < 1 || size > 8) size = 8;
    for (uint64_t i = 0; i < cases[0]; i++) cmp((char*)PC + i, v, cases[2 + i], size);
}
void cov_reset() { memset(g_seen, 0, sizeof g_seen); g_ncmp = 0; }
void cov_begin() { g_fresh = 0; g_ncmp = 0; g_on = true; }
unsigned cov_end() { g_on = false; return g_fresh; }
void cov_feature(uint64_t h) { feature(h); }
unsigned cov_fresh() { return g_fresh; }
unsigned cov_cmps() { return g_ncmp < NCMP ? g_ncmp : NCMP; }
void cov_cmp(unsigned i, uint64_t* a, uint64_t* b, int* size) { *a = g_cmp[i][0]; *b = g_cmp[i][1]; *size = g_cmpSize[i]; }
}
