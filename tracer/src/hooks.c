// Run-time side of the compiler's coverage instrumentation: what the observed code branches on and
// compares. It only steers the workload; no verdict depends on it.
#include <stdint.h>
#include <string.h>

#define BITS (1u << 22)
static uint8_t seen[BITS / 8];
static int on;
static uint64_t fresh_features, fresh_edges, guards, events;

#define RING 256
static uint64_t ring[RING][2];
static uint32_t ring_at;

void tracer_set(int v) { on = v; }
uint64_t tracer_edges(void) { return fresh_edges; }
uint64_t tracer_features(void) { return fresh_features; }
uint64_t tracer_guards(void) { return guards; }
uint64_t tracer_events(void) { return events; }
int tracer_pair(uint32_t i, uint64_t *a, uint64_t *b) {
    uint32_t n = ring_at < RING ? ring_at : RING;
    if (!n) return 0;
    *a = ring[i % n][0];
    *b = ring[i % n][1];
    return 1;
}
// Forgets what was seen, so that another probe starts from nothing.
void tracer_reset(void) {
    memset(seen, 0, sizeof seen);
    ring_at = 0;
}

static inline void feature(uint64_t x) {
    x *= 0x9e3779b97f4a7c15ull;
    uint32_t i = (uint32_t)(x >> 42) & (BITS - 1);
    if (!(seen[i >> 3] & (1u << (i & 7)))) {
        seen[i >> 3] |= 1u << (i & 7);
        fresh_features++;
    }
}

static inline __attribute__((always_inline)) void cmp(uint64_t a, uint64_t b, void *pc) {
    if (!on) return;
    events++;
    uint64_t site = (uint64_t)((char *)pc - (char *)&tracer_reset);
    uint64_t d = a > b ? a - b : b - a;
    feature(site * 256 + (uint64_t)__builtin_popcountll(a ^ b));
    feature(site * 256 + 128 + (d ? 64 - (uint64_t)__builtin_clzll(d) : 0));
    if (a != b) {
        uint32_t k = ring_at++ % RING;
        ring[k][0] = a;
        ring[k][1] = b;
        if (ring_at == 2 * RING) ring_at = RING;
    }
}

#define PC __builtin_return_address(0)
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cmp(a, b, PC); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmp(a, b, PC); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmp(a, b, PC); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmp(a, b, PC); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cmp(a, b, PC); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cmp(a, b, PC); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cmp(a, b, PC); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cmp(a, b, PC); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases) {
    if (!on) return;
    uint64_t n = cases[0] < 24 ? cases[0] : 24;
    for (uint64_t i = 0; i < n; i++) cmp(v, cases[2 + i], (char *)PC + i * 0x100000);
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    for (; a < b; a++)
        if (!*a) *a = (uint32_t)++guards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (!on || !*g) return;
    *g = 0;
    fresh_edges++;
}
