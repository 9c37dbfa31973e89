/* Feedback for the guided search: which edges of the code under test a case took and how
   often, and how close the operands of its comparisons came.  What the checks themselves do
   does not count; what the standard library does counts on behalf of who called it. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#define RANGES 1024
static struct { uint32_t *a, *b; } guards[RANGES];
static struct { const uintptr_t *a, *b; } pcs[RANGES];
static int n_guards, n_pcs;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    for (int i = 0; i < n_guards; i++)
        if (guards[i].a == a) return;
    if (a == b || n_guards == RANGES) return;
    guards[n_guards].a = a;
    guards[n_guards++].b = b;
}
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) {
    for (int i = 0; i < n_pcs; i++)
        if (pcs[i].a == a) return;
    if (a == b || n_pcs == RANGES) return;
    pcs[n_pcs].a = a;
    pcs[n_pcs++].b = b;
}

extern const char __executable_start, edata;
uintptr_t guided_base(void) { return (uintptr_t)&__executable_start; }

/* what a guard stands for: an edge of the code under test, one of the checks, or another one */
enum { OTHER = 0, CHECK = 1, FIRST = 2 };
#define EDGES (1 << 18)
static uint8_t hits[EDGES];
static uint8_t seen[EDGES];
static uint32_t n_edges;
/* id: what the guard of an address stands for */
int guided_classify(uint32_t (*id)(uintptr_t)) {
    n_edges = FIRST;
    for (int i = 0; i < n_guards && i < n_pcs; i++)
        for (uint32_t *g = guards[i].a; g < guards[i].b; g++) {
            uint32_t k = id(pcs[i].a[2 * (g - guards[i].a)]);
            *g = k < EDGES ? k : OTHER;
            if (*g >= n_edges) n_edges = *g + 1;
        }
    return n_edges - FIRST;
}

static volatile int active;
/* the last edge of the code under test, 0 since control came back to a check */
static __thread uint32_t context;
static uint32_t taken[EDGES], n_taken;
void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
    uint32_t g = *guard;
    if (g == OTHER || !active) return;
    if (g == CHECK) { context = 0; return; }
    context = g;
    if (hits[g] == 0 && n_taken < EDGES) taken[n_taken++] = g;
    if (hits[g] < 255) hits[g]++;
}

#define BITS 20
static uint8_t near_seen[1 << BITS];
static uint32_t n_near;
static void feature(uintptr_t where, uint64_t what) {
    uint64_t h = (where * 0x9E3779B97F4A7C15u) ^ (what * 0xD1B54A32D192ED03u);
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9u;
    uint32_t i = h >> (64 - BITS);
    if (!near_seen[i]) { near_seen[i] = 1; n_near++; }
}
static void compared(uintptr_t pc, uint64_t a, uint64_t b) {
    if (!active || !context) return;
    uint64_t d = a > b ? a - b : b - a;
    uintptr_t w = pc + ((uintptr_t)context << 32);
    feature(w, __builtin_popcountll(a ^ b));
    feature(w, 100 + (d ? 64 - __builtin_clzll(d) : 0));
}
#define PC ((uintptr_t)__builtin_return_address(0))
#define CMP(n, t) \
    void __sanitizer_cov_trace_cmp##n(t a, t b) { compared(PC, a, b); } \
    void __sanitizer_cov_trace_const_cmp##n(t a, t b) { compared(PC, a, b); }
CMP(1, uint8_t) CMP(2, uint16_t) CMP(4, uint32_t) CMP(8, uint64_t)
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases) {
    if (!active || !context) return;
    /* the nearest case on either side, as in libFuzzer */
    uint64_t n = cases[0], *c = cases + 2, i = 0;
    if (n > 64) return;
    while (i < n && c[i] <= v) i++;
    if (i < n) compared(PC + i, v, c[i]);
    if (i > 0) compared(PC + i, v, c[i - 1]);
}
/* string comparisons: how many leading bytes agree, for each constant apart */
static int mem(const void *x, const void *y, size_t n) {
    const uint8_t *a = x, *b = y;
    size_t i = 0;
    while (i < n && a[i] == b[i]) i++;
    if (active && context) {
        const char *k = x, *l = y;
        const char *c = k >= &__executable_start && k < &edata ? k : l >= &__executable_start && l < &edata ? l : 0;
        uintptr_t w = (uintptr_t)c + ((uintptr_t)context << 32);
        feature(w, 1000 + i);
        if (i < n) feature(w, 2000 + __builtin_popcount(a[i] ^ b[i]) + 16 * i);
    }
    return i < n ? a[i] - b[i] : 0;
}
int memcmp(const void *a, const void *b, size_t n) { return mem(a, b, n); }
int bcmp(const void *a, const void *b, size_t n) { return mem(a, b, n); }

static int bucket(uint8_t c) {
    return c <= 3 ? c - 1 : c <= 7 ? 3 : c <= 15 ? 4 : c <= 31 ? 5 : c <= 127 ? 6 : 7;
}
void guided_start(void) {
    context = 0;
    n_near = 0;
    active = 1;
}
/* what the case did that none before it did; edges in the upper half */
uint64_t guided_stop(void) {
    active = 0;
    uint64_t edges = 0;
    for (uint32_t i = 0; i < n_taken; i++) {
        uint32_t g = taken[i];
        uint8_t m = 1 << bucket(hits[g]);
        if (!(seen[g] & m)) { seen[g] |= m; edges++; }
        hits[g] = 0;
    }
    n_taken = 0;
    return edges << 32 | n_near;
}
/* a new sub-check starts from nothing */
void guided_forget(void) {
    memset(near_seen, 0, sizeof near_seen);
    memset(seen, 0, sizeof seen);
}
uint32_t guided_seen(void) {
    uint32_t n = 0;
    for (uint32_t i = FIRST; i < n_edges; i++) n += seen[i] != 0;
    return n;
}
