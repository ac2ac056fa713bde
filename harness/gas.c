/* Callbacks for -sanitizer-coverage-trace-pc-guard: a logical step counter ("gas") and edge coverage.
 * Only edges executed between kmon_gas_begin and kmon_gas_end (= inside a call into kuba) count. */
#include <stdint.h>
#include <string.h>

extern void kmon_gas_exhausted(void); /* Rust; does not return */

static __thread uint64_t gas_used, gas_limit;
static __thread int gas_on;
static __thread uint32_t delay_rng;
static __thread uint32_t delay_every;

#define MAX_EDGES (1u << 20)
static uint8_t seen[MAX_EDGES];
static uint32_t n_edges;

void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) *x = ++n_edges;
}

void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
    if (!gas_on) return;
    uint32_t g = *guard;
    if (g < MAX_EDGES && !seen[g]) seen[g] = 1;
    if (++gas_used > gas_limit) {
        gas_on = 0;
        kmon_gas_exhausted();
    }
}

void kmon_gas_begin(uint64_t limit) { gas_used = 0; gas_limit = limit; gas_on = 1; }
uint64_t kmon_gas_end(void) { gas_on = 0; return gas_used; }
uint64_t kmon_edges_seen(void) {
    uint64_t n = 0;
    for (uint32_t i = 0; i < MAX_EDGES; i++) n += seen[i];
    return n;
}
