/* Injected delays at compiler-inserted edges (-sanitizer-coverage-trace-pc-guard) of the visualiser and of kuba.
 *
 * Edges that a run has executed only a few times are the ones of the hand-over between the render loop and the
 * integration thread (the ray loops run many thousand times), so delays are biased towards rarely executed edges. */
#include <sched.h>
#include <stdint.h>
#include <unistd.h>

#define MAX_EDGES (1u << 20)
static uint32_t hits[MAX_EDGES];
static uint32_t n_edges;
static int armed, mode;
static uint32_t slow_us, rare_limit;
static uint64_t seed, threads, delays;
static __thread uint64_t rng, steps;
static __thread int kind; /* 0: not seen yet, 1: main thread, outside step; 2: main, inside step; 3: other */
static __thread int64_t budget_us;

void vizdelay_arm(uint64_t s, int m, uint32_t slow, uint32_t rare) {
    seed = s; mode = m; slow_us = slow; rare_limit = rare;
    kind = 1; rng = s | 1;
    armed = 1;
}
void vizdelay_step(int inside) { kind = inside ? 2 : 1; budget_us = 3000; }
void vizdelay_ignore(void) { kind = 1; }
uint64_t vizdelay_count(void) { return __atomic_load_n(&delays, __ATOMIC_RELAXED); }

void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) *x = ++n_edges;
}

static uint64_t next(void) {
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1Dull;
}

void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
    if (!armed || kind == 1) return;
    if (kind == 0) {
        kind = 3;
        uint64_t t = __atomic_add_fetch(&threads, 1, __ATOMIC_RELAXED);
        rng = (seed ^ (t * 0x9E3779B97F4A7C15ull)) | 1;
        next(); next();
        budget_us = 20000;
    }
    uint32_t g = *guard;
    if (g >= MAX_EDGES) return;
    ++steps;
    if (mode == 2) {
        /* one long sleep in the middle of every integration */
        if (kind == 3 && steps == 400) usleep(slow_us);
        return;
    }
    if (mode != 1) return;
    uint32_t h = __atomic_load_n(&hits[g], __ATOMIC_RELAXED);
    if (h < rare_limit) {
        __atomic_store_n(&hits[g], h + 1, __ATOMIC_RELAXED);
        uint64_t r = next() >> 32;
        if ((r & 3) || budget_us <= 0) return;
        __atomic_add_fetch(&delays, 1, __ATOMIC_RELAXED);
        r >>= 2;
        switch (r & 3) {
        case 0: sched_yield(); break;
        case 1: { uint32_t d = 20 + (r >> 2) % 100; budget_us -= d; usleep(d); break; }
        case 2: { uint32_t d = 100 + (r >> 2) % 900; budget_us -= d; usleep(d); break; }
        default: { uint32_t d = 1000 + (r >> 2) % 3000; if (budget_us > 4000) { budget_us -= d; usleep(d); } break; }
        }
    }
}
