/* Schedule perturbation: force-included (-include) when the harness builds its "sched" variant of
 * pnumpy.  Every atomic operation of the code under test is preceded and followed by a random delay,
 * so that threads stop where the interleaving matters.  The behaviour of the code is unchanged. */
#pragma once
#ifdef __cplusplus
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
static inline void vsched_point() {
    static thread_local uint64_t s = 0;
    static int prob = -1, prob_long = 0;
    if (prob < 0) {
        const char* e = getenv("VSCHED");
        int a = 0, b = 0;
        if (e) sscanf(e, "%d,%d", &a, &b);
        prob_long = b; prob = a;
    }
    if (!prob && !prob_long) return;
    if (!s) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); s = (uint64_t)&s ^ ((uint64_t)t.tv_nsec << 20) ^ 0x9E3779B97F4A7C15ull; }
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    uint32_t r = (uint32_t)(s >> 20) % 100000;
    if ((int)r < prob_long) { if (gettid() != getpid()) usleep(2000 + (uint32_t)(s >> 40) % 300000); }
    else if ((int)r < prob_long + prob) { if (s & 1) sched_yield(); else usleep(1 + (uint32_t)(s >> 40) % 150); }
}
template <typename P, typename V> static inline auto vsched_add(P p, V v) -> decltype(*p + v) {
    vsched_point(); auto r = __sync_fetch_and_add(p, v); vsched_point(); return r;
}
template <typename P, typename V> static inline auto vsched_or(P p, V v) -> decltype(*p | v) {
    vsched_point(); auto r = __sync_fetch_and_or(p, v); vsched_point(); return r;
}
template <typename P, typename V> static inline auto vsched_and(P p, V v) -> decltype(*p & v) {
    vsched_point(); auto r = __sync_fetch_and_and(p, v); vsched_point(); return r;
}
template <typename P, typename V> static inline auto vsched_xor(P p, V v) -> decltype(*p ^ v) {
    vsched_point(); auto r = __sync_fetch_and_xor(p, v); vsched_point(); return r;
}
#define __sync_fetch_and_add(p, v) vsched_add(p, v)
#define __sync_fetch_and_or(p, v) vsched_or(p, v)
#define __sync_fetch_and_and(p, v) vsched_and(p, v)
#define __sync_fetch_and_xor(p, v) vsched_xor(p, v)
#endif
