/* Built by the system compiler: clock and barrier of the concurrent atomics programs. */
#define _GNU_SOURCE
#include <stdint.h>
#include <sched.h>
#include <time.h>
#include <stdatomic.h>
uint64_t hp_now(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (uint64_t)t.tv_sec * 1000000000ull + t.tv_nsec;
}
static _Alignas(128) atomic_int n_in;
static _Alignas(128) atomic_int gen;
void hp_barrier(int n)
{
    int g = atomic_load(&gen), k = 0;
    if (atomic_fetch_add(&n_in, 1) == n - 1) {
        atomic_store(&n_in, 0);
        atomic_fetch_add(&gen, 1);
    } else
        while (atomic_load(&gen) == g)
            if (++k > 2000) sched_yield();
}
