/* Preloaded into the generator: its source of randomness becomes a function of GEN_SEED, so that
   the iteration order of its hash maps is chosen from outside. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>

static uint64_t state;
static int ready;

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    unsigned char *p = buf;
    (void)flags;
    if (!ready) {
        const char *e = getenv("GEN_SEED");
        state = e ? strtoull(e, 0, 10) : 0;
        ready = 1;
    }
    for (size_t i = 0; i < n; i++) {
        uint64_t z = state += 0x9E3779B97F4A7C15ull;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        p[i] = (unsigned char)(z ^ (z >> 31));
    }
    return (ssize_t)n;
}
