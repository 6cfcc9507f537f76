/* The borders of a window of observation.

   With LK_COVERAGE the crate is compiled with sanitizer coverage, and a window
   yields a digest of the edges it took and the addresses it loaded from and
   stored to. Without, the borders are stores to a fixed address, for whoever
   watches the machine instructions (watch.c). */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>

#ifdef LK_COVERAGE
static uint64_t h;
static int on;
static inline void mix(uint64_t x) {
    if (on) { h = (h ^ x) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; }
}
void lk_begin(void) {}
void lk_start(void) { h = 0xcbf29ce484222325ull; on = 1; }
uint64_t lk_stop(void) { on = 0; return h; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    static uint32_t n = 1;
    if (a == b || *a) return;
    for (; a < b; a++) *a = n++;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { mix(*g); }
#define ACCESS(n) \
    void __sanitizer_cov_load##n(void *p) { mix((uint64_t)p * 64 + n); } \
    void __sanitizer_cov_store##n(void *p) { mix((uint64_t)p * 64 + n + 32); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
/* variable positions of array accesses that the above does not see (copies) */
void __sanitizer_cov_trace_gep(uintptr_t i) { mix(i + 7); }
#else
#define MARK ((volatile uint64_t *)0x700dead0000ull)
void lk_begin(void) {
    if (mmap((void *)MARK, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *)MARK) {
        perror("mark"); exit(3);
    }
}
void lk_start(void) { MARK[0] = 1; }
uint64_t lk_stop(void) { MARK[1] = 1; return 0; }
#endif
