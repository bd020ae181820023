// Counts what the process has allocated; with SIM_LEAKLOG also who allocated it.
#define _GNU_SOURCE
#include <errno.h>
#include <execinfo.h>
#include <malloc.h>
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern void *__libc_malloc(size_t); extern void __libc_free(void *); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t); extern void *__libc_memalign(size_t, size_t);
int64_t sim_heap_bytes, sim_heap_blocks;
static int on = -1, busy;
#define N (1 << 20)
struct rec { void *p; size_t n; uint64_t seq; void *bt[16]; };
static struct rec *tab; static uint64_t seq;
static void start(void) { on = 0; if (getenv("SIM_LEAKLOG")) { tab = __libc_calloc(N, sizeof *tab); on = tab != 0; } }
static void add(void *p) {
    size_t n; unsigned h; if (!p) return; n = malloc_usable_size(p); sim_heap_bytes += n; sim_heap_blocks++;
    if (on < 0) start();
    if (on <= 0 || busy) return;
    busy = 1; for (h = ((uintptr_t) p >> 4) * 2654435761u & (N - 1); tab[h].p && tab[h].p != (void *) 1; h = (h + 1) & (N - 1)); tab[h].p = p; tab[h].n = n; tab[h].seq = ++seq; memset(tab[h].bt, 0, sizeof tab[h].bt); backtrace(tab[h].bt, 16); busy = 0;
}
static void del(void *p) {
    unsigned h; if (!p) return; sim_heap_bytes -= malloc_usable_size(p); sim_heap_blocks--;
    if (on <= 0 || busy) return;
    for (h = ((uintptr_t) p >> 4) * 2654435761u & (N - 1); tab[h].p; h = (h + 1) & (N - 1)) if (tab[h].p == p) { tab[h].p = (void *) 1; return; }
}
void *malloc(size_t n) { void *p = __libc_malloc(n); add(p); return p; }
void free(void *p) { int e = errno; del(p); __libc_free(p); errno = e; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); add(p); return p; }
void *realloc(void *p, size_t n) { void *q; size_t o = p ? malloc_usable_size(p) : 0; if (p) { del(p); } q = __libc_realloc(p, n); if (q) add(q); else if (p && n) { sim_heap_bytes += o; sim_heap_blocks++; } return q; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); add(p); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
// everything allocated after sequence number `from` and still there
void sim_leak_dump(const char *path, uint64_t from) {
    FILE *f; int i, k; if (on <= 0) return; busy = 1; f = fopen(path, "w"); if (!f) { busy = 0; return; }
    for (i = 0; i < N; i++) if (tab[i].p && tab[i].p != (void *) 1 && tab[i].seq > from) { fprintf(f, "%lu %zu", (unsigned long) tab[i].seq, tab[i].n); for (k = 2; k < 16 && tab[i].bt[k]; k++) { Dl_info d; if (dladdr(tab[i].bt[k], &d) && d.dli_fname) { const char *b = strrchr(d.dli_fname, '/'); fprintf(f, " %s+0x%lx", b ? b + 1 : d.dli_fname, (unsigned long) ((char *) tab[i].bt[k] - (char *) d.dli_fbase)); } } fprintf(f, "\n"); }
    fclose(f); busy = 0;
}
uint64_t sim_leak_seq(void) { return seq; }
