/* LD_PRELOAD: allocations made by pnumpy's extension module fail on request.
   class 0: malloc and friends called from the module; class 1: Python's allocators (object and mem domain) with the module
   as the nearest extension on the stack. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <dlfcn.h>
#include <execinfo.h>

extern void* __libc_malloc(size_t); extern void* __libc_calloc(size_t, size_t); extern void* __libc_realloc(void*, size_t); extern void* __libc_memalign(size_t, size_t);
static volatile uintptr_t lo, hi, nlo, nhi;
static volatile long at[2], sticky, count[2], fired;
static volatile int armed;

void voom_range(uintptr_t a, uintptr_t b, uintptr_t c, uintptr_t d) { lo = a; hi = b; nlo = c; nhi = d; }
void voom_arm(long a0, long a1, long keep) { at[0] = a0; at[1] = a1; sticky = keep; count[0] = count[1] = fired = 0; __atomic_store_n(&armed, 1, __ATOMIC_SEQ_CST); }
void voom_disarm(void) { __atomic_store_n(&armed, 0, __ATOMIC_SEQ_CST); }
long voom_count(int c) { return count[c]; }
long voom_fired(void) { return fired; }

static int hit(int c) {
    long n = __atomic_add_fetch(&count[c], 1, __ATOMIC_SEQ_CST);
    if (at[c] && (n == at[c] || (sticky && n > at[c]))) { __atomic_add_fetch(&fired, 1, __ATOMIC_SEQ_CST); return 1; }
    return 0;
}
#define OURS ({ uintptr_t ra = (uintptr_t)__builtin_return_address(0); armed && ra >= lo && ra < hi; })
void* malloc(size_t n) { if (OURS && hit(0)) { errno = ENOMEM; return NULL; } return __libc_malloc(n); }
void* calloc(size_t n, size_t m) { if (OURS && hit(0)) { errno = ENOMEM; return NULL; } return __libc_calloc(n, m); }
void* realloc(void* p, size_t n) { if (OURS && hit(0)) { errno = ENOMEM; return NULL; } return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { if (OURS && hit(0)) { errno = ENOMEM; return NULL; } return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { if (OURS && hit(0)) { errno = ENOMEM; return NULL; } return __libc_memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { if (OURS && hit(0)) return ENOMEM; void* p = __libc_memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }

typedef struct { void* ctx; void* (*m)(void*, size_t); void* (*c)(void*, size_t, size_t); void* (*r)(void*, void*, size_t); void (*f)(void*, void*); } pyalloc;
static pyalloc old[2];
static __thread int inside;
static int pyours(void) {
    if (!armed || inside) return 0;
    void* fr[16];
    inside = 1;
    int n = backtrace(fr, 16), r = 0;
    for (int i = 2; i < n && !r; i++) {
        uintptr_t p = (uintptr_t)fr[i];
        if (p >= nlo && p < nhi) break;             /* numpy's own */
        if (p >= lo && p < hi) r = 1;
    }
    inside = 0;
    return r;
}
static void* pm(void* c, size_t n) { pyalloc* o = c; return pyours() && hit(1) ? NULL : o->m(o->ctx, n); }
static void* pc(void* c, size_t n, size_t m) { pyalloc* o = c; return pyours() && hit(1) ? NULL : o->c(o->ctx, n, m); }
static void* pr(void* c, void* p, size_t n) { pyalloc* o = c; return pyours() && hit(1) ? NULL : o->r(o->ctx, p, n); }
static void pf(void* c, void* p) { pyalloc* o = c; o->f(o->ctx, p); }
void voom_python(void) {
    void (*getf)(int, pyalloc*) = dlsym(RTLD_DEFAULT, "PyMem_GetAllocator");
    void (*setf)(int, pyalloc*) = dlsym(RTLD_DEFAULT, "PyMem_SetAllocator");
    void* fr[4];
    backtrace(fr, 4);
    for (int d = 1; d <= 2; d++) {
        getf(d, &old[d - 1]);
        pyalloc a = { &old[d - 1], pm, pc, pr, pf };
        setf(d, &a);
    }
}
