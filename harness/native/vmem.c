/* A numpy data allocator (NEP 49) that surrounds every array with known bytes, checked when the array is freed, fills fresh and
   freed memory with junk, and varies the alignment.  mode 1: every array ends at an inaccessible page; mode 2: starts after one. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>

#define PAGE 4096UL
#define BAND 64UL
typedef struct { uint64_t magic; size_t size; void* raw; size_t total; int mode; int pad; } hdr;     /* 40 bytes */
static volatile int g_mode = 0;
static volatile unsigned g_turn = 0;
static volatile long g_live = 0, g_bytes = 0, g_allocs = 0;
#define MAGIC 0x70A11C0DE5AFE123ULL

void vmem_mode(int m) { g_mode = m; }
long vmem_live(void) { return g_live; }
long vmem_bytes(void) { return g_bytes; }
long vmem_allocs(void) { return g_allocs; }

static void die(const char* what, const void* p, size_t size, long at) {
    char b[256];
    int n = snprintf(b, sizeof b, "VMEM: %s (array of %zu bytes, at byte %ld relative to it)\n", what, size, at);
    if (write(2, b, n)) {}
    abort();
}

/* which pages are ours is kept in a small table: the layout cannot be told from the pointer alone */
#include <pthread.h>
static pthread_mutex_t g_lock = PTHREAD_MUTEX_INITIALIZER;
typedef struct { char* p; hdr* h; } ent;
static ent* g_tab = NULL; static size_t g_n = 0, g_cap = 0;
static void remember(char* p, hdr* h) {
    pthread_mutex_lock(&g_lock);
    if (g_n == g_cap) { g_cap = g_cap ? 2 * g_cap : 1024; g_tab = realloc(g_tab, g_cap * sizeof(ent)); }
    g_tab[g_n].p = p; g_tab[g_n].h = h; g_n++;
    pthread_mutex_unlock(&g_lock);
}
static hdr* recall(char* p) {
    hdr* h = NULL;
    pthread_mutex_lock(&g_lock);
    for (size_t i = g_n; i-- > 0;)
        if (g_tab[i].p == p) { h = g_tab[i].h; g_tab[i] = g_tab[--g_n]; break; }
    pthread_mutex_unlock(&g_lock);
    return h;
}

static volatile long g_failat = 0, g_failsticky = 0, g_failcount = 0, g_failfired = 0;
void vmem_fail(long at, long sticky) { g_failat = at; g_failsticky = sticky; g_failcount = g_failfired = 0; }
long vmem_failcount(void) { return g_failcount; }
long vmem_failfired(void) { return g_failfired; }

static void* get(size_t size, int zero) {
    long nth = __atomic_add_fetch(&g_failcount, 1, __ATOMIC_RELAXED);
    if (g_failat && (nth == g_failat || (g_failsticky && nth > g_failat))) { __atomic_add_fetch(&g_failfired, 1, __ATOMIC_RELAXED); return NULL; }
    unsigned turn = __atomic_fetch_add(&g_turn, 1, __ATOMIC_RELAXED);
    __atomic_fetch_add(&g_live, 1, __ATOMIC_RELAXED);
    __atomic_fetch_add(&g_allocs, 1, __ATOMIC_RELAXED);
    __atomic_fetch_add(&g_bytes, (long)size, __ATOMIC_RELAXED);
    int mode = g_mode;
    if (mode) {
        size_t body = (size + 2 * BAND + 16 + PAGE - 1) / PAGE * PAGE;
        size_t total = body + 3 * PAGE;            /* header page, guard, body, guard */
        char* raw = mmap(NULL, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (raw == MAP_FAILED) return NULL;
        char* lo = raw + 2 * PAGE;
        mprotect(raw + PAGE, PAGE, PROT_NONE);
        mprotect(lo + body, PAGE, PROT_NONE);
        hdr* h = (hdr*)raw;
        /* numpy promises 16-byte alignment of fresh arrays */
        char* p = mode == 1 ? (char*)(((uintptr_t)(lo + body - size)) & ~(uintptr_t)15) : lo;
        h->magic = MAGIC; h->size = size; h->raw = raw; h->total = total; h->mode = mode;
        memset(lo, 0xA5, p - lo);
        memset(p + size, 0x5A, lo + body - (p + size));
        memset(p, zero ? 0 : 0xCB, size);
        remember(p, h);
        return p;
    }
    size_t total = size + 2 * BAND + 128;
    char* raw = malloc(total);
    if (!raw) return NULL;
    char* p = (char*)(((uintptr_t)raw + BAND + 63) & ~(uintptr_t)63) + 16 * (turn % 4);
    hdr* h = (hdr*)(p - BAND);                     /* 40 bytes of header, 24 bytes of band */
    h->magic = MAGIC; h->size = size; h->raw = raw; h->total = total; h->mode = 0; h->pad = 0x77777777;
    memset(p - 24, 0xA5, 24);
    char* end = raw + total;
    memset(p + size, 0x5A, end - (p + size) < (long)BAND ? end - (p + size) : (long)BAND);
    memset(p, zero ? 0 : 0xCB, size);
    return p;
}

static void put(void* ctx, void* vp, size_t given) {
    char* p = vp;
    (void)ctx; (void)given;
    if (!p) return;
    __atomic_fetch_add(&g_live, -1, __ATOMIC_RELAXED);
    hdr* h = g_n ? recall(p) : NULL;
    if (h) {
        __atomic_fetch_add(&g_bytes, -(long)h->size, __ATOMIC_RELAXED);
        char* lo = (char*)h->raw + 2 * PAGE; char* hi = (char*)h->raw + h->total - PAGE;
        size_t size = h->size;
        for (char* q = p - 1; q >= lo; q--) if ((unsigned char)*q != 0xA5) die("bytes before an array were changed", p, size, q - p);
        for (char* q = p + size; q < hi; q++) if ((unsigned char)*q != 0x5A) die("bytes after an array were changed", p, size, q - p);
        munmap(h->raw, h->total);
        return;
    }
    h = (hdr*)(p - BAND);
    if (h->magic != MAGIC) die("bytes before an array were changed, or memory was freed twice", p, 0, -64);
    size_t size = h->size;
    __atomic_fetch_add(&g_bytes, -(long)size, __ATOMIC_RELAXED);
    if (h->pad != 0x77777777) die("bytes before an array were changed", p, size, -28);
    for (int i = 1; i <= 24; i++) if ((unsigned char)p[-i] != 0xA5) die("bytes before an array were changed", p, size, -i);
    char* end = (char*)h->raw + h->total;
    long band = end - (p + size) < (long)BAND ? end - (p + size) : (long)BAND;
    for (long i = 0; i < band; i++) if ((unsigned char)p[size + i] != 0x5A) die("bytes after an array were changed", p, size, size + i);
    void* raw = h->raw;
    h->magic = 0xDEADDEADDEADDEADULL;
    memset(p, 0xDD, size < 65536 ? size : 65536);
    free(raw);
}

static void* vmalloc(void* ctx, size_t size) {
    (void)ctx; char* p = get(size, 0);
    return p;
}
static void* vcalloc(void* ctx, size_t n, size_t m) { (void)ctx; return get(n * m, 1); }
static void* vrealloc(void* ctx, void* old, size_t size) {
    if (!old) return vmalloc(ctx, size);
    size_t had;
    hdr* h = NULL;
    pthread_mutex_lock(&g_lock);
    for (size_t i = g_n; i-- > 0;) if (g_tab[i].p == old) { h = g_tab[i].h; break; }
    pthread_mutex_unlock(&g_lock);
    had = h ? h->size : ((hdr*)((char*)old - BAND))->size;
    char* p = get(size, 0);
    if (!p) return NULL;
    memcpy(p, old, had < size ? had : size);
    put(ctx, old, had);
    return p;
}

typedef struct { void* ctx; void* (*m)(void*, size_t); void* (*c)(void*, size_t, size_t); void* (*r)(void*, void*, size_t); void (*f)(void*, void*, size_t); } allocator;
typedef struct { char name[127]; uint8_t version; allocator a; } handler;
handler vmem_handler = { "vmem", 1, { 0, vmalloc, vcalloc, vrealloc, put } };
