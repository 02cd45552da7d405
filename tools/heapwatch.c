/* Preloaded: counts what one module (the library under test) has allocated and
 * not yet given back, whoever frees it.  HEAPWATCH_MODULE is part of the
 * module's file name ("@exe" for the program itself); the counters are in
 * HEAPWATCH_FILE when that is set, and from heapwatch_live(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

struct counts {
    _Atomic int64_t bytes, blocks, made, modules, full;
};
static struct counts own;
static struct counts *C = &own;

#define RANGES 16
static uintptr_t lo[RANGES], hi[RANGES];
static _Atomic int nranges;
static char module[256];

static int visit(struct dl_phdr_info *i, size_t n, void *d) {
    const char *name = i->dlpi_name ? i->dlpi_name : "";
    int ours = !strcmp(module, "@exe") ? *(int *)d == 0 : (*module && strstr(name, module) != 0);
    (*(int *)d)++;
    if (!ours) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        if (p->p_type != PT_LOAD || !(p->p_flags & PF_X)) continue;
        uintptr_t a = i->dlpi_addr + p->p_vaddr, b = a + p->p_memsz;
        int r = nranges, known = 0;
        for (int j = 0; j < r; j++) known |= lo[j] == a && hi[j] == b;
        if (known || r == RANGES) continue;
        lo[r] = a;
        hi[r] = b;
        nranges = r + 1;
        C->modules++;
    }
    return 0;
}
static void scan(void) {
    int k = 0;
    dl_iterate_phdr(visit, &k);
}
__attribute__((constructor)) static void start(void) {
    const char *m = getenv("HEAPWATCH_MODULE"), *f = getenv("HEAPWATCH_FILE");
    if (m) strncpy(module, m, sizeof module - 1);
    if (f) {
        int fd = open(f, O_RDWR | O_CREAT | O_CLOEXEC, 0600);
        if (fd >= 0 && ftruncate(fd, sizeof own) == 0) {
            void *p = mmap(0, sizeof own, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) C = p;
        }
        if (fd >= 0) close(fd);
    }
    /* programs started from here are not watched */
    unsetenv("HEAPWATCH_MODULE");
    unsetenv("HEAPWATCH_FILE");
    unsetenv("LD_PRELOAD");
    scan();
}
void heapwatch_live(int64_t *out) {
    out[0] = C->bytes;
    out[1] = C->blocks;
    out[2] = C->made;
    out[3] = C->modules;
    out[4] = C->full;
}
void *dlopen(const char *f, int flags) {
    static void *(*real)(const char *, int);
    if (!real) real = dlsym(RTLD_NEXT, "dlopen");
    void *h = real(f, flags);
    scan();
    return h;
}

/* Live blocks: open addressing, with tombstones swept by reinsertion. */
#define SLOTS (1u << 22)
static struct { uintptr_t p; size_t n; } *tab;
static atomic_flag lock = ATOMIC_FLAG_INIT;
static uint32_t h(uintptr_t p) { return (uint32_t)((p >> 4) * 0x9E3779B97F4A7C15ull >> 42) & (SLOTS - 1); }
static void take(void) { while (atomic_flag_test_and_set_explicit(&lock, memory_order_acquire)) ; }
static void give(void) { atomic_flag_clear_explicit(&lock, memory_order_release); }
static void note(void *q, size_t n) {
    uintptr_t p = (uintptr_t)q;
    if (!p) return;
    take();
    if (!tab) {
        void *m = mmap(0, SLOTS * sizeof *tab, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { C->full++; give(); return; }
        tab = m;
    }
    if (C->blocks > (int64_t)(SLOTS / 2)) { C->full++; give(); return; }
    uint32_t i = h(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (SLOTS - 1);
    if (!tab[i].p) C->blocks++; else C->bytes -= tab[i].n;
    tab[i].p = p;
    tab[i].n = n;
    C->bytes += n;
    C->made++;
    give();
}
/* The size of a block that was noted, which it no longer is. */
static int drop(void *q, size_t *n) {
    uintptr_t p = (uintptr_t)q;
    if (!p || !tab) return 0;
    take();
    uint32_t i = h(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (SLOTS - 1);
    if (!tab[i].p) { give(); return 0; }
    *n = tab[i].n;
    C->bytes -= tab[i].n;
    C->blocks--;
    /* close the gap */
    uint32_t j = i;
    for (;;) {
        j = (j + 1) & (SLOTS - 1);
        if (!tab[j].p) break;
        uint32_t k = h(tab[j].p);
        if (((j - k) & (SLOTS - 1)) >= ((j - i) & (SLOTS - 1))) {
            tab[i] = tab[j];
            i = j;
        }
    }
    tab[i].p = 0;
    give();
    return 1;
}
static int ours(void *ra) {
    int r = atomic_load_explicit(&nranges, memory_order_acquire);
    for (int k = 0; k < r; k++)
        if ((uintptr_t)ra >= lo[k] && (uintptr_t)ra < hi[k]) return 1;
    return 0;
}
#define OURS ours(__builtin_return_address(0))
void *malloc(size_t n) {
    void *p = __libc_malloc(n);
    if (OURS) note(p, n);
    return p;
}
void *calloc(size_t a, size_t b) {
    void *p = __libc_calloc(a, b);
    if (OURS) note(p, a * b);
    return p;
}
void *realloc(void *q, size_t n) {
    size_t old = 0;
    int was = drop(q, &old);
    void *p = __libc_realloc(q, n);
    if (p) {
        if (was || OURS) note(p, n);
    } else if (was && n) {
        note(q, old);
    }
    return p;
}
void *memalign(size_t a, size_t n) {
    void *p = __libc_memalign(a, n);
    if (OURS) note(p, n);
    return p;
}
void *aligned_alloc(size_t a, size_t n) {
    void *p = __libc_memalign(a, n);
    if (OURS) note(p, n);
    return p;
}
int posix_memalign(void **out, size_t a, size_t n) {
    void *p = __libc_memalign(a, n);
    if (!p) return 12;
    if (OURS) note(p, n);
    *out = p;
    return 0;
}
void free(void *p) {
    size_t n;
    drop(p, &n);
    __libc_free(p);
}
