/* Preloaded into the driver of C27: allocations fail on demand, only on the calling thread and only during one call
 * of the library; allocations and releases during that call are counted. */
#define _GNU_SOURCE
#include <errno.h>
#include <stddef.h>
#include <stdint.h>

extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
extern void __libc_free(void*);

static __thread struct { int on, from, to, tried, failed, got, freed; } oom __attribute__((tls_model("initial-exec")));

static int
refuse(void) {
    if (!oom.on) return 0;
    oom.tried++;
    if (oom.tried >= oom.from && oom.tried <= oom.to) { oom.failed++; errno = ENOMEM; return 1; }
    oom.got++;
    return 0;
}

void* malloc(size_t n) { return refuse() ? NULL : __libc_malloc(n); }
void* calloc(size_t n, size_t m) { return refuse() ? NULL : __libc_calloc(n, m); }
void* memalign(size_t a, size_t n) { return refuse() ? NULL : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int
posix_memalign(void** p, size_t a, size_t n) {
    void* q = memalign(a, n);
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}
void
free(void* p) {
    if (p && oom.on) oom.freed++;
    __libc_free(p);
}
void*
realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (n == 0) { free(p); return NULL; }
    if (!oom.on) return __libc_realloc(p, n);
    if (refuse()) return NULL;
    oom.freed++;
    return __libc_realloc(p, n);
}

/* One call of a library function: kind 10 = a frame, 9 = parameter bits, 4 = a synthesis step, 1 = one argument.
 * The from-th to to-th allocations it attempts fail. out: attempts, failures, blocks obtained, blocks released. */
void
oom_call(int kind, void* f, void** a, int from, int to, int* out) {
    oom.from = from; oom.to = to; oom.tried = oom.failed = oom.got = oom.freed = 0;
    oom.on = 1;
    switch (kind) {
        case 10: ((void (*)(void*, void*, void*, void*, void*, void*, void*, void*, void*, int))f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], 3); break;
        case 9: ((void (*)(void*, void*, void*, void*, void*, void*, void*, void*, int))f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], 3); break;
        case 4: ((void (*)(void*, void*, void*, int))f)(a[0], a[1], a[2], 3); break;
        default: ((void (*)(void*))f)(a[0]); break;
    }
    oom.on = 0;
    out[0] = oom.tried; out[1] = oom.failed; out[2] = oom.got; out[3] = oom.freed;
}
