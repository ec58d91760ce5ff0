// Makes allocations of a program fail from the start of main() on.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
static long at = -1, mode, calls;
static volatile int on;
static int fails(void)
{
    if (!on) return 0;
    long k = __atomic_fetch_add(&calls, 1, __ATOMIC_SEQ_CST);
    int f = at >= 0 && (mode == 1 ? k >= at : k == at);
    if (f) errno = ENOMEM;
    return f;
}
void* malloc(size_t n) { return fails() ? 0 : __libc_malloc(n); }
void* calloc(size_t n, size_t m) { return fails() ? 0 : __libc_calloc(n, m); }
void* realloc(void* p, size_t n) { return fails() ? 0 : __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { return fails() ? 0 : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }
static int (*real_main)(int, char**, char**);
static int started(int c, char** v, char** e)
{
    on = 1;
    int r = real_main(c, v, e);
    on = 0;
    return r;
}
static void report(void)
{
    const char* f = getenv("FAIL_COUNT");
    on = 0;
    if (!f) return;
    char b[32];
    int n = snprintf(b, sizeof b, "%ld", calls), fd = open(f, O_WRONLY | O_TRUNC);
    if (fd >= 0) { if (write(fd, b, n)) {} close(fd); }
}
int __libc_start_main(int (*m)(int, char**, char**), int c, char** v, void (*i)(void), void (*f)(void), void (*r)(void), void* s)
{
    int (*start)(int (*)(int, char**, char**), int, char**, void (*)(void), void (*)(void), void (*)(void), void*) = dlsym(RTLD_NEXT, "__libc_start_main");
    real_main = m;
    if (getenv("FAIL_AT")) at = atol(getenv("FAIL_AT"));
    if (getenv("FAIL_MODE")) mode = atol(getenv("FAIL_MODE"));
    atexit(report);
    return start(started, c, v, i, f, r, s);
}
