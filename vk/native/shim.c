/* Helpers of the checks: dirty stack; allocation bookkeeping and injected
 * allocation failures (when preloaded). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <malloc.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

#ifndef NO_ALLOC
static void *(*real_malloc)(size_t);
static void *(*real_calloc)(size_t, size_t);
static void *(*real_realloc)(void *, size_t);
static void (*real_free)(void *);
static int (*real_posix_memalign)(void **, size_t, size_t);
static void *(*real_aligned_alloc)(size_t, size_t);

static char boot[65536];
static size_t boot_used;

static __thread int armed;
static __thread long countdown;
static __thread long seen;
static __thread long injected;
static __thread int persistent;
static long live_blocks, live_bytes;

static void init(void)
{
    if (real_free) return;
    real_malloc = dlsym(RTLD_NEXT, "malloc");
    real_calloc = dlsym(RTLD_NEXT, "calloc");
    real_realloc = dlsym(RTLD_NEXT, "realloc");
    real_posix_memalign = dlsym(RTLD_NEXT, "posix_memalign");
    real_aligned_alloc = dlsym(RTLD_NEXT, "aligned_alloc");
    real_free = dlsym(RTLD_NEXT, "free");
}

static void *boot_alloc(size_t size)
{
    void *out = boot + boot_used;
    boot_used += (size + 31) & ~(size_t)15;
    if (boot_used > sizeof(boot)) abort();
    return out;
}

static int is_boot(void *ptr)
{
    return (char *)ptr >= boot && (char *)ptr < boot + sizeof(boot);
}

/* address ranges of the Fortran runtime library, which terminates the process
 * when it gets no memory, and of the C library, which it calls */
static struct {char *low, *high;} skipped[16];
static int nskipped = -1;

static int find_skipped(struct dl_phdr_info *info, size_t size, void *data)
{
    if (!info->dlpi_name) return 0;
    if (!strstr(info->dlpi_name, "libgfortran") && !strstr(info->dlpi_name, "/libc.so")) return 0;
    for (int i = 0; i < info->dlpi_phnum && nskipped < 16; ++i) {
        if (info->dlpi_phdr[i].p_type != PT_LOAD) continue;
        char *low = (char *)info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
        skipped[nskipped].low = low;
        skipped[nskipped].high = low + info->dlpi_phdr[i].p_memsz;
        ++nskipped;
    }
    return 0;
}

static int is_skipped(char *caller)
{
    for (int i = 0; i < nskipped; ++i)
        if (caller >= skipped[i].low && caller < skipped[i].high) return 1;
    return 0;
}

#define CALLER ((char *)__builtin_return_address(0))

/* true if this allocation has to fail */
static int deny(char *caller)
{
    if (!armed || is_skipped(caller)) return 0;
    ++seen;
    if (countdown <= 0) return 0;
    if (--countdown == 0) {
        ++injected;
        if (persistent) countdown = 1;
        errno = ENOMEM;
        return 1;
    }
    return 0;
}

static void *added(void *ptr)
{
    if (ptr) {
        __atomic_add_fetch(&live_blocks, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&live_bytes, (long)malloc_usable_size(ptr), __ATOMIC_RELAXED);
    }
    return ptr;
}

static void removed(void *ptr)
{
    __atomic_sub_fetch(&live_blocks, 1, __ATOMIC_RELAXED);
    __atomic_sub_fetch(&live_bytes, (long)malloc_usable_size(ptr), __ATOMIC_RELAXED);
}

void *malloc(size_t size)
{
    if (!real_malloc) { init(); if (!real_malloc) return boot_alloc(size); }
    if (deny(CALLER)) return NULL;
    return added(real_malloc(size));
}

void *calloc(size_t num, size_t size)
{
    if (!real_calloc) {
        static int nested;
        if (nested) { void *p = boot_alloc(num*size); memset(p, 0, num*size); return p; }
        nested = 1; init(); nested = 0;
    }
    if (deny(CALLER)) return NULL;
    return added(real_calloc(num, size));
}

void *realloc(void *ptr, size_t size)
{
    if (!real_realloc) init();
    if (is_boot(ptr)) {
        void *out = malloc(size);
        if (out) memcpy(out, ptr, size);
        return out;
    }
    if (size && deny(CALLER)) return NULL;
    if (ptr) removed(ptr);
    void *out = real_realloc(ptr, size);
    if (out) added(out);
    else if (ptr && size) added(ptr);
    return out;
}

void free(void *ptr)
{
    if (!ptr || is_boot(ptr)) return;
    if (!real_free) init();
    removed(ptr);
    real_free(ptr);
}

int posix_memalign(void **out, size_t align, size_t size)
{
    if (!real_posix_memalign) init();
    if (deny(CALLER)) return ENOMEM;
    int rc = real_posix_memalign(out, align, size);
    if (!rc) added(*out);
    return rc;
}

void *aligned_alloc(size_t align, size_t size)
{
    if (!real_aligned_alloc) init();
    if (deny(CALLER)) return NULL;
    return added(real_aligned_alloc(align, size));
}

/* fail the count-th allocation of this thread (0 only counts them) */
void vk_arm(long count, int all_following)
{
    if (nskipped < 0) { nskipped = 0; dl_iterate_phdr(find_skipped, NULL); }
    seen = injected = 0;
    countdown = count;
    persistent = all_following;
    armed = 1;
}

/* returns the number of the allocations, negative if some have been denied */
long vk_disarm(void)
{
    armed = 0;
    return injected ? -seen : seen;
}

long vk_live_blocks(void) { return live_blocks; }
long vk_live_bytes(void) { return live_bytes; }
#endif

#ifdef NO_ALLOC
/* Call a Python object with the allocation failures armed strictly within the
 * call (to be used by ctypes.PyDLL with the preloaded bookkeeping). */
extern void vk_arm(long, int) __attribute__((weak));
extern long vk_disarm(void) __attribute__((weak));
void *PyObject_Call(void *, void *, void *) __attribute__((weak));

void *PyTuple_New(ssize_t) __attribute__((weak));
void *PyFloat_FromDouble(double) __attribute__((weak));
void Py_DecRef(void *) __attribute__((weak));

#define MAX_HELD 20000
static void *held[MAX_HELD];

/* use up the tuples and numbers kept by the interpreter for the reuse so that
 * new ones need to be allocated */
static int drain(void)
{
    int total = 0;
    for (int size = 0; size < 8; ++size) {
        long allocated = 0;
        while (!allocated && total < MAX_HELD) {
            vk_arm(0, 0);
            void *item = size ? PyTuple_New(size) : PyFloat_FromDouble(1.25);
            allocated = vk_disarm();
            if (!item) break;
            held[total++] = item;
        }
    }
    return total;
}

void *vk_call(void *func, void *args, long count, int all_following, long *number)
{
    int total = drain();
    vk_arm(count, all_following);
    void *out = PyObject_Call(func, args, NULL);
    *number = vk_disarm();
    while (total > 0) Py_DecRef(held[--total]);
    return out;
}
#endif

/* fill the unused part of the stack */
__attribute__((noinline)) void vk_dirty_stack(int value)
{
    volatile char area[200000];
    memset((char *)area, value, sizeof(area));
    __asm__ volatile("" :: "r"(area) : "memory");
}
