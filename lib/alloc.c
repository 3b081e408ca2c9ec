#define _GNU_SOURCE
#include "alloc.h"
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <stdlib.h>
#include <dlfcn.h>
static int armed, any, injected; static long fail_at, count; static size_t maxb;
static int eligible_fail(size_t n)
{
    if (!armed) return 0;
    if (maxb && n > maxb) { return 1; }
    count++;
    if (fail_at && count == fail_at) { injected = 1; return 1; }
    return 0;
}
void al_max(size_t b){ maxb = b; }
void al_any(int a){ any = a; }
long al_count(void){ return count; }
int al_failed(void){ return injected; }
void al_pause(void){ armed = 0; }
void al_resume(void){ armed = 1; }
#ifdef __SANITIZE_ADDRESS__
extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void*, size_t), *__real_strdup(const char*);
extern int __real_posix_memalign(void**, size_t, size_t);
void *__wrap_malloc(size_t n){ if (eligible_fail(n)) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b){ if (eligible_fail(a*b)) { errno = ENOMEM; return NULL; } return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n){ if (eligible_fail(n)) { errno = ENOMEM; return NULL; } return __real_realloc(p, n); }
void *__wrap_strdup(const char *s){ if (eligible_fail(strlen(s)+1)) { errno = ENOMEM; return NULL; } return __real_strdup(s); }
int __wrap_posix_memalign(void **p, size_t a, size_t n){ if (eligible_fail(n)) return ENOMEM; return __real_posix_memalign(p, a, n); }
void al_begin(long f){ fail_at = f; count = 0; injected = 0; armed = 1; }
long al_end(void){ armed = 0; fail_at = 0; maxb = 0; return -1; }
size_t al_size(const void *p){ return 0; }
size_t al_room(const void *p){ return 0; }
#else
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void*, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void*);
extern char __executable_start, etext;
#define TS (1u << 13)
static struct { void *p; size_t n; } tab[TS]; static long live; static int overflow;
static unsigned hs(const void *p){ uint64_t x = (uintptr_t) p >> 4; x *= 0x9e3779b97f4a7c15ull; return x >> 48; }
static void put(void *p, size_t n)
{
    if (!armed || !p) return;
    if (live > TS / 2) { overflow = 1; return; }
    unsigned i = hs(p) & (TS - 1); while (tab[i].p) i = (i + 1) & (TS - 1);
    tab[i].p = p; tab[i].n = n; live++;
}
static int find(const void *p){ for (unsigned i = hs(p) & (TS - 1); tab[i].p; i = (i + 1) & (TS - 1)) if (tab[i].p == p) return i; return -1; }
static size_t drop(void *p)
{
    if (!live || !p) return 0;
    int i = find(p); if (i < 0) return 0;
    size_t n = tab[i].n; live--;
    /* backward-shift deletion */
    unsigned j = i, k = i;
    for (;;) {
        tab[j].p = NULL;
        for (;;) {
            k = (k + 1) & (TS - 1);
            if (!tab[k].p) return n;
            unsigned h = hs(tab[k].p) & (TS - 1);
            if (j <= k ? (j < h && h <= k) : (j < h || h <= k)) continue;
            break;
        }
        tab[j] = tab[k]; j = k;
    }
}
static int mine(void *ra){ return any || ((char*) ra >= &__executable_start && (char*) ra < &etext); }
#define RA __builtin_return_address(0)
void *malloc(size_t n){ if (armed && mine(RA) && eligible_fail(n)) { errno = ENOMEM; return NULL; } void *p = __libc_malloc(n); if (armed && p) { memset(p, 0xA5, n); put(p, n); } return p; }
void *calloc(size_t a, size_t b){ if (armed && mine(RA) && eligible_fail(a * b)) { errno = ENOMEM; return NULL; } void *p = __libc_calloc(a, b); put(p, a * b); return p; }
void *realloc(void *q, size_t n){ if (armed && mine(RA) && eligible_fail(n)) { errno = ENOMEM; return NULL; } size_t had = drop(q); void *p = __libc_realloc(q, n); if (p) { if (had || armed) put(p, n); } else if (had && n) put(q, had); return p; }
static int pma(void **p, size_t a, size_t n){ void *q = __libc_memalign(a, n); if (!q) return ENOMEM; *p = q; if (armed) { memset(q, 0xA5, n < (64u << 20) ? n : 64); put(q, n); } return 0; }
int posix_memalign(void **p, size_t a, size_t n){ if (armed && mine(RA) && eligible_fail(n)) return ENOMEM; return pma(p, a, n); }
void *aligned_alloc(size_t a, size_t n){ void *p = NULL; if (armed && mine(RA) && eligible_fail(n)) { errno = ENOMEM; return NULL; } return pma(&p, a, n) ? NULL : p; }
void *memalign(size_t a, size_t n){ void *p = NULL; if (armed && mine(RA) && eligible_fail(n)) { errno = ENOMEM; return NULL; } return pma(&p, a, n) ? NULL : p; }
void free(void *p){ if (!p) return; int e = errno; size_t n = drop(p); if (n && n < (64u << 20)) memset(p, 0xDD, n); __libc_free(p); errno = e; }
void al_begin(long f){ memset(tab, 0, sizeof tab); live = 0; overflow = 0; fail_at = f; count = 0; injected = 0; armed = 1; }
long al_end(void){ fail_at = 0; maxb = 0; dlerror(); dlerror(); armed = 0; long l = overflow ? -1 : live; if (live) memset(tab, 0, sizeof tab); live = 0; return l; }
size_t al_size(const void *p){ int i = p ? find(p) : -1; return i < 0 ? 0 : tab[i].n; }
size_t al_room(const void *p)
{
    int i = p ? find(p) : -1; if (i >= 0) return tab[i].n;
    if (p) for (unsigned k = 0; k < TS; k++) if (tab[k].p && (const char*) p > (const char*) tab[k].p && (const char*) p < (const char*) tab[k].p + tab[k].n) return (const char*) tab[k].p + tab[k].n - (const char*) p;
    return 0;
}
#endif
