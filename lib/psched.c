#define _GNU_SOURCE
#include "psched.h"
#include "mc.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <dlfcn.h>
extern void *__real_memset(void*, int, size_t), *__real_memcpy(void*, const void*, size_t), *__real_memmove(void*, const void*, size_t);
extern int __real_memcmp(const void*, const void*, size_t), __real_strcmp(const char*, const char*), __real_strncmp(const char*, const char*, size_t), __real_vsnprintf(char*, size_t, const char*, va_list);
extern char *__real_strcpy(char*, const char*), *__real_strncpy(char*, const char*, size_t), *__real_strcat(char*, const char*), *__real_strchr(const char*, int), *__real_strrchr(const char*, int), *__real_strdup(const char*), *__real_strtok(char*, const char*); extern size_t __real_strlen(const char*);
extern int __real_snprintf(char*, size_t, const char*, ...);
#define memset __real_memset   /* the scheduler's own memory is nobody's business */
#define memcpy __real_memcpy
#define strncmp __real_strncmp
#define snprintf __real_snprintf
#include <fcntl.h>

enum { NT = 24 };
typedef struct team team_t;
typedef struct ws { long next, end, incr, chunk; int users; bool up; bool taken; } ws_t;
struct team { int n, arrived, left; struct thr *parent; struct thr *m[NT]; ws_t ws[64]; int nws; uint32_t vc[NT]; int level; team_t *outer; };
typedef enum { IDLE, RUN, PEND, BLOCK, JOIN } st_t;
typedef struct thr { pthread_t os; sem_t sem; st_t st; const void *lock; void (*fn)(void*); void *arg; team_t *team; int num; int wsi; uint32_t vc[NT], died; bool made; ws_t *cur; int op; } thr_t;
static thr_t T[NT]; static pid_t owner; static __thread thr_t *self; static int nthr; static bool active;
static int team_size = 1, nested_size = 1; static long steps, choices, regions, accesses; static unsigned long order;
static char race[700]; static pthread_mutex_t dummy;
extern char __executable_start;

/* ---- memory ---- */
typedef struct { uint32_t wclk; uint8_t wtid; uint16_t pad; uint32_t r[NT]; } cell_t;
typedef struct { uintptr_t page; uint32_t gen; cell_t *c; } page_t;
enum { PB = 64, NP = 1 << 16 };
static page_t tab[NP]; static uint32_t gen; static struct { const char *p; unsigned long n; const char *name; } names[64]; static int nnames;
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void*, size_t), *__libc_memalign(size_t, size_t); extern void __libc_free(void*);
static cell_t *cell(uintptr_t a, bool make)
{
    static page_t *last; uintptr_t pg = a / PB; if (last && last->page == pg && last->gen == gen) return &last->c[a % PB];
    uint32_t h = (uint32_t)((pg * 0x9e3779b97f4a7c15ull) >> 40) & (NP - 1);
    for (uint32_t k = 0; k < NP; k++, h = (h + 1) & (NP - 1)) {
        page_t *p = &tab[h];
        if (p->gen == gen && p->page == pg) { last = p; return &p->c[a % PB]; }
        if (p->gen != gen) { if (!make) return NULL; if (!p->c) p->c = __libc_malloc(PB * sizeof(cell_t)); memset(p->c, 0, PB * sizeof(cell_t)); p->page = pg; p->gen = gen; last = p; return &p->c[a % PB]; }
    }
    fprintf(stderr, "sched: shadow memory full\n"); _exit(70);
}
static struct { uintptr_t a; char name[160]; } files[32]; static int nfiles;
static void report(uintptr_t a, const char *what, int other, void *pc)
{
    if (race[0]) return; char where[200]; Dl_info d; const char *sy = dladdr(pc, &d) && d.dli_sname ? d.dli_sname : "?";
    snprintf(where, sizeof where, "address %#lx", (unsigned long) a); for (int i = 0; i < nnames; i++) if ((const char*) a >= names[i].p && (const char*) a < names[i].p + names[i].n) snprintf(where, sizeof where, "%s, byte %ld", names[i].name, (long)((const char*) a - names[i].p));
    for (int i = 0; i < nfiles; i++) if (a == files[i].a) snprintf(where, sizeof where, "the file %s", files[i].name);
    if (!strncmp(where, "address", 7) && dladdr((void*) a, &d) && d.dli_sname) snprintf(where, sizeof where, "global %s", d.dli_sname);
    snprintf(race, sizeof race, "%s: thread %d %s what thread %d %s at the same time (near %s, +%#lx)", where, (int)(self - T), what[0] == 'r' ? "reads" : "writes", other, what[1] == 'r' ? "reads" : "writes", sy, (unsigned long)((char*) pc - &__executable_start));
}
static void access_(const void *p, size_t n, bool wr, void *pc)
{
    if (!active || !self) return; accesses++; thr_t *s = self; int me = s - T; uint32_t clk = s->vc[me];
    for (uintptr_t a = (uintptr_t) p, e = a + n; a < e; a++) {
        cell_t *c = cell(a, true);
        if (c->wclk && c->wtid != me && c->wclk > s->vc[c->wtid]) report(a, wr ? "ww" : "rw", c->wtid, pc);
        if (wr) { for (int u = 0; u < nthr; u++) if (u != me && c->r[u] > s->vc[u]) report(a, "wr", u, pc); c->wtid = me; c->wclk = clk; } else c->r[me] = clk;
    }
}
static void fresh_memory(void *p, size_t n){ if (!active || !p) return; for (uintptr_t a = (uintptr_t) p, e = a + n; a < e; ) { cell_t *c = cell(a, false); if (c) { c->wclk = 0; memset(c->r, 0, sizeof c->r); a++; } else a = (a / PB + 1) * PB; } }
void sched_read(const void *p, unsigned long n){ access_(p, n, false, __builtin_return_address(0)); }
void sched_write(void *p, unsigned long n){ access_(p, n, true, __builtin_return_address(0)); }
void sched_name(const void *p, unsigned long n, const char *name){ if (nnames < 64) { names[nnames].p = p; names[nnames].n = n; names[nnames++].name = name; } }
#define RA __builtin_return_address(0)
void __tsan_init(void){}
void __tsan_func_entry(void *p){} void __tsan_func_exit(void){}
#define A(n) void __tsan_read##n(void *p){ access_(p, n, false, RA); } void __tsan_write##n(void *p){ access_(p, n, true, RA); } \
    void __tsan_unaligned_read##n(void *p){ access_(p, n, false, RA); } void __tsan_unaligned_write##n(void *p){ access_(p, n, true, RA); } \
    void __tsan_volatile_read##n(void *p){ access_(p, n, false, RA); } void __tsan_volatile_write##n(void *p){ access_(p, n, true, RA); } \
    void __tsan_unaligned_volatile_read##n(void *p){ access_(p, n, false, RA); } void __tsan_unaligned_volatile_write##n(void *p){ access_(p, n, true, RA); } \
    void __tsan_read_write##n(void *p){ access_(p, n, true, RA); } void __tsan_unaligned_read_write##n(void *p){ access_(p, n, true, RA); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *p, size_t n){ access_(p, n, false, RA); } void __tsan_write_range(void *p, size_t n){ access_(p, n, true, RA); }
void __tsan_vptr_update(void **a, void *b){} void __tsan_vptr_read(void **a){}
/* allocator: new memory has no history; releasing memory is a write */
void *malloc(size_t n){ void *p = __libc_malloc(n); fresh_memory(p, n); return p; }
void *calloc(size_t a, size_t b){ void *p = __libc_calloc(a, b); fresh_memory(p, a * b); return p; }
extern size_t malloc_usable_size(void*);
static void released(void *p, void *pc){ if (!p || !active || !self) return; uintptr_t a = (uintptr_t) p, e = a + malloc_usable_size(p); while (a < e) { if (cell(a, false)) { uintptr_t q = (a / PB + 1) * PB; if (q > e) q = e; access_((void*) a, q - a, true, pc); a = q; } else a = (a / PB + 1) * PB; } }
void free(void *p){ released(p, RA); __libc_free(p); }
void *realloc(void *p, size_t n){ released(p, RA); void *q = __libc_realloc(p, n); fresh_memory(q, n); return q; }
int posix_memalign(void **o, size_t al, size_t n){ void *p = __libc_memalign(al, n); if (!p) return ENOMEM; fresh_memory(p, n); *o = p; return 0; }
void *memalign(size_t al, size_t n){ void *p = __libc_memalign(al, n); fresh_memory(p, n); return p; }
void *aligned_alloc(size_t al, size_t n){ return memalign(al, n); }
/* libc functions through which the library touches memory (linked with --wrap) */
#define R(p, n) access_(p, n, false, RA)
#define Wr(p, n) access_(p, n, true, RA)
void *__wrap_memset(void *d, int c, size_t n){ Wr(d, n); return __real_memset(d, c, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n){ R(s, n); Wr(d, n); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n){ R(s, n); Wr(d, n); return __real_memmove(d, s, n); }
int __wrap_memcmp(const void *d, const void *s, size_t n){ R(s, n); R(d, n); return __real_memcmp(d, s, n); }
size_t __wrap_strlen(const char *s){ size_t n = __real_strlen(s); R(s, n + 1); return n; }
int __wrap_strcmp(const char *a, const char *b){ size_t i = 0; while (a[i] && a[i] == b[i]) i++; R(a, i + 1); R(b, i + 1); return __real_strcmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t n){ size_t i = 0; while (i < n && a[i] && a[i] == b[i]) i++; if (i < n) i++; R(a, i); R(b, i); return __real_strncmp(a, b, n); }
char *__wrap_strcpy(char *d, const char *s){ size_t n = __real_strlen(s) + 1; R(s, n); Wr(d, n); return __real_strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n){ R(s, strnlen(s, n)); Wr(d, n); return __real_strncpy(d, s, n); }
char *__wrap_strcat(char *d, const char *s){ size_t n = __real_strlen(s) + 1, m = __real_strlen(d); R(s, n); R(d, m + 1); Wr(d + m, n); return __real_strcat(d, s); }
char *__wrap_strchr(const char *s, int c){ R(s, __real_strlen(s) + 1); return __real_strchr(s, c); }
char *__wrap_strrchr(const char *s, int c){ R(s, __real_strlen(s) + 1); return __real_strrchr(s, c); }
char *__wrap_strdup(const char *s){ size_t n = __real_strlen(s) + 1; R(s, n); char *d = malloc(n); if (d) __real_memcpy(d, s, n); return d; }
static char tok_state; char *__wrap_strtok(char *s, const char *d){ Wr(&tok_state, 1); return __real_strtok(s, d); }
static int vsn(char *d, size_t n, const char *f, va_list ap, void *pc){ int k = __real_vsnprintf(d, n, f, ap); if (d && n) access_(d, k < 0 ? 1 : (size_t) k + 1 < n ? (size_t) k + 1 : n, true, pc); return k; }
int __wrap_vsnprintf(char *d, size_t n, const char *f, va_list ap){ return vsn(d, n, f, ap, RA); }
int __wrap_vsprintf(char *d, const char *f, va_list ap){ return vsn(d, 1 << 30, f, ap, RA); }
int __wrap_snprintf(char *d, size_t n, const char *f, ...){ va_list ap; va_start(ap, f); int k = vsn(d, n, f, ap, RA); va_end(ap); return k; }
int __wrap_sprintf(char *d, const char *f, ...){ va_list ap; va_start(ap, f); int k = vsn(d, 1 << 30, f, ap, RA); va_end(ap); return k; }
/* a file is shared memory of one byte: opening it for writing, renaming and removing it write it, opening it for reading reads it */
static void file_(const char *path, bool wr, void *pc)
{
    if (!active || !self || !path || !strncmp(path, "/dev/", 5) || !strncmp(path, "/proc/", 6)) return;
    uintptr_t h = 1469598103934665603ull; for (const char *p = path; *p; p++) h = (h ^ (unsigned char) *p) * 1099511628211ull; h = h >> 20 | 1ull << 62; int i = 0; while (i < nfiles && files[i].a != h) i++;
    if (i == nfiles && nfiles < 32) { files[nfiles].a = h; snprintf(files[nfiles++].name, 160, "%s", path); }
    access_((void*) h, 1, wr, pc);
}
#define OPEN(f) extern int __real_##f(const char*, int, ...); int __wrap_##f(const char *p, int fl, ...){ va_list ap; va_start(ap, fl); int m = fl & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0; va_end(ap); file_(p, (fl & O_ACCMODE) != O_RDONLY || fl & (O_CREAT | O_TRUNC), RA); return __real_##f(p, fl, m); }
OPEN(open) OPEN(open64)
#define FOPEN(f) extern FILE *__real_##f(const char*, const char*); FILE *__wrap_##f(const char *p, const char *m){ file_(p, m && (*m != 'r' || (m[0] && (m[1] == '+' || (m[1] && m[2] == '+')))), RA); return __real_##f(p, m); }
FOPEN(fopen) FOPEN(fopen64)
#define DROP(f) extern int __real_##f(const char*); int __wrap_##f(const char *p){ file_(p, true, RA); return __real_##f(p); }
DROP(unlink) DROP(remove)
extern int __real_rename(const char*, const char*); int __wrap_rename(const char *a, const char *b){ file_(a, true, RA); file_(b, true, RA); return __real_rename(a, b); }
extern void *__real_zip_open(const char*, int, int*); void *__wrap_zip_open(const char *p, int fl, int *e){ file_(p, fl & 9 /* CREATE, TRUNCATE */, RA); return __real_zip_open(p, fl, e); }
#ifdef USE_CBLAS
#include <cblas.h>
typedef typeof(&cblas_sgemm) sgemm_t; extern typeof(cblas_sgemm) __real_cblas_sgemm;
void __wrap_cblas_sgemm(const enum CBLAS_ORDER o, const enum CBLAS_TRANSPOSE ta, const enum CBLAS_TRANSPOSE tb, const blasint M, const blasint N, const blasint K, const float al, const float *A_, const blasint lda, const float *B_, const blasint ldb, const float be, float *C, const blasint ldc)
{ for (int i = 0; i < M; i++) { R(A_ + (size_t) i * lda, 4 * K); Wr(C + (size_t) i * ldc, 4 * N); } for (int k = 0; k < K; k++) R(B_ + (size_t) k * ldb, 4 * N); __real_cblas_sgemm(o, ta, tb, M, N, K, al, A_, lda, B_, ldb, be, C, ldc); }
#endif

/* ---- scheduling ---- */
typedef struct { const void *p; thr_t *held; uint32_t vc[NT]; int depth; } lock_t; static lock_t locks[128]; static int nlocks;
static lock_t *lk(const void *p){ for (int i = 0; i < nlocks; i++) if (locks[i].p == p) return &locks[i]; if (nlocks == 128) { fprintf(stderr, "sched: too many locks\n"); _exit(70); } lock_t *l = &locks[nlocks++]; memset(l, 0, sizeof *l); l->p = p; return l; }
static void join_vc(uint32_t *a, const uint32_t *b){ for (int i = 0; i < NT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void hb_release(uint32_t *l, thr_t *t){ join_vc(l, t->vc); t->vc[t - T]++; }
static void wait_turn(thr_t *me){ while (sem_wait(&me->sem)) if (errno != EINTR) abort(); }
static void switch_to(thr_t *me, thr_t *to){ if (me == to) return; sem_post(&to->sem); wait_turn(me); }
static bool enabled(thr_t *t){ return t->st == PEND && (!t->lock || !lk(t->lock)->held); }
static void deadlock(void)
{
    fprintf(stderr, "ERROR: deadlock: no thread can go on:"); for (int i = 0; i < nthr; i++) if (T[i].st != IDLE) fprintf(stderr, " thread %d %s;", i, T[i].st == PEND ? "waits for a lock" : T[i].st == BLOCK ? "waits at a barrier" : "waits for its team"); fprintf(stderr, "\n"); abort();
}
static thr_t *pick(void)
{
    for (int i = 0; i < nthr; i++) if (T[i].st == RUN) return &T[i];
    thr_t *e[NT]; int n = 0; for (int i = 0; i < nthr; i++) if (enabled(&T[i])) e[n++] = &T[i];
    if (!n) deadlock(); steps++; if (n > 1) choices++;
    bool was = active; active = false; thr_t *t = e[n > 1 ? mc_choose(n) : 0]; active = was; t->st = RUN; order = order * 1000003ul + (t - T) * 31 + t->op + 1; return t;
}
/* the calling thread is about to synchronise */
static void visible(const void *lock, int op){ thr_t *me = self; me->lock = lock; me->op = op; me->st = PEND; switch_to(me, pick()); me->lock = NULL; }
static void blocked(st_t st){ thr_t *me = self; me->st = st; switch_to(me, pick()); }
static void *os_main(void *a)
{
    self = a;
    for (;;) {
        wait_turn(self); self->fn(self->arg);
        thr_t *me = self; team_t *tm = me->team; me->died = me->vc[me - T]; join_vc(tm->vc, me->vc); me->st = IDLE; if (--tm->left == 0 && tm->parent->st == JOIN) tm->parent->st = RUN;
        thr_t *nx = pick(); sem_post(&nx->sem);
    }
    return NULL;
}
static void init_process(void)
{
    if (owner == getpid()) return; owner = getpid(); for (int i = 0; i < NT; i++) { memset(&T[i], 0, sizeof T[i]); sem_init(&T[i].sem, 0, 0); } self = &T[0]; T[0].made = true; nthr = 1;
}
static thr_t *new_thread(thr_t *parent, team_t *tm, int num, void (*fn)(void*), void *arg)
{
    thr_t *t = NULL; for (int i = 1; i < NT && !t; i++) if (T[i].st == IDLE && T[i].died <= parent->vc[i]) t = &T[i];
    if (!t) { fprintf(stderr, "sched: too many threads\n"); _exit(70); }
    if (t - T >= nthr) nthr = t - T + 1;
    if (!t->made) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20); t->made = true; bool was = active; active = false; if (pthread_create(&t->os, &at, os_main, t)) { perror("pthread_create"); _exit(70); } active = was; }
    uint32_t own = t->vc[t - T]; memcpy(t->vc, parent->vc, sizeof t->vc); if (own > t->vc[t - T]) t->vc[t - T] = own; t->vc[t - T]++;
    t->fn = fn; t->arg = arg; t->team = tm; t->num = num; t->wsi = 0; t->cur = NULL; t->st = RUN; return t;
}
static void region(void (*fn)(void*), void *data, int n, bool caller_takes_part, ws_t *first)
{
    thr_t *me = self; team_t tm; memset(&tm, 0, sizeof tm); tm.n = n; tm.parent = me; tm.outer = me->team; tm.level = me->team ? me->team->level + 1 : 1; int onum = me->num, owsi = me->wsi; ws_t *ocur = me->cur;
    if (first) { tm.ws[0] = *first; tm.nws = 1; }
    if (n > 1) regions++; tm.left = caller_takes_part ? n - 1 : n; thr_t *ch[NT];
    for (int i = caller_takes_part ? 1 : 0; i < n; i++) { ch[i] = new_thread(me, &tm, i, fn, caller_takes_part ? data : (void*)(long) i); if (first) { ch[i]->wsi = 1; ch[i]->cur = &tm.ws[0]; } }
    me->vc[me - T]++;
    if (caller_takes_part) { me->team = &tm; me->num = 0; me->wsi = first ? 1 : 0; me->cur = first ? &tm.ws[0] : NULL; fn(data); }
    if (tm.left) blocked(JOIN); join_vc(me->vc, tm.vc); me->team = tm.outer; me->num = onum; me->wsi = owsi; me->cur = ocur;
}
void sched_begin(int team, int nested){ init_process(); active = false; gen++; if (!gen) { memset(tab, 0, sizeof tab); gen = 1; } nthr = 1; nlocks = 0; nnames = 0; nfiles = 0; race[0] = 0; steps = choices = regions = accesses = 0; order = 7; team_size = team; nested_size = nested; for (int i = 0; i < NT; i++) { memset(T[i].vc, 0, sizeof T[i].vc); T[i].vc[i] = 1; T[i].died = 0; T[i].st = IDLE; T[i].team = NULL; } T[0].st = RUN; T[0].num = 0; self = &T[0]; active = true; }
const char *sched_end(void){ active = false; return race[0] ? race : NULL; }
static void (*run_fn)(int);
long sched_steps(void){ return steps; } long sched_choices(void){ return choices; } long sched_regions(void){ return regions; } long sched_accesses(void){ return accesses; } unsigned long sched_order(void){ return order; } int sched_team(void){ return team_size; }
static void caller(void *a);
void sched_run(int n, void (*fn)(int)){ run_fn = fn; region(caller, NULL, n, false, NULL); }
static void caller(void *a){ team_t *tm = self->team; self->team = NULL; run_fn((int)(long) a); self->team = tm; }

/* ---- OpenMP ---- */
static int size_for(unsigned req){ int lv = self->team ? self->team->level : 0, n = req ? (int) req : lv ? nested_size : team_size; if (lv && !req) n = nested_size; if (lv && req > (unsigned) nested_size) n = nested_size; return n < 1 ? 1 : n > 8 ? 8 : n; }
static bool on(void){ return active && self; }
void GOMP_parallel(void (*fn)(void*), void *data, unsigned nt, unsigned flags){ if (!on()) { fn(data); return; } region(fn, data, size_for(nt), true, NULL); }
static void barrier(void)
{
    thr_t *me = self; team_t *tm = me->team; if (!tm || tm->n == 1) return; join_vc(tm->vc, me->vc); tm->m[me->num] = me;
    if (++tm->arrived < tm->n) { blocked(BLOCK); join_vc(me->vc, tm->vc); me->vc[me - T]++; return; }
    tm->arrived = 0; for (int i = 0; i < tm->n; i++) if (tm->m[i] != me) tm->m[i]->st = RUN; join_vc(me->vc, tm->vc); me->vc[me - T]++;
}
void GOMP_barrier(void){ if (on()) barrier(); }
bool GOMP_barrier_cancel(void){ if (on()) barrier(); return false; }
static void lock(const void *p){ if (!on()) return; visible(p, 1); lock_t *l = lk(p); l->held = self; join_vc(self->vc, l->vc); }
static void unlock(const void *p){ if (!on()) return; lock_t *l = lk(p); l->held = NULL; hb_release(l->vc, self); }
static char l_crit, l_atomic;
void GOMP_critical_start(void){ lock(&l_crit); } void GOMP_critical_end(void){ unlock(&l_crit); }
void GOMP_critical_name_start(void **p){ lock(p); } void GOMP_critical_name_end(void **p){ unlock(p); }
void GOMP_atomic_start(void){ lock(&l_atomic); } void GOMP_atomic_end(void){ unlock(&l_atomic); }
/* shared work: every thread meets the constructs in the same order */
static ws_t solo;
static ws_t *enter(long s, long e, long incr, long chunk)
{
    team_t *tm = on() ? self->team : NULL; ws_t *w;
    if (!tm) { w = &solo; *w = (ws_t){ s, e, incr, chunk < 1 ? 1 : chunk }; if (on()) self->cur = w; return w; }
    int i = self->wsi++; if (i >= 64) i = self->wsi = 0, self->wsi++, memset(tm->ws, 0, sizeof tm->ws), tm->nws = 0;
    w = &tm->ws[i]; if (i >= tm->nws) { tm->nws = i + 1; *w = (ws_t){ s, e, incr, chunk < 1 ? 1 : chunk }; } self->cur = w; return w;
}
static ws_t *current(void){ return on() && self->cur ? self->cur : &solo; }
static bool more(ws_t *w, long *a, long *b)
{
    if (on() && self->team && self->team->n > 1) visible(NULL, 2);
    if (w->incr >= 0 ? w->next >= w->end : w->next <= w->end) return false;
    long n = w->next + w->incr * w->chunk; if (w->incr >= 0 ? n > w->end : n < w->end) n = w->end; *a = w->next; *b = n; w->next = n; return true;
}
#define LOOP(k) bool GOMP_loop_##k##_start(long s, long e, long i, long c, long *a, long *b){ return more(enter(s, e, i, c), a, b); } \
    bool GOMP_loop_##k##_next(long *a, long *b){ return more(current(), a, b); } \
    void GOMP_parallel_loop_##k(void (*fn)(void*), void *d, unsigned nt, long s, long e, long i, long c, unsigned fl){ ws_t w = { s, e, i, c < 1 ? 1 : c }; if (!on()) { solo = w; fn(d); return; } region(fn, d, size_for(nt), true, &w); } \
    bool GOMP_loop_ull_##k##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b){ return more(enter(s, e, i, c), (long*) a, (long*) b); } \
    bool GOMP_loop_ull_##k##_next(unsigned long long *a, unsigned long long *b){ return more(current(), (long*) a, (long*) b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(k) bool GOMP_loop_##k##_start(long s, long e, long i, long *a, long *b){ return more(enter(s, e, i, 1), a, b); } bool GOMP_loop_##k##_next(long *a, long *b){ return more(current(), a, b); } \
    void GOMP_parallel_loop_##k(void (*fn)(void*), void *d, unsigned nt, long s, long e, long i, unsigned fl){ ws_t w = { s, e, i, 1 }; if (!on()) { solo = w; fn(d); return; } region(fn, d, size_for(nt), true, &w); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void){ if (on()) barrier(); } void GOMP_loop_end_nowait(void){} bool GOMP_loop_end_cancel(void){ if (on()) barrier(); return false; }
unsigned GOMP_sections_next(void){ long a, b; return more(current(), &a, &b) ? a : 0; }
unsigned GOMP_sections_start(unsigned n){ enter(1, n + 1, 1, 1); return GOMP_sections_next(); }
void GOMP_sections_end(void){ if (on()) barrier(); } void GOMP_sections_end_nowait(void){} bool GOMP_sections_end_cancel(void){ if (on()) barrier(); return false; }
void GOMP_parallel_sections(void (*fn)(void*), void *d, unsigned nt, unsigned count, unsigned fl){ ws_t w = { 1, count + 1, 1, 1 }; if (!on()) { solo = w; fn(d); return; } region(fn, d, size_for(nt), true, &w); }
bool GOMP_single_start(void){ if (!on() || !self->team) return true; ws_t *w = enter(0, 1, 1, 1); long a, b; return more(w, &a, &b); }
void GOMP_task(void (*fn)(void*), void *data, void (*cpy)(void*, void*), long size, long al, bool c, unsigned fl, void **dep, int pr, void *det)
{ if (cpy) { char buf[size + al]; char *arg = (char*)(((uintptr_t) buf + al - 1) & ~(uintptr_t)(al - 1)); cpy(arg, data); fn(arg); } else fn(data); }
void GOMP_taskwait(void){} void GOMP_taskyield(void){} void GOMP_taskgroup_start(void){} void GOMP_taskgroup_end(void){}
int omp_get_num_threads(void){ return on() && self->team ? self->team->n : 1; } int omp_get_thread_num(void){ return on() && self->team ? self->num : 0; }
int omp_get_max_threads(void){ return on() && self->team ? nested_size : team_size; } int omp_get_num_procs(void){ return team_size > 1 ? team_size - 1 : 1; } int omp_in_parallel(void){ return on() && self->team && self->team->n > 1; }
int omp_get_thread_limit(void){ return 8; } int omp_get_dynamic(void){ return 0; } void omp_set_dynamic(int d){} void omp_set_nested(int d){} int omp_get_level(void){ return on() && self->team ? self->team->level : 0; } int omp_get_active_level(void){ return omp_in_parallel(); }
void omp_set_num_threads(int n){ if (n > 0 && n <= 8) team_size = n; } double omp_get_wtime(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void omp_init_lock(void *l){} void omp_destroy_lock(void *l){} void omp_set_lock(void *l){ lock(l); } void omp_unset_lock(void *l){ unlock(l); } int omp_test_lock(void *l){ if (!on()) return 1; visible(NULL, 3); lock_t *k = lk(l); if (k->held) return 0; k->held = self; join_vc(self->vc, k->vc); return 1; }
int __wrap_pthread_mutex_lock(void *m){ lock(m); return 0; } int __wrap_pthread_mutex_unlock(void *m){ unlock(m); return 0; } int __wrap_pthread_mutex_trylock(void *m){ return omp_test_lock(m) ? 0 : EBUSY; }
/* atomics: synchronise through the address */
static void at_begin(const volatile void *p){ if (!on()) return; visible(NULL, 4); lock_t *l = lk((const void*) p); join_vc(self->vc, l->vc); }
static void at_end(const volatile void *p, int n, bool wr, void *pc){ if (!on()) return; access_((const void*) p, n, wr, pc); hb_release(lk((const void*) p)->vc, self); }
#define AT(B, ty) ty __tsan_atomic##B##_load(const volatile ty *a, int mo){ at_begin(a); ty v = *a; at_end(a, sizeof(ty), false, RA); return v; } \
    void __tsan_atomic##B##_store(volatile ty *a, ty v, int mo){ at_begin(a); *a = v; at_end(a, sizeof(ty), true, RA); } \
    ty __tsan_atomic##B##_exchange(volatile ty *a, ty v, int mo){ at_begin(a); ty o = *a; *a = v; at_end(a, sizeof(ty), true, RA); return o; } \
    ty __tsan_atomic##B##_fetch_add(volatile ty *a, ty v, int mo){ at_begin(a); ty o = *a; *a = o + v; at_end(a, sizeof(ty), true, RA); return o; } \
    ty __tsan_atomic##B##_fetch_sub(volatile ty *a, ty v, int mo){ at_begin(a); ty o = *a; *a = o - v; at_end(a, sizeof(ty), true, RA); return o; } \
    ty __tsan_atomic##B##_fetch_and(volatile ty *a, ty v, int mo){ at_begin(a); ty o = *a; *a = o & v; at_end(a, sizeof(ty), true, RA); return o; } \
    ty __tsan_atomic##B##_fetch_or(volatile ty *a, ty v, int mo){ at_begin(a); ty o = *a; *a = o | v; at_end(a, sizeof(ty), true, RA); return o; } \
    ty __tsan_atomic##B##_fetch_xor(volatile ty *a, ty v, int mo){ at_begin(a); ty o = *a; *a = o ^ v; at_end(a, sizeof(ty), true, RA); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int mo, int f){ at_begin(a); ty o = *a; bool ok = o == *e; if (ok) *a = v; else *e = o; at_end(a, sizeof(ty), ok, RA); return ok; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int mo, int f){ at_begin(a); ty o = *a; bool ok = o == *e; if (ok) *a = v; else *e = o; at_end(a, sizeof(ty), ok, RA); return ok; } \
    ty __tsan_atomic##B##_compare_exchange_val(volatile ty *a, ty e, ty v, int mo, int f){ at_begin(a); ty o = *a; if (o == e) *a = v; at_end(a, sizeof(ty), o == e, RA); return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo){} void __tsan_atomic_signal_fence(int mo){}
