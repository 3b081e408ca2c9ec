/* sched.h - controlled scheduler for the library's parallel regions and for caller threads, and a happens-before race detector.
 *
 * The library is compiled with thread-sanitizer instrumentation and OpenMP, but linked against this file instead of the two
 * run-time libraries: every memory access is reported to __tsan_*, every OpenMP construct to GOMP_*. One thread runs at a
 * time. Steps that do not synchronise are executed eagerly; whenever every thread stands before a synchronising step (taking
 * a lock, taking a piece of shared work, an atomic access) the explorer chooses which one goes first - so all orders of
 * synchronisation are explored, and conflicting accesses that no order of synchronisation separates are races. */
#ifndef SCHED_H
#define SCHED_H
#include <stdbool.h>
void sched_begin(int team, int nested);   /* forget everything; sizes of outer and nested teams */
const char *sched_end(void);              /* NULL or the first race */
void sched_run(int n, void (*fn)(int));   /* n caller threads at the same time */
long sched_steps(void);                   /* synchronising steps since sched_begin */
long sched_choices(void);                 /* of which several threads could have gone first */
long sched_regions(void);                 /* parallel regions with more than one thread */
long sched_accesses(void);                /* memory accesses checked */
unsigned long sched_order(void);          /* hash of the order of the synchronising steps */
void sched_name(const void *p, unsigned long n, const char *name);   /* for reports */
void sched_read(const void *p, unsigned long n); void sched_write(void *p, unsigned long n);
int sched_team(void);
#endif
