/* mc.h - exhaustive explorer of choice trees.
 *
 * A suite is a function `body` that asks mc_choose(n) for every
 * nondeterministic decision (input value, operation, fault, schedule ...).
 * The explorer runs the body once for every sequence of answers (depth first,
 * complete within the bounds the body itself sets), split over forked worker
 * processes.  A worker that crashes, aborts or hangs is a finding at the choice
 * sequence it was executing, and exploration resumes behind it. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

#define MC_FORK   1   /* run every execution in its own process (pristine state) */

typedef struct {
    const char *name;
    void (*body)(void);
    int flags;
} mc_suite_t;

extern const mc_suite_t mc_suites[];     /* terminated by name == NULL; defined by the harness */
void mc_harness_init(void);              /* defined by the harness: called once before exploring */

extern int  mc_thorough;                 /* 0: quick, 1: thorough */
extern const char *mc_workdir;           /* private scratch directory of this worker */
extern const char *mc_arg(const char *name, const char *dflt); /* --set name=value */

int  mc_choose(int n);                   /* 0 .. n-1 */
#define mc_pick(...)  mc_pick_((const int[]){__VA_ARGS__}, (int)(sizeof((const int[]){__VA_ARGS__})/sizeof(int)))
int  mc_pick_(const int *v, int n);
static inline int mc_range(int lo, int hi) { return lo + mc_choose(hi - lo + 1); }
void mc_shard(void);                     /* the choices so far form a unit of work distribution */
void mc_skip(void) __attribute__((noreturn));          /* prune: this sequence is infeasible */
/* A property violation; key identifies it for known findings. Does not return. */
void mc_fail(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf,2,3)));
void mc_ctx(const char *fmt, ...) __attribute__((format(printf,1,2)));  /* describes the current case */
void mc_ctxkey(const char *fmt, ...) __attribute__((format(printf,1,2)));  /* key prefix for crashes */
void mc_sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
void mc_eval(uint64_t n);                /* n property evaluations done */
void mc_nontrivial(uint64_t n);          /* of which n are counted as non-trivial ... distinct by construction */
void mc_trans(uint64_t n);               /* model/implementation steps taken in lockstep */
bool mc_state(uint64_t hash);            /* record a distinct state; true if new */
void mc_trace(uint64_t n);               /* n model traces replayed against the implementation */
uint64_t mc_hash(const void *p, size_t n, uint64_t seed);
size_t mc_output(char *buf, size_t size);/* everything printed to stdout/stderr since mc_output_reset */
void mc_output_reset(void);
void mc_mkdir_scratch(void);
bool mc_replaying(void);

#define MC_CHECK(cond, key, ...) do { if (!(cond)) mc_fail(key, __VA_ARGS__); } while (0)
#endif
