#define _GNU_SOURCE
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>

#define MAXD 4096
#define MAXW 64
#define MAXF 64
#define NSAMP 6
#define HBITS 22
#define CLAIMBITS (1u << 27)

typedef struct {
    int depth;                 /* valid entries of choice[]/width[] */
    int pos;
    int choice[MAXD], width[MAXD];
    char ctx[2048], ctxkey[256];
    uint64_t execs, evals, nontriv, trans, traces, pruned;
    uint64_t shard_next;       /* index of next new shard point */
    int nshard;                /* calls of mc_shard in this execution: at most one */
    uint64_t case_execs; double case_t0; /* of the current shard */
    int shard_pos;             /* position of the current owned shard point or -1 */
    int adv_pos;               /* index changed by last advance */
    int resume;                /* set by parent: advance before running */
    int finished;
    int capped;
    uint64_t beat;             /* heart beat */
    int in_child;
} wk_t;

typedef struct {
    char key[400], msg[1024], ctx[2048];
    int n; int choice[MAXD];
    int confirmed, is_crash;
    uint64_t count;
} finding_t;

typedef struct {
    wk_t w[MAXW];
    finding_t f[MAXF];
    int nf;
    int lock;
    char samples[NSAMP][1024];
    int nsamples;
    uint64_t nstates;
    int stop; double first;    /* time of the first finding of this suite */
    uint64_t htab[1u << HBITS];
    unsigned char claim[CLAIMBITS / 8];
} sh_t;

static sh_t *S;
static wk_t *W;                 /* current worker */
static const mc_suite_t *SU;
static int replay_n = -1;
static int *replay_v;
static jmp_buf JB;
static int out_fd = -1;         /* where the library's stdout/stderr go */
static int real_out = 1;
static double deadline, grace, case_time, total, t_end; static uint64_t case_limit;
int mc_thorough = 0;
const char *mc_workdir = NULL;
static char workdir_buf[512];
static int nargs; static char *argk[64], *argv_[64];
static int in_body;

static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec + 1e-9*t.tv_nsec; }

const char *mc_arg(const char *name, const char *dflt)
{
    for (int i = 0; i < nargs; i++) if (!strcmp(argk[i], name)) return argv_[i];
    return dflt;
}
bool mc_replaying(void){ return replay_n >= 0; }

static void lock(void){ while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) { struct timespec t={0,1000}; nanosleep(&t,NULL);} }
static void unlock(void){ __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE); }

uint64_t mc_hash(const void *p, size_t n, uint64_t h)
{
    const unsigned char *c = p;
    h ^= 0x9E3779B97F4A7C15ull + n;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001B3ull; h ^= h >> 29; }
    h ^= h >> 32; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 32;
    return h;
}

bool mc_state(uint64_t h)
{
    if (!h) h = 1;
    uint64_t mask = (1u << HBITS) - 1;
    for (uint64_t i = h & mask, k = 0; k < 4096; k++, i = (i+1) & mask) {
        uint64_t cur = __atomic_load_n(&S->htab[i], __ATOMIC_RELAXED);
        if (cur == h) return false;
        if (cur == 0) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&S->htab[i], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_add_fetch(&S->nstates, 1, __ATOMIC_RELAXED);
                return true;
            }
            if (z == h) return false;
        }
    }
    return false;  /* table full: undercount */
}

void mc_eval(uint64_t n){ W->evals += n; W->beat++; }
void mc_nontrivial(uint64_t n){ W->nontriv += n; }
void mc_trans(uint64_t n){ W->trans += n; }
void mc_trace(uint64_t n){ W->traces += n; }

int mc_choose(int n)
{
    if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); _exit(70); }
    int p = W->pos;
    if (p >= MAXD) { fprintf(stderr, "mc: too deep\n"); _exit(70); }
    if (replay_n >= 0) {
        int c = p < replay_n ? replay_v[p] : 0;
        if (c >= n) { dprintf(real_out, "replay: choice %d out of range at %d\n", c, p); _exit(71); }
        W->choice[p] = c; W->width[p] = n; W->pos = p+1;
        return c;
    }
    if (p < W->depth) {
        if (W->width[p] != n && W->width[p] != 0) {
            dprintf(real_out, "mc: nondeterministic body in suite %s: width %d vs %d at %d (ctx %s)\n", SU->name, W->width[p], n, p, W->ctx);
            _exit(72);
        }
        W->width[p] = n;
    } else {
        W->choice[p] = 0; W->width[p] = n; W->depth = p+1;
    }
    W->pos = p+1;
    return W->choice[p];
}
int mc_pick_(const int *v, int n){ return v[mc_choose(n)]; }

#define JMP_SKIP 1
#define JMP_FAIL 2
#define JMP_NOTMINE 3

static void leave(int code) __attribute__((noreturn));
static void leave(int code)
{
    if (W->in_child) _exit(code == JMP_SKIP ? 81 : code == JMP_FAIL ? 82 : 83);
    longjmp(JB, code);
}

void mc_skip(void){ leave(JMP_SKIP); }

void mc_shard(void)
{
    if (replay_n >= 0) return;
    if (W->nshard++) { fprintf(stderr, "mc: two shard points in one execution\n"); _exit(70); }
    if (W->shard_pos >= 0 && W->adv_pos >= W->shard_pos) return;   /* still inside the shard we own */
    uint64_t idx = W->shard_next++;
    if (idx >= CLAIMBITS) { fprintf(stderr, "mc: too many shards\n"); _exit(70); }
    unsigned char bit = 1u << (idx & 7);
    unsigned char old = __atomic_fetch_or(&S->claim[idx >> 3], bit, __ATOMIC_RELAXED);
    if (old & bit) { W->shard_pos = -1; leave(JMP_NOTMINE); }
    W->shard_pos = W->pos; W->case_execs = W->execs; W->case_t0 = now();
}

static void record(const char *key, const char *msg, int is_crash)
{
    lock();
    for (int i = 0; i < S->nf; i++)
        if (!strcmp(S->f[i].key, key)) { S->f[i].count++; unlock(); return; }
    if (S->nf < MAXF) {
        finding_t *f = &S->f[S->nf];
        snprintf(f->key, sizeof f->key, "%s", key);
        snprintf(f->msg, sizeof f->msg, "%s", msg);
        snprintf(f->ctx, sizeof f->ctx, "%s", W->ctx);
        f->n = W->pos; memcpy(f->choice, W->choice, sizeof(int) * W->pos);
        f->is_crash = is_crash; f->count = 1; f->confirmed = 0;
        if (!S->nf++) S->first = now();
    }
    if (S->nf >= 12) S->stop = 1;      /* enough evidence: do not explore a hopeless tree */
    unlock();
}

void mc_fail(const char *key, const char *fmt, ...)
{
    char msg[1024];
    va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    record(key, msg, 0);
    leave(JMP_FAIL);
}
void mc_ctx(const char *fmt, ...){ va_list ap; va_start(ap, fmt); vsnprintf(W->ctx, sizeof W->ctx, fmt, ap); va_end(ap); }
void mc_ctxkey(const char *fmt, ...){ va_list ap; va_start(ap, fmt); vsnprintf(W->ctxkey, sizeof W->ctxkey, fmt, ap); va_end(ap); }
void mc_sample(const char *fmt, ...)
{
    if (S->nsamples >= NSAMP || replay_n >= 0) return;
    lock();
    if (S->nsamples < NSAMP) {
        va_list ap; va_start(ap, fmt); vsnprintf(S->samples[S->nsamples], sizeof S->samples[0], fmt, ap); va_end(ap);
        S->nsamples++;
    }
    unlock();
}

void mc_output_reset(void){ fflush(stdout); fflush(stderr); if (out_fd >= 0 && ftruncate(out_fd, 0)) {} if (out_fd >= 0) lseek(out_fd, 0, SEEK_SET); }
size_t mc_output(char *buf, size_t size)
{
    fflush(stdout); fflush(stderr);
    ssize_t n = out_fd >= 0 ? pread(out_fd, buf, size - 1, 0) : 0;
    if (n < 0) n = 0;
    buf[n] = 0;
    return (size_t) n;
}

static void tail_of(int fd, char *buf, size_t size)
{
    struct stat st; buf[0] = 0;
    if (fd < 0 || fstat(fd, &st)) return;
    /* prefer the interesting sanitizer/assert line */
    size_t cap = 1 << 16; char *t = malloc(cap + 1);
    off_t off = st.st_size > (off_t) cap ? st.st_size - (off_t) cap : 0;
    ssize_t n = pread(fd, t, cap, off); if (n < 0) n = 0; t[n] = 0;
    char *p = strstr(t, "ERROR: "); if (!p) p = strstr(t, "runtime error"); if (!p) p = strstr(t, "Assertion");
    if (p) { while (p > t && p[-1] != '\n') p--; }
    else p = n > 300 ? t + n - 300 : t;
    snprintf(buf, size, "%.600s", p);
    for (char *c = buf; *c; c++) if (*c == '\n') *c = '|';
    free(t);
}

static void make_workdir(int id)
{
    const char *base = mc_arg("scratch", "/tmp");
    snprintf(workdir_buf, sizeof workdir_buf, "%s/w%d", base, id);
    mkdir(workdir_buf, 0777);
    mc_workdir = workdir_buf;
    if (chdir(workdir_buf)) { perror("chdir"); _exit(70); }
}

/* one execution; returns JMP_* or 0 */
static int run_once(void)
{
    W->pos = 0; W->nshard = 0; W->ctx[0] = 0;
    W->beat++;
    int r = setjmp(JB);
    if (r == 0) { in_body = 1; SU->body(); in_body = 0; return 0; }
    return r;
}

static void crash_finding(int status, const char *what)
{
    char msg[1200], tail[640], key[400];
    tail_of(out_fd, tail, sizeof tail);
    if (what) snprintf(msg, sizeof msg, "%s; output: %s", what, tail);
    else if (WIFSIGNALED(status)) snprintf(msg, sizeof msg, "killed by signal %d (%s); output: %s", WTERMSIG(status), strsignal(WTERMSIG(status)), tail);
    else snprintf(msg, sizeof msg, "process exited with status %d; output: %s", WEXITSTATUS(status), tail);
    snprintf(key, sizeof key, "crash:%s:%s", SU->name, W->ctxkey);
    record(key, msg, 1);
}

static int advance(void)
{
    int d = W->pos < W->depth ? W->pos : W->depth;   /* choices beyond pos were not consumed */
    while (d > 0 && W->choice[d-1] + 1 >= W->width[d-1]) d--;
    if (d == 0) return 0;
    W->choice[d-1]++;
    W->depth = d;
    W->adv_pos = d - 1;
    return 1;
}

static void worker_main(int id, int outfd)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    W = &S->w[id];
    out_fd = outfd;
    fflush(stdout); fflush(stderr);
    dup2(out_fd, 1); dup2(out_fd, 2);
    make_workdir(id);
    if (W->resume) { if (!advance()) { W->finished = 1; _exit(0); } W->resume = 0; }
    for (;;) {
        if (__atomic_load_n(&S->stop, __ATOMIC_RELAXED)) { W->capped = 1; break; }
        if ((W->execs & 63) == 0) {
            if (deadline > 0 && now() > deadline) { W->capped = 1; break; }
            if (S->nf && now() - S->first > grace) S->stop = 1;   /* it is known by now that the property does not hold */
            struct stat st;
            if (out_fd >= 0 && !fstat(out_fd, &st) && st.st_size > (4 << 20)) { if (ftruncate(out_fd, 0)) {} }
        }
        int r;
        if (SU->flags & MC_FORK) {
            /* Decide ownership of the shard in the child; it shares W with us. */
            W->pos = 0; W->nshard = 0;
            pid_t c = fork();
            if (c == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                W->in_child = 1;
                W->pos = 0; W->nshard = 0; W->ctx[0] = 0;
                SU->body();
                fflush(stdout); fflush(stderr);
                exit(80);
            }
            int st = 0;
            double t0 = now(); double lim = atof(mc_arg("hang", "60"));
            for (;;) {
                pid_t x = waitpid(c, &st, WNOHANG);
                if (x == c) break;
                if (now() - t0 > lim) { kill(c, SIGKILL); waitpid(c, &st, 0); st = -1; break; }
                struct timespec t = {0, now() - t0 < 0.01 ? 30000 : 500000}; nanosleep(&t, NULL);
                W->beat++;
            }
            W->in_child = 0;
            if (st == -1) { crash_finding(0, "hang: execution did not finish"); r = JMP_FAIL; }
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 80) r = 0;
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 81) r = JMP_SKIP;
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 82) r = JMP_FAIL;
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 83) r = JMP_NOTMINE;
            else if (WIFEXITED(st) && WEXITSTATUS(st) >= 70 && WEXITSTATUS(st) <= 72) _exit(WEXITSTATUS(st));
            else { crash_finding(st, NULL); r = JMP_FAIL; }
        } else r = run_once();
        if (r == JMP_SKIP) W->pruned++;
        else if (r != JMP_NOTMINE) W->execs++;
        if (W->shard_pos >= 0 && W->depth > W->shard_pos && r != JMP_NOTMINE && W->pos >= W->shard_pos && ((case_limit && W->execs - W->case_execs >= case_limit) || (case_time > 0 && (W->execs & 15) == 0 && now() - W->case_t0 > case_time)))
            { W->capped = 1; W->pos = W->depth = W->shard_pos; }   /* one case is larger than foreseen: the others shall be explored, too */
        if (!advance()) break;
    }
    W->finished = 1;
    fflush(stdout); fflush(stderr);
    _exit(0);
}

static void js(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

/* re-execute a recorded sequence in a fresh process: 1 reproduced, 0 not */
static int confirm(finding_t *f)
{
    for (int k = 0; k < 3; k++) {
        int fd = memfd_create("rp", 0);
        pid_t c = fork();
        if (c == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            out_fd = fd; dup2(fd, 1); dup2(fd, 2);
            W = &S->w[MAXW-1]; memset(W, 0, sizeof *W);
            make_workdir(900 + k);
            W->in_child = 1;
            replay_n = f->n; replay_v = f->choice;
            W->pos = 0; W->nshard = 0; SU->body();
            fflush(stdout); fflush(stderr);
            exit(80);
        }
        int st; double t0 = now(); double lim = atof(mc_arg("hang", "60"));
        for (;;) {
            if (waitpid(c, &st, WNOHANG) == c) break;
            if (now() - t0 > lim) { kill(c, SIGKILL); waitpid(c, &st, 0); close(fd); return 1; }
            usleep(1000);
        }
        close(fd);
        if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 80 || WEXITSTATUS(st) == 81))) return 1;
    }
    return 0;
}

static pid_t spawn(int id, int *fds)
{
    pid_t p = fork();
    if (p == 0) worker_main(id, fds[id]);
    return p;
}

static void explore(int jobs, FILE *out, double budget, int serial_retry)
{
    double t0 = now();
    deadline = budget > 0 ? t0 + budget : 0; if (total > 0 && !serial_retry) { double d = t0 + (t_end - t0) * (SU[1].name ? 0.6 : 0.9); if (!deadline || d < deadline) deadline = d; }
    pid_t pid[MAXW]; int fds[MAXW]; uint64_t beat[MAXW]; double bt[MAXW];
    int live = 0, broken = 0; int crashes[MAXW] = {0};
    double hang = atof(mc_arg("hang", "60"));
    for (int i = 0; i < jobs; i++) {
        memset(&S->w[i], 0, sizeof(wk_t));
        S->w[i].shard_pos = -1; S->w[i].adv_pos = -1;
        fds[i] = memfd_create("mcout", 0);
        if (fds[i] < 0) fds[i] = open("/dev/null", O_RDWR);
        else fcntl(fds[i], F_SETFL, fcntl(fds[i], F_GETFL) | O_APPEND);
        pid[i] = spawn(i, fds); live++; beat[i] = 0; bt[i] = now();
    }
    while (live) {
        int progress = 0;
        for (int i = 0; i < jobs; i++) {
            if (pid[i] <= 0) continue;
            int st; pid_t x = waitpid(pid[i], &st, WNOHANG);
            if (x == pid[i]) {
                progress = 1;
                W = &S->w[i]; out_fd = fds[i];
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && W->finished) { pid[i] = 0; live--; continue; }
                if (WIFEXITED(st) && WEXITSTATUS(st) >= 70 && WEXITSTATUS(st) <= 72) {
                    char t[640]; tail_of(fds[i], t, sizeof t);
                    fprintf(stderr, "mc: harness error %d in %s: %s\n", WEXITSTATUS(st), SU->name, t); broken = 1; pid[i] = 0; live--; S->stop = 1; continue; }
                crash_finding(st, NULL);
                W->execs++; W->resume = 1;
                if (++crashes[i] > 8) { S->stop = 1; pid[i] = 0; live--; continue; }
                if (ftruncate(fds[i], 0)) {}
                pid[i] = spawn(i, fds); bt[i] = now();
            } else {
                uint64_t b = S->w[i].beat;
                if (b != beat[i]) { beat[i] = b; bt[i] = now(); }
                else if (now() - bt[i] > hang) {
                    kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0);
                    W = &S->w[i]; out_fd = fds[i];
                    crash_finding(0, "hang: no progress");
                    W->execs++; W->resume = 1; progress = 1;
                    if (++crashes[i] > 2) { S->stop = 1; pid[i] = 0; live--; continue; }
                    pid[i] = spawn(i, fds); bt[i] = now();
                }
            }
        }
        if (!progress) usleep(1000);
    }
    uint64_t ex=0, ev=0, nt=0, tr=0, tc=0, pr=0; int capped = 0;
    for (int i = 0; i < jobs; i++) { wk_t *w = &S->w[i]; ex += w->execs; ev += w->evals; nt += w->nontriv; tr += w->trans; tc += w->traces; pr += w->pruned; capped |= w->capped; close(fds[i]); }
    out_fd = -1;
    for (int i = 0; i < S->nf; i++) S->f[i].confirmed = confirm(&S->f[i]);
    int nconf = 0; for (int i = 0; i < S->nf; i++) nconf += S->f[i].confirmed;
    if (S->nf && !nconf && !serial_retry) {
        /* depends on what ran before in the same process: repeat deterministically on one worker */
        int nf0 = S->nf; finding_t *keep = malloc(sizeof(finding_t) * MAXF); memcpy(keep, S->f, sizeof(finding_t) * MAXF);
        S->nf = 0; S->stop = 0; memset(S->claim, 0, sizeof S->claim);
        FILE *null = fopen("/dev/null", "w");
        explore(1, null, total > 0 && t_end - now() < 200 ? t_end - now() > 10 ? t_end - now() : 10 : 200, 1); fclose(null);
        if (S->nf) for (int i = 0; i < S->nf; i++) S->f[i].confirmed = 2;
        else { memcpy(S->f, keep, sizeof(finding_t) * MAXF); S->nf = nf0; }
        free(keep);
    }
    if (serial_retry) return;
    fprintf(out, "{\"suite\":\"%s\",\"execs\":%llu,\"evals\":%llu,\"nontrivial\":%llu,\"transitions\":%llu,\"traces\":%llu,\"pruned\":%llu,\"states\":%llu,\"complete\":%s,\"broken\":%s,\"wall\":%.3f,\"findings\":[",
        SU->name, (unsigned long long)ex, (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)tr, (unsigned long long)tc, (unsigned long long)pr, (unsigned long long)S->nstates,
        (capped || S->stop) ? "false" : "true", broken ? "true" : "false", now() - t0);
    for (int i = 0; i < S->nf; i++) {
        finding_t *f = &S->f[i];
        fprintf(out, "%s{\"key\":", i ? "," : ""); js(out, f->key);
        fprintf(out, ",\"msg\":"); js(out, f->msg); fprintf(out, ",\"ctx\":"); js(out, f->ctx);
        fprintf(out, ",\"count\":%llu,\"crash\":%d,\"confirmed\":%d,\"choices\":[", (unsigned long long) f->count, f->is_crash, f->confirmed);
        for (int k = 0; k < f->n; k++) fprintf(out, "%s%d", k ? "," : "", f->choice[k]);
        fprintf(out, "]}");
    }
    fprintf(out, "],\"samples\":[");
    for (int i = 0; i < S->nsamples; i++) { if (i) fputc(',', out); js(out, S->samples[i]); }
    fprintf(out, "]}\n"); fflush(out);
}

int main(int argc, char **argv)
{
    int jobs = 8; const char *only = NULL, *outp = NULL, *replay = NULL; double budget = 0;
    setvbuf(stdout, NULL, _IOLBF, 0);
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--thorough")) mc_thorough = 1;
        else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--suite")) only = argv[++i];
        else if (!strcmp(argv[i], "--out")) outp = argv[++i];
        else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
        else if (!strcmp(argv[i], "--total")) { total = atof(argv[++i]); t_end = now() + total; }
        else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if (!strcmp(argv[i], "--set")) {
            char *kv = strdup(argv[++i]); char *eq = strchr(kv, '=');
            if (!eq || nargs >= 64) return 70;
            *eq = 0; argk[nargs] = kv; argv_[nargs++] = eq + 1;
        } else if (!strcmp(argv[i], "--list")) { for (const mc_suite_t *s = mc_suites; s->name; s++) puts(s->name); return 0; }
        else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 70; }
    }
    grace = atof(mc_arg("grace", "25")); case_limit = strtoull(mc_arg("caselimit", "0"), NULL, 10); if (mc_thorough) case_limit *= 50; case_time = atof(mc_arg("casetime", "0"));
    if (jobs > MAXW - 2) jobs = MAXW - 2;
    real_out = dup(2); fcntl(real_out, F_SETFD, FD_CLOEXEC);
    S = mmap(NULL, sizeof *S, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 70; }
    W = &S->w[0];
    mc_harness_init();
    if (replay) {
        int v[MAXD], n = 0; char *s = strdup(replay);
        for (char *t = strtok(s, ","); t; t = strtok(NULL, ",")) v[n++] = atoi(t);
        for (SU = mc_suites; SU->name && (!only || strcmp(SU->name, only)); SU++) ;
        if (!SU->name) { fprintf(stderr, "no such suite\n"); return 70; }
        fflush(stdout);
        pid_t c = fork();
        if (c == 0) {
            make_workdir(999);
            replay_n = n; replay_v = v; W->in_child = 1;
            SU->body(); fflush(stdout); exit(80);
        }
        int st; waitpid(c, &st, 0);
        printf("case: %s\n", W->ctx);
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 80 || WEXITSTATUS(st) == 81)) { printf("REPLAY: property held\n"); return 0; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 82 && S->nf) printf("REPLAY: violated: [%s] %s\n", S->f[0].key, S->f[0].msg);
        else if (WIFSIGNALED(st)) printf("REPLAY: violated: killed by signal %d (%s)\n", WTERMSIG(st), strsignal(WTERMSIG(st)));
        else printf("REPLAY: violated: exit status %d\n", WEXITSTATUS(st));
        return 1;
    }
    FILE *out = outp ? fopen(outp, "a") : stdout;
    if (!out) { perror(outp); return 70; }
    for (SU = mc_suites; SU->name; SU++) {
        if (only && strcmp(only, SU->name)) continue;
        S->nf = 0; S->stop = 0; S->nsamples = 0; S->nstates = 0; S->lock = 0;
        memset(S->htab, 0, sizeof S->htab);
        madvise(S->claim, sizeof S->claim, MADV_REMOVE);
        memset(S->claim, 0, 1 << 20);
        explore(jobs, out, budget, 0);
    }
    return 0;
}
