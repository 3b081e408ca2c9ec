/* Histories of creating, using and freeing objects: no invalid access (sanitizer build, poisoned memory), nothing freed
 * twice, nothing left behind (blocks, mappings, file descriptors), no object disturbed by what happens to another. */
#include "nnref.h"
#include "npyref.h"
#include "alloc.h"
#include "neuralnet_predict_batch.h"
#include "evaluate.h"
#include "optimizer_implementations.h"
#include "callback.h"
#include "logger.h"
#include "earlystopping.h"
#include "modelcheckpoint.h"
#include "npy_array_list.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <stdarg.h>
void mc_harness_init(void){ setenv("OMP_NUM_THREADS", "1", 1); setenv("TZ", "UTC", 1); printf(" "); fprintf(stderr, " "); fflush(NULL); }
#define LESS (mc_arg("less", "0")[0] - '0')
static char hist[1500]; static int hl;
static void say(const char *f, ...){ va_list ap; va_start(ap, f); if (hl < 1400) hl += vsnprintf(hist + hl, sizeof hist - hl, f, ap); va_end(ap); mc_ctx("%s", hist); }
static char *pth(const char *f){ static char b[8][400]; static int k; k = (k + 1) & 7; snprintf(b[k], sizeof b[k], "%s/%s", mc_workdir, f); return b[k]; }

/* ---- mappings ---- */
static struct { char *p; size_t n; } maps[64]; static int nmaps, badunmap; extern void *__real_mmap(void*, size_t, int, int, int, off_t); extern int __real_munmap(void*, size_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int d, off_t o){ char *r = __real_mmap(a, n, p, f, d, o); if (r != MAP_FAILED && nmaps < 64) { maps[nmaps].p = r; maps[nmaps++].n = n; } return r; }
int __wrap_munmap(void *a, size_t n){ for (int i = 0; i < nmaps; i++) if (maps[i].p == a) { if ((maps[i].n + 4095) / 4096 != (n + 4095) / 4096) badunmap++; maps[i] = maps[--nmaps]; return __real_munmap(a, n); } badunmap++; return __real_munmap(a, n); }

/* ---- user-defined kinds ---- */
OPTIMIZER_DECLARE(plain) struct _plain_t { optimizer_t opt; }; OPTIMIZER_DEFINE(plain, ;);
void plain_run_epoch(optimizer_t *o, const unsigned n, const float *x, const float *y)
{
    float *g = simd_malloc(4 * neuralnet_total_n_parameters(o->nn)); unsigned i = 0; while (i < n) { optimizer_calc_batch_gradient(o, n, x, y, &i, g); for (unsigned k = 0; k < neuralnet_total_n_parameters(o->nn); k++) g[k] *= -0.125f; neuralnet_update(o->nn, g); } simd_free(g);
}
OPTIMIZER_DECLARE(owner) struct _owner_t { optimizer_t opt; float *buf; }; static int own_freed; static void owner_free(optimizer_t *o){ own_freed++; free(((owner_t*) o)->buf); }
OPTIMIZER_DEFINE(owner, newopt->buf = malloc(4 * neuralnet_total_n_parameters(nn) + 60); newopt->opt.free = owner_free;);
void owner_run_epoch(optimizer_t *o, const unsigned n, const float *x, const float *y){ memset(((owner_t*) o)->buf, 1, 4 * neuralnet_total_n_parameters(o->nn)); plain_run_epoch(o, n, x, y); }
CALLBACK_DECLARE(count) struct _count_t { callback_t cb; int n; }; CALLBACK_DEFINE(count, newcb->n = 0;); void count_callback_run(callback_t *c, optimizer_t *o, const float *r, bool v){ ((count_t*) c)->n++; }

/* ---- training objects ---- */
enum { NN_ = 2, NO_ = 2, NC_ = 2, KINDS = 6, CKINDS = 5, MAXS = 16 };
enum { F_NEW, F_LOAD, F_FREE, F_USE, F_SAVE, O_NEW, O_FREE, O_RUN, C_NEW, C_FREE, C_RUN };
typedef struct { int op, a, b, c; } step_t; static step_t st[MAXS]; static int nst;
static const char *const ok[] = { "SGD", "RMSprop", "adagrad", "adam", "user-defined", "user-defined with clean-up" }, *const ck[] = { "logger", "early stopping", "checkpoint", "user-defined", "progress-less logger" };
typedef struct { int nn[NN_];  /* 0 none, 1 live */ int own[NO_], kind[NO_]; /* -1 none, -2 its network is gone, else network */ int cb[NC_]; } mod_t;
static step_t menu[200]; static int nmenu; static void can(int op, int a, int b, int c){ menu[nmenu++] = (step_t){ op, a, b, c }; }
static void enabled(const mod_t *m, int left)
{
    nmenu = 0; bool anyn = false; for (int i = 0; i < NN_; i++) anyn |= m->nn[i];
    for (int i = 0; i < NN_; i++) if (!m->nn[i]) { can(F_NEW, i, 0, 0); can(F_NEW, i, 1, 0); can(F_LOAD, i, 0, 0); break; }
    for (int i = 0; i < NN_; i++) if (m->nn[i]) { can(F_FREE, i, 0, 0); can(F_USE, i, 0, 0); can(F_SAVE, i, 0, 0); }
    for (int j = 0; j < NO_; j++) if (m->own[j] == -1) { for (int i = 0; i < NN_; i++) if (m->nn[i]) for (int k = 0; k < KINDS; k++) can(O_NEW, j, i, k); break; }
    for (int j = 0; j < NO_; j++) if (m->own[j] != -1) { can(O_FREE, j, 0, 0); if (m->own[j] >= 0) { can(O_RUN, j, 3, 1); can(O_RUN, j, 2, 0); can(O_RUN, j, 0, 0); } }
    for (int c = 0; c < NC_; c++) if (!m->cb[c]) { for (int k = 0; k < CKINDS; k++) can(C_NEW, c, k, 0); break; }
    for (int c = 0; c < NC_; c++) if (m->cb[c]) { can(C_FREE, c, 0, 0); for (int j = 0; j < NO_; j++) if (m->own[j] >= 0) can(C_RUN, c, j, 0); }
}
static void apply(mod_t *m, step_t s)
{
    switch (s.op) {
    case F_NEW: case F_LOAD: m->nn[s.a] = 1; break; case F_FREE: m->nn[s.a] = 0; for (int j = 0; j < NO_; j++) if (m->own[j] == s.a) m->own[j] = -2; break;
    case O_NEW: m->own[s.a] = s.b; m->kind[s.a] = s.c; break; case O_FREE: m->own[s.a] = -1; break;
    case C_NEW: m->cb[s.a] = 1 + s.b; break; case C_FREE: m->cb[s.a] = 0; break;
    }
}
static void tell(step_t s){ switch (s.op) {
    case F_NEW: say(" create network %d (%s);", s.a, s.b ? "9-8-3" : "5-4"); break; case F_LOAD: say(" load network %d;", s.a); break; case F_FREE: say(" free network %d;", s.a); break; case F_USE: say(" use network %d;", s.a); break; case F_SAVE: say(" save network %d;", s.a); break;
    case O_NEW: say(" new %s optimizer %d for network %d;", ok[s.c], s.a, s.b); break; case O_FREE: say(" free optimizer %d;", s.a); break; case O_RUN: say(" epoch of %d samples with optimizer %d;", s.b, s.a); break;
    case C_NEW: say(" new %s callback %d;", ck[s.b], s.a); break; case C_FREE: say(" free callback %d;", s.a); break; case C_RUN: say(" run callback %d with optimizer %d;", s.a, s.b); break; } }
static neuralnet_t *N[NN_]; static optimizer_t *O[NO_]; static callback_t *C[NC_]; static int shp[NN_]; static uint64_t hn[NN_]; static metric_func lists[NO_][3]; static float X[32], Y[16], res[16]; static int acts2[2] = { A_TANH, A_SIGMOID };
static neuralnet_t *make(int shape){ neuralnet_t *n = neuralnet_create(shape ? 2 : 1, shape ? INT_ARRAY(9, 8, 3) : INT_ARRAY(5, 4), shape ? STR_ARRAY("tanh", "sigmoid") : STR_ARRAY("sigmoid")); fill_net_real(n, shape + 5); neuralnet_set_loss(n, "binary_crossentropy"); return n; }
static void check_pred(int i)
{
    double x[16], all[32], err[32]; for (int k = 0; k < N[i]->layer[0].n_input; k++) x[k] = X[k]; float SIMD_ALIGN(p[8]), SIMD_ALIGN(q[16]); neuralnet_predict(N[i], X, p); neuralnet_predict_batch(N[i], 2, X, q);
    ref_forward(N[i], shp[i] ? acts2 : acts2 + 1, NULL, x, all, err); int tot = nn_sum_outputs(N[i]), no = N[i]->layer[N[i]->n_layers - 1].n_output;
    for (int k = 0; k < no; k++) { MC_CHECK(fabs(p[k] - all[tot - no + k]) <= err[tot - no + k] + 1e-6, "value", "network %d: output %d is %.9g, expected %.9g", i, k, p[k], all[tot - no + k]); MC_CHECK(fabs(q[k] - p[k]) <= 1e-5, "value", "network %d: batch prediction %d is %.9g, not %.9g", i, k, q[k], p[k]); }
}
static optimizer_t *new_o(int kind, neuralnet_t *nn, metric_func *mf)
{
    optimizer_properties_t p = OPTIMIZER_PROPERTIES(.batchsize = 2, .progress = NULL, .metrics = mf);
    if (nn->n_layers == 1) switch (kind) { case 0: return OPTIMIZER(SGD_new(nn, p, SGD_PROPERTIES())); case 1: return OPTIMIZER(RMSprop_new(nn, p, RMSPROP_PROPERTIES())); case 2: return OPTIMIZER(adagrad_new(nn, p, ADAGRAD_PROPERTIES(.decay = 0.1f))); case 3: return OPTIMIZER(adam_new(nn, p, ADAM_PROPERTIES(.weight_decay = 0))); }   /* (the other settings) */
    switch (kind) { case 0: return OPTIMIZER(SGD_new(nn, p, SGD_PROPERTIES(.momentum = 0.5f, .nesterov = true))); case 1: return OPTIMIZER(RMSprop_new(nn, p, RMSPROP_PROPERTIES(.momentum = 0.5f))); case 2: return OPTIMIZER(adagrad_new(nn, p, ADAGRAD_PROPERTIES())); case 3: return OPTIMIZER(adam_new(nn, p, ADAM_PROPERTIES(.weight_decay = 0.01f))); case 4: return OPTIMIZER(plain_new(nn, p, NULL)); } return OPTIMIZER(owner_new(nn, p, NULL));
}
static int owners;
static void execute(step_t s)
{
    int touched = -1;
    switch (s.op) {
    case F_NEW: N[s.a] = make(s.b); shp[s.a] = s.b; touched = s.a; break;
    case F_LOAD: N[s.a] = neuralnet_load(pth("base.npz")); MC_CHECK(N[s.a], "load", "a network that was saved does not load"); neuralnet_set_loss(N[s.a], "binary_crossentropy"); shp[s.a] = 1; touched = s.a; break;
    case F_FREE: neuralnet_free(N[s.a]); N[s.a] = NULL; break;
    case F_USE: { check_pred(s.a); neuralnet_initialize(N[s.a], NULL); float *g = simd_malloc(4 * neuralnet_total_n_parameters(N[s.a]) + 64), m[2]; neuralnet_backpropagation(N[s.a], X, Y, g); neuralnet_get_parameters(N[s.a], g); neuralnet_update(N[s.a], g); simd_free(g); metric_func mf[2] = { get_metric_func("mean_squared_error"), NULL }; evaluate(N[s.a], 2, X, Y, mf, m); check_pred(s.a); touched = s.a; break; }
    case F_SAVE: neuralnet_save(N[s.a], "%s/s%d.npz", mc_workdir, s.a); break;
    case O_NEW: lists[s.a][0] = get_metric_func("mean_absolute_error"); lists[s.a][1] = get_metric_func("binary_accuracy"); lists[s.a][2] = NULL; O[s.a] = new_o(s.c, N[s.b], s.c & 1 ? NULL : lists[s.a]); MC_CHECK(O[s.a] && O[s.a]->nn == N[s.b], "new", "no optimizer"); if (s.c == 5) owners++; break;
    case O_FREE: optimizer_free(O[s.a]); O[s.a] = NULL; break;
    case O_RUN: { for (int k = 0; k < 16; k++) res[k] = -7; optimizer_run_epoch(O[s.a], s.b, X, Y, s.c ? 2 : 0, s.c ? X : NULL, s.c ? Y : NULL, res); for (int i = 0; i < NN_; i++) if (N[i] && O[s.a]->nn == N[i]) touched = i; MC_CHECK(res[4] == -7, "oob", "results behind the last one were written"); break; }
    case C_NEW: C[s.a] = s.b == 0 || s.b == 4 ? CALLBACK(logger_new(LOGGER_SETTINGS(.filename = s.b ? NULL : "k05.log", .no_stdout = true))) : s.b == 1 ? CALLBACK(earlystopping_new(EARLYSTOPPING_SETTINGS(.patience = 1))) : s.b == 2 ? CALLBACK(modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.filename = "k05.npz"))) : CALLBACK(count_new(NULL)); MC_CHECK(C[s.a], "new", "no callback"); break;
    case C_FREE: callback_free(C[s.a]); C[s.a] = NULL; break;
    case C_RUN: callback_run(C[s.a], O[s.b], res, false); break;
    }
    for (int i = 0; i < NN_; i++) if (N[i]) { uint64_t h = hash_net(N[i]); if (i != touched) MC_CHECK(h == hn[i], "disturbed", "network %d changed although it was not used", i); hn[i] = h; }
    for (int j = 0; j < NO_; j++) if (O[j]) MC_CHECK(O[j]->batchsize == 2 && O[j]->shuffle, "disturbed", "the settings of optimizer %d changed", j);
}
static void finish(bool rev)
{
    for (int p = 0; p < 3; p++) switch (rev ? 2 - p : p) {
    case 0: for (int i = 0; i < NN_; i++) { int k = rev ? NN_ - 1 - i : i; if (N[k]) neuralnet_free(N[k]); N[k] = NULL; } break;
    case 1: for (int i = 0; i < NO_; i++) { int k = rev ? NO_ - 1 - i : i; if (O[k]) optimizer_free(O[k]); O[k] = NULL; } break;
    case 2: for (int i = 0; i < NC_; i++) { int k = rev ? NC_ - 1 - i : i; if (C[k]) callback_free(C[k]); C[k] = NULL; } break;
    }
}
static void base(void){ static bool done; if (done) return; neuralnet_t *n = make(1); neuralnet_save(n, "%s", pth("base.npz")); neuralnet_free(n); for (int i = 0; i < 32; i++) X[i] = rval(i); for (int i = 0; i < 16; i++) Y[i] = i & 1; if (chdir(mc_workdir)) abort(); done = true; }
static void training_from(int start, int depth)
{
    base(); mod_t m = { .own = { -1, -1 } }; nst = 0; hl = 0; hist[0] = 0; int kind = 0;
    if (start) { kind = mc_choose(KINDS); st[nst++] = (step_t){ F_NEW, 0, 1, 0 }; st[nst++] = (step_t){ O_NEW, 0, 0, kind }; if (start == 2) st[nst++] = (step_t){ C_NEW, 0, mc_choose(CKINDS), 0 }; for (int i = 0; i < nst; i++) { apply(&m, st[i]); tell(st[i]); } }
    for (int d = 0; d < depth; d++) { enabled(&m, depth - d); int k = mc_choose(nmenu); st[nst] = menu[k]; apply(&m, st[nst]); tell(st[nst]); nst++; if (d == 1) mc_shard(); mc_state(mc_hash(&m, sizeof m, 1)); }
    bool rev = mc_choose(2); say(" free the rest (%s)", rev ? "callbacks first" : "networks first"); mc_sample("%s", hist);
    for (int rep = 0; rep < 2; rep++) {
        unlink("k05.log"); unlink("k05.npz"); memset(N, 0, sizeof N); memset(O, 0, sizeof O); memset(C, 0, sizeof C); nmaps = badunmap = 0; own_freed = owners = 0; for (int k = 0; k < 16; k++) res[k] = 1.5f; int fds = open_fds();
        al_begin(0); for (int i = 0; i < nst; i++) execute(st[i]); finish(rev); long left = al_end(); if (left > 0 && !rep) continue;   /* (first-use allocations of the C library) */
        MC_CHECK(left <= 0, "leak", "%ld blocks are left behind", left); MC_CHECK(!nmaps && !badunmap, "mapping", "%d mappings are left, %d wrong unmappings", nmaps, badunmap); MC_CHECK(open_fds() == fds, "fd", "%d file descriptors are left open", open_fds() - fds); MC_CHECK(own_freed == owners, "cleanup", "%d clean-ups of %d user-defined optimizers", own_freed, owners); break;
    }
    mc_eval(1); mc_nontrivial(1); mc_trans(nst); mc_trace(1);
}
static void training(void){ training_from(0, mc_thorough ? 5 - LESS : 4); }
static void training_more(void){ training_from(1, mc_thorough ? 4 : 3); }
static void training_cb(void){ training_from(2, (mc_thorough ? 4 : 3) - LESS); }
/* many instances */
static void crowd(void)
{
    base(); int n = mc_pick(1, 3, 10, 40), order = mc_choose(3), kind = mc_choose(KINDS + 1); mc_shard(); static neuralnet_t *nn[40]; static optimizer_t *o[40]; static callback_t *c[40]; hl = 0; say("%d networks, each with an optimizer (%s) and a callback, trained twice, freed in order %d", n, kind < KINDS ? ok[kind] : "mixed", order); mc_sample("%s", hist); static float P[40][200]; (void) P;
    for (int rep = 0; rep < 2; rep++) {
        unlink("k05.log"); unlink("k05.npz"); int fds = open_fds(); nmaps = badunmap = 0; al_begin(0);
        for (int i = 0; i < n; i++) { nn[i] = make(i & 1); o[i] = new_o(kind < KINDS ? kind : i % KINDS, nn[i], NULL); c[i] = i % 3 == 0 ? CALLBACK(logger_new(LOGGER_SETTINGS(.filename = "k05.log", .no_stdout = true))) : i % 3 == 1 ? CALLBACK(modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.filename = "k05.npz"))) : CALLBACK(earlystopping_new(EARLYSTOPPING_SETTINGS())); }
        for (int e = 0; e < 2; e++) for (int i = 0; i < n; i++) { optimizer_run_epoch(o[i], 1 + e + i % 2, X, Y, 0, NULL, NULL, res); callback_run(c[i], o[i], res, false); }
        for (int p = 0; p < 3; p++) for (int i = 0; i < n; i++) { int k = order == 1 ? n - 1 - i : i; switch (order == 2 ? 2 - p : p) { case 0: neuralnet_free(nn[k]); break; case 1: optimizer_free(o[k]); break; case 2: callback_free(c[k]); break; } }
        long left = al_end(); if (left > 0 && !rep) continue; MC_CHECK(left <= 0, "leak", "%ld blocks are left behind", left); MC_CHECK(open_fds() == fds, "fd", "%d file descriptors are left open", open_fds() - fds); break;
    }
    mc_eval(1); mc_nontrivial(1); mc_trans(5 * n); mc_state(mc_hash(&kind, sizeof kind, n * 3 + order));
}

/* ---- arrays ---- */
enum { NA = 2, NL = 2, AK = 4 };
enum { A_MAKE, A_LOAD, A_MMAP, A_BAD, A_SAVE, A_FREE, A_APP, A_PRE, A_APPL, L_SAVE, L_SAVEC, L_LOAD, L_BAD, L_FREE, L_LEN };
typedef struct { int arr[NA]; int n[NL], e[NL][6]; bool lng[NL][6]; int saved; int sn, se[6]; } am_t;   /* arr: 0 none, 1+content; list elements: contents */
static void a_enabled(const am_t *m)
{
    nmenu = 0;
    for (int i = 0; i < NA; i++) if (!m->arr[i]) { for (int k = 0; k < AK; k++) can(A_MAKE, i, k, 0); can(A_LOAD, i, 0, 0); can(A_LOAD, i, 1, 0); can(A_MMAP, i, 0, 0); can(A_MMAP, i, 1, 0); break; }
    can(A_BAD, 0, 0, 0); can(L_BAD, 0, 0, 0);
    for (int i = 0; i < NA; i++) if (m->arr[i]) { can(A_SAVE, i, 0, 0); can(A_FREE, i, 0, 0); for (int l = 0; l < NL; l++) { if (l && !m->n[l] && !m->n[0]) continue; if (m->n[l] < 5) { can(A_APP, i, l, 0); can(A_PRE, i, l, 0); if (!l) can(A_APPL, i, l, 0); } } }
    for (int l = 0; l < NL; l++) if (m->n[l]) { can(L_SAVE, l, 0, 0); can(L_SAVEC, l, 0, 0); can(L_FREE, l, 0, 0); can(L_LEN, l, 0, 0); }
    if (m->saved) for (int l = 0; l < NL; l++) if (!m->n[l]) { can(L_LOAD, l, 0, 0); break; }
}
static void a_apply(am_t *m, step_t s)
{
    switch (s.op) {
    case A_MAKE: m->arr[s.a] = 1 + s.b; break; case A_LOAD: case A_MMAP: m->arr[s.a] = 1 + AK + s.b; break; case A_FREE: m->arr[s.a] = 0; break;
    case A_APP: case A_APPL: m->lng[s.b][m->n[s.b]] = s.op == A_APPL; m->e[s.b][m->n[s.b]++] = m->arr[s.a] - 1; m->arr[s.a] = 0; break;
    case A_PRE: memmove(m->e[s.b] + 1, m->e[s.b], 5 * sizeof(int)); memmove(m->lng[s.b] + 1, m->lng[s.b], 5); m->lng[s.b][0] = false; m->e[s.b][0] = m->arr[s.a] - 1; m->n[s.b]++; m->arr[s.a] = 0; break;
    case L_SAVE: case L_SAVEC: m->saved = 1; m->sn = m->n[s.a]; memcpy(m->se, m->e[s.a], sizeof m->se); break;
    case L_LOAD: m->n[s.a] = m->sn; memcpy(m->e[s.a], m->se, sizeof m->se); memset(m->lng[s.a], 0, 6); break; case L_FREE: m->n[s.a] = 0; break;
    }
}
static void a_tell(step_t s){ static const char *const t[] = { "make", "load", "map", "load a broken file", "save", "free", "append", "prepend", "append (too long name)", "save list", "save list compressed", "load list", "load a broken list", "free list", "length of list" }; if (s.op == A_BAD || s.op == L_BAD) say(" %s;", t[s.op]); else if (s.op >= L_SAVE) say(" %s %d;", t[s.op], s.a); else if (s.op >= A_APP) say(" %s array %d to list %d;", t[s.op], s.a, s.b); else say(" %s array %d (%d);", t[s.op], s.a, s.b); }
static npy_array_t *AR[NA]; static npy_array_list_t *LI[NL];
/* contents: 0 float 3, 1 double 2x2, 2 int8 fortran 3x1, 3 float 40x30; files: 4 float 2x3, 5 int16 2000 (with its header beyond one page) */
static void content(int c, npy_array_t *h){ static const npy_array_t H[] = { { .shape = { 3 }, .ndim = 1, .typechar = 'f', .elem_size = 4 }, { .shape = { 2, 2 }, .ndim = 2, .typechar = 'f', .elem_size = 8 }, { .shape = { 3, 1 }, .ndim = 2, .typechar = 'i', .elem_size = 1, .fortran_order = true }, { .shape = { 40, 30 }, .ndim = 2, .typechar = 'f', .elem_size = 4 }, { .shape = { 2, 3 }, .ndim = 2, .typechar = 'f', .elem_size = 4 }, { .shape = { 2000 }, .ndim = 1, .typechar = 'i', .elem_size = 2 } }; *h = H[c]; h->endianness = h->elem_size == 1 ? '|' : '<'; }
static unsigned char cbyte(int c, size_t i){ return (unsigned char)(i * 7 + c * 31 + (i >> 8)); }
static void same(const npy_array_t *a, int c, const char *where)
{
    npy_array_t h; content(c, &h); MC_CHECK(a, "lost", "%s is missing", where); MC_CHECK(a->ndim == h.ndim && !memcmp(a->shape, h.shape, h.ndim * sizeof(size_t)) && a->elem_size == h.elem_size && a->typechar == h.typechar && a->fortran_order == h.fortran_order, "disturbed", "%s has another shape or type", where);
    size_t n = npy_array_calculate_datasize(&h); for (size_t i = 0; i < n; i++) MC_CHECK((unsigned char) a->data[i] == cbyte(c, i), "disturbed", "%s: byte %zu of %zu is %d, not %d", where, i, n, (unsigned char) a->data[i], cbyte(c, i));
}
static npy_array_t *mk_arr(int c){ npy_array_t *a = malloc(sizeof *a); content(c, a); size_t n = npy_array_calculate_datasize(a); a->data = malloc(n); for (size_t i = 0; i < n; i++) a->data[i] = cbyte(c, i); a->map_addr = NULL; a->map_length = 0; return a; }
static void a_execute(step_t s, const am_t *m, int k)
{
    switch (s.op) {
    case A_MAKE: AR[s.a] = mk_arr(s.b); break;
    case A_LOAD: AR[s.a] = npy_array_load(s.b ? "f5.npy" : "f4.npy"); MC_CHECK(AR[s.a], "load", "an array does not load"); break;
    case A_MMAP: AR[s.a] = npy_array_mmap(s.b ? "f5.npy" : "f4.npy"); MC_CHECK(AR[s.a], "load", "an array cannot be mapped"); break;
    case A_BAD: { npy_array_t *a = npy_array_load("bad.npy"), *b = npy_array_mmap("bad.npy"), *c = npy_array_load("missing.npy"), *d = npy_array_mmap("missing.npy"); MC_CHECK(!a && !b && !c && !d, "bad", "a broken array was loaded"); break; }
    case L_BAD: { npy_array_list_t *a = npy_array_list_load("bad.npz"), *b = npy_array_list_load("missing.npz"); neuralnet_t *n = neuralnet_load("bad.npz"); MC_CHECK(!a && !b && !n, "bad", "a broken list was loaded"); break; }
    case A_SAVE: { npy_array_save("out.npy", AR[s.a]); npy_array_dump(AR[s.a]); npy_array_t *b = npy_array_load("out.npy"); same(b, m->arr[s.a] - 1, "the saved array"); npy_array_free(b); break; }
    case A_FREE: npy_array_free(AR[s.a]); AR[s.a] = NULL; break;
    case A_APP: LI[s.b] = npy_array_list_append(LI[s.b], AR[s.a], "n%d.npy", k); AR[s.a] = NULL; break;
    case A_PRE: LI[s.b] = npy_array_list_prepend(LI[s.b], AR[s.a], "n%d.npy", k); AR[s.a] = NULL; break;
    case A_APPL: { static char nm[400]; memset(nm, 'n', 399); LI[s.b] = npy_array_list_append(LI[s.b], AR[s.a], "%s", nm); AR[s.a] = NULL; break; }
    case L_SAVE: { int r = npy_array_list_save("list.npz", LI[s.a]); MC_CHECK(r == m->n[s.a], "save", "%d of %d arrays saved", r, m->n[s.a]); break; }
    case L_SAVEC: { int r = npy_array_list_save_compressed("list.npz", LI[s.a], ZIP_CM_DEFLATE, 6); MC_CHECK(r == m->n[s.a], "save", "%d of %d arrays saved", r, m->n[s.a]); break; }
    case L_LOAD: LI[s.a] = npy_array_list_load("list.npz"); MC_CHECK(LI[s.a], "load", "a list does not load"); break;
    case L_FREE: npy_array_list_free(LI[s.a]); LI[s.a] = NULL; break;
    case L_LEN: MC_CHECK((int) npy_array_list_length(LI[s.a]) == m->n[s.a], "length", "list %d has %d elements, expected %d", s.a, (int) npy_array_list_length(LI[s.a]), m->n[s.a]); break;
    }
}
static void a_compare(const am_t *m)
{
    char w[60]; for (int i = 0; i < NA; i++) { MC_CHECK(!!m->arr[i] == !!AR[i], "lost", "array %d", i); if (AR[i]) { sprintf(w, "array %d", i); same(AR[i], m->arr[i] - 1, w); } }
    for (int l = 0; l < NL; l++) { npy_array_list_t *it = LI[l]; for (int k = 0; k < m->n[l]; k++, it = it->next) { sprintf(w, "element %d of list %d", k, l); MC_CHECK(it, "lost", "%s is missing", w); same(it->array, m->e[l][k], w); MC_CHECK(m->lng[l][k] || (it->filename && strlen(it->filename) < 20), "name", "%s has no proper name", w); } MC_CHECK(!it, "lost", "list %d has more than %d elements", l, m->n[l]); }
}
static void a_base(void)
{
    static bool done; if (done) return; done = true; if (chdir(mc_workdir)) abort(); static unsigned char f[5000];
    for (int c = 4; c < 6; c++) { npy_array_t h; content(c, &h); size_t n = nf_gen(f, c == 4 ? "<f4" : "<i2", false, h.shape, h.ndim, 128, 0), b = npy_array_calculate_datasize(&h); for (size_t i = 0; i < b; i++) f[n + i] = cbyte(c, i); put_file(c == 4 ? "f4.npy" : "f5.npy", f, n + b); }
    put_file("bad.npy", f, 200); put_file("bad.npz", f, 300); npy_array_t *a = mk_arr(0); npy_array_list_t *l = npy_array_list_append(NULL, a, "a.npy"); l = npy_array_list_append(l, mk_arr(1), "activations.npy"); npy_array_list_save("first.npz", l); npy_array_list_free(l);
}
static void arrays_from(int start, int depth)
{
    a_base(); static am_t tr[MAXS + 1]; memset(&tr[0], 0, sizeof tr[0]); nst = 0; hl = 0; hist[0] = 0;
    if (start) { step_t pre[] = { { A_MAKE, 0, 0, 0 }, { A_APP, 0, 0, 0 }, { mc_choose(2) ? A_MMAP : A_LOAD, 0, 1, 0 }, { A_PRE, 0, 0, 0 }, { L_SAVE, 0, 0, 0 } }; int np = mc_pick(2, 4, 5); for (int i = 0; i < np; i++) st[nst++] = pre[i]; for (int i = 0; i < nst; i++) { tr[i + 1] = tr[i]; a_apply(&tr[i + 1], st[i]); a_tell(st[i]); } }
    for (int d = 0; d < depth; d++) { a_enabled(&tr[nst]); st[nst] = menu[mc_choose(nmenu)]; tr[nst + 1] = tr[nst]; a_apply(&tr[nst + 1], st[nst]); a_tell(st[nst]); nst++; if (d == 1) mc_shard(); mc_state(mc_hash(&tr[nst], sizeof tr[nst], 2)); }
    say(" free the rest"); mc_sample("%s", hist);
    for (int rep = 0; rep < 2; rep++) {
        memset(AR, 0, sizeof AR); memset(LI, 0, sizeof LI); nmaps = badunmap = 0; int fds = open_fds(); al_begin(0);
        for (int i = 0; i < nst; i++) { a_execute(st[i], &tr[i], i); a_compare(&tr[i + 1]); }
        for (int i = 0; i < NA; i++) if (AR[i]) npy_array_free(AR[i]); for (int l = 0; l < NL; l++) npy_array_list_free(LI[l]);
        long left = al_end(); if (left > 0 && !rep) continue; MC_CHECK(left <= 0, "leak", "%ld blocks are left behind", left); MC_CHECK(!nmaps && !badunmap, "mapping", "%d mappings are left, %d wrong unmappings", nmaps, badunmap); MC_CHECK(open_fds() == fds, "fd", "%d file descriptors are left open", open_fds() - fds); break;
    }
    mc_eval(1); mc_nontrivial(1); mc_trans(nst); mc_trace(1);
}
static void arrays(void){ arrays_from(0, (mc_thorough ? 6 : 5) - LESS); }
static void arrays_more(void){ arrays_from(1, mc_thorough ? 4 : 3); }
const mc_suite_t mc_suites[] = { { "training", training }, { "trained", training_more }, { "callbacks", training_cb }, { "crowd", crowd }, { "arrays", arrays }, { "lists", arrays_more }, { 0 } };
