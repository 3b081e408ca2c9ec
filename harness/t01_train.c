/* Training: mini-batches and orders (T01), update rules (T02 SGD, T03 RMSprop/Adagrad, T04 Adam), reported results (T05),
 * independence of runs (T06). The reference is an independent double-precision implementation of the documented rules. */
#include "nnref.h"
#include "optimizer_implementations.h"
#include "teams.h"
#include "evaluate.h"
#include "earlystopping.h"
#include "modelcheckpoint.h"
#include <limits.h>
#include <time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>
#ifdef __SANITIZE_ADDRESS__
#define ASANB 1
#else
#define ASANB 0
#endif
#if PART == 6
static void prepare_alone(void);
void mc_harness_init(void){ prepare_alone(); }
#else
void mc_harness_init(void){}
#endif

/* ---- the random generator is ours ---- */
static int (*rand_hook)(void); static uint32_t lcg = 1; static long nrand;
int rand(void){ nrand++; if (rand_hook) return rand_hook(); lcg = lcg * 1664525u + 1013904223u; return (int)(h32(lcg) >> 1); }
static void (*srand_hook)(unsigned); void srand(unsigned s){ if (srand_hook) srand_hook(s); }
time_t time(time_t *t){ if (t) *t = 1700000000; return 1700000000; }   /* everything happens within one second */

/* ---- reference ---- */
enum { K_SGD, K_RMS, K_ADAGRAD, K_ADAM, K_N };
static const char *const knames[] = { "SGD", "RMSprop", "Adagrad", "Adam" };
#if PART >= 2 && PART <= 4
#define MAXP 6000
#else
#define MAXP 512
#endif
typedef struct { int kind; double lr, decay, mom; bool nest; double rho, b1, b2, wd; int np; double v[MAXP], r[MAXP], s[MAXP], par[MAXP], tol[MAXP], gmin, loose, p1, p2; bool ill[MAXP]; unsigned it; } ro_t;
typedef struct { int n, ni, no; float *x, *y; double *xd, *yd; } ds_t;
static ds_t ds_new(int n, int ni, int no){ ds_t d = { n, ni, no }; d.x = aligned_alloc(64, (4 * ((size_t) n * ni + 16) + 63) / 64 * 64); d.y = aligned_alloc(64, (4 * ((size_t) n * no + 16) + 63) / 64 * 64); d.xd = NULL; return d; }
static void ds_done(ds_t *d){ d->xd = malloc(sizeof(double) * ((size_t) d->n * (d->ni + d->no) + 1)); d->yd = d->xd + (size_t) d->n * d->ni; for (size_t i = 0; i < (size_t) d->n * d->ni; i++) d->xd[i] = d->x[i]; for (size_t i = 0; i < (size_t) d->n * d->no; i++) d->yd[i] = d->y[i]; }
static void ds_free(ds_t *d){ free(d->x); free(d->y); free(d->xd); }
static void get_par(const neuralnet_t *nn, double *p){ for (int l = 0; l < nn->n_layers; l++) { for (int j = 0; j < nn->layer[l].n_output; j++) *p++ = nn->layer[l].bias[j]; for (int k = 0; k < nn->layer[l].n_input * nn->layer[l].n_output; k++) *p++ = nn->layer[l].weight[k]; } }
static int n_par(const neuralnet_t *nn){ int n = 0; for (int l = 0; l < nn->n_layers; l++) n += (nn->layer[l].n_input + 1) * nn->layer[l].n_output; return n; }
static void ro_init(ro_t *o, int kind, const neuralnet_t *nn){ memset(o, 0, offsetof(ro_t, v)); o->kind = kind; o->np = n_par(nn); if (o->np > MAXP) abort(); memset(o->v, 0, 8 * o->np); memset(o->r, 0, 8 * o->np); memset(o->s, 0, 8 * o->np); memset(o->tol, 0, 8 * o->np); memset(o->ill, 0, o->np); o->loose = 0; o->it = 0; get_par(nn, o->par); o->p1 = o->p2 = 1; o->gmin = 1e300; }
/* one mini-batch of the samples idx[0..b-1]; false if the result is not well defined (kinks) */
static bool ro_step(ro_t *o, const neuralnet_t *nn, const int *acts, int loss, const ds_t *d, const int *idx, int b)
{
    int n = o->np; static __thread double g[MAXP], gm[MAXP], t[MAXP], m[MAXP]; bool ok = true, kink;
    if ((o->kind == K_SGD || o->kind == K_RMS) && o->mom > 0) for (int k = 0; k < n; k++) { o->v[k] *= o->mom; if (o->nest) o->par[k] += o->v[k]; }
    memset(g, 0, sizeof *g * n); memset(gm, 0, sizeof *gm * n);
    for (int i = 0; i < b; i++) { ref_backprop(nn, acts, loss, o->par, d->xd + (size_t) idx[i] * d->ni, d->yd + (size_t) idx[i] * d->no, t, m, &kink); if (kink) ok = false; for (int k = 0; k < n; k++) { g[k] += t[k]; gm[k] += m[k]; } }
    for (int k = 0; k < n; k++) { g[k] /= b; gm[k] /= b; if (gm[k] > 0 && fabs(g[k]) / gm[k] < o->gmin) o->gmin = fabs(g[k]) / gm[k]; if (gm[k] > 0 && fabs(g[k]) / gm[k] < 2e-2) o->ill[k] = true; }
    if (o->kind != K_ADAM && o->decay > 0) o->lr *= 1.0 / (1.0 + o->decay * o->it);
    o->it++; o->p1 *= o->b1; o->p2 *= o->b2;
    for (int k = 0; k < n; k++) {
        double dl, e;     /* step and a bound on the float result's error of this step */
        switch (o->kind) {
        case K_SGD: dl = -o->lr * g[k]; e = o->lr * (2e-5 * gm[k] + 1e-5 * fabs(g[k])); break;
        case K_RMS: o->r[k] = o->rho * o->r[k] + (1 - o->rho) * g[k] * g[k]; dl = -o->lr * g[k] / (1e-7 + sqrt(o->r[k])); e = 1e-4 * fabs(dl); break;
        case K_ADAGRAD: o->r[k] += g[k] * g[k]; dl = -o->lr * g[k] / (1e-7 + sqrt(o->r[k])); e = 1e-4 * fabs(dl); break;
        default: o->s[k] = o->b1 * o->s[k] + (1 - o->b1) * g[k]; o->r[k] = o->b2 * o->r[k] + (1 - o->b2) * g[k] * g[k];
            dl = -o->lr * (o->s[k] / (1 - o->p1)) / (sqrt(o->r[k] / (1 - o->p2)) + 1e-8); e = 4e-4 * fabs(dl) + 4e-6 * o->lr; if (o->wd > 0) { dl -= o->wd * o->par[k]; e += o->wd * o->tol[k]; } break;
        }
        if ((o->kind == K_SGD || o->kind == K_RMS) && o->mom > 0) { o->v[k] += dl; o->par[k] += o->nest ? dl : o->v[k]; e += 1e-6 * fabs(o->v[k]); o->tol[k] += (o->nest ? e : e / (1 - o->mom)); }
        else { o->par[k] += dl; o->tol[k] += e; }
        if (o->loose) o->tol[k] += o->loose * fabs(dl);
        o->tol[k] += 3e-7 * fabs(o->par[k]) + 3e-7 * fabs(dl);
    }
    return ok;
}
static bool ro_match(const ro_t *o, const neuralnet_t *nn, int *bad, double *diff)
{
    static __thread double p[MAXP]; get_par(nn, p);
    for (int k = 0; k < o->np; k++) if (!(fabs(p[k] - o->par[k]) <= o->tol[k] + 1e-9) && !(o->loose && o->ill[k])) { if (bad) { *bad = k; *diff = p[k]; } return false; }
    return true;
}
static void ro_epoch(ro_t *o, const neuralnet_t *nn, const int *acts, int loss, const ds_t *d, const int *order, int bs, bool *ok){ for (int i = 0; i < d->n; i += bs) if (!ro_step(o, nn, acts, loss, d, order + i, d->n - i < bs ? d->n - i : bs)) *ok = false; }

static optimizer_t *new_opt(const ro_t *o, neuralnet_t *nn, int bs, bool shuffle, metric_func *mf, void (*prog)(int, int, const char*, ...))
{
    optimizer_properties_t p = OPTIMIZER_PROPERTIES(.batchsize = bs, .shuffle = shuffle, .metrics = mf, .progress = prog);
    switch (o->kind) {
    case K_SGD: return OPTIMIZER(SGD_new(nn, p, SGD_PROPERTIES(.learning_rate = o->lr, .decay = o->decay, .momentum = o->mom, .nesterov = o->nest)));
    case K_RMS: return OPTIMIZER(RMSprop_new(nn, p, RMSPROP_PROPERTIES(.learning_rate = o->lr, .decay = o->decay, .rho = o->rho, .momentum = o->mom, .nesterov = o->nest)));
    case K_ADAGRAD: return OPTIMIZER(adagrad_new(nn, p, ADAGRAD_PROPERTIES(.learning_rate = o->lr, .decay = o->decay)));
    }
    return OPTIMIZER(adam_new(nn, p, ADAM_PROPERTIES(.learning_rate = o->lr, .beta_1 = o->b1, .beta_2 = o->b2, .weight_decay = o->wd)));
}
static void defaults(ro_t *o){ o->lr = (float) (o->kind == K_SGD ? 0.125f : 0.03125f); o->rho = 0.75; o->b1 = 0.75; o->b2 = 0.875; o->wd = 0; }
static void noprog(int x, int n, const char *f, ...){}
static float res_buf[64];
static void fill_net_dyadic(neuralnet_t *nn, int seed){ for (int l = 0; l < nn->n_layers; l++) { for (int j = 0; j < nn->layer[l].n_output; j++) nn->layer[l].bias[j] = ival(seed + l * 77 + j, 4) / 8; for (int k = 0; k < nn->layer[l].n_input * nn->layer[l].n_output; k++) nn->layer[l].weight[k] = ival(seed * 13 + l * 991 + k + 5000, 8) / 16; } }
static ds_t mk_ds(int n, int ni, int no, int loss, int seed, float scale)
{
    ds_t d = ds_new(n, ni, no);
    for (int i = 0; i < n * ni; i++) d.x[i] = i % ni == (i / ni) % ni ? 1.0f + (i / ni % 5) * 0.5f : ival(seed * 101 + i, 8) / 8.0f;
    for (int i = 0; i < n; i++) for (int j = 0; j < no; j++) d.y[i * no + j] = loss == L_BCE ? (float)((i + j + seed) & 1) : loss == L_CCE ? (float)(j == (i * 3 + seed) % no) : scale * (1.0f + ((i * 5 + j * 3 + seed) % 11) * 0.75f) * (((i * 7 + j + seed) % 3) ? 1 : -1);
    ds_done(&d); return d;
}

#if PART == 1
/* ---- orders and batches, identified from the outcome alone ---- */
static int perms[120][5], nperm, permn;
static void mk_perms(int n){ if (permn == n) return; permn = n; nperm = 0; int a[5]; int tot = 1; for (int i = 2; i <= n; i++) tot *= i; for (int c = 0; c < tot; c++) { int used = 0, r = c, f = tot; for (int i = 0; i < n; i++) { f /= (n - i); int k = r / f; r %= f; int j = 0; for (;; j++) if (!(used >> j & 1) && !k--) break; used |= 1 << j; a[i] = j; } memcpy(perms[nperm++], a, sizeof a); } }
/* which order explains what the epoch did; -1 none. All distinguishable up to the order within a batch. `o` is advanced. */
static int explain(ro_t *o, const neuralnet_t *nn, const int *acts, int loss, const ds_t *d, int bs)
{
    mk_perms(d->n); int hit = -1; static ro_t best, c; int cls[5];
    for (int p = 0; p < nperm; p++) {
        bool canon = true; for (int i = 0; i + 1 < d->n; i++) if (i / bs == (i + 1) / bs && perms[p][i] > perms[p][i + 1]) canon = false; if (!canon) continue; (void) cls;
        c = *o; bool ok = true; ro_epoch(&c, nn, acts, loss, d, perms[p], bs, &ok);
        if (ro_match(&c, nn, NULL, NULL)) { if (hit >= 0) return -2; hit = p; best = c; }
    }
    if (hit >= 0) *o = best; return hit;
}
static bool ident(int p, int n){ for (int i = 0; i < n; i++) if (perms[p][i] != i) return false; return true; }
/* sizes and settings of every epoch in turn */
static void sizes(void)
{
    int kind = mc_choose(K_N), ep = mc_thorough ? 4 : 3, bs = mc_pick(1, 2, 3, 7), n[4]; bool sh = mc_choose(2);
    for (int e = 0; e < ep; e++) { n[e] = mc_range(1, 4); if (e == 1) mc_shard(); }
    int sz[2] = { 5, 3 }, acts[1] = { A_LINEAR }; neuralnet_t *nn = mk_net(1, sz, acts); fill_net_dyadic(nn, 3); neuralnet_set_loss(nn, "mse");
    static ro_t o; ro_init(&o, kind, nn); defaults(&o); if (kind == K_SGD) o.mom = 0.5;
    mc_ctx("%s, batch size %d, %s, data sets of %d,%d,%d,.. samples", knames[kind], bs, sh ? "shuffled" : "in order", n[0], n[1], n[2]); mc_sample("%s, batch size %d, %s, epochs over %d,%d,%d samples", knames[kind], bs, sh ? "shuffled" : "in order", n[0], n[1], n[2]);
    lcg = 77 + bs; rand_hook = NULL; optimizer_t *opt = new_opt(&o, nn, bs, sh, NULL, NULL);
    for (int e = 0; e < ep; e++) {
        ds_t d = mk_ds(n[e], 5, 3, L_MSE, e + 1, 1); optimizer_run_epoch(opt, d.n, d.x, d.y, 0, NULL, NULL, res_buf);
        int p = explain(&o, nn, acts, L_MSE, &d, bs); MC_CHECK(p != -1, "batches", "epoch %d over %d samples: no division of the samples into mini-batches of %d explains the parameters", e + 1, d.n, bs);
        if (p == -2) { ds_free(&d); break; }
        if (!sh) MC_CHECK(ident(p, d.n), "order", "epoch %d: samples are not used in order (%d,%d,%d,%d)", e + 1, perms[p][0], perms[p][1], perms[p][2], perms[p][3]);
        ds_free(&d); mc_eval(1); mc_nontrivial(d.n > 1); mc_trans(1); mc_state(mc_hash(o.par, sizeof(double) * o.np, e));
    }
    mc_trace(1);
    optimizer_free(opt); neuralnet_free(nn);
}
/* every sequence of generator outcomes: which orders occur how often */
/* A generator: one stream of outcomes per seed (and one for the state before any seeding). Seeding again with the same
 * seed starts the same stream again. Every outcome of every stream is a free choice. */
static int seq[64], seqn, LCM; static bool seqover;
static struct { unsigned seed; int n, idx[40]; } str[4]; static int nstr, cur, pos, fresh;
static void seq_begin(void){ nstr = 1; str[0].n = 0; cur = pos = fresh = 0; seqover = false; }
static void seq_srand(unsigned s){ for (int i = 1; i < nstr; i++) if (str[i].seed == s) { cur = i; pos = 0; return; } if (nstr == 4) { seqover = true; return; } str[nstr].seed = s; str[nstr].n = 0; cur = nstr++; pos = 0; }
static int seq_rand(void)
{
    if (fresh >= 40 || pos >= 40) { seqover = true; return 0; }
    if (pos == str[cur].n) { if (fresh == seqn) seq[seqn++] = 0; str[cur].idx[str[cur].n++] = fresh++; } int k = seq[str[cur].idx[pos++]];
    unsigned base = (unsigned)(((uint64_t) k * ((uint64_t) RAND_MAX + 1)) / LCM); return (int)(base + ((unsigned) k + LCM - base % LCM) % LCM);
}
static void uniform(void)
{
    static const struct { int kind, eps, n[3], lcm, thorough; } W[] = { { K_SGD, 1, { 2 }, 2 }, { K_SGD, 1, { 3 }, 6 }, { K_SGD, 1, { 4 }, 12 }, { K_SGD, 2, { 3, 3 }, 6 }, { K_RMS, 2, { 2, 3 }, 6 }, { K_SGD, 3, { 3, 2, 3 }, 6 }, { K_ADAM, 1, { 3 }, 6 }, { K_ADAGRAD, 1, { 3 }, 6 }, { K_ADAM, 1, { 4 }, 12, 1 }, { K_SGD, 3, { 3, 3, 3 }, 6, 1 }, { K_SGD, 2, { 4, 2 }, 12, 1 } };
    int w = mc_choose(sizeof W / sizeof *W); if (W[w].thorough && !mc_thorough) mc_skip(); mc_shard(); int eps = W[w].eps, kind = W[w].kind; LCM = W[w].lcm; if (ASANB && (LCM == 12 || eps > 1)) mc_skip();
    int sz[2] = { 4, 1 }, acts[1] = { A_LINEAR }, cells = 1, np_[3]; ds_t d[3]; for (int e = 0; e < eps; e++) { d[e] = mk_ds(W[w].n[e], 4, 1, L_MSE, 3 + e, 1); mk_perms(W[w].n[e]); np_[e] = nperm; cells *= nperm; }
    double *mass = calloc(cells, sizeof *mass), left = 0; long runs = 0, used = 0; seqn = 0; ro_t *T = malloc(sizeof(ro_t) * cells);
    for (int c = 0; c < cells; c++) { neuralnet_t *nn = mk_net(1, sz, acts); fill_net_dyadic(nn, 5); ro_t *o = &T[c]; ro_init(o, kind, nn); defaults(o); bool ok = true; for (int e = 0, q = c; e < eps; q /= np_[e], e++) { mk_perms(d[e].n); ro_epoch(o, nn, acts, L_MSE, &d[e], perms[q % nperm], 1, &ok); } neuralnet_free(nn); }
    mc_ctx("%s, %d epochs over %d,%d,%d samples: orders", knames[kind], eps, d[0].n, eps > 1 ? d[1].n : 0, eps > 2 ? d[2].n : 0);
    for (;;) {
        neuralnet_t *nn = mk_net(1, sz, acts); fill_net_dyadic(nn, 5); neuralnet_set_loss(nn, "mse"); static ro_t o; ro_init(&o, kind, nn); defaults(&o); optimizer_t *opt = new_opt(&o, nn, 1, true, NULL, NULL); nrand = 0; seq_begin(); rand_hook = seq_rand; srand_hook = seq_srand;
        for (int e = 0; e < eps; e++) optimizer_run_epoch(opt, d[e].n, d[e].x, d[e].y, 0, NULL, NULL, res_buf); rand_hook = NULL; srand_hook = NULL; used += nrand;
        int hit = -1; for (int c = 0; c < cells && hit != -2; c++) if (ro_match(&T[c], nn, NULL, NULL)) hit = hit < 0 ? c : -2;
        double wt = 1; for (int i = 0; i < fresh; i++) wt /= LCM;
        if (seqover) left += wt; else { MC_CHECK(hit != -1, "batches", "no order of the samples explains the parameters (generator outcomes %d,%d,%d.. of %d)", seq[0], seqn > 1 ? seq[1] : -1, seqn > 2 ? seq[2] : -1, LCM); if (hit == -2) abort(); mass[hit] += wt; }
        optimizer_free(opt); neuralnet_free(nn); runs++; seqn = fresh; mc_trans(eps);
        while (seqn && seq[seqn - 1] == LCM - 1) seqn--; if (!seqn) break; seq[seqn - 1]++;
        if (runs > 3000000) { left = 2; break; }
    }
    mc_sample("%s, %d epochs over %d,%d,%d samples: %ld sequences of generator outcomes, %d order sequences", knames[kind], eps, d[0].n, eps > 1 ? d[1].n : 0, eps > 2 ? d[2].n : 0, runs, cells);
    MC_CHECK(used > 0 || left > 0, "shuffle", "the samples are not shuffled at all");
    for (int c = 0; c < cells; c++) { mc_state(mc_hash(&c, 4, w)); mk_perms(d[0].n); int q = c % np_[0]; MC_CHECK(fabs(mass[c] - 1.0 / cells) <= left + 1e-9, "uniform", "order sequence %d of %d (first %d,%d,%d..) occurs with probability %g instead of %g", c, cells, perms[q][0], perms[q][1], d[0].n > 2 ? perms[q][2] : -1, mass[c], 1.0 / cells); mc_nontrivial(1); }
    mc_eval(runs); mc_trace(runs); free(mass); free(T); for (int e = 0; e < eps; e++) ds_free(&d[e]);
}
/* every sample contributes once, weighted by its mini-batch: one-hot samples, constant slopes */
static void counted_epochs(int n, int bs)
{
    bool sh = mc_choose(2); int eps = 3;
    int sz[2] = { n, 1 }, acts[1] = { A_LINEAR }; neuralnet_t *nn = mk_net(1, sz, acts); for (int k = 0; k < n; k++) nn->layer[0].weight[k] = 0; nn->layer[0].bias[0] = 0; neuralnet_set_loss(nn, "mae");
    ds_t d = ds_new(n, n, 1); memset(d.x, 0, 4 * n * n); for (int k = 0; k < n; k++) { d.x[k * n + k] = 1; d.y[k] = 1e9f; } ds_done(&d);
    mc_ctx("%d samples in batches of %d, %s, teams of %d%s", n, bs, sh ? "shuffled" : "in order", team_n, team_modes[team_mode]); mc_sample("%d samples in batches of %d, %s: weight of every sample", n, bs, sh ? "shuffled" : "in order");
    static ro_t o; memset(&o, 0, sizeof o); o.kind = K_SGD; o.lr = 1; lcg = n * 100 + bs; optimizer_t *opt = new_opt(&o, nn, bs, sh, NULL, NULL);
    for (int e = 1; e <= eps; e++) {
        float w0[64]; for (int k = 0; k < n; k++) w0[k] = nn->layer[0].weight[k]; float b0 = nn->layer[0].bias[0];
        TEAM(optimizer_run_epoch(opt, n, d.x, d.y, 0, NULL, NULL, res_buf)); int last = n % bs, full = 0, rem = 0, nb = (n + bs - 1) / bs;
        for (int k = 0; k < n; k++) { double dw = (double) nn->layer[0].weight[k] - w0[k]; bool f = fabs(dw - 1.0 / bs) < 1e-5, r = last && fabs(dw - 1.0 / last) < 1e-5; MC_CHECK(f || r, "count", "epoch %d: sample %d moves its weight by %g instead of 1/%d%s", e, k, dw, bs, last ? " (or that of the last batch)" : ""); if (f) full++; else rem++; if (!sh) MC_CHECK(f == (k < n - last), "order", "sample %d is in the wrong mini-batch", k); }
        MC_CHECK(full == n - last && rem == last, "sizes", "epoch %d: %d samples in full batches and %d in the last one, expected %d and %d", e, full, rem, n - last, last);
        MC_CHECK(fabs(nn->layer[0].bias[0] - b0 - nb) < 1e-4 * nb, "mean", "epoch %d: the bias moves by %g, expected %d", e, nn->layer[0].bias[0] - b0, nb); mc_eval(1); mc_nontrivial(n > 1);
    }
    optimizer_free(opt); neuralnet_free(nn); ds_free(&d);
}
static void counts(void){ team_done(); int n = mc_range(1, ASANB ? 12 : mc_thorough ? 40 : 24), bs = mc_range(1, n + 1); mc_shard(); counted_epochs(n, bs); }
/* the same with every number of threads, directly and within a parallel region of the caller */
static void teams(void){ team_done(); int n = mc_range(1, ASANB ? 6 : mc_thorough ? 24 : 14), bs = mc_range(1, n); mc_shard(); team_pick(mc_thorough ? 17 : 9); counted_epochs(n, bs); team_done(); }
/* the building block for user-defined optimizers, writing exactly the caller's vector */
typedef struct _own_t own_t; struct _own_t { optimizer_t opt; int dummy; };
static fbuf_t gb; static int ownbad, ownfirst; static void (*own_check)(optimizer_t*, unsigned, const float*, const float*);
own_t *own_new(neuralnet_t *nn, optimizer_properties_t optconf, void *config);
OPTIMIZER_DEFINE(own, newopt->dummy = 0; );
static void own_run_epoch(optimizer_t *opt, const unsigned n, const float *x, const float *y){ own_check(opt, n, x, y); }
static int g_fill; static const ds_t *g_d; static const int *g_acts; static int g_loss; static double g_ref[MAXP], g_mag[MAXP], g_t[MAXP], g_m[MAXP];
static void own_do(optimizer_t *opt, unsigned n, const float *x, const float *y)
{
    int np = n_par(opt->nn);
    for (unsigned i = 0; i < n; ) {
        static const uint32_t fills[3] = { 0x80000000u, 0x7fa00001u, 0x00000001u }; fbuf_t b = fb_new(np, 0);
#ifndef __SANITIZE_ADDRESS__
        for (int k = 0; k < 32; k++) ((uint32_t*)(b.d + np))[k] = fills[g_fill];
#endif
        unsigned was = i; optimizer_calc_batch_gradient(opt, n, x, y, &i, b.d); unsigned want = n - was < (unsigned) opt->batchsize ? n : was + opt->batchsize; MC_CHECK(i == want, "sizes", "the position after a mini-batch is %u instead of %u", i, want);
#ifndef __SANITIZE_ADDRESS__
        for (int k = 0; k < 32; k++) MC_CHECK(((uint32_t*)(b.d + np))[k] == fills[g_fill], "oob-gradient", "memory %d floats behind the gradient of %d parameters was written", k, np);
#endif
        memset(g_ref, 0, sizeof g_ref); memset(g_mag, 0, sizeof g_mag); bool kink, anyk = false; for (unsigned s = was; s < i; s++) { ref_backprop(opt->nn, g_acts, g_loss, NULL, g_d->xd + (size_t) s * g_d->ni, g_d->yd + (size_t) s * g_d->no, g_t, g_m, &kink); anyk |= kink; for (int k = 0; k < np; k++) { g_ref[k] += g_t[k] / (i - was); g_mag[k] += g_m[k] / (i - was); } }
        if (!anyk) for (int k = 0; k < np; k++) MC_CHECK(fabs(b.d[k] - g_ref[k]) <= 1e-5 * g_mag[k] + 2e-5 * fabs(g_ref[k]) + 1e-7, "mean", "parameter %d of %d: mean gradient %.9g, expected %.9g (samples %u..%u)", k, np, b.d[k], g_ref[k], was, i); mc_nontrivial(!anyk); fb_free(&b); mc_eval(1);
    }
}
static void block(void)
{
    int a = mc_range(1, ASANB ? 6 : 12), h = mc_pick(0, 1, 3, 8, 9), b = mc_range(1, 5); mc_shard(); int n = mc_pick(1, 4, 5), bs = mc_pick(1, 2, 4, 9), act = mc_choose(3); g_fill = mc_choose(3); if (g_fill && (n != 4 || bs != 2)) mc_skip();
    int L = h ? 2 : 1, sz[3] = { a, h ? h : b, b }, acts[2] = { A_TANH, A_LINEAR }, loss = act == 0 ? L_MSE : act == 1 ? L_BCE : L_CCE; acts[L - 1] = act == 0 ? A_LINEAR : act == 1 ? A_SIGMOID : A_SOFTMAX; neuralnet_t *nn = mk_net(L, sz, acts); fill_net_real(nn, a * 7 + b); neuralnet_set_loss(nn, loss_names[loss]); ds_t d = mk_ds(n, a, b, loss, a + b, 1);
    mc_ctx("network %d,%d,%d with %d parameters, %d samples in batches of %d, %s", a, h, b, n_par(nn), n, bs, loss_names[loss]); mc_sample("own optimizer: network %d,%d,%d, %d samples in batches of %d", a, h, b, n, bs);
    g_d = &d; g_acts = acts; g_loss = loss; own_check = own_do; optimizer_t *opt = OPTIMIZER(own_new(nn, OPTIMIZER_PROPERTIES(.batchsize = bs, .shuffle = false, .progress = NULL), NULL)); optimizer_run_epoch(opt, n, d.x, d.y, 0, NULL, NULL, res_buf);
    optimizer_free(opt); neuralnet_free(nn); ds_free(&d);
}
/* data sets beyond 16-bit counters: the slope of a mini-batch of one tells which sample it was */
static int *who, nwho;
static void scale_do(optimizer_t *opt, unsigned n, const float *x, const float *y)
{
    float g[16] __attribute__((aligned(64))); for (unsigned i = 0; i < n; ) { unsigned was = i; optimizer_calc_batch_gradient(opt, n, x, y, &i, g); unsigned want = n - was < (unsigned) opt->batchsize ? n : was + opt->batchsize; MC_CHECK(i == want, "sizes", "the position after a mini-batch is %u instead of %u", i, want); double s = -(double) g[1] * (i - was); if (opt->batchsize == 1) { if (nwho < (int) n) who[nwho++] = (int) lrint(s) - 1; } else { double e = 0; for (unsigned k = was; k < i; k++) e += x[k]; MC_CHECK(opt->shuffle || fabs(s - e) <= 1e-4 * e, "order", "the mini-batch of samples %u..%u is a mean of %.9g instead of %.9g", was, i - 1, s / (i - was), e / (i - was)); MC_CHECK(fabs(g[0] + 1) < 1e-4, "mean", "the mean slope of the bias over samples %u..%u is %.9g", was, i - 1, g[0]); for (unsigned k = 0; k < i - was; k++) nwho++; } }
}
static void scale(void)
{
    int n = scale_pick(63, ASANB ? 257 : mc_thorough ? 1048577 : 131073); mc_shard(); bool sh = mc_choose(2); int bs = mc_choose(2) ? scale_pick(255, ASANB ? 257 : mc_thorough ? 1048577 : 131073) : 1; if (bs > n + 1 || (sh && bs > 1)) mc_skip(); if (ASANB && n > 300) mc_skip(); int sz[2] = { 1, 1 }, acts[1] = { A_LINEAR }; neuralnet_t *nn = mk_net(1, sz, acts); nn->layer[0].weight[0] = nn->layer[0].bias[0] = 0; neuralnet_set_loss(nn, "mae");
    ds_t d = ds_new(n, 1, 1); for (int i = 0; i < n; i++) { d.x[i] = i + 1; d.y[i] = 1e9f; } who = malloc(sizeof(int) * (n + 1)); char *seen = malloc(n); static int cell[2][16][16]; int *old = malloc(sizeof(int) * n); for (int i = 0; i < n; i++) old[i] = i;
    mc_ctx("%d samples in batches of %d, %s", n, bs, sh ? "shuffled" : "in order"); mc_sample("%d samples in batches of %d, %s", n, bs, sh ? "shuffled" : "in order"); lcg = n; rand_hook = NULL; own_check = scale_do; optimizer_t *opt = OPTIMIZER(own_new(nn, OPTIMIZER_PROPERTIES(.batchsize = bs, .shuffle = sh, .progress = NULL), NULL));
    for (int e = 0; e < 2; e++) {
        nwho = 0; optimizer_run_epoch(opt, n, d.x, d.y, 0, NULL, NULL, res_buf); MC_CHECK(nwho == n, "sizes", "epoch %d: %d samples in mini-batches", e + 1, nwho); mc_eval(1); mc_nontrivial(1); mc_trans(1);
        if (bs > 1) continue;
        memset(seen, 0, n); memset(cell, 0, sizeof cell); for (int i = 0; i < n; i++) { int k = who[i]; MC_CHECK(k >= 0 && k < n && !seen[k], "count", "epoch %d: mini-batch %d is sample %d%s", e + 1, i, k, k >= 0 && k < n ? " once more" : ""); seen[k] = 1; if (!sh) MC_CHECK(k == i, "order", "epoch %d: mini-batch %d is sample %d", e + 1, i, k); cell[0][(long) k * 16 / n][(long) i * 16 / n]++; cell[1][(long) old[k] * 16 / n][(long) i * 16 / n]++; }
        if (sh && n > 60000) for (int c = 0; c < 2; c++) for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) MC_CHECK(cell[c][a][b] > n / 256 / 2 && cell[c][a][b] < n / 256 * 3 / 2, "shuffle", "epoch %d: of the samples in sixteenth %d %s, %d come into sixteenth %d of the order, about %d expected", e + 1, a, c ? "of the previous order" : "of the data set", cell[c][a][b], b, n / 256);
        for (int i = 0; i < n; i++) old[who[i]] = i;
    }
    optimizer_free(opt); neuralnet_free(nn); ds_free(&d); free(who); free(seen); free(old);
}
const mc_suite_t mc_suites[] = { { "orders", sizes }, { "uniform", uniform }, { "counts", counts }, { "teams", teams }, { "own-optimizer", block }, { "scale", scale }, { 0 } };
#endif
#if PART >= 2 && PART <= 4
/* ---- update rules: run epochs in order and compare with the reference after every epoch ---- */
static void follow(ro_t *o, neuralnet_t *nn, const int *acts, int loss, int bs, int ep, const int *n, float scale, bool strict)
{
    bool ok = true; static int order[400]; for (int i = 0; i < 400; i++) order[i] = i; ro_t init = *o; optimizer_t *opt = new_opt(o, nn, bs, false, NULL, NULL); (void) init; uint64_t h = 0;
    for (int e = 0; e < ep && ok; e++) {
        ds_t d = mk_ds(n[e], nn->layer[0].n_input, nn->layer[nn->n_layers - 1].n_output, loss, e + 1, scale); ro_epoch(o, nn, acts, loss, &d, order, bs, &ok); TEAM(optimizer_run_epoch(opt, d.n, d.x, d.y, 0, NULL, NULL, res_buf));
        if (o->kind != K_SGD && !o->loose && o->gmin < (strict ? 0 : 2e-3)) ok = false;
        int bad; double got; if (ok) { MC_CHECK(ro_match(o, nn, &bad, &got), "rule", "after epoch %d of %d samples (%u steps): parameter %d of %d is %.9g, the rule gives %.9g (+-%.2g)", e + 1, d.n, o->it, bad, o->np, got, o->par[bad], o->tol[bad]); mc_eval(1); mc_nontrivial(1); }
        ds_free(&d);
    }
    optimizer_free(opt); (void) h;
}
static void pick_settings(ro_t *o, int level)
{
    defaults(o);
    static const float lr[] = { 0.03125f, 0.3f, 1e-3f }, dec[] = { 0, 0.1f, 1.0f, 1e-4f }, mo[] = { 0, 0.5f, 0.9f, 0.99f }, rho[] = { 0.9f, 0.5f, 0.99f, 0.0f }, b1[] = { 0.9f, 0.5f, 0.0f, 0.99f }, b2[] = { 0.999f, 0.9f, 0.5f, 0.99f }, wd[] = { 0, 1e-4f, 0.1f, 0.01f };
    int k = level; o->lr = lr[mc_choose(k < 3 ? k : 3)];
    if (o->kind != K_ADAM) o->decay = dec[mc_choose(k)]; if (o->kind == K_SGD || o->kind == K_RMS) { o->mom = mo[mc_choose(k)]; o->nest = mc_choose(2); }
    if (o->kind == K_RMS) o->rho = rho[mc_choose(k)]; if (o->kind == K_ADAM) { o->b1 = b1[mc_choose(k)]; o->b2 = b2[mc_choose(k)]; o->wd = wd[mc_choose(k)]; }
}
static int pick_kind(void){ return PART == 2 ? K_SGD : PART == 4 ? K_ADAM : mc_pick(K_RMS, K_ADAGRAD); }
#define SETS "lr %g decay %g momentum %g%s rho %g beta %g/%g weight decay %g", o.lr, o.decay, o.mom, o.nest ? " nesterov" : "", o.rho, o.b1, o.b2, o.wd
static char sb[300];
static void settings(void)
{
    static ro_t o; int kind = pick_kind(); int sz[2] = { 5, 3 }, acts[1] = { A_LINEAR }; neuralnet_t *nn = mk_net(1, sz, acts); fill_net_dyadic(nn, 3); neuralnet_set_loss(nn, "mse"); ro_init(&o, kind, nn); pick_settings(&o, 4); mc_shard(); if (o.nest && o.mom == 0 && !mc_thorough) mc_skip();
    int bs = mc_pick(1, 3, 4), n[4] = { mc_pick(4, 5), mc_pick(1, 3), 4, 2 }; snprintf(sb, sizeof sb, SETS); mc_ctx("%s %s, batches of %d, epochs over %d,%d,%d,%d", knames[kind], sb, bs, n[0], n[1], n[2], n[3]); mc_sample("%s %s, batches of %d, epochs over %d,%d,..", knames[kind], sb, bs, n[0], n[1]);
    follow(&o, nn, acts, L_MSE, bs, ASANB ? 2 : 4, n, 1, false); neuralnet_free(nn);
}
static void shapes(void)
{
    static ro_t o; int kind = pick_kind(), a = mc_range(1, ASANB ? 9 : mc_thorough ? 20 : 17), b = mc_range(1, ASANB ? 3 : 6), h = mc_pick(0, 1, 3, 4); mc_shard(); int L = h ? 2 : 1, sz[3] = { a, h ? h : b, b }, acts[2] = { A_LINEAR, A_LINEAR }; if (h) acts[0] = mc_pick(A_LINEAR, A_TANH);
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_dyadic(nn, a * 5 + b); neuralnet_set_loss(nn, "mse"); ro_init(&o, kind, nn); pick_settings(&o, h ? 1 : 2); if (o.mom == 0 && kind <= K_RMS) o.mom = h ? 0.5 : 0; int n[2] = { 5, 3 }, bs = mc_pick(2, 5);
    snprintf(sb, sizeof sb, SETS); mc_ctx("%s %s, network %d,%d,%d (%d parameters), batches of %d", knames[kind], sb, a, h, b, o.np, bs); mc_sample("%s, network %d,%d,%d (%d parameters), batches of %d", knames[kind], a, h, b, o.np, bs);
    follow(&o, nn, acts, L_MSE, bs, 2, n, 1, false); neuralnet_free(nn);
}
static void losses(void)
{
    static ro_t o; int kind = pick_kind(), loss = mc_choose(L_N), out = mc_choose(A_N), hid = mc_pick(-1, A_TANH, A_RELU, A_SIGMOID, A_SOFTPLUS); if (!pairing_ok(loss, out)) mc_skip(); mc_shard(); int L = hid < 0 ? 1 : 2, sz[3] = { 4, hid < 0 ? 3 : 5, 3 }, acts[2] = { hid < 0 ? out : hid, out };
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_real(nn, 11 + out); neuralnet_set_loss(nn, loss_names[loss]); ro_init(&o, kind, nn); defaults(&o); o.lr = mc_pick(0, 1) ? 0.0078125 : 0.03125; if (kind <= K_RMS) { o.mom = 0.5; o.nest = mc_choose(2); } if (kind == K_ADAM) o.wd = mc_choose(2) ? 0.0625 : 0; int n[2] = { 3, 4 }, bs = mc_pick(1, 2, 4);
    mc_ctx("%s, loss %s, output %s, hidden %s, batches of %d", knames[kind], loss_names[loss], act_names[out], hid < 0 ? "none" : act_names[hid], bs); mc_sample("%s, loss %s, output %s, hidden %s", knames[kind], loss_names[loss], act_names[out], hid < 0 ? "none" : act_names[hid]);
    follow(&o, nn, acts, loss, bs, 2, n, 0.5f, false); neuralnet_free(nn);
}
/* gradients of the size of epsilon */
static void tiny(void)
{
    static ro_t o; int kind = pick_kind(), k = mc_range(8, 30); if (kind == K_SGD) mc_skip(); mc_shard(); int sz[2] = { mc_pick(1, 3, 8, 9), 2 }, acts[1] = { A_LINEAR }; neuralnet_t *nn = mk_net(1, sz, acts); for (int i = 0; i < sz[0] * 2; i++) nn->layer[0].weight[i] = 0; nn->layer[0].bias[0] = nn->layer[0].bias[1] = 0; neuralnet_set_loss(nn, "mse"); ro_init(&o, kind, nn); defaults(&o); o.lr = ldexp(1, -k - 6); o.wd = 0;
    int n[3] = { 1, 1, 2 }; mc_ctx("%s, targets scaled by 2^-%d", knames[kind], k); mc_sample("%s, %d inputs, targets scaled by 2^-%d", knames[kind], sz[0], k); follow(&o, nn, acts, L_MSE, 2, 3, n, ldexpf(1, -k), true);
    neuralnet_free(nn);
}
/* every number of threads, directly and within a parallel region of the caller */
static void teams(void)
{
    static ro_t o; team_done(); int kind = pick_kind(), bs = mc_range(1, ASANB ? 5 : mc_thorough ? 20 : 12), n1 = mc_range(1, bs + 1); mc_shard(); team_pick(mc_thorough ? 17 : 9); int h = mc_pick(0, 3), L = h ? 2 : 1, sz[3] = { 4, h ? h : 3, 3 }, acts[2] = { A_LINEAR, A_LINEAR }, n[2] = { n1, bs };
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_dyadic(nn, 5 + bs); neuralnet_set_loss(nn, "mse"); ro_init(&o, kind, nn); defaults(&o); o.mom = kind <= K_RMS ? 0.5 : 0;
    mc_ctx("%s, batches of %d, epochs over %d,%d, teams of %d%s", knames[kind], bs, n[0], n[1], team_n, team_modes[team_mode]); mc_sample("%s, batches of %d, epochs over %d,%d, teams of %d%s", knames[kind], bs, n[0], n[1], team_n, team_modes[team_mode]);
    follow(&o, nn, acts, L_MSE, bs, 2, n, 1, false); neuralnet_free(nn); team_done();
}
static void lengths(void)
{
    static ro_t o; int kind = pick_kind(), var = mc_choose(3); mc_shard(); int ep = mc_thorough ? 24 : 12, n[24]; for (int e = 0; e < ep; e++) n[e] = 1 + (e * 5 + var) % 7; int sz[2] = { 3, 2 }, acts[1] = { A_LINEAR }; neuralnet_t *nn = mk_net(1, sz, acts); fill_net_dyadic(nn, 3); neuralnet_set_loss(nn, "mse"); ro_init(&o, kind, nn); defaults(&o); o.lr = 0.002f; if (var == 1) { o.mom = 0.5; o.decay = 0.01f; o.b1 = 0.9f; o.b2 = 0.999f; o.wd = 1e-3f; } if (var == 2) { o.decay = 0.001f; o.nest = true; o.mom = 0.25; o.b1 = 0.5f; o.b2 = 0.99f; }
    mc_ctx("%s, %d epochs, variant %d", knames[kind], ep, var); follow(&o, nn, acts, L_MSE, 2, ep, n, 8, false); neuralnet_free(nn);
}
static void large(void)
{
    static ro_t o; int kind = pick_kind(), v = mc_choose(6); mc_shard(); static const int S[6][4] = { { 100, 40, 0 }, { 64, 64, 0 }, { 257, 9, 0 }, { 30, 70, 40 }, { 1, 1000, 3 }, { 700, 1, 5 } }; int L = S[v][2] ? 2 : 1, acts[2] = { A_LINEAR, A_LINEAR }; if (ASANB && v != 1) mc_skip(); neuralnet_t *nn = mk_net(L, S[v], acts); fill_net_real(nn, 9); neuralnet_set_loss(nn, "mse"); ro_init(&o, kind, nn); defaults(&o); if (kind != K_SGD) o.loose = 0.05; o.lr = 0.001f; o.decay = 0.1f; o.mom = 0.5; o.nest = mc_choose(2); o.wd = 0.01f;
    int n[2] = { 5, 3 }; mc_ctx("%s, network %d,%d,%d (%d parameters)", knames[kind], S[v][0], S[v][1], S[v][2], o.np); follow(&o, nn, acts, L_MSE, 2, 2, n, 8, false); neuralnet_free(nn);
}
/* hundreds of thousands of parameters: the first steps in closed form (one sample, targets far away: every gradient keeps its sign) */
static void huge(void)
{
    int kind = pick_kind(), v = mc_choose(3), mom = mc_choose(2); mc_shard(); static const int S[3][2] = { { 1200, 700 }, { 3, 200000 }, { 300000, 3 } }; int ni = S[v][0], no = S[v][1], acts[1] = { A_LINEAR }; if (ASANB && v != 1) mc_skip(); if (mom && (kind == K_ADAM || kind == K_ADAGRAD)) mc_skip();
    neuralnet_t *nn = mk_net(1, S[v], acts); MC_CHECK(nn, "create", "no network"); memset(nn->layer[0].bias, 0, 4 * no); memset(nn->layer[0].weight, 0, 4 * (size_t) ni * no); neuralnet_set_loss(nn, "mae");
    static ro_t o; memset(&o, 0, offsetof(ro_t, v)); o.kind = kind; o.lr = 0.125; o.rho = 0.75; o.b1 = 0.5; o.b2 = 0.75; o.wd = 0; o.mom = mom ? 0.5 : 0;
    mc_ctx("%s on a network %d,%d (%zu parameters), momentum %g", knames[kind], ni, no, (size_t) (ni + 1) * no, o.mom); mc_sample("%s on a network %d,%d", knames[kind], ni, no);
    ds_t d = ds_new(2, ni, no); for (int s = 0; s < 2; s++) { for (int i = 0; i < ni; i++) d.x[s * (size_t) ni + i] = i % 3 ? 1.0f : -0.5f; for (int j = 0; j < no; j++) d.y[s * (size_t) no + j] = j % 5 ? 1e9f : -1e9f; }
    optimizer_t *opt = new_opt(&o, nn, 1, false, NULL, NULL); optimizer_run_epoch(opt, 2, d.x, d.y, 0, NULL, NULL, res_buf);
    double c = 1.0 / no;
    for (int l = 0; l <= ni; l++) for (int j = 0; j < no; j++) {
        double got = l < ni ? nn->layer[0].weight[(size_t) l * no + j] : nn->layer[0].bias[j], x = l < ni ? (l % 3 ? 1.0 : -0.5) : 1.0, g = -(j % 5 ? 1 : -1) * x * c, st = 0, vv = 0, rr = 0, ss = 0, w = 0;
        for (int it = 0; it < 2; it++) switch (kind) {
        case K_SGD: st = -o.lr * g; vv = o.mom * vv + st; w += o.mom > 0 ? vv : st; break;
        case K_RMS: rr = o.rho * rr + (1 - o.rho) * g * g; st = -o.lr * g / (1e-7 + sqrt(rr)); vv = o.mom * vv + st; w += o.mom > 0 ? vv : st; break;
        case K_ADAGRAD: rr += g * g; w -= o.lr * g / (1e-7 + sqrt(rr)); break;
        default: ss = o.b1 * ss + (1 - o.b1) * g; rr = o.b2 * rr + (1 - o.b2) * g * g; w -= o.lr * (ss / (1 - pow(o.b1, it + 1))) / (sqrt(rr / (1 - pow(o.b2, it + 1))) + 1e-8); }
        if (!(fabs(got - w) <= 1e-3 * fabs(w))) mc_fail("rule", "parameter (%d, %d) of a network of %d x %d is %.9g, the rule gives %.9g", l, j, ni, no, got, w);
    }
    mc_eval(1); mc_nontrivial(1); optimizer_free(opt); neuralnet_free(nn); ds_free(&d);
}
/* more mini-batches than 16-bit counters hold: one input of 1, one far target, so that every gradient is -1 */
static void steps(void)
{
    int kind = pick_kind(), v = mc_choose(3), mom = mc_choose(2), nest = mom ? mc_choose(2) : 0; mc_shard(); if (ASANB && v) mc_skip(); if (mom && (kind == K_ADAM || kind == K_ADAGRAD)) mc_skip();
    static const int N[3][4] = { { 32769, 32770, 65537, 1000 }, { 65535, 2, 65536, 100 }, { 140001, 65537, 255, 257 } }; int sz[2] = { 1, 1 }, acts[1] = { A_LINEAR }, nmax = 140001; neuralnet_t *nn = mk_net(1, sz, acts); neuralnet_set_loss(nn, "mae");
    static ro_t o; memset(&o, 0, offsetof(ro_t, v)); o.kind = kind; o.lr = 0.125; o.decay = 4e-10; o.rho = 0.75; o.b1 = 0.5; o.b2 = 0.96875; o.wd = 0; o.mom = mom ? 0.5 : 0; o.nest = nest; ds_t d = ds_new(nmax, 1, 1); for (int i = 0; i < nmax; i++) { d.x[i] = 1; d.y[i] = 1e9f; }
    optimizer_t *opt = new_opt(&o, nn, 1, false, NULL, NULL); double lr = o.lr, vv = 0, rr = 0; long it = 0; mc_sample("%s, momentum %g%s, epochs of %d,%d,%d,%d steps", knames[kind], o.mom, nest ? " nesterov" : "", N[v][0], N[v][1], N[v][2], N[v][3]);
    for (int e = 0; e < 4; e++) {
        nn->layer[0].weight[0] = nn->layer[0].bias[0] = 0; double w = 0; optimizer_run_epoch(opt, N[v][e], d.x, d.y, 0, NULL, NULL, res_buf);
        for (int i = 0; i < N[v][e]; i++) { if (kind != K_ADAM) lr *= 1 / (1 + o.decay * it); it++; double st; switch (kind) { case K_RMS: rr = o.rho * rr + 1 - o.rho; st = lr / (1e-7 + sqrt(rr)); break; case K_ADAGRAD: rr++; st = lr / sqrt(rr); break; default: st = lr; } if (o.mom > 0) { vv *= o.mom; if (nest) w += vv; vv += st; w += nest ? st : vv; } else w += st; }
        mc_ctx("%s, momentum %g%s, learning rate decay %g, %ld steps so far", knames[kind], o.mom, nest ? " nesterov" : "", kind == K_ADAM ? 0 : o.decay, it); double got = nn->layer[0].weight[0], gb = nn->layer[0].bias[0];
        MC_CHECK(fabs(got - w) <= 2e-2 * w && fabs(gb - w) <= 2e-2 * w, "rule", "an epoch of %d steps moves the weight by %.9g and the bias by %.9g, the rule gives %.9g", N[v][e], got, gb, w); mc_eval(1); mc_nontrivial(1); mc_trans(1);
    }
    optimizer_free(opt); neuralnet_free(nn); ds_free(&d);
}
/* the documented defaults are what the macros give */
static void dflt(void)
{
    static ro_t o; int kind = pick_kind(); int sz[2] = { 5, 3 }, acts[1] = { A_LINEAR }; neuralnet_t *nn = mk_net(1, sz, acts); fill_net_dyadic(nn, 3); neuralnet_set_loss(nn, "mse"); ro_init(&o, kind, nn); o.lr = kind == K_SGD || kind == K_ADAGRAD ? 0.01 : 0.001; o.rho = 0.9; o.b1 = 0.9; o.b2 = 0.999; o.wd = 1e-4; optimizer_properties_t p = OPTIMIZER_PROPERTIES(.shuffle = false); MC_CHECK(p.progress == progress_ascii && p.batchsize == 32 && !p.metrics && OPTIMIZER_PROPERTIES().shuffle, "default", "the default properties of an optimizer changed");
    optimizer_t *opt = kind == K_SGD ? OPTIMIZER(SGD_new(nn, p, SGD_PROPERTIES())) : kind == K_RMS ? OPTIMIZER(RMSprop_new(nn, p, RMSPROP_PROPERTIES())) : kind == K_ADAGRAD ? OPTIMIZER(adagrad_new(nn, p, ADAGRAD_PROPERTIES())) : OPTIMIZER(adam_new(nn, p, ADAM_PROPERTIES()));
    mc_ctx("%s with the default settings", knames[kind]); static int order[100]; for (int i = 0; i < 100; i++) order[i] = i; ds_t d = mk_ds(70, 5, 3, L_MSE, 1, 1); bool ok = true;
    for (int e = 0; e < 2; e++) { ro_epoch(&o, nn, acts, L_MSE, &d, order, 32, &ok); optimizer_run_epoch(opt, d.n, d.x, d.y, 0, NULL, NULL, res_buf); int bad; double got; MC_CHECK(ro_match(&o, nn, &bad, &got), "default", "epoch %d: parameter %d is %.9g, the rule with the default settings gives %.9g (+-%.2g)", e + 1, bad, got, o.par[bad], o.tol[bad]); mc_eval(1); mc_nontrivial(1); } optimizer_free(opt); ds_free(&d); neuralnet_free(nn);
}
const mc_suite_t mc_suites[] = { { "settings", settings }, { "shapes", shapes }, { "losses", losses }, { "tiny", tiny }, { "lengths", lengths }, { "teams", teams }, { "large", large }, { "huge", huge }, { "defaults", dflt }, { "steps", steps }, { 0 } };
#endif
#if PART == 5
#include "neuralnet_predict_batch.h"
#include <sys/mman.h>
#include <omp.h>
static const char *const mn[] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "binary_crossentropy", "categorical_crossentropy", "binary_accuracy", "categorical_accuracy" };
static int first_calls; static float own_first(const int n, const float *p, const float *y){ (void) p; (void) n; return y[0]; }
static metric_func mlist[8]; static int mid[8], nml;
static const char *mname(int k){ return k < 7 ? mn[k] : "(own)"; }
static char msb[300]; static const char *mstr(void){ msb[0] = 0; for (int i = 0; i < nml; i++) { strcat(msb, i ? "," : ""); strcat(msb, mname(mid[i])); } return msb; }
/* the mean of metric k over a data set, from single predictions; *tol its uncertainty */
static double mean_of(const neuralnet_t *nn, metric_func f, int k, const ds_t *d, double *tol)
{
    double s = 0, m = 0, unsure = 0; float *p = aligned_alloc(64, (4 * d->no + 127) / 64 * 64);
    for (int i = 0; i < d->n; i++) {
        const float *y = d->y + (size_t) i * d->no; neuralnet_predict(nn, d->x + (size_t) i * d->ni, p); double v = f(d->no, p, y); s += v; m += fabs(v);
        if (k == 5) for (int j = 0; j < d->no; j++) if (fabs(p[j] - 0.5) < 1e-4) unsure += 1.0 / d->no;
        if (k == 6) { float a = -1e30f, b = -1e30f; for (int j = 0; j < d->no; j++) { if (p[j] > a) { b = a; a = p[j]; } else if (p[j] > b) b = p[j]; } if (a - b < 1e-4) unsure += 1; }
    }
    free(p); *tol = (m * (d->n * 6e-8 + 2e-4) + unsure) / (d->n ? d->n : 1) + 1e-6; return d->n ? s / d->n : NAN;
}
static void check_results(const neuralnet_t *nn, metric_func *mf, const int *id, int k0, const ds_t *d, const float *res, const char *what)
{
    for (int i = 0; i < k0; i++) { double tol, want = mean_of(nn, mf[i], id[i], d, &tol); MC_CHECK(fabs(res[i] - want) <= tol, "mean", "%s: metric %d (%s of %s) over %d samples with %d outputs is %.9g, expected %.9g", what, i, mname(id[i]), mstr(), d->n, d->no, res[i], want); }
}
static void set_metrics(int n, const int *k){ nml = n; for (int i = 0; i < n; i++) { mid[i] = k[i]; mlist[i] = k[i] == 7 ? own_first : get_metric_func(mn[k[i]]); } mlist[n] = NULL; }
static neuralnet_t *task(int no, int out, int *acts, int hid){ int L = hid ? 2 : 1, sz[3] = { 3, hid ? hid : no, no }; acts[0] = A_TANH; acts[L - 1] = out; neuralnet_t *nn = mk_net(L, sz, acts); fill_net_real(nn, no * 3 + out); return nn; }
static ds_t data(int n, int ni, int no, int seed){ ds_t d = ds_new(n, ni, no); for (int i = 0; i < n * ni; i++) d.x[i] = rval(seed * 31 + i); for (int i = 0; i < n; i++) for (int j = 0; j < no; j++) d.y[i * no + j] = 0.25f + 0.5f * ((h32(seed + i * 131 + j) >> 7) % 4 > 1) + (j == (i * 3 + seed) % no ? 0.25f : 0.0f); ds_done(&d); return d; }
static void direct(void)
{
    int n = mc_choose(4), k[3]; for (int i = 0; i < n; i++) k[i] = mc_choose(8); mc_shard(); int ns = mc_thorough ? mc_range(1, 20) : mc_pick(1, 2, 5, 17), no = n == 3 && !mc_thorough ? mc_pick(2, 9) : mc_pick(1, 2, 3, 9), out = n == 3 && !mc_thorough ? A_SIGMOID : mc_pick(A_SIGMOID, A_SOFTMAX, A_LINEAR); if (ASANB && n == 3 && k[0] > 1) mc_skip();
    int acts[2]; neuralnet_t *nn = task(no, out, acts, (ns + no) % 2 ? 5 : 0); set_metrics(n, k); ds_t d = data(ns, 3, no, ns + 7 * no); fbuf_t r = fb_new(n, 0); uint64_t h = hash_net(nn); mc_ctx("metrics %s, %d samples, %d outputs (%s)", mstr(), ns, no, act_names[out]); mc_sample("evaluate: metrics %s, %d samples, %d outputs (%s)", mstr(), ns, no, act_names[out]);
    TEAM(evaluate(nn, ns, d.x, d.y, mlist, r.d)); MC_CHECK(fb_intact(&r), "oob-results", "memory outside the results was written"); check_results(nn, mlist, mid, n, &d, r.d, "evaluate"); MC_CHECK(h == hash_net(nn), "changed", "evaluation changed the network"); mc_eval(1); mc_nontrivial(n > 0); mc_trans(1);
    fb_free(&r); ds_free(&d); neuralnet_free(nn);
}
/* every number of threads, directly and within a parallel region of the caller */
static void teams(void)
{
    team_done(); int ns = mc_range(1, ASANB ? 9 : mc_thorough ? 70 : 40); mc_shard(); int n = mc_range(1, 4), no = mc_pick(1, 9), k[4] = { 7, 0, 1, 3 }; team_pick(mc_thorough ? 17 : 9); int acts[2]; neuralnet_t *nn = task(no, A_SIGMOID, acts, ns % 2 ? 5 : 0); set_metrics(n, k); ds_t d = data(ns, 3, no, ns + 7 * no); fbuf_t r = fb_new(n, 0);
    mc_ctx("metrics %s, %d samples, %d outputs, teams of %d%s", mstr(), ns, no, team_n, team_modes[team_mode]); mc_sample("metrics %s, %d samples, %d outputs, teams of %d%s", mstr(), ns, no, team_n, team_modes[team_mode]);
    TEAM(evaluate(nn, ns, d.x, d.y, mlist, r.d)); MC_CHECK(fb_intact(&r), "oob-results", "memory outside the results was written"); check_results(nn, mlist, mid, n, &d, r.d, "evaluate"); mc_eval(1); mc_nontrivial(1); mc_trans(1); fb_free(&r); ds_free(&d); neuralnet_free(nn); team_done();
}
static void epochs(void)
{
    int kind = mc_choose(K_N), nt = mc_pick(1, 4, 5), v = mc_choose(6); mc_shard(); int n = mc_choose(4), sh = mc_choose(2), bs = mc_pick(2, 8); static const int sets[4][3] = { { 0 }, { 0, 7, 1 }, { 3, 4, 6 }, { 7, 5, 2 } }; static ro_t o;
    int acts[2]; neuralnet_t *nn = task(3, A_SIGMOID, acts, 4); neuralnet_set_loss(nn, "mse"); ro_init(&o, kind, nn); defaults(&o); o.mom = 0.5; o.nest = sh; set_metrics(n, sets[n]); static const int nv_[] = { 3, 3, 0, 1, 3, 9 }; int nv = nv_[v]; bool has = v >= 3; optimizer_t *opt = new_opt(&o, nn, bs, sh, mlist, NULL);
    mc_ctx("%s, metrics %s, %d training samples, validation %s (%d)", knames[kind], mstr(), nt, v == 0 ? "without inputs" : v == 1 ? "without targets" : v == 2 ? "of size 0" : "given", nv); mc_sample("%s, metrics %s, %d training samples, validation %s (%d)", knames[kind], mstr(), nt, v == 0 ? "without inputs" : v == 1 ? "without targets" : v == 2 ? "of size 0" : "given", nv);
    for (int e = 0; e < 3; e++) {
        bool hv = has && !(e == 1 && nv == 3); ds_t d = data(nt + e, 3, 3, e), w = data(nv ? nv + e : 1, 3, 3, 50 + e); fbuf_t r = fb_new(n * (1 + has), 0); float ghost[8]; memcpy(ghost, r.d + n, has ? 4 * n : 0); if (nv) w.n = nv + e; uint64_t h = hash_net(nn);
        optimizer_run_epoch(opt, d.n, d.x, d.y, nv && (hv || !has) ? w.n : 0, v == 0 || (has && !hv && e == 1) ? NULL : w.x, v == 1 ? NULL : w.y, r.d); MC_CHECK(fb_intact(&r), "oob-results", "epoch %d: memory outside the results was written", e + 1); MC_CHECK(n == 0 || h != hash_net(nn), "trained", "epoch %d did not train", e + 1);
        check_results(nn, mlist, mid, n, &d, r.d, "training"); if (hv) check_results(nn, mlist, mid, n, &w, r.d + n, "validation"); else if (has) MC_CHECK(!memcmp(ghost, r.d + n, 4 * n), "oob-results", "epoch %d: validation results without validation data", e + 1);
        mc_eval(1); mc_nontrivial(n > 0); mc_trans(1); fb_free(&r); ds_free(&d); w.n = 1; ds_free(&w);
    }
    mc_trace(1); optimizer_free(opt); neuralnet_free(nn);
}
/* one sample of which the metric is infinite, not a number, very large or very small */
static float own_zero(const int n, const float *p, const float *y){ (void) n; (void) p; (void) y; return 0; }
static void special(void)
{
    static const float sv[] = { INFINITY, -INFINITY, NAN, 1e38f, -1e38f, 1e-30f, 16777217.0f, 0.0f }; team_done(); int ns = mc_range(1, ASANB ? 6 : 20), at = mc_choose(ns), k = mc_choose(8); mc_shard(); int bg = mc_choose(3), pos = mc_choose(3); team_pick(4); int acts[2]; neuralnet_t *nn = task(2, A_LINEAR, acts, 0); ds_t d = data(ns, 3, 2, ns); double want = 0; for (int i = 0; i < ns; i++) { float v = i == at ? sv[k] : bg == 2 ? (i % 2 ? 3 : -2) : bg; if (k == 5) v = i == at ? sv[k] : bg * 2e-30f; d.y[2 * i] = v; want += v; } want /= ns;
    metric_func m[4] = { own_zero, own_zero, own_zero, NULL }; m[pos] = own_first; fbuf_t r = fb_new(3, 0); mc_ctx("%d samples, the metric of number %d is %g, teams of %d%s", ns, at, sv[k], team_n, team_modes[team_mode]); mc_sample("%d samples, the metric of number %d is %g", ns, at, sv[k]);
    TEAM(evaluate(nn, ns, d.x, d.y, m, r.d)); MC_CHECK(fb_intact(&r), "oob-results", "memory outside the results was written"); for (int j = 0; j < 3; j++) { double w = j == pos ? want : 0, g = r.d[j]; MC_CHECK(isnan(w) ? isnan(g) : isinf(w) ? g == w : fabs(g - w) <= 1e-6 * ns * fabs(w) + 1e-44 + (k > 5 ? 1e-5 : k > 4 ? ns * 1e-36 : 0), "mean", "the mean of metric %d is %.9g, expected %.9g", j, g, w); }
    mc_eval(1); mc_nontrivial(1); mc_trans(1); fb_free(&r); ds_free(&d); neuralnet_free(nn); team_done();
}
/* without configured metrics: the one of the network's own loss, for every optimizer of a history */
static void dflt(void)
{
    int k1 = mc_choose(K_N), l1 = mc_choose(L_N), k2 = mc_choose(K_N), l2 = mc_choose(L_N); mc_shard(); int L[2] = { l1, l2 }, K[2] = { k1, k2 }; neuralnet_t *nn[2]; optimizer_t *op[2]; static ro_t o; int acts[2]; ds_t d = data(4, 3, 3, 9), w = data(3, 3, 3, 10);
    mc_ctx("%s with %s, then %s with %s, no metrics", knames[k1], loss_names[l1], knames[k2], loss_names[l2]); mc_sample("%s with %s, then %s with %s, no metrics", knames[k1], loss_names[l1], knames[k2], loss_names[l2]); mc_output_reset();
    for (int i = 0; i < 2; i++) { nn[i] = task(3, L[i] == L_CCE ? A_SOFTMAX : A_SIGMOID, acts, 4); neuralnet_set_loss(nn[i], loss_names[L[i]]); ro_init(&o, K[i], nn[i]); defaults(&o); op[i] = new_opt(&o, nn[i], 2, true, NULL, NULL); }
    for (int e = 0; e < 3; e++) { int i = e & 1; float r[4] = { 7, 7, 7, 7 }; optimizer_run_epoch(op[i], 4, d.x, d.y, 3, w.x, w.y, r); int id[1] = { L[i] }; metric_func f = get_metric_func(loss_names[L[i]]); nml = 1; mid[0] = L[i]; MC_CHECK(optimizer_get_n_metrics(op[i]) == 1, "default", "%d metrics", optimizer_get_n_metrics(op[i])); check_results(nn[i], &f, id, 1, &d, r, "default metric, training"); check_results(nn[i], &f, id, 1, &w, r + 1, "default metric, validation"); MC_CHECK(r[2] == 7 && r[3] == 7, "oob-results", "more than two results are written"); mc_eval(1); mc_nontrivial(1); mc_trans(1); }
    mc_trace(1); for (int i = 0; i < 2; i++) { optimizer_free(op[i]); neuralnet_free(nn[i]); } ds_free(&d); ds_free(&w);
}
/* ... also when it has been changed since the optimizer was made */
static void changed(void)
{
    int kind = mc_choose(K_N), l[3]; for (int i = 0; i < 3; i++) { l[i] = mc_choose(L_N); if (i == 1) mc_shard(); } bool unknown = mc_choose(2); static ro_t o; int acts[2]; ds_t d = data(4, 3, 3, 9), w = data(3, 3, 3, 10); neuralnet_t *nn = task(3, A_SIGMOID, acts, 4);
    mc_ctx("%s with %s, then %s, then %s, no metrics", knames[kind], loss_names[l[0]], loss_names[l[1]], loss_names[l[2]]); mc_sample("%s with %s, then %s, then %s, no metrics", knames[kind], loss_names[l[0]], loss_names[l[1]], loss_names[l[2]]); mc_output_reset();
    neuralnet_set_loss(nn, loss_names[l[0]]); ro_init(&o, kind, nn); defaults(&o); optimizer_t *op = new_opt(&o, nn, 2, true, NULL, NULL);
    for (int e = 0; e < 3; e++) { if (e) { if (unknown) neuralnet_set_loss(nn, "no such loss"); neuralnet_set_loss(nn, loss_names[l[e]]); } float r[4] = { 7, 7, 7, 7 }; optimizer_run_epoch(op, 4, d.x, d.y, e == 1 ? 0 : 3, w.x, w.y, r); int id[1] = { l[e] }; metric_func f = get_metric_func(loss_names[l[e]]); nml = 1; mid[0] = l[e];
        MC_CHECK(optimizer_get_n_metrics(op) == 1 && op->metrics[0] == f, "default", "epoch %d: the metric is not that of the loss", e + 1); check_results(nn, &f, id, 1, &d, r, "default metric, training"); if (e != 1) check_results(nn, &f, id, 1, &w, r + 1, "default metric, validation"); MC_CHECK((e != 1 || r[1] == 7) && r[2] == 7 && r[3] == 7, "oob-results", "more results are written than there are"); mc_eval(1); mc_nontrivial(1); mc_trans(1); }
    mc_trace(1); optimizer_free(op); neuralnet_free(nn); ds_free(&d); ds_free(&w);
}
/* data sets larger than the stack, and larger than 2^31 values */
static void large(void)
{
    int ns = mc_pick(1000, 70000, 300000), no = mc_pick(1, 10); mc_shard(); if (ASANB && ns > 70000) mc_skip(); int acts[2], k[2] = { 7, 1 }; neuralnet_t *nn = task(no, A_LINEAR, acts, 0); set_metrics(2, k); ds_t d = data(ns, 3, no, 4); float r[2]; mc_ctx("%d samples, %d outputs", ns, no); mc_ctxkey("large"); mc_sample("%d samples, %d outputs", ns, no);
    evaluate(nn, ns, d.x, d.y, mlist, r); for (int i = 0; i < 2; i++) { double tol, want = mean_of(nn, mlist[i], mid[i], &d, &tol); (void) tol; MC_CHECK(fabs(r[i] - want) <= 2e-2 * fabs(want), "mean", "%s over %d samples is %.9g, expected %.9g", mname(mid[i]), ns, r[i], want); } mc_eval(1); mc_nontrivial(1); ds_free(&d); neuralnet_free(nn);
}
static float *sparse(size_t floats, size_t *len){ *len = floats * 4 + 4096; void *p = mmap(NULL, *len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); madvise(p, *len, MADV_NOHUGEPAGE); return p; }
static float last_err(const int n, const float *p, const float *y){ (void) n; return p[0] != y[0]; }
static void huge(void)
{
    int what = mc_choose(2); mc_shard(); if (ASANB) mc_skip(); size_t xl, yl; int ni = 1 << 18, ns = 8196, no = 1, acts[1] = { A_LINEAR }; if (what) { ni = 1; no = 1 << 18; } int sz[2] = { ni, no }; neuralnet_t *nn = mk_net(1, sz, acts); for (int i = 0; i < ni * no; i++) nn->layer[0].weight[i] = i == 0; memset(nn->layer[0].bias, 0, 4 * no);
    float *x = sparse((size_t) ni * ns, &xl), *y = sparse((size_t) no * ns, &yl); for (int i = 0; i < ns; i++) if (i < 3 || i > ns - 5) x[(size_t) i * ni] = y[(size_t) i * no] = i + 1; mlist[0] = last_err; mlist[1] = NULL; float r[1] = { 5 }; mc_ctx("%d samples of %d inputs and %d outputs (2^31 values)", ns, ni, no); mc_ctxkey("huge"); mc_sample("%d samples of %d inputs and %d outputs (2^31 values)", ns, ni, no);
    evaluate(nn, ns, x, y, mlist, r); MC_CHECK(r[0] == 0, "mean", "the samples are not paired with their targets (%g)", r[0]); mc_eval(1); mc_nontrivial(1); munmap(x, xl); munmap(y, yl); neuralnet_free(nn);
}
/* more samples than a float counts */
static float ones(const int n, const float *p, const float *y){ (void) n; (void) p; (void) y; return 1; }
static float halves(const int n, const float *p, const float *y){ (void) n; (void) p; return y[0] < 0.5f; }
static void counted(void)
{
    static const int N[4] = { 16777217, 33554433, 67108863, 200000000 }; int v = mc_choose(mc_thorough ? 4 : 3); mc_shard(); if (ASANB) mc_skip(); int ns = N[v], acts[1] = { A_LINEAR }, sz[2] = { 1, 1 }; neuralnet_t *nn = mk_net(1, sz, acts); nn->layer[0].weight[0] = 1; nn->layer[0].bias[0] = 0;
    size_t xl, yl; float *x = sparse(ns, &xl), *y = sparse(ns, &yl); long half = ns / 4L; for (long i = 0; i < half; i++) y[i] = 1; mlist[0] = ones; mlist[1] = halves; mlist[2] = get_metric_func("mse"); mlist[3] = NULL; float r[3] = { 5, 5, 5 }; double f = (double) half / ns, want[3] = { 1, 1 - f, f };
    mc_ctx("%d samples", ns); mc_ctxkey("counted"); mc_sample("%d samples, of which %ld have another target", ns, half); evaluate(nn, ns, x, y, mlist, r); for (int i = 0; i < 3; i++) MC_CHECK(fabs(r[i] - want[i]) < 1e-4, "mean", "metric %d over %d samples is %.9g, expected %.9g", i, ns, r[i], want[i]); mc_eval(1); mc_nontrivial(1); munmap(x, xl); munmap(y, yl); neuralnet_free(nn);
}
/* lists of many metrics */
#define OWNM(k) static float own_##k(const int n, const float *p, const float *y){ (void) n; (void) p; return y[0] * (k + 1); }
OWNM(0) OWNM(1) OWNM(2) OWNM(3) OWNM(4) OWNM(5) OWNM(6)
static const metric_func own_many[7] = { own_0, own_1, own_2, own_3, own_4, own_5, own_6 };
static void many(void)
{
    int n = scale_pick(1, ASANB ? 257 : mc_thorough ? 4097 : 1025), ns = mc_pick(1, 3); mc_shard(); if (ASANB && n > 300) mc_skip(); int acts[2]; neuralnet_t *nn = task(2, A_SIGMOID, acts, 0); neuralnet_set_loss(nn, "mse"); ds_t d = data(ns, 3, 2, n); for (int i = 0; i < ns; i++) d.y[i * 2] = i + 1; metric_func *ml = malloc(sizeof *ml * (n + 1)); for (int i = 0; i < n; i++) ml[i] = own_many[i % 7]; ml[n] = NULL; bool train = mc_choose(2); fbuf_t r = fb_new(train ? 2 * n : n, 0); 
    mc_ctx("%d metrics, %d samples, %s", n, ns, train ? "training" : "evaluate"); mc_sample("%d metrics, %d samples, %s", n, ns, train ? "training" : "evaluate"); double want[2][8192]; for (int s = 0; s < 1 + train; s++) { for (int j = 0; j < n; j++) want[s][j] = 0; for (int i = 0; i < ns; i++) for (int j = 0; j < n; j++) want[s][j] += (i + 1.0) * (1 + j % 7) / ns; }
    if (train) { static ro_t o; ro_init(&o, K_SGD, nn); defaults(&o); optimizer_t *opt = new_opt(&o, nn, 2, false, ml, NULL); MC_CHECK(optimizer_get_n_metrics(opt) == n, "default", "%d metrics instead of %d", optimizer_get_n_metrics(opt), n); optimizer_run_epoch(opt, ns, d.x, d.y, ns, d.x, d.y, r.d); optimizer_free(opt); } else evaluate(nn, ns, d.x, d.y, ml, r.d);
    MC_CHECK(fb_intact(&r), "oob-results", "memory outside the results was written"); for (int i = 0; i < n * (1 + train); i++) MC_CHECK(fabs(r.d[i] - want[i / n][i % n]) < 1e-4 * want[i / n][i % n], "mean", "result %d is %.9g, expected %.9g", i, r.d[i], want[i / n][i % n]); mc_eval(1); mc_nontrivial(1); fb_free(&r); free(ml); ds_free(&d); neuralnet_free(nn);
}
const mc_suite_t mc_suites[] = { { "direct", direct }, { "teams", teams }, { "epochs", epochs }, { "defaults", dflt }, { "changed", changed }, { "special", special }, { "large", large }, { "huge", huge }, { "counted", counted }, { "many", many }, { 0 } };
#endif
#if PART == 6
#include <sys/mman.h>
#include "logger.h"
/* ---- programs that run alone or merged ---- */
#define NPROG 32
#define NOPS 5
#define NREC 1500
typedef struct { double v[NREC]; int n; } rec_t;
typedef struct { int id, kind, loss, variant; neuralnet_t *nn; optimizer_t *opt; earlystopping_t *es; modelcheckpoint_t *mc; logger_t *lg; uint32_t rs; char cpf[40], lgf[40]; rec_t *r; } prog_t;
static rec_t *alone;                            /* results of every program alone, from a pristine process each */
static prog_t *active; static int prog_rand(void){ active->rs = active->rs * 1664525u + 1013904223u; return (int)(h32(active->rs) >> 1); }
static void put(prog_t *p, double v){ if (p->r->n < NREC) p->r->v[p->r->n++] = v; }
static void put_net(prog_t *p, const neuralnet_t *nn){ if (!nn) { put(p, -12345); return; } for (int l = 0; l < nn->n_layers; l++) { for (int j = 0; j < nn->layer[l].n_output; j++) put(p, nn->layer[l].bias[j]); for (int k = 0; k < nn->layer[l].n_input * nn->layer[l].n_output; k++) put(p, nn->layer[l].weight[k]); } }
static metric_func two[3];
static void prog_init(prog_t *p, int id, int slot, rec_t *r){ memset(p, 0, sizeof *p); p->id = id; p->kind = id % 4; p->variant = id / 4 % 8; p->loss = p->variant & 1 ? L_MAE : L_MSE; p->rs = 1 + id; p->r = r; r->n = 0; sprintf(p->cpf, "cp%d.npz", slot); sprintf(p->lgf, "log%d", slot); unlink(p->cpf); unlink(p->lgf); }
/* the operations of a program; false after the last */
static void prog_op(prog_t *p, int op)
{
    static const int sizes[8][3] = { { 4, 4, 4 }, { 4, 3, 5 }, { 2, 6, 1 }, { 7, 1, 7 }, { 3, 3, 2 }, { 5, 2, 2 }, { 1, 1, 1 }, { 6, 4, 6 } }; active = p; rand_hook = prog_rand; bool sh = p->variant & 2;
    static int nets[8][4] = { { 3, 5, 2 }, { 2, 4, 3, 1 }, { 6, 1 }, { 1, 9, 2 }, { 4, 3, 2 }, { 9, 3 }, { 3, 5, 2 }, { 2, 3, 2, 4 } }; static const int depth[8] = { 2, 3, 1, 2, 2, 1, 2, 3 }; int ni = nets[p->variant][0], no = nets[p->variant][depth[p->variant]];
    if (op == 0) {
        int *sz = nets[p->variant], nl = depth[p->variant], acts[3]; for (int l = 0; l < nl; l++) acts[l] = l == nl - 1 ? A_LINEAR : p->variant & 4 ? A_RELU : A_TANH; p->nn = mk_net(nl, sz, acts); neuralnet_initialize(p->nn, p->variant & 4 ? STR_ARRAY("kaiming", "xavier", "kaiming") : STR_ARRAY("kaiming", "kaiming", "xavier")); neuralnet_set_loss(p->nn, loss_names[p->loss]); static ro_t o; o.kind = p->kind; defaults(&o); o.lr = 0.01f * (1 + p->variant); o.mom = p->variant & 1 ? 0.5 : 0; o.nest = p->variant & 4; o.decay = 0.1; o.wd = p->variant & 1 ? 0.01 : 0;
        two[0] = get_metric_func("mse"); two[1] = get_metric_func("mae"); static metric_func other[4]; other[0] = get_metric_func("mae"); other[1] = get_metric_func("binary_accuracy"); other[2] = two[0]; p->opt = new_opt(&o, p->nn, 1 + p->variant % 3, sh, p->variant & 4 ? two : p->variant == 3 ? other : NULL, NULL);
        p->es = earlystopping_new(EARLYSTOPPING_SETTINGS(.patience = p->variant & 1, .greater_is_better = p->variant & 2)); p->mc = modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.filename = p->cpf, .greater_is_better = p->variant & 4)); p->lg = logger_new(LOGGER_SETTINGS(.filename = p->lgf, .no_stdout = true)); put_net(p, p->nn);
    } else if (op <= 3) {
        int n = sizes[p->variant][op - 1]; ds_t d = mk_ds(n, ni, no, L_MSE, p->id + op, 1), w = mk_ds(2, ni, no, L_MSE, p->id + 77, 1); float r[8] = { 0 }; bool valid = p->variant & 1; optimizer_run_epoch(p->opt, n, d.x, d.y, valid ? 2 : 0, w.x, w.y, r); int nm = optimizer_get_n_metrics(p->opt); put(p, nm); for (int i = 0; i < nm * (1 + valid); i++) put(p, r[i]);
        callback_run(CALLBACK(p->es), p->opt, r, valid); callback_run(CALLBACK(p->mc), p->opt, r, valid); callback_run(CALLBACK(p->lg), p->opt, r, valid); put(p, earlystopping_do_stop(p->es)); put_net(p, p->nn); neuralnet_t *c = neuralnet_load(p->cpf); put_net(p, c); if (c) neuralnet_free(c); ds_free(&d); ds_free(&w);
    } else {
        FILE *f = fopen(p->lgf, "r"); int nl = 0, c; while (f && (c = getc(f)) != EOF) nl += c == '\n'; if (f) fclose(f); put(p, nl); ds_t d = mk_ds(5, ni, no, L_MSE, p->id, 1); float out[24], g[64] __attribute__((aligned(64))); neuralnet_predict_batch(p->nn, 5, d.x, out); for (int i = 0; i < 5 * no; i++) put(p, out[i]); neuralnet_backpropagation(p->nn, d.x, d.y, g); for (int i = 0; i < n_par(p->nn); i++) put(p, g[i]); ds_free(&d); unlink(p->cpf); unlink(p->lgf);
        callback_free(CALLBACK(p->es)); callback_free(CALLBACK(p->mc)); callback_free(CALLBACK(p->lg)); optimizer_free(p->opt); neuralnet_free(p->nn);
    }
    active = NULL; rand_hook = NULL;
}
static void prepare_alone(void)
{
    if (alone) return; alone = mmap(NULL, sizeof(rec_t) * NPROG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (alone == MAP_FAILED) abort(); char dir[] = "/tmp/nnmc-alone-XXXXXX"; if (!mkdtemp(dir)) abort(); fflush(NULL);
    for (int id = 0; id < NPROG; id++) { pid_t c = fork(); if (!c) { if (chdir(dir)) abort(); prog_t p; prog_init(&p, id, 9, &alone[id]); for (int k = 0; k < NOPS; k++) prog_op(&p, k); _exit(0); } int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ; if (st) { fprintf(stderr, "program %d alone fails\n", id); alone[id].n = -1; } }
    rmdir(dir);
}
static void compare(prog_t *p, const char *hist)
{
    const rec_t *a = &alone[p->id]; MC_CHECK(a->n >= 0, "alone", "program %d fails alone", p->id); if (!p->r->n) return;
    for (int i = 0; i < p->r->n; i++) { double x = p->r->v[i], y = a->v[i]; if (!(fabs(x - y) <= 1e-5 * (1 + fabs(y))) && !(isnan(x) && isnan(y)) && x != y) mc_fail("influence", "%s: program %d (%s, variant %d): result %d is %.9g, alone it is %.9g", hist, p->id, knames[p->kind], p->variant, i, x, y); }
}
static void merge(int np, const int *id, int shard_at)
{
    if (chdir(mc_workdir)) abort(); prog_t p[3]; static rec_t r[3]; int at[3] = { 0 }, left = np * NOPS, k = 0; char hist[200]; int hl = 0; hist[0] = 0; for (int i = 0; i < np; i++) prog_init(&p[i], id[i], i, &r[i]);
    while (left) {
        int alt[3], na = 0; for (int i = 0; i < np; i++) if (at[i] < NOPS) alt[na++] = i; int i = alt[na > 1 ? mc_choose(na) : 0]; if (k++ == shard_at) mc_shard(); static const char on[] = "c123f"; hl += snprintf(hist + hl, sizeof hist - hl, "%s%c%c", hl ? " " : "", 'A' + i, on[at[i]]);
        mc_ctx("programs %d (%s) and %d (%s): %s", id[0], knames[id[0] % 4], id[1], knames[id[1] % 4], hist); prog_op(&p[i], at[i]++); left--; mc_trans(1); mc_state(mc_hash(at, sizeof at, id[0] * 64 + id[1]));
    }
    for (int i = 0; i < np; i++) compare(&p[i], hist); mc_eval(np); mc_nontrivial(np); mc_trace(1); mc_sample("%s-%d and %s-%d merged: %s", knames[id[0] % 4], id[0] / 4 % 8, knames[id[1] % 4], id[1] / 4 % 8, hist);
}
static void pairs(void)
{
    static const int vp[6][2] = { { 0, 1 }, { 2, 3 }, { 6, 5 }, { 4, 7 }, { 3, 3 }, { 1, 6 } }; int a = mc_choose(4), b = mc_choose(4), v = mc_choose(mc_thorough ? 6 : a == b ? 3 : 1); if (ASANB && (a != b || v)) mc_skip(); int id[2] = { a + 4 * vp[v][0], b + 4 * vp[v][1] }; merge(2, id, 3);
}
/* three programs, phases in blocks: create | train | free */
static void three(void)
{
    int k = mc_choose(mc_thorough ? 8 : 2); mc_shard(); if (ASANB && k) mc_skip(); int id[3] = { k % 4 + 4 * 3, (k + 1) % 4 + 4 * 2, (k * 3 + 2) % 4 + 4 * (k & 7) }; if (chdir(mc_workdir)) abort(); prog_t p[3]; static rec_t r[3]; int at[3] = { 0 }, left = 9; char hist[200]; int hl = 0; hist[0] = 0; for (int i = 0; i < 3; i++) prog_init(&p[i], id[i], i, &r[i]);
    while (left) { int alt[3], na = 0; for (int i = 0; i < 3; i++) if (at[i] < 3) alt[na++] = i; int i = alt[na > 1 ? mc_choose(na) : 0]; hl += snprintf(hist + hl, sizeof hist - hl, "%s%c%c", hl ? " " : "", 'A' + i, "ctf"[at[i]]); mc_ctx("three programs: %s", hist); if (at[i] == 0) prog_op(&p[i], 0); else if (at[i] == 1) for (int o = 1; o <= 3; o++) prog_op(&p[i], o); else prog_op(&p[i], 4); at[i]++; left--; mc_trans(1); mc_state(mc_hash(at, sizeof at, 70000 + k)); }
    for (int i = 0; i < 3; i++) compare(&p[i], hist); mc_eval(3); mc_nontrivial(3); mc_trace(1); mc_sample("three programs: %s", hist);
}
const mc_suite_t mc_suites[] = { { "pairs", pairs, MC_FORK }, { "three", three, MC_FORK }, { 0 } };
#endif
