/* The same programs through every build of the library (N09). Every build is a shared library of its own (see checks.py);
 * the names of the library's functions are redirected to the build selected by `use()`. */
#include "neuralnet.h"
#include "activation.h"
#include "loss.h"
#include "metrics.h"
#include "evaluate.h"
#include "optimizer.h"
#include "optimizer_implementations.h"
#include "neuralnet_predict_batch.h"
#include <dlfcn.h>
#include <glob.h>
#include <string.h>
#include <stdio.h>
#define NN_PLAIN_NAMES
#define FUNCS X(neuralnet_create) X(neuralnet_load) X(neuralnet_free) X(neuralnet_predict) X(neuralnet_predict_batch) X(neuralnet_set_loss) X(neuralnet_backpropagation) X(neuralnet_initialize) \
    X(neuralnet_save) X(neuralnet_update) X(neuralnet_get_parameters) X(SGD_new) X(RMSprop_new) X(adagrad_new) X(adam_new) X(optimizer_run_epoch) X(optimizer_calc_batch_gradient) X(evaluate) X(get_metric_func) X(get_activation_name)
typedef struct { char name[40];
#define X(f) typeof(&f) f##_p;
FUNCS
#undef X
} build_t;
static build_t B[16]; static int nB; static build_t *T;
static void use(int b){ T = &B[b]; }
static void open_builds(const char *root)
{
    if (nB) return; char pat[600]; snprintf(pat, sizeof pat, "%s/pic/*.so", root); glob_t g; if (glob(pat, 0, NULL, &g)) { fprintf(stderr, "no builds\n"); exit(70); }
    for (size_t i = 0; i < g.gl_pathc && nB < 16; i++) {
        void *h = dlopen(g.gl_pathv[i], RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(70); }
        build_t *b = &B[nB++]; snprintf(b->name, sizeof b->name, "%s", strrchr(g.gl_pathv[i], '/') + 1); *strstr(b->name, ".so") = 0;
#define X(f) if (!(b->f##_p = dlsym(h, #f))) { fprintf(stderr, "%s\n", dlerror()); exit(70); }
        FUNCS
#undef X
    }
    T = B;
}
#define neuralnet_create (*T->neuralnet_create_p)
#define neuralnet_load (*T->neuralnet_load_p)
#define neuralnet_free (*T->neuralnet_free_p)
#define neuralnet_predict (*T->neuralnet_predict_p)
#define neuralnet_predict_batch (*T->neuralnet_predict_batch_p)
#define neuralnet_set_loss (*T->neuralnet_set_loss_p)
#define neuralnet_backpropagation (*T->neuralnet_backpropagation_p)
#define neuralnet_initialize (*T->neuralnet_initialize_p)
#define neuralnet_save (*T->neuralnet_save_p)
#define neuralnet_update (*T->neuralnet_update_p)
#define neuralnet_get_parameters (*T->neuralnet_get_parameters_p)
#define SGD_new (*T->SGD_new_p)
#define RMSprop_new (*T->RMSprop_new_p)
#define adagrad_new (*T->adagrad_new_p)
#define adam_new (*T->adam_new_p)
#define optimizer_run_epoch (*T->optimizer_run_epoch_p)
#define optimizer_calc_batch_gradient (*T->optimizer_calc_batch_gradient_p)
#define evaluate (*T->evaluate_p)
#define get_metric_func (*T->get_metric_func_p)
#define get_activation_name (*T->get_activation_name_p)
#define PART 9
#include "t01_train.c"

static const char *const mn[] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "binary_crossentropy", "categorical_crossentropy", "binary_accuracy", "categorical_accuracy" };
static neuralnet_t *N[16]; static float *O[16]; static float *dup64(const float *s, size_t n){ float *d = aligned_alloc(64, (4 * n + 127) / 64 * 64); if (s) memcpy(d, s, 4 * n); return d; }
static void init(void){ open_builds(mc_arg("root", "/tmp")); memset(N, 0, sizeof N); }
static void same_params(double tolr, double tola, const ro_t *o, const char *what)
{
    static double a[MAXP], b[MAXP]; int np = n_par(N[0]); get_par(N[0], a);
    for (int k = 1; k < nB; k++) { get_par(N[k], b); for (int i = 0; i < np; i++) { double tol = tola + tolr * fabs(a[i]) + (o ? 2 * o->tol[i] : 0); if (!(fabs(a[i] - b[i]) <= tol)) mc_fail("params", "%s: parameter %d of %d is %.9g in build %s and %.9g in build %s", what, i, np, a[i], B[0].name, b[i], B[k].name); } }
}
/* predictions */
static void predict(void)
{
    init(); static const int S[] = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33 }; int L = mc_range(1, 3), sz[4], acts[3]; for (int l = 0; l <= L; l++) sz[l] = L == 1 ? mc_range(1, mc_thorough ? 40 : 34) : S[mc_choose(L == 2 ? 13 : mc_thorough ? 9 : 5) + (L == 3 ? mc_thorough ? 0 : 4 : 0)]; mc_shard();
    int a = mc_choose(A_N); for (int l = 0; l < L; l++) acts[l] = l == L - 1 ? a : (a + l * 2 + 1) % A_SOFTMAX; int nb = L == 3 ? 5 : mc_pick(1, 3, 18), ni = sz[0], no = sz[L];
    mc_ctx("network %d,%d,%d,%d, output %s, %d samples", sz[0], sz[1], L > 1 ? sz[2] : 0, L > 2 ? sz[3] : 0, act_names[a], nb); mc_sample("network %d,%d,%d,%d, output %s, %d samples", sz[0], sz[1], L > 1 ? sz[2] : 0, L > 2 ? sz[3] : 0, act_names[a], nb);
    float *x = dup64(NULL, nb * ni); for (int i = 0; i < nb * ni; i++) x[i] = 1.7f * rval(i * 7 + ni); double xd[40], all[200], err[200]; static double bound[40 * 20];
    for (int k = 0; k < nB; k++) {
        use(k); N[k] = mk_net(L, sz, acts); fill_net_real(N[k], sz[1] * 3 + no); O[k] = dup64(NULL, nb * no);
        if (k == 0) for (int s = 0; s < nb; s++) { for (int i = 0; i < ni; i++) xd[i] = x[s * ni + i]; ref_forward(N[0], acts, NULL, xd, all, err); int tot = nn_sum_outputs(N[0]); for (int j = 0; j < no; j++) bound[s * no + j] = 2 * err[tot - no + j] + 1e-9; }
        neuralnet_predict_batch(N[k], nb, x, O[k]); float *y = dup64(NULL, no), *x1 = dup64(x + (nb - 1) * ni, ni); neuralnet_predict(N[k], x1, y);
        for (int j = 0; j < no; j++) MC_CHECK(fabs(y[j] - O[0][(nb - 1) * no + j]) <= bound[(nb - 1) * no + j], "predict", "output %d is %.9g in build %s, the last of a batch is %.9g in build %s", j, y[j], B[k].name, O[0][(nb - 1) * no + j], B[0].name);
        for (int i = 0; i < nb * no; i++) MC_CHECK(fabs(O[k][i] - O[0][i]) <= bound[i], "batch", "sample %d output %d is %.9g in build %s and %.9g in build %s", i / no, i % no, O[k][i], B[k].name, O[0][i], B[0].name); free(y); free(x1); mc_eval(nb * no);
    }
    for (int k = 0; k < nB; k++) { use(k); neuralnet_free(N[k]); free(O[k]); } free(x); mc_nontrivial(1);
}
/* training, evaluation, saving and loading, in one program */
static void program(void)
{
    init(); static ro_t o; int kind = mc_choose(K_N), a = mc_range(1, mc_thorough ? 20 : 12), h = mc_pick(0, 3, 8, 9), b = mc_pick(1, 3, 4), pair = mc_choose(4); mc_shard(); int var = mc_choose(3), bs = mc_pick(1, 3, 5);
    int L = h ? 2 : 1, sz[3] = { a, h ? h : b, b }, acts[2] = { A_TANH, A_LINEAR }, loss = (int[]){ L_MSE, L_MAE, L_BCE, L_CCE }[pair]; acts[L - 1] = (int[]){ A_LINEAR, A_TANH, A_SIGMOID, A_SOFTMAX }[pair]; if (pair == 3 && b == 1) mc_skip();
    mc_ctx("%s, network %d,%d,%d, loss %s, variant %d, batches of %d", knames[kind], a, h, b, loss_names[loss], var, bs); mc_sample("%s, network %d,%d,%d, loss %s, variant %d, batches of %d", knames[kind], a, h, b, loss_names[loss], var, bs);
    ds_t d = mk_ds(6, a, b, loss, a + b, 1), e = mk_ds(4, a, b, loss, a + b + 9, 1); bool ok = true; static float res[16][32]; char path[16][300]; metric_func mf[16][8]; static int order[8] = { 0, 1, 2, 3, 4, 5, 6, 7 };
    for (int k = 0; k < nB; k++) {
        use(k); N[k] = mk_net(L, sz, acts); fill_net_real(N[k], a * 7 + b); neuralnet_set_loss(N[k], loss_names[loss]);
        ro_init(&o, kind, N[k]); defaults(&o); o.lr = 0.0078125; if (var) { o.decay = 0.125; o.mom = 0.5; o.nest = var == 2; o.wd = 0.03125; }
        if (k == 0) { ro_epoch(&o, N[k], acts, loss, &d, order, bs, &ok); ro_epoch(&o, N[k], acts, loss, &e, order, bs, &ok); if (kind != K_SGD && o.gmin < 2e-3) ok = false; }
        ro_t *ini = malloc(sizeof(ro_t)); ro_init(ini, kind, N[k]); defaults(ini); ini->lr = 0.0078125; if (var) { ini->decay = 0.125; ini->mom = 0.5; ini->nest = var == 2; ini->wd = 0.03125; }
        for (int q = 0; q < 7; q++) mf[k][q] = get_metric_func(mn[q]); mf[k][7] = NULL;
        optimizer_t *opt = new_opt(ini, N[k], bs, false, mf[k], NULL); optimizer_run_epoch(opt, 6, d.x, d.y, 4, e.x, e.y, res[k]); optimizer_run_epoch(opt, 4, e.x, e.y, 0, NULL, NULL, res[k] + 14); opt->free(opt); free(opt->pivot); free(opt); free(ini);
        snprintf(path[k], sizeof path[k], "%s/%s.npz", mc_workdir, B[k].name); neuralnet_save(N[k], "%s", path[k]);
    }
    if (ok) same_params(2e-5, 1e-6, &o, "after two epochs");
    /* a file of any build, read by any build */
    for (int k = 0; k < nB; k++) {
        double p[MAXP], q[MAXP]; get_par(N[k], p); int np = n_par(N[k]);
        for (int m = 0; m < nB; m++) { use(m); neuralnet_t *r = neuralnet_load(path[k]); MC_CHECK(r, "load", "the file of build %s is not read by build %s", B[k].name, B[m].name); MC_CHECK(r->n_layers == L && n_par(r) == np, "load", "the file of build %s is another network in build %s", B[k].name, B[m].name); get_par(r, q); MC_CHECK(!memcmp(p, q, 8 * np), "load", "the file of build %s has other parameters in build %s", B[k].name, B[m].name);
            for (int l = 0; l < L; l++) MC_CHECK(!strcmp(get_activation_name(r->layer[l].activation_func), act_names[acts[l]]), "load", "activation %d of the file of build %s is %s in build %s", l, B[k].name, get_activation_name(r->layer[l].activation_func), B[m].name);
            neuralnet_free(r); mc_eval(1); }
    }
    /* results: the metrics of each build on its own parameters; comparable where the parameters are */
    if (ok) for (int k = 1; k < nB; k++) for (int i = 0; i < 21; i++) { if (i % 7 >= 5 || i % 7 == 2) continue; MC_CHECK(fabs(res[k][i] - res[0][i]) <= 2e-3 * fabs(res[0][i]) + 1e-4, "results", "result %d (%s) is %.9g in build %s and %.9g in build %s", i, mn[i % 7], res[k][i], B[k].name, res[0][i], B[0].name); }
    for (int k = 0; k < nB; k++) { use(k); neuralnet_free(N[k]); unlink(path[k]); } ds_free(&d); ds_free(&e); mc_nontrivial(ok);
}
/* gradients, one sample */
static void grads(void)
{
    init(); static const int S[] = { 1, 3, 4, 7, 8, 9, 15, 16, 17, 33 }; int L = mc_range(1, 2), sz[3], acts[2]; for (int l = 0; l <= L; l++) sz[l] = L == 1 ? mc_range(1, 34) : S[mc_choose(10)]; mc_shard(); int loss = mc_choose(L_N), out = loss == L_BCE ? A_SIGMOID : loss == L_CCE ? A_SOFTMAX : mc_pick(A_LINEAR, A_SIGMOID, A_SOFTPLUS); acts[0] = A_TANH; acts[L - 1] = out; int ni = sz[0], no = sz[L];
    mc_ctx("network %d,%d,%d, loss %s, output %s", sz[0], sz[1], L > 1 ? sz[2] : 0, loss_names[loss], act_names[out]); float *x = dup64(NULL, ni), *y = dup64(NULL, no); double xd[40], yd[40]; for (int i = 0; i < ni; i++) xd[i] = x[i] = rval(i + 3); for (int j = 0; j < no; j++) yd[j] = y[j] = loss == L_BCE ? j & 1 : loss == L_CCE ? j == no / 2 : 2 * rval(j + 55) + 3; bool kink = false; static double g[MAXP * 8], mg[MAXP * 8]; unsigned np = 0;
    for (int k = 0; k < nB; k++) { use(k); N[k] = mk_net(L, sz, acts); fill_net_real(N[k], ni * 3 + no); neuralnet_set_loss(N[k], loss_names[loss]); np = n_par(N[k]); if (np > MAXP * 8) abort(); if (!k) ref_backprop(N[k], acts, loss, NULL, xd, yd, g, mg, &kink); O[k] = dup64(NULL, np); neuralnet_backpropagation(N[k], x, y, O[k]);
        if (!kink) for (unsigned i = 0; i < np; i++) MC_CHECK(fabs(O[k][i] - O[0][i]) <= 2e-5 * mg[i] + 1e-5 * fabs(g[i]) + 1e-7, "gradient", "derivative %u of %u is %.9g in build %s and %.9g in build %s", i, np, O[k][i], B[k].name, O[0][i], B[0].name); mc_eval(np); }
    for (int k = 0; k < nB; k++) { use(k); neuralnet_free(N[k]); free(O[k]); } free(x); free(y); mc_nontrivial(!kink);
}
/* evaluation */
static void evals(void)
{
    init(); int n = mc_pick(1, 2, 3, 7, 8, 9, 16, 33, 100, 1000), no = mc_pick(1, 2, 5, 9), out = mc_pick(A_LINEAR, A_SIGMOID, A_SOFTMAX), ni = mc_pick(1, 7, 16); mc_shard(); int sz[2] = { ni, no }, acts[1] = { out }; ds_t d = mk_ds(n, ni, no, out == A_LINEAR ? L_MSE : out == A_SIGMOID ? L_BCE : L_CCE, n, 1); static float res[16][8]; mc_ctx("%d samples, network %d,%d, output %s", n, ni, no, act_names[out]);
    for (int k = 0; k < nB; k++) { use(k); N[k] = mk_net(1, sz, acts); fill_net_real(N[k], 3 + ni); metric_func mf[8]; for (int q = 0; q < 7; q++) mf[q] = get_metric_func(mn[q]); mf[7] = NULL; evaluate(N[k], n, d.x, d.y, mf, res[k]);
        for (int q = 0; q < 7; q++) { if (q >= 5 && out == A_LINEAR) continue; MC_CHECK(fabs(res[k][q] - res[0][q]) <= (n > 100 ? 1e-4 : 2e-5) * fabs(res[0][q]) + 1e-6 || (isnan(res[k][q]) && isnan(res[0][q])), "evaluate", "%s is %.9g in build %s and %.9g in build %s", mn[q], res[k][q], B[k].name, res[0][q], B[0].name); } mc_eval(7); }
    for (int k = 0; k < nB; k++) { use(k); neuralnet_free(N[k]); } ds_free(&d); mc_nontrivial(1);
}
/* initial weights from the same generator outcomes */
static void initial(void)
{
    init(); static char *ins[] = { NULL, "glorot_uniform", "glorot_normal", "kaiming", "none", "xavier" }; int i = mc_choose(6), a = mc_choose(A_N), ni = mc_pick(1, 3, 8, 17), no = mc_pick(1, 4, 9), seed = mc_choose(4); mc_shard(); int sz[3] = { ni, no, 3 }, acts[2] = { a, A_LINEAR }; mc_ctx("initializer %s, activation %s, %d,%d,3", ins[i] ? ins[i] : "by activation", act_names[a], ni, no);
    long cnt = 0; for (int k = 0; k < nB; k++) { use(k); N[k] = mk_net(2, sz, acts); lcg = seed * 77 + 1; nrand = 0; char *names[3] = { ins[i], ins[i], NULL }; neuralnet_initialize(N[k], i ? names : NULL); if (!k) cnt = nrand; MC_CHECK(cnt == nrand, "random", "build %s draws %ld random numbers, build %s %ld", B[k].name, nrand, B[0].name, cnt); mc_eval(1); }
    same_params(1e-5, 1e-6, NULL, "initial weights"); for (int k = 0; k < nB; k++) { use(k); neuralnet_free(N[k]); } mc_nontrivial(1);
}
/* sizes where blocked and BLAS kernels switch strategy */
static void wide(void)
{
    init(); static const int S[] = { 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000 }; int ni = S[mc_choose(15)], no = S[mc_choose(15)], nb = mc_pick(1, 4, 33, 64); mc_shard(); int sz[2] = { ni, no }, acts[1] = { A_LINEAR }; mc_ctx("network %d,%d, %d samples", ni, no, nb); float *x = dup64(NULL, nb * ni); for (int i = 0; i < nb * ni; i++) x[i] = ival(i, 8); 
    for (int k = 0; k < nB; k++) { use(k); N[k] = mk_net(1, sz, acts); fill_net_int(N[k], 5, 8); O[k] = dup64(NULL, nb * no); neuralnet_predict_batch(N[k], nb, x, O[k]); float *y = dup64(NULL, no), *x1 = dup64(x, ni); neuralnet_predict(N[k], x1, y); for (int j = 0; j < no; j++) MC_CHECK(y[j] == O[0][j], "predict", "output %d is %.9g in build %s and %.9g in build %s (exact in integers)", j, y[j], B[k].name, O[0][j], B[0].name); for (int i = 0; i < nb * no; i++) MC_CHECK(O[k][i] == O[0][i], "batch", "sample %d output %d is %.9g in build %s and %.9g in build %s (exact in integers)", i / no, i % no, O[k][i], B[k].name, O[0][i], B[0].name); free(y); free(x1); mc_eval(nb * no); }
    for (int k = 0; k < nB; k++) { use(k); neuralnet_free(N[k]); free(O[k]); } free(x); mc_nontrivial(1);
}
const mc_suite_t mc_suites[] = { { "predict", predict }, { "program", program }, { "gradient", grads }, { "evaluate", evals }, { "initial", initial }, { "wide", wide }, { 0 } };
