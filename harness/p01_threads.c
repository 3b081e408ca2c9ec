/* Parallel regions under every order of synchronisation (P01), callers that share a network (P02). */
#define PART 9
#include "t01_train.c"
#include "psched.h"
#include "neuralnet_predict_batch.h"
#include "zipref.h"
static int NTH; static const char *raced; static float res[32], ref_res[32];
static float *al(size_t n){ return aligned_alloc(64, (4 * n + 127) / 64 * 64); }
static const char *const mn[] = { "mean_squared_error", "mean_absolute_error", "binary_accuracy", "categorical_crossentropy", "mean_absolute_percentage_error", "categorical_accuracy", "binary_crossentropy" };
static void name_net(const neuralnet_t *nn){ static const char *const W[] = { "the weights of layer 0", "the weights of layer 1", "the weights of layer 2" }, *const Bi[] = { "the biases of layer 0", "the biases of layer 1", "the biases of layer 2" }; for (int l = 0; l < nn->n_layers && l < 3; l++) { sched_name(nn->layer[l].weight, 4 * nn->layer[l].n_input * nn->layer[l].n_output, W[l]); sched_name(nn->layer[l].bias, 4 * nn->layer[l].n_output, Bi[l]); } sched_name(nn, sizeof *nn, "the network"); }
static void norace(const char *what){ const char *r = sched_end(); raced = r; mc_eval(1); mc_trans(sched_steps()); mc_state(sched_order() * 31 + NTH); mc_nontrivial(sched_choices() > 0); if (r) mc_fail("race", "%s: %s", what, r); }
static neuralnet_t *net(int shape, int *acts, int *loss)
{
    static const int S[][4] = { { 2, 1, 0 }, { 2, 3, 2 }, { 9, 8, 3 }, { 3, 5, 0 }, { 17, 4, 1 } }; int L = S[shape][2] ? 2 : 1; acts[0] = A_TANH; acts[L - 1] = shape & 1 ? A_SIGMOID : A_LINEAR; *loss = shape & 1 ? L_BCE : L_MSE; int sz[3]; memcpy(sz, S[shape], sizeof sz);
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_dyadic(nn, shape + 3); neuralnet_set_loss(nn, loss_names[*loss]); return nn;
}
#if WHAT == 1
/* one mini-batch */
static void gradient(void)
{
    int acts[3], loss, shape = mc_choose(5); NTH = mc_range(1, mc_thorough ? 5 : 4); int b = mc_range(1, 6); mc_shard(); neuralnet_t *nn = net(shape, acts, &loss); ds_t d = mk_ds(7, nn->layer[0].n_input, nn->layer[nn->n_layers - 1].n_output, loss, 3, 1); int np = n_par(nn); bool kink, anyk = false;
    mc_ctx("gradient of %d samples by %d threads, network %d", b, NTH, shape); mc_sample("gradient of %d samples by %d threads, network %d", b, NTH, shape);
    static ro_t o; memset(&o, 0, sizeof o); o.kind = K_SGD; optimizer_t *opt = new_opt(&o, nn, b, false, NULL, NULL); opt->pivot = malloc(28); opt->n_pivot = 7; for (int i = 0; i < 7; i++) opt->pivot[i] = 6 - i;
    fbuf_t g = fb_new(np, 0); unsigned i = 0; int done = 0;
    while (i < 7 && done < (b >= 4 ? 2 : 1)) {
        unsigned was = i; sched_begin(NTH, 1); sched_name(g.d, 4 * np, "the gradient of the batch"); name_net(nn); optimizer_calc_batch_gradient(opt, 7, d.x, d.y, &i, g.d); norace("gradient of a mini-batch"); done++;
        MC_CHECK(i == (was + b > 7 ? 7 : was + b), "position", "the position is %u after %d samples from %u", i, b, was); MC_CHECK(fb_intact(&g), "oob", "memory around the gradient was written");
        double ref[MAXP] = { 0 }, mag[MAXP] = { 0 }, t[MAXP], m[MAXP]; for (unsigned s = was; s < i; s++) { ref_backprop(nn, acts, loss, NULL, d.xd + (6 - s) * d.ni, d.yd + (6 - s) * d.no, t, m, &kink); anyk |= kink; for (int k = 0; k < np; k++) { ref[k] += t[k] / (i - was); mag[k] += m[k] / (i - was); } }
        if (!anyk) for (int k = 0; k < np; k++) MC_CHECK(fabs(g.d[k] - ref[k]) <= 1e-5 * mag[k] + 2e-5 * fabs(ref[k]) + 1e-7, "value", "derivative %d of %d is %.9g, expected %.9g (samples %u..%u)", k, np, g.d[k], ref[k], was, i);
    }
    optimizer_free(opt); neuralnet_free(nn); ds_free(&d); fb_free(&g);
}
/* whole epochs */
static void epoch(void)
{
    static ro_t o; int acts[3], loss, kind = mc_choose(K_N), shape = mc_pick(0, 1, 2); NTH = mc_range(1, mc_thorough ? 4 : 3); int n = mc_pick(2, 3, 4), bs = mc_pick(1, 2, 3), valid = mc_choose(2), var = mc_choose(2); mc_shard(); if (bs == 1 && (n > 2 || NTH > 2)) mc_skip(); if (valid && n > 3 && NTH > 2) mc_skip(); if (kind == K_ADAM && NTH > 2 && n > bs) mc_skip(); if (NTH == 4 && n > bs) mc_skip(); if (NTH > 2 && shape == 1) mc_skip();
    neuralnet_t *nn = net(shape, acts, &loss); ds_t d = mk_ds(n, nn->layer[0].n_input, nn->layer[nn->n_layers - 1].n_output, loss, 3, 1), e = mk_ds(3, d.ni, d.no, loss, 5, 1); int order[8] = { 0, 1, 2, 3, 4, 5, 6, 7 }; bool ok = true;
    mc_ctx("%s, %d samples in batches of %d by %d threads, network %d%s, variant %d", knames[kind], n, bs, NTH, shape, valid ? ", with validation" : "", var); mc_sample("%s, %d samples in batches of %d by %d threads, network %d", knames[kind], n, bs, NTH, shape);
    ro_init(&o, kind, nn); defaults(&o); if (var) { o.mom = 0.5; o.nest = true; o.decay = 0.125; o.wd = 0.0625; }
    metric_func mf[3] = { get_metric_func(mn[0]), get_metric_func(mn[1]), NULL }; optimizer_t *opt = new_opt(&o, nn, bs, false, mf, NULL); ro_epoch(&o, nn, acts, loss, &d, order, bs, &ok); if (kind != K_SGD && o.gmin < 2e-3) ok = false;
    for (int k = 0; k < 32; k++) res[k] = -77;
    sched_begin(NTH, 1); name_net(nn); sched_name(res, sizeof res, "the results"); optimizer_run_epoch(opt, n, d.x, d.y, valid ? 3 : 0, valid ? e.x : NULL, valid ? e.y : NULL, res); norace("an epoch");
    int bad; double got; if (ok) MC_CHECK(ro_match(&o, nn, &bad, &got), "rule", "parameter %d is %.9g, the rule gives %.9g", bad, got, o.par[bad]);
    for (int v = 0; v <= valid; v++) { const ds_t *q = v ? &e : &d; double m[2] = { 0, 0 }; for (int s = 0; s < q->n; s++) { float SIMD_ALIGN(x[32]), SIMD_ALIGN(p[16]); memcpy(x, q->x + s * q->ni, 4 * q->ni); neuralnet_predict(nn, x, p); for (int j = 0; j < 2; j++) m[j] += ref_metric(mn[j], q->no, p, q->y + s * q->no) / q->n; } for (int j = 0; j < 2; j++) MC_CHECK(fabs(res[2 * v + j] - m[j]) <= 2e-5 * fabs(m[j]) + 1e-6, "result", "%s of the %s data is %.9g, expected %.9g", mn[j], v ? "validation" : "training", res[2 * v + j], m[j]); } MC_CHECK(res[2 + 2 * valid] == -77, "oob", "results behind the last one were written");
    optimizer_free(opt); neuralnet_free(nn); ds_free(&d); ds_free(&e);
}
static void evals(void)
{
    int acts[3], loss, shape = mc_choose(5); NTH = mc_range(1, mc_thorough ? 5 : 4); int n = mc_range(0, 7), nm = mc_range(1, 4); mc_shard(); if (nm == 4 && NTH > 3) mc_skip(); neuralnet_t *nn = net(shape, acts, &loss); ds_t d = mk_ds(n ? n : 1, nn->layer[0].n_input, nn->layer[nn->n_layers - 1].n_output, loss, 3, 1);
    mc_ctx("evaluating %d samples with %d metrics by %d threads, network %d", n, nm, NTH, shape); mc_sample("evaluating %d samples with %d metrics by %d threads, network %d", n, nm, NTH, shape); metric_func mf[8]; for (int j = 0; j < nm; j++) mf[j] = get_metric_func(mn[j]); mf[nm] = NULL; for (int k = 0; k < 32; k++) res[k] = -77;
    sched_begin(NTH, 1); name_net(nn); sched_name(res, sizeof res, "the results"); evaluate(nn, n, d.x, d.y, mf, res); norace("evaluation"); MC_CHECK(res[nm] == -77, "oob", "results behind the last one were written");
    if (n) for (int j = 0; j < nm; j++) { double m = 0; for (int s = 0; s < n; s++) { float SIMD_ALIGN(x[32]), SIMD_ALIGN(p[16]); memcpy(x, d.x + s * d.ni, 4 * d.ni); neuralnet_predict(nn, x, p); m += ref_metric(mn[j], d.no, p, d.y + s * d.no) / n; } MC_CHECK(fabs(res[j] - m) <= 2e-5 * fabs(m) + 1e-6, "result", "%s is %.9g, expected %.9g", mn[j], res[j], m); }
    neuralnet_free(nn); ds_free(&d);
}
/* equal samples: none, all, pairs */
static void repeat(ds_t *d, int n, int how){ for (int s = 1; s < n; s++) if (how == 1 || (how == 2 && s % 2)) { memcpy(d->x + s * d->ni, d->x + (s - 1) * d->ni, 4 * d->ni); memcpy(d->xd + s * d->ni, d->xd + (s - 1) * d->ni, 8 * d->ni); } }
static void batch(void)
{
    int acts[3], loss, shape = mc_choose(5); NTH = mc_range(1, mc_thorough ? 6 : 5); int n = mc_range(0, 9), how = n > 1 ? mc_choose(3) : 0; mc_shard(); neuralnet_t *nn = net(shape, acts, &loss); ds_t d = mk_ds(n ? n : 1, nn->layer[0].n_input, nn->layer[nn->n_layers - 1].n_output, loss, 3, 1); fbuf_t o = fb_new(n * d.no, 0); repeat(&d, n, how);
    mc_ctx("predicting %d samples%s by %d threads, network %d", n, how == 1 ? " (all equal)" : how ? " (equal in pairs)" : "", NTH, shape); mc_sample("predicting %d samples by %d threads, network %d", n, NTH, shape);
    sched_begin(NTH, 1); name_net(nn); sched_name(o.d, 4 * n * d.no, "the predictions"); neuralnet_predict_batch(nn, n, d.x, o.d); norace("batch prediction"); MC_CHECK(fb_intact(&o), "oob", "memory around the predictions was written");
    double all[64], err[64]; int tot = nn_sum_outputs(nn); for (int s = 0; s < n; s++) { ref_forward(nn, acts, NULL, d.xd + s * d.ni, all, err); for (int j = 0; j < d.no; j++) MC_CHECK(fabs(o.d[s * d.no + j] - all[tot - d.no + j]) <= err[tot - d.no + j] + 1e-6, "value", "sample %d output %d is %.9g, expected %.9g", s, j, o.d[s * d.no + j], all[tot - d.no + j]); }
    neuralnet_free(nn); ds_free(&d); fb_free(&o);
}
/* the first use in a process, by several threads at once */
static void first_use(void)
{
    static const char *const what[] = { "gradient", "epoch", "evaluation", "batch prediction" }; int w = mc_choose(4), shape = mc_choose(5), kind = w == 1 ? mc_choose(K_N) : 0; NTH = mc_range(2, 3); mc_shard(); int acts[3], loss; neuralnet_t *nn = net(shape, acts, &loss); ds_t d = mk_ds(4, nn->layer[0].n_input, nn->layer[nn->n_layers - 1].n_output, loss, 3, 1); int np = n_par(nn);
    mc_ctx("first %s of a process, by %d threads, network %d, optimizer %d", what[w], NTH, shape, kind); mc_sample("first %s of a process, by %d threads, network %d", what[w], NTH, shape);
    static ro_t o; ro_init(&o, kind, nn); defaults(&o); metric_func mf[3] = { get_metric_func(mn[0]), get_metric_func(mn[1]), NULL }; optimizer_t *opt = new_opt(&o, nn, kind == K_ADAM && NTH > 2 ? 4 : 2, false, mf, NULL); opt->pivot = malloc(16); opt->n_pivot = 4; for (int i = 0; i < 4; i++) opt->pivot[i] = i; fbuf_t g = fb_new(np, 0), out = fb_new(4 * d.no, 0); unsigned i = 0;
    sched_begin(NTH, 1); name_net(nn); switch (w) { case 0: optimizer_calc_batch_gradient(opt, 4, d.x, d.y, &i, g.d); break; case 1: optimizer_run_epoch(opt, 4, d.x, d.y, 0, NULL, NULL, res); break; case 2: evaluate(nn, 4, d.x, d.y, mf, res); break; case 3: neuralnet_predict_batch(nn, 4, d.x, out.d); break; } norace(what[w]);
    optimizer_free(opt); neuralnet_free(nn); ds_free(&d); fb_free(&g); fb_free(&out);
}
const mc_suite_t mc_suites[] = { { "gradient", gradient }, { "epoch", epoch }, { "evaluate", evals }, { "batch", batch }, { "first", first_use, MC_FORK }, { 0 } };
#endif
#if WHAT == 2
/* ---- callers ---- */
enum { O_PRED, O_BATCH, O_EVAL, O_SAVE, O_PARAM, O_GRAD, O_NAMES, O_PRED2, O_N };
static const char *const on[] = { "predict", "predict a batch", "evaluate", "save", "get parameters", "gradient", "look at names and sizes", "predict twice" };
static neuralnet_t *shared; static ds_t D; static int ops[4]; static float *out[4], *par[4]; static char path[4][300]; static metric_func MF[3]; static int names_ok[4], cnt[4];
static void act(int t)
{
    switch (ops[t]) {
    case O_PRED: neuralnet_predict(shared, D.x, out[t]); break;
    case O_PRED2: neuralnet_predict(shared, D.x, out[t]); neuralnet_predict(shared, D.x, out[t]); break;
    case O_BATCH: neuralnet_predict_batch(shared, 3, D.x, out[t]); break;
    case O_EVAL: evaluate(shared, 3, D.x, D.y, MF, out[t]); break;
    case O_SAVE: neuralnet_save(shared, "%s", path[t]); break;
    case O_PARAM: neuralnet_get_parameters(shared, par[t]); break;
    case O_GRAD: neuralnet_backpropagation(shared, D.x, D.y, par[t]); break;
    case O_NAMES: names_ok[t] = 1; cnt[t] = neuralnet_total_n_parameters(shared); for (int l = 0; l < shared->n_layers; l++) { const char *nm = get_activation_name(shared->layer[l].activation_func); if (get_activation_func(nm) != shared->layer[l].activation_func || !get_activation_derivative(shared->layer[l].activation_func)) names_ok[t] = 0; } if (!get_loss_func(loss_names[0]) || strcmp(get_loss_name(shared->loss), loss_names[0]) || get_metric_func(mn[1]) != MF[1]) names_ok[t] = 0; break;
    }
}
static void callers(void)
{
    int n = mc_range(2, 3), shape = mc_choose(3), acts[3]; int last = 0; for (int t = 0; t < n; t++) { ops[t] = last + mc_choose(O_N - last); last = ops[t]; } mc_shard(); NTH = mc_range(1, 2); int nev = 0; for (int t = 0; t < n; t++) nev += ops[t] == O_EVAL || ops[t] == O_BATCH; if (NTH > 1 && !nev) mc_skip(); if (n == 3 && nev > 2 && NTH > 1 && !mc_thorough) mc_skip();
    static const int S[3][4] = { { 8, 4, 0 }, { 3, 9, 2 }, { 5, 3, 8 } }; int L = S[shape][2] ? 2 : 1, sz[3]; memcpy(sz, S[shape], sizeof sz); acts[0] = A_TANH; acts[L - 1] = shape == 2 ? A_SOFTPLUS : A_LINEAR; shared = mk_net(L, sz, acts); fill_net_real(shared, shape + 9); neuralnet_set_loss(shared, loss_names[L_MSE]); D = mk_ds(3, sz[0], sz[L], L_MSE, 3, 1); int np = n_par(shared), no = sz[L]; MF[0] = get_metric_func(mn[0]); MF[1] = get_metric_func(mn[1]);
    char b[200] = "", *q = b; for (int t = 0; t < n; t++) { q += sprintf(q, "%s%s", t ? " | " : "", on[ops[t]]); out[t] = al(64); par[t] = al(256); snprintf(path[t], sizeof path[t], "%s/t%d.npz", mc_workdir, t); unlink(path[t]); cnt[t] = 0; } mc_ctx("%d threads: %s, network %d, teams of %d", n, b, shape, NTH); mc_sample("%d threads: %s, network %d, teams of %d", n, b, shape, NTH);
    uint64_t h = hash_net(shared); { int keep = 0; (void) keep; }
    sched_begin(NTH, 1); name_net(shared); sched_name(D.x, 4 * 3 * D.ni, "the shared inputs"); for (int t = 0; t < n; t++) { static const char *const on_[] = { "the output of thread 0", "the output of thread 1", "the output of thread 2" }; sched_name(out[t], 256, on_[t]); sched_name(par[t], 1024, on_[t]); } sched_run(n, act); norace("callers sharing a network");
    MC_CHECK(hash_net(shared) == h, "modified", "the network was modified");
    static double all[64], err[64], g[512], mg[512]; bool kink; int tot = nn_sum_outputs(shared);
    for (int t = 0; t < n; t++) switch (ops[t]) {
    case O_PRED: case O_PRED2: case O_BATCH: for (int s = 0; s < (ops[t] == O_BATCH ? 3 : 1); s++) { ref_forward(shared, acts, NULL, D.xd + s * D.ni, all, err); for (int j = 0; j < no; j++) MC_CHECK(fabs(out[t][s * no + j] - all[tot - no + j]) <= err[tot - no + j] + 1e-6, "value", "thread %d: output %d is %.9g, expected %.9g", t, j, out[t][s * no + j], all[tot - no + j]); } break;
    case O_EVAL: for (int j = 0; j < 2; j++) { double m = 0; for (int s = 0; s < 3; s++) { float p[16]; ref_forward(shared, acts, NULL, D.xd + s * D.ni, all, err); for (int k = 0; k < no; k++) p[k] = all[tot - no + k]; m += ref_metric(mn[j], no, p, D.y + s * no) / 3; } MC_CHECK(fabs(out[t][j] - m) <= 2e-5 * fabs(m) + 1e-6, "value", "thread %d: %s is %.9g, expected %.9g", t, mn[j], out[t][j], m); } break;
    case O_SAVE: { neuralnet_t *r = neuralnet_load(path[t]); MC_CHECK(r, "save", "thread %d: the saved network does not load", t); double a[512], c[512]; MC_CHECK(n_par(r) == np, "save", "thread %d: another network was saved", t); get_par(r, a); get_par(shared, c); MC_CHECK(!memcmp(a, c, 8 * np), "save", "thread %d: other parameters were saved", t); neuralnet_free(r); unlink(path[t]); break; }
    case O_PARAM: { double c[512]; get_par(shared, c); for (int k = 0; k < np; k++) MC_CHECK(par[t][k] == (float) c[k], "value", "thread %d: parameter %d is %.9g", t, k, par[t][k]); break; }
    case O_GRAD: ref_backprop(shared, acts, L_MSE, NULL, D.xd, D.yd, g, mg, &kink); if (!kink) for (int k = 0; k < np; k++) MC_CHECK(fabs(par[t][k] - g[k]) <= 2e-5 * mg[k] + 1e-5 * fabs(g[k]) + 1e-7, "value", "thread %d: derivative %d is %.9g, expected %.9g", t, k, par[t][k], g[k]); break;
    case O_NAMES: MC_CHECK(names_ok[t] && cnt[t] == np, "value", "thread %d: wrong names or sizes", t); break;
    }
    for (int t = 0; t < n; t++) { free(out[t]); free(par[t]); } neuralnet_free(shared); ds_free(&D);
}
const mc_suite_t mc_suites[] = { { "callers", callers, MC_FORK }, { 0 } };
#endif
#if WHAT == 3
#include "npyref.h"
#include "npy_array_list.h"
/* ---- callers with objects of their own ---- */
enum { W_CREATE, W_LOAD, W_SAVE, W_ARRAY, W_LIST, W_GRAD, W_EVAL, W_NAMES, W_N };
static const char *const wn[] = { "create and predict", "load a network", "save a network", "save, load and map an array", "save and load a list", "train a step", "evaluate", "look for unknown names" };
static int ops[4], sh[4], own_acts[4][3]; static neuralnet_t *own_net[4]; static ds_t D[4]; static float *out[4], *par[4]; static char path[4][300], tmpf[4][300]; static const char *why[4]; static metric_func MF[3];
static const int S[4][4] = { { 8, 4, 0 }, { 3, 9, 2 }, { 5, 3, 8 }, { 1, 1, 0 } };
static neuralnet_t *make(int t){ int L = S[sh[t]][2] ? 2 : 1, *a = own_acts[t]; a[0] = sh[t] == 2 ? A_SOFTPLUS : A_TANH; a[L - 1] = A_LINEAR; int sz[3]; memcpy(sz, S[sh[t]], sizeof sz); neuralnet_t *nn = mk_net(L, sz, a); if (nn) fill_net_real(nn, 7 * t + sh[t]); return nn; }
#define TELL(c, s) do { if (!(c)) { why[t] = s; return; } } while (0)
static void act(int t)
{
    neuralnet_t *nn = own_net[t];
    switch (ops[t]) {
    case W_CREATE: { neuralnet_t *m = make(t); TELL(m, "not created"); neuralnet_set_loss(m, "mse"); neuralnet_predict(m, D[t].x, out[t]); neuralnet_predict(m, D[t].x, out[t]); neuralnet_free(m); break; }
    case W_LOAD: { neuralnet_t *m = neuralnet_load(path[t]); TELL(m, "not loaded"); neuralnet_set_loss(m, "mse"); TELL(m->n_layers == nn->n_layers && hash_net(m) == hash_net(nn), "another network is loaded"); neuralnet_predict(m, D[t].x, out[t]); neuralnet_free(m); break; }
    case W_SAVE: neuralnet_save(nn, "%s-%d", tmpf[t], t); break;
    case W_ARRAY: { float d[12]; for (int i = 0; i < 12; i++) d[i] = 100 * t + i; npy_array_save(tmpf[t], NPY_ARRAY_BUILDER(d, SHAPE(3, 4), NPY_DTYPE_FLOAT32)); for (int k = 0; k < 2; k++) { npy_array_t *m = k ? npy_array_mmap(tmpf[t]) : npy_array_load(tmpf[t]); TELL(m && m->ndim == 2 && m->shape[0] == 3 && m->shape[1] == 4 && m->typechar == 'f' && m->elem_size == 4, "another array is read"); TELL(!memcmp(m->data, d, sizeof d), "other data are read"); npy_array_free(m); } break; }
    case W_LIST: { float d[2]; npy_array_list_t *l = NULL; for (int i = 0; i < 3; i++) { d[0] = t; d[1] = i; npy_array_save(tmpf[t], NPY_ARRAY_BUILDER(d, SHAPE(2), NPY_DTYPE_FLOAT32)); npy_array_t *m = npy_array_load(tmpf[t]); TELL(m, "not loaded"); l = i == 2 ? npy_array_list_prepend(l, m, "t%d-%d.npy", t, i) : i ? npy_array_list_append(l, m, "plain.npy") : npy_array_list_append(l, m, "t%d-%d.npy", t, i); TELL(l, "no list"); } TELL(npy_array_list_length(l) == 3, "the length is not 3"); int k = npy_array_list_save_compressed(tmpf[t], l, t & 1 ? ZIP_CM_STORE : ZIP_CM_DEFLATE, 0); npy_array_list_free(l); TELL(k == 3, "not 3 arrays saved"); l = npy_array_list_load(tmpf[t]); TELL(l && npy_array_list_length(l) == 3, "not 3 arrays loaded"); int i = 0; char w[40]; for (npy_array_list_t *p = l; p; p = p->next, i++) { snprintf(w, sizeof w, i == 2 ? "plain.npy" : "t%d-%d.npy", t, i == 1 ? 0 : 2); TELL(p->filename && !strcmp(p->filename, w), "other names"); float *f = (float*) p->array->data; TELL(f[0] == t && f[1] == (i == 0 ? 2 : i - 1), "other data"); } npy_array_list_free(l); break; }
    case W_GRAD: neuralnet_set_loss(nn, t & 1 ? "mae" : "mse"); neuralnet_backpropagation(nn, D[t].x, D[t].y, par[t]); neuralnet_update(nn, par[t]); neuralnet_get_parameters(nn, out[t]); break;
    case W_EVAL: evaluate(nn, 3, D[t].x, D[t].y, MF, out[t]); neuralnet_predict_batch(nn, 3, D[t].x, out[t] + 16); break;
    case W_NAMES: { char n[40]; snprintf(n, sizeof n, "nothing%d", t); activation_func f = get_activation_func(n); TELL(!f || !strcmp(get_activation_name(f), "linear"), "an unknown activation is found"); TELL(!get_metric_func(n), "an unknown metric is found"); TELL(get_metric_func("mae") == MF[1], "a metric is not found"); int sz[2] = { 2, 1 }; char *an[1] = { n }; neuralnet_t *m = neuralnet_create(1, INT_ARRAY(2, 1), an); (void) sz; TELL(m, "not created"); neuralnet_set_loss(m, n); TELL(!m->loss, "an unknown loss is set"); neuralnet_free(m); break; }
    }
}
static void owners(void)
{
    int n = mc_range(2, 3), v = mc_choose(2); int last = 0; for (int t = 0; t < n; t++) { ops[t] = last + mc_choose(W_N - last); last = ops[t]; } mc_shard(); NTH = mc_range(1, 2); bool ev = false; for (int t = 0; t < n; t++) ev |= ops[t] == W_EVAL; if (NTH > 1 && (!ev || (n == 3 && v && !mc_thorough))) mc_skip(); MF[0] = get_metric_func(mn[0]); MF[1] = get_metric_func(mn[1]);
    char b[300] = "", *q = b; static uint64_t h[4]; static double p0[4][512];
    for (int t = 0; t < n; t++) { q += sprintf(q, "%s%s", t ? " | " : "", wn[ops[t]]); sh[t] = v ? (t + 1) % 4 : 0; own_net[t] = make(t); if (!own_net[t]) abort(); neuralnet_set_loss(own_net[t], "mse"); D[t] = mk_ds(3, S[sh[t]][0], own_net[t]->layer[own_net[t]->n_layers - 1].n_output, L_MSE, 3 + t, 1); out[t] = al(128); par[t] = al(256); snprintf(path[t], sizeof path[t], "%s/n%d.npz", mc_workdir, t); snprintf(tmpf[t], sizeof tmpf[t], "%s/x%d", mc_workdir, t); neuralnet_save(own_net[t], "%s", path[t]); why[t] = NULL; h[t] = hash_net(own_net[t]); get_par(own_net[t], p0[t]); }
    mc_ctx("%d threads with objects of their own: %s, variant %d, teams of %d", n, b, v, NTH); mc_sample("%d threads with objects of their own: %s", n, b);
    sched_begin(NTH, 1); sched_run(n, act); norace("callers with objects of their own");
    static double all[64], err[64], g[512], mg[512];
    for (int t = 0; t < n; t++) {
        neuralnet_t *nn = own_net[t]; int *acts = own_acts[t], tot = nn_sum_outputs(nn), no = D[t].no, np = n_par(nn); bool kink; MC_CHECK(!why[t], "value", "thread %d (%s): %s", t, wn[ops[t]], why[t]); if (ops[t] != W_GRAD) MC_CHECK(hash_net(nn) == h[t], "modified", "thread %d (%s): its network was modified", t, wn[ops[t]]);
        switch (ops[t]) {
        case W_CREATE: case W_LOAD: ref_forward(nn, acts, NULL, D[t].xd, all, err); for (int j = 0; j < no; j++) MC_CHECK(fabs(out[t][j] - all[tot - no + j]) <= err[tot - no + j] + 1e-6, "value", "thread %d: output %d is %.9g, expected %.9g", t, j, out[t][j], all[tot - no + j]); break;
        case W_SAVE: { char f[400]; snprintf(f, sizeof f, "%s-%d", tmpf[t], t); neuralnet_t *r = neuralnet_load(f); if (r) neuralnet_set_loss(r, "mse"); MC_CHECK(r && hash_net(r) == h[t], "save", "thread %d: another network was saved", t); neuralnet_free(r); unlink(f); break; }
        case W_GRAD: { neuralnet_t *m = make(t); ref_backprop(m, acts, t & 1 ? L_MAE : L_MSE, NULL, D[t].xd, D[t].yd, g, mg, &kink); neuralnet_free(m); double c[512]; get_par(nn, c); for (int k = 0; k < np; k++) { if (!kink) MC_CHECK(fabs(par[t][k] - g[k]) <= 2e-5 * mg[k] + 1e-5 * fabs(g[k]) + 1e-7, "value", "thread %d: derivative %d is %.9g, expected %.9g", t, k, par[t][k], g[k]); MC_CHECK(fabs(c[k] - (p0[t][k] + par[t][k])) <= 1e-6 * (fabs(c[k]) + fabs(par[t][k])) && out[t][k] == (float) c[k], "value", "thread %d: parameter %d is %.9g after the update and %.9g extracted", t, k, c[k], out[t][k]); } break; }
        case W_EVAL: for (int j = 0; j < 2; j++) { double m = 0; for (int s = 0; s < 3; s++) { float p[16]; ref_forward(nn, acts, NULL, D[t].xd + s * D[t].ni, all, err); for (int k = 0; k < no; k++) { p[k] = all[tot - no + k]; MC_CHECK(fabs(out[t][16 + s * no + k] - p[k]) <= err[tot - no + k] + 1e-6, "value", "thread %d: output %d of sample %d is %.9g, expected %.9g", t, k, s, out[t][16 + s * no + k], p[k]); } m += ref_metric(mn[j], no, p, D[t].y + s * no) / 3; } MC_CHECK(fabs(out[t][j] - m) <= 2e-5 * fabs(m) + 1e-6, "value", "thread %d: %s is %.9g, expected %.9g", t, mn[j], out[t][j], m); } break;
        }
    }
    for (int t = 0; t < n; t++) { free(out[t]); free(par[t]); neuralnet_free(own_net[t]); ds_free(&D[t]); unlink(path[t]); unlink(tmpf[t]); }
}
const mc_suite_t mc_suites[] = { { "owners", owners, MC_FORK }, { 0 } };
#endif
