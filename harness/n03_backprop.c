/* Back-propagation against an independent double-precision gradient; overwriting and bounds. */
#include "nnref.h"
void mc_harness_init(void){}
#ifdef __SANITIZE_ADDRESS__
#define SMALL 1
#else
#define SMALL 0
#endif
static const char *const alias[L_N] = { "mse", "mae", "mape", "binary_crossentropy", "categorical_crossentropy" };

static void check_grad(neuralnet_t *nn, const int *acts, int loss, int seed, int toff, const char *what)
{
    int ni = nn->layer[0].n_input, no = nn->layer[nn->n_layers-1].n_output;
    int np = neuralnet_total_n_parameters(nn);
    fbuf_t in = fb_new(ni, toff), tgt = fb_new(no, toff), grad = fb_new(np, 0);
    double *xd = malloc(sizeof(double) * (ni + no + 2 * np)), *yd = xd + ni, *g = yd + no, *mag = g + np;
    for (int i = 0; i < ni; i++) { in.d[i] = rval(seed * 77 + i); if (i % 4 == 1) in.d[i] = 0.0f; if (i % 4 == 2) in.d[i] = 1.0f; xd[i] = in.d[i]; }
    for (int j = 0; j < no; j++) {
        float t = loss == L_BCE ? (float)((seed + j) & 1) : loss == L_CCE ? (float)(j == (seed * 7) % no) : 0.6f + 1.3f * rval(seed * 13 + 5 * j);
        if (loss == L_MAPE && fabsf(t) < 0.05f) t = -0.7f;
        tgt.d[j] = t; yd[j] = t;
    }
    uint64_t h0 = hash_net(nn), hi = mc_hash(in.d, 4 * ni, 1), ht = mc_hash(tgt.d, 4 * no, 1);
    neuralnet_backpropagation(nn, in.d, tgt.d, grad.d);
    MC_CHECK(fb_intact(&grad), "oob-gradient", "%s: memory around the gradient was written", what);
    MC_CHECK(fb_intact(&in) && fb_intact(&tgt) && mc_hash(in.d, 4 * ni, 1) == hi && mc_hash(tgt.d, 4 * no, 1) == ht, "sample-changed", "%s: input or target changed", what);
    MC_CHECK(hash_net(nn) == h0, "net-changed", "%s: network changed by back-propagation", what);
    bool kink;
    ref_backprop(nn, acts, loss, NULL, xd, yd, g, mag, &kink);
    if (!kink) {
        for (int k = 0; k < np; k++)
            if (!(fabs(grad.d[k] - g[k]) <= 1e-5 * mag[k] + 2e-5 * fabs(g[k]) + 1e-7))
                mc_fail("wrong-gradient", "%s: parameter %d: gradient %.9g, expected %.9g (scale %.3g)", what, k, grad.d[k], g[k], mag[k]);
        mc_nontrivial(1);
    } else for (int k = 0; k < np; k++) MC_CHECK(isfinite(grad.d[k]), "wrong-gradient", "%s: parameter %d not written or not finite", what, k);
    mc_eval(1);
    free(xd); fb_free(&in); fb_free(&tgt); fb_free(&grad);
}

static void shapes(void)
{
    static const int al[] = { 1, 2, 7, 8, 9, 15, 16, 17, 19, 23, 24, 25, 31, 32, 33, 40, 48, 49 };
    int na = SMALL ? 9 : mc_thorough ? 18 : 15, L = mc_range(1, 3), sz[4], acts[3];
    if (L == 3) na = SMALL ? 5 : mc_thorough ? 15 : 10;
    for (int i = 0; i <= L; i++) { sz[i] = al[mc_choose(na) * (SMALL ? 2 : 1)]; if (i == 1) mc_shard(); }
    int h = mc_pick(A_TANH, A_RELU, A_SIGMOID, A_LINEAR), o = mc_choose(4);
    for (int i = 0; i < L; i++) acts[i] = h;
    int loss;
    if (o == 0) { loss = L_MSE; acts[L-1] = A_LINEAR; } else if (o == 1) { loss = L_BCE; acts[L-1] = A_SIGMOID; }
    else if (o == 2) { loss = L_CCE; acts[L-1] = A_SOFTMAX; } else { loss = L_MSE; }
    mc_ctx("sizes %d,%d,%d,%d depth %d hidden %s out %s loss %s", sz[0], sz[1], L>1?sz[2]:0, L>2?sz[3]:0, L, act_names[h], act_names[acts[L-1]], loss_names[loss]);
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_real(nn, 7 + sz[0]);
    neuralnet_set_loss(nn, loss_names[loss]);
    mc_sample("depth %d, %d->..->%d, %s/%s: %u partial derivatives", L, sz[0], sz[L], act_names[h], loss_names[loss], neuralnet_total_n_parameters(nn));
    check_grad(nn, acts, loss, sz[L] + 1, 0, "shapes");
    neuralnet_free(nn);
}
static void pairs(void)
{
    int loss = mc_choose(L_N), L = mc_range(1, 3), acts[3];
    for (int i = 0; i < L; i++) acts[i] = mc_choose(A_N);
    if (!pairing_ok(loss, acts[L-1])) mc_skip();
    for (int i = 0; i < L-1; i++) if (acts[i] == A_SOFTMAX) mc_skip();   /* documented only as an output activation */
    mc_shard();
    int s = mc_choose(4), seed = mc_range(1, mc_thorough ? 6 : 3);
    static const int shp[4][4] = { {3,17,33,5}, {16,8,24,32}, {1,40,2,19}, {9,1,21,48} };
    int sz[4]; memcpy(sz, shp[s], sizeof sz); 
    mc_ctx("loss %s, activations %s %s %s, shape set %d, sample %d", loss_names[loss], act_names[acts[0]], L>1?act_names[acts[1]]:"", L>2?act_names[acts[2]]:"", s, seed);
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_real(nn, 7 + seed);
    neuralnet_set_loss(nn, seed & 1 ? loss_names[loss] : alias[loss]);
    check_grad(nn, acts, loss, seed, seed == 2 ? 3 : 0, "pairs");
    neuralnet_free(nn);
}
/* every input/target entry class at every position of small nets */
static void entries(void)
{
    int ni = mc_range(1, 3), no = mc_pick(1, 2, 9, 17), o = mc_choose(3), hid = mc_pick(0, 5, 18);
    mc_shard();
    int L = hid ? 2 : 1, sz[3] = { ni, hid ? hid : no, no };
    int acts[2] = { A_TANH, A_LINEAR }; int loss = L_MSE;
    if (o == 1) { acts[L-1] = A_SIGMOID; loss = L_BCE; } else if (o == 2) { acts[L-1] = A_SOFTMAX; loss = L_CCE; } else acts[L-1] = A_LINEAR;
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_real(nn, 5); neuralnet_set_loss(nn, loss_names[loss]);
    static const float in[] = { 0.0f, 1.0f, -1.0f, 0.3f, -0.0f };
    int np = neuralnet_total_n_parameters(nn);
    fbuf_t g = fb_new(np, 0); double *rg = malloc(sizeof(double) * np * 2); bool kink;
    float x[3]; double xd[3], yd[17]; float y[17];
    for (int i = 0; i < ni; i++) { x[i] = in[mc_choose(5)]; xd[i] = x[i]; }
    int hot = mc_choose(no);
    for (int j = 0; j < no; j++) { y[j] = loss == L_MSE ? (j == hot ? 2.5f : -0.1f) : (float)(j == hot); yd[j] = y[j]; }
    mc_ctx("net %d->%d->%d loss %s x=%g,%g,%g hot target %d", ni, hid, no, loss_names[loss], x[0], ni>1?x[1]:0, ni>2?x[2]:0, hot);
    neuralnet_backpropagation(nn, x, y, g.d);
    ref_backprop(nn, acts, loss, NULL, xd, yd, rg, rg + np, &kink);
    MC_CHECK(fb_intact(&g), "oob-gradient", "memory around the gradient was written");
    for (int k = 0; k < np; k++) MC_CHECK(fabs(g.d[k] - rg[k]) <= 1e-5 * rg[np+k] + 2e-5 * fabs(rg[k]) + 1e-7, "wrong-gradient", "parameter %d: %.9g expected %.9g", k, g.d[k], rg[k]);
    mc_eval(1); mc_nontrivial(1);
    free(rg); fb_free(&g); neuralnet_free(nn);
}
static void deep(void)
{
    int L = mc_range(4, mc_thorough ? 7 : 5), sz[8], acts[7];
    for (int i = 0; i <= L; i++) { sz[i] = mc_pick(1, 16, 19, 26); if (i == 2) mc_shard(); }
    for (int i = 0; i < L; i++) acts[i] = i % 3 == 0 ? A_SOFTSIGN : i % 3 == 1 ? A_TANH : A_SOFTPLUS;
    mc_ctx("depth %d sizes %d,%d,%d,%d,%d,..", L, sz[0], sz[1], sz[2], sz[3], sz[4]);
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_real(nn, 3); neuralnet_set_loss(nn, "mse");
    check_grad(nn, acts, L_MSE, 3, 0, "deep"); neuralnet_free(nn);
}
static void wide(void)
{
    int a = mc_pick(1, 100, 257), b = mc_pick(1, 127, 128, 300), c = mc_pick(1, 10, 129), o = mc_choose(2);
    mc_shard();
    int sz[4] = { 6, a, b, c }, acts[3] = { A_TANH, A_SIGMOID, o ? A_SOFTMAX : A_LINEAR };
    mc_ctx("6,%d,%d,%d", a, b, c);
    neuralnet_t *nn = mk_net(3, sz, acts); fill_net_real(nn, 3); neuralnet_set_loss(nn, loss_names[o ? L_CCE : L_MSE]);
    check_grad(nn, acts, o ? L_CCE : L_MSE, 3, 0, "wide"); neuralnet_free(nn);
}
/* depth and widths at every power of two, one off on either side */
static void scale_depth(void)
{
    int L = scale_pick(3, SMALL ? 65 : mc_thorough ? 1025 : 513), w = mc_pick(1, 3, 17), o = mc_choose(3);
    mc_shard();
    int *sz = malloc(sizeof(int) * (2 * L + 1)), *acts = sz + L + 1, loss = o == 0 ? L_MSE : o == 1 ? L_BCE : L_CCE;
    for (int i = 0; i <= L; i++) sz[i] = i % 3 == 1 ? w : w + 1;
    for (int i = 0; i < L; i++) acts[i] = A_LINEAR;
    acts[L-1] = o == 0 ? A_LINEAR : o == 1 ? A_SIGMOID : A_SOFTMAX;
    mc_ctx("%d layers, %d and %d wide, loss %s", L, w, w + 1, loss_names[loss]); mc_sample("%d layers, %d and %d wide, loss %s", L, w, w + 1, loss_names[loss]);
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_pass(nn, L); for (int l = 0; l < L; l++) for (int j = 0; j < nn->layer[l].n_output; j++) nn->layer[l].bias[j] *= 0.015625f;
    neuralnet_set_loss(nn, loss_names[loss]);
    check_grad(nn, acts, loss, 3, 0, "depth"); free(sz); neuralnet_free(nn);
}
static void scale_width(void)
{
    int W = scale_pick(511, SMALL ? 2049 : mc_thorough ? (1 << 18) + 1 : (1 << 17) + 1), o = mc_pick(1, 2, 9), at = mc_choose(3);
    mc_shard();
    int sz[3] = { 3, o, 2 }, acts[2] = { A_LINEAR, A_LINEAR }; sz[at] = W;
    if (at == 1) { sz[0] = o; sz[2] = 3; }
    mc_ctx("%d -> %d -> %d", sz[0], sz[1], sz[2]); mc_sample("%d -> %d -> %d", sz[0], sz[1], sz[2]);
    neuralnet_t *nn = mk_net(2, sz, acts); fill_net_real(nn, 9); neuralnet_set_loss(nn, "mse");
    check_grad(nn, acts, L_MSE, 3, 0, "width"); neuralnet_free(nn);
}
/* values of every magnitude: small inputs and small errors give small derivatives, not none */
static void tiny(void)
{
    int L = mc_range(1, 3), a = mc_pick(1, 3, 8, 17), b = mc_pick(1, 4, 9, 16), c = mc_pick(1, 2, 8, 19); if ((L < 2 && b > 1) || (L < 3 && c > 1)) mc_skip(); mc_shard();
    int act = mc_pick(A_LINEAR, A_RELU), loss = mc_pick(L_MSE, L_MAE), k = mc_range(0, 12) * 3, m = mc_pick(-1, 0, 4, 9, 14); if (m >= 0 && act != A_LINEAR) mc_skip();
    int sz[4] = { a, L > 1 ? b : 2, L > 2 ? c : 5, 2 }, acts[3] = { act, act, act }; acts[L - 1] = A_LINEAR; sz[L] = sz[L] > 9 ? 9 : sz[L];
    neuralnet_t *nn = mk_net(L, sz, acts); neuralnet_set_loss(nn, loss_names[loss]); int np = neuralnet_total_n_parameters(nn), no = sz[L];
    for (int l = 0; l < L; l++) { for (int j = 0; j < sz[l + 1]; j++) nn->layer[l].bias[j] = 0; for (int i = 0; i < sz[l] * sz[l + 1]; i++) nn->layer[l].weight[i] = ival(i * 7 + l, 2) > 0 ? 0.5f : 0.25f; }
    fbuf_t x = fb_new(a, 0), y = fb_new(no, 0), g = fb_new(np, 0); double xd[32], yd[32], *rg = malloc(16 * np), all[64], err[64]; bool kink;
    for (int i = 0; i < a; i++) xd[i] = x.d[i] = ldexpf(1 + i % 3, -k);
    ref_forward(nn, acts, NULL, xd, all, err); int tot = nn_sum_outputs(nn); for (int j = 0; j < no; j++) { yd[j] = y.d[j] = m < 0 ? 0 : (float) all[tot - no + j] * (1 - ldexp(1, -m)); if (m >= 0 && yd[j] != all[tot - no + j] * (1 - ldexp(1, -m))) mc_skip(); }
    mc_ctx("%d layers from %d inputs of about 2^-%d to %d outputs, %s, %s, relative error 2^%d", L, a, k, no, act_names[act], loss_names[loss], m < 0 ? 0 : -m); mc_sample("%d layers from %d inputs of about 2^-%d, %s, %s", L, a, k, act_names[act], loss_names[loss]);
    neuralnet_backpropagation(nn, x.d, y.d, g.d); MC_CHECK(fb_intact(&g), "oob-gradient", "memory around the gradient was written");
    ref_backprop(nn, acts, loss, NULL, xd, yd, rg, rg + np, &kink);
    if (!kink || loss == L_MAE) for (int q = 0; q < np; q++) MC_CHECK(fabs(g.d[q] - rg[q]) <= 1e-5 * rg[np + q] + 2e-5 * fabs(rg[q]) + 1e-40, "wrong-gradient", "parameter %d: gradient %.9g, expected %.9g (scale %.3g)", q, g.d[q], rg[q], rg[np + q]);
    mc_eval(1); mc_nontrivial(!kink || loss == L_MAE); free(rg); fb_free(&x); fb_free(&y); fb_free(&g); neuralnet_free(nn);
}
const mc_suite_t mc_suites[] = { { "tiny", tiny, 0 },  { "scale-depth", scale_depth, 0 }, { "scale-width", scale_width, 0 },  { "shapes", shapes, 0 }, { "pairs", pairs, 0 }, { "entries", entries, 0 }, { "deep", deep, 0 }, { "wide", wide, 0 }, { NULL, NULL, 0 } };
