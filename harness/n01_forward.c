/* Prediction: exhaustive over shapes, entry kinds, alignments, activations; double reference. */
#include "nnref.h"
#include "neuralnet_predict_batch.h"
void mc_harness_init(void){}
#ifdef __SANITIZE_ADDRESS__
#define SMALL 1
#else
#define SMALL 0
#endif

static void check_predict(neuralnet_t *nn, const int *acts, const float *x, int xoff, int yoff, bool exact, const char *what)
{
    int ni = nn->layer[0].n_input, no = nn->layer[nn->n_layers-1].n_output, tot = nn_sum_outputs(nn);
    fbuf_t in = fb_new(ni, xoff), out = fb_new(no, yoff);
    memcpy(in.d, x, sizeof(float) * ni);
    uint64_t h0 = hash_net(nn);
    neuralnet_predict(nn, in.d, out.d);
    MC_CHECK(fb_intact(&out), "oob-output", "%s: memory around the output was written", what);
    MC_CHECK(fb_intact(&in) && !memcmp(in.d, x, sizeof(float) * ni), "input-changed", "%s: input changed", what);
    MC_CHECK(hash_net(nn) == h0, "net-changed", "%s: network changed by prediction", what);
    double xd[ni]; for (int i = 0; i < ni; i++) xd[i] = x[i];
    double *all = malloc(sizeof(double) * tot * 2), *err = all + tot;
    ref_forward(nn, acts, NULL, xd, all, err);
    for (int j = 0; j < no; j++) {
        double r = all[tot - no + j], e = exact ? 0 : err[tot - no + j];
        if (!(fabs((double) out.d[j] - r) <= e))
            mc_fail("wrong-output", "%s: output %d is %.9g, expected %.9g (tolerance %.3g)", what, j, out.d[j], r, e);
    }
    free(all); fb_free(&in); fb_free(&out);
    mc_eval(1); mc_nontrivial(no > 0);
}

/* one linear layer, integer data: exact; all entry-kind patterns, every width */
static void kernel(void)
{
    int ni = mc_range(1, SMALL ? 5 : 20), no = mc_range(1, SMALL ? 40 : mc_thorough ? 140 : 72);
    mc_shard();
    int acts[1] = {A_LINEAR}, sz[2] = {ni, no};
    neuralnet_t *nn = mk_net(1, sz, acts);
    fill_net_int(nn, 17 + ni * 131 + no, 9);
    float x[ni];
    static const float kinds[] = { 0.0f, 1.0f, 3.0f, -1.0f };
    if (ni <= 3) {
        int c[3] = {0};
        for (int i = 0; i < ni; i++) { c[i] = mc_choose(4); x[i] = kinds[c[i]]; }
    } else {
        /* background kind, with one entry of another kind at each position */
        int bg = mc_choose(3), pos = mc_choose(ni), k = mc_choose(4);
        for (int i = 0; i < ni; i++) x[i] = bg == 0 ? ival(i + 5, 6) : bg == 1 ? kinds[i % 3] : 1.0f;
        x[pos] = kinds[k];
    }
    mc_ctx("linear layer %dx%d x=[%g,%g,..]", ni, no, x[0], ni > 1 ? x[1] : 0.0);
    check_predict(nn, acts, x, 0, 0, true, "kernel");
    neuralnet_free(nn);
}

/* alignment of the caller's buffers */
static void alignment(void)
{
    int no = mc_range(1, SMALL ? 36 : 72), yoff = mc_choose(16); 
    mc_shard();
    int xoff = mc_choose(SMALL ? 4 : 16), L = mc_range(1, 2);
    int acts[2] = { A_RELU, A_SIGMOID }, sz[3] = { 5, no, no };
    if (L == 2) sz[1] = 11;
    int *ac = L == 1 ? acts + 1 : acts;
    mc_ctx("%d-layer net with %d outputs, input offset %d floats, output offset %d floats", L, no, xoff, yoff);
    neuralnet_t *nn = mk_net(L, sz, ac);
    fill_net_real(nn, 23 + no);
    float x[5] = { 0.25f, 1.0f, 0.0f, -0.75f, 0.5f };
    check_predict(nn, ac, x, xoff, yoff, false, "alignment");
    neuralnet_free(nn);
}

/* every size vector over an alphabet of SIMD-relevant sizes, integer data, linear+relu: exact */
static void shapes(void)
{
    static const int al[] = { 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 25, 31, 32, 33, 40, 47, 48, 49, 64, 65 };
    int na = SMALL ? 8 : mc_thorough ? 20 : 15;
    int L = mc_range(1, SMALL ? 3 : 4);
    int sz[5], acts[4], idx[5];
    int nal = L == 4 ? (mc_thorough ? 12 : 8) : na;
    for (int i = 0; i <= L; i++) { idx[i] = mc_choose(nal); sz[i] = al[SMALL ? (idx[i] * 2 + (idx[i] > 3)) : L == 4 ? idx[i] + (idx[i] > 2) * 2 : idx[i]]; if (i == 2) mc_shard(); if (i == 1 && L == 1) mc_shard(); }
    for (int i = 0; i < L; i++) acts[i] = i == L - 1 ? A_LINEAR : A_RELU;
    mc_ctx("sizes %d %d %d %d %d (depth %d)", sz[0], sz[1], L > 1 ? sz[2] : 0, L > 2 ? sz[3] : 0, L > 3 ? sz[4] : 0, L);
    neuralnet_t *nn = mk_net(L, sz, acts);
    fill_net_int(nn, 5 + sz[0] + 3*sz[1], L > 3 ? 1 : 2);
    float x[sz[0]]; for (int i = 0; i < sz[0]; i++) x[i] = ival(91 + i, 2);
    mc_sample("depth %d sizes %d,%d,.. integer weights: exact match", L, sz[0], sz[1]);
    check_predict(nn, acts, x, 0, 0, true, "shapes");
    neuralnet_free(nn);
}

/* deep narrow networks */
static void deep(void)
{
    int L = mc_range(5, mc_thorough ? 9 : 7);
    int sz[10], acts[9];
    for (int i = 0; i <= L; i++) { sz[i] = mc_pick(1, 16, 19); if (i == 2) mc_shard(); }
    for (int i = 0; i < L; i++) acts[i] = i & 1 ? A_SOFTSIGN : A_TANH;
    mc_ctx("depth %d sizes %d %d %d %d %d %d ...", L, sz[0], sz[1], sz[2], sz[3], sz[4], sz[5]);
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_real(nn, 3);
    float x[sz[0]]; for (int i = 0; i < sz[0]; i++) x[i] = rval(i + 50);
    check_predict(nn, acts, x, 0, 0, false, "deep");
    neuralnet_free(nn);
}

/* all activation assignments */
static void activations(void)
{
    static const int shp[4][5] = { {3, 17, 5, 33, 9}, {16, 8, 24, 16, 32}, {1, 2, 1, 40, 20}, {9, 31, 15, 7, 48} };
    int L = mc_range(1, 4);
    int acts[4]; for (int i = 0; i < L; i++) acts[i] = mc_choose(A_N);
    if (L > 3 && !mc_thorough && acts[1] == A_LINEAR) mc_skip();
    mc_shard();
    int s = mc_choose(L == 4 && !mc_thorough ? 1 : 4);
    const int *sz = shp[s];
    mc_ctx("activations %s %s %s %s on shape set %d", act_names[acts[0]], L>1?act_names[acts[1]]:"", L>2?act_names[acts[2]]:"", L>3?act_names[acts[3]]:"", s);
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_real(nn, 11 + s);
    float x[sz[0]]; for (int i = 0; i < sz[0]; i++) x[i] = rval(77 + i);
    mc_sample("depth %d activations %s..", L, act_names[acts[0]]);
    check_predict(nn, acts, x, 0, 0, false, "activations");
    neuralnet_free(nn);
}

/* wide layers, thousands of units */
static void wide(void)
{
    int ni = mc_pick(1, 2, 127, 128, 500, 1025), no = mc_pick(1, 100, 127, 128, 129, 500, 1000, 1023, 1024, 1025, 2048);
    int L = mc_range(1, 2);
    if (SMALL && ni * no > 70000) mc_skip();
    mc_shard();
    int sz[3] = { ni, no, 10 }, acts[2] = { L == 2 ? A_RELU : A_LINEAR, A_LINEAR };
    mc_ctx("wide %d x %d depth %d", ni, no, L);
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_int(nn, 9, 1);
    float *x = malloc(sizeof(float) * ni); for (int i = 0; i < ni; i++) x[i] = ival(i + 1, 2);
    check_predict(nn, acts, x, 0, 0, true, "wide");
    free(x); neuralnet_free(nn);
}

/* depth and widths at every power of two, one off on either side */
static void scale_depth(void)
{
    int L = scale_pick(3, SMALL ? 129 : mc_thorough ? 4097 : 1025), w = mc_pick(1, 3, 16, 19);
    mc_shard();
    int *sz = malloc(sizeof(int) * (2 * L + 1)), *acts = sz + L + 1;
    for (int i = 0; i <= L; i++) sz[i] = i % 3 == 1 ? w : w + 1;
    for (int i = 0; i < L; i++) acts[i] = i % 5 == 4 ? A_RELU : A_LINEAR;
    mc_ctx("%d layers, %d and %d wide", L, w, w + 1); mc_sample("%d layers, %d and %d wide: exact match", L, w, w + 1);
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_pass(nn, L);
    float x[20]; for (int i = 0; i < sz[0]; i++) x[i] = ival(i + 1, 3);
    check_predict(nn, acts, x, 0, 0, true, "depth"); free(sz); neuralnet_free(nn);
}
static void scale_width(void)
{
    int W = scale_pick(1023, SMALL ? 4097 : mc_thorough ? (1 << 19) + 1 : (1 << 17) + 1), o = mc_pick(1, 2, 9), at = mc_choose(3);
    mc_shard();
    int sz[3] = { 3, o, 2 }, acts[2] = { A_RELU, A_LINEAR }, L = 2; sz[at] = W;
    if (at == 1) { sz[0] = o; sz[2] = 3; }
    mc_ctx("%d -> %d -> %d", sz[0], sz[1], sz[2]); mc_sample("%d -> %d -> %d: exact match", sz[0], sz[1], sz[2]);
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_int(nn, 9, 1);
    float *x = malloc(sizeof(float) * sz[0]); for (int i = 0; i < sz[0]; i++) x[i] = ival(i + 1, 2);
    check_predict(nn, acts, x, 0, 0, true, "width"); free(x); neuralnet_free(nn);
}
/* values of every magnitude: all inputs and biases of an integer network times a power of two, exactly that many times the result */
static void magnitudes(void)
{
    int L = mc_range(1, 3), e = mc_range(-17, 13) * 4, ni = mc_pick(1, 3, 8, 19); mc_shard(); int no = mc_range(1, SMALL ? 18 : 40), act = mc_pick(A_LINEAR, A_RELU), how = mc_choose(3);
    int sz[4] = { ni, L > 1 ? 9 : no, L > 2 ? 5 : no, no }, acts[3] = { act, act, act }; sz[L] = no; neuralnet_t *nn = mk_net(L, sz, acts); fill_net_int(nn, 23 + ni + no, 3); float x[ni];
    for (int l = 0; l < L; l++) for (int j = 0; j < sz[l + 1]; j++) nn->layer[l].bias[j] = ldexpf(nn->layer[l].bias[j], e);
    for (int i = 0; i < ni; i++) x[i] = ldexpf(how == 0 ? 1 : how == 1 ? ival(i + 3, 4) : i == ni / 2 ? -3 : 0, e);
    mc_ctx("depth %d, %d -> %d, %s, values of about 2^%d", L, ni, no, act_names[act], e); mc_sample("depth %d, %d -> %d, %s, values of about 2^%d: exact", L, ni, no, act_names[act], e);
    check_predict(nn, acts, x, 0, 0, true, "magnitudes"); neuralnet_free(nn);
}
const mc_suite_t mc_suites[] = { { "magnitudes", magnitudes, 0 },
    { "scale-depth", scale_depth, 0 }, { "scale-width", scale_width, 0 },
    { "kernel", kernel, 0 }, { "alignment", alignment, 0 }, { "shapes", shapes, 0 }, { "deep", deep, 0 },
    { "activations", activations, 0 }, { "wide", wide, 0 }, { NULL, NULL, 0 } };
