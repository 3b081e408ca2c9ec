/* Batch prediction == per-sample prediction; exact bounds; any alignment; large batches. */
#define _GNU_SOURCE
#include "nnref.h"
#include <sys/mman.h>
#include "neuralnet_predict_batch.h"
#include "teams.h"
void mc_harness_init(void){}
#ifdef __SANITIZE_ADDRESS__
#define SMALL 1
#else
#define SMALL 0
#endif
#define IS_BLAS (strncmp(CONFIG_NAME, "blas", 4) == 0)

static int in_exp;
static void run(neuralnet_t *nn, const int *acts, int ns, int xoff, int yoff, bool exact, const char *what)
{
    int ni = nn->layer[0].n_input, no = nn->layer[nn->n_layers-1].n_output, tot = nn_sum_outputs(nn);
    fbuf_t in = fb_new(ns * ni, xoff), out = fb_new(ns * no, yoff);
    for (int i = 0; i < ns * ni; i++) in.d[i] = exact ? ival(i + 1000, 3) : rval(i + 1000);
    for (int i = 0; i < ns * ni; i += 5) in.d[i] = (i / 5) & 1 ? 1.0f : 0.0f;
    if (in_exp) for (int i = 0; i < ns * ni; i++) in.d[i] = ldexpf(in.d[i], in_exp);
    uint64_t h0 = hash_net(nn), hx = mc_hash(in.d, sizeof(float) * ns * ni, 1);
    TEAM(neuralnet_predict_batch(nn, ns, in.d, out.d));
    MC_CHECK(fb_intact(&out), "oob-output", "%s: memory around the outputs was written", what);
    MC_CHECK(fb_intact(&in) && mc_hash(in.d, sizeof(float) * ns * ni, 1) == hx, "input-changed", "%s: input changed", what);
    MC_CHECK(hash_net(nn) == h0, "net-changed", "%s: network changed", what);
    double xd[ni]; double *all = malloc(sizeof(double) * tot * 2), *err = all + tot;
    float SIMD_ALIGN(single[no + 16]);
    for (int s = 0; s < ns; s++) {
        if (ns > 64 && s > 8 && s < ns - 8 && (s % 13)) { /* large batches: exact comparison with single predictions suffices */
            neuralnet_predict(nn, in.d + (size_t) s*ni, single);
            for (int j = 0; j < no; j++)
                MC_CHECK(fabsf(out.d[(size_t) s*no + j] - single[j]) <= (exact ? 0 : 2e-5f * (1 + fabsf(single[j]))), "batch-differs", "%s: sample %d output %d: batch %.9g single %.9g", what, s, j, out.d[(size_t)s*no+j], single[j]);
            continue;
        }
        for (int i = 0; i < ni; i++) xd[i] = in.d[(size_t) s*ni + i];
        ref_forward(nn, acts, NULL, xd, all, err);
        neuralnet_predict(nn, in.d + (size_t) s*ni, single);
        for (int j = 0; j < no; j++) {
            double r = all[tot - no + j], e = exact ? 0 : 2 * err[tot - no + j];
            if (!(fabs((double) out.d[(size_t) s*no + j] - r) <= e))
                mc_fail("wrong-output", "%s: sample %d of %d output %d is %.9g, expected %.9g", what, s, ns, j, out.d[(size_t) s*no + j], r);
            MC_CHECK(fabs((double) out.d[(size_t) s*no + j] - single[j]) <= 2 * e, "batch-differs", "%s: sample %d output %d: batch %.9g single %.9g", what, s, j, out.d[(size_t)s*no+j], single[j]);
        }
    }
    free(all); fb_free(&in); fb_free(&out);
    mc_eval(1); mc_nontrivial(ns > 0);
}

static void small(void)
{
    int ns = mc_range(0, SMALL ? 5 : 19), no = mc_range(1, SMALL ? 20 : 40);
    mc_shard();
    int ni = mc_pick(1, 3, 9, 16), L = mc_range(1, 3);
    int sz[4] = { ni, L > 1 ? 17 : no, L > 2 ? 6 : no, no }; sz[L] = no;
    int acts[3]; for (int i = 0; i < L; i++) acts[i] = i == L-1 ? A_LINEAR : A_RELU;
    mc_ctx("%d samples, %d->%d, depth %d", ns, ni, no, L);
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_int(nn, 31 + no, 2);
    mc_sample("%d samples through %d->..->%d (depth %d): bitwise equal to exact result", ns, ni, no, L);
    run(nn, acts, ns, 0, 0, true, "small"); neuralnet_free(nn);
}
static void align(void)
{
    int no = mc_range(1, SMALL ? 20 : 34), yoff = mc_choose(16);
    mc_shard();
    int xoff = mc_pick(0, 1, 4, 13), ns = mc_pick(1, 2, 3, 5);
    int sz[3] = { 7, 21, no }, acts[2] = { A_TANH, A_LINEAR };
    acts[1] = mc_pick(A_SIGMOID, A_SOFTMAX, A_RELU, A_TANH, A_LINEAR);
    mc_ctx("%d samples, 7->21->%d (%s), offsets %d/%d", ns, no, act_names[acts[1]], xoff, yoff);
    neuralnet_t *nn = mk_net(2, sz, acts); fill_net_real(nn, 3);
    run(nn, acts, ns, xoff, yoff, false, "align"); neuralnet_free(nn);
}
static void acts_all(void)
{
    int L = mc_range(1, 3), acts[3]; for (int i = 0; i < L; i++) acts[i] = mc_choose(A_N);
    mc_shard();
    int ns = mc_pick(1, 2, 4, 7);
    int sz[4] = { 5, 19, 12, 9 }; if (mc_choose(2)) { sz[1] = 8; sz[2] = 33; sz[3] = 17; }
    mc_ctx("%d samples, activations %s,%s,%s", ns, act_names[acts[0]], L>1?act_names[acts[1]]:"", L>2?act_names[acts[2]]:"");
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_real(nn, 8);
    run(nn, acts, ns, 0, 0, false, "acts"); neuralnet_free(nn);
}
/* batches far larger than any internal work memory; widths beyond it */
static void large(void)
{
    int w = mc_pick(1, 10, 100, 300, 1000), hid = mc_pick(0, 33, 512, 4000), ns = mc_pick(63, 64, 65, 127, 218, 219, 655, 656, 1000, 1024, 4099);
    if ((long) ns * (w + hid) > 3000000 || (SMALL && (long) ns * (w + hid) > 300000)) mc_skip();
    mc_shard();
    int sz[3] = { 4, hid ? hid : w, w }, acts[2] = { hid ? A_RELU : A_LINEAR, A_LINEAR };
    if (w <= 100 && ns < 1000) acts[hid ? 1 : 0] = mc_pick(A_LINEAR, A_SOFTMAX);
    mc_ctx("%d samples through 4->%d->%d", ns, hid, w);
    neuralnet_t *nn = mk_net(hid ? 2 : 1, sz, acts);
    bool exact = acts[hid ? 1 : 0] == A_LINEAR;
    if (exact) fill_net_int(nn, 3, 1); else fill_net_real(nn, 3);
    run(nn, acts, ns, 0, 0, exact, "large"); neuralnet_free(nn);
}
static void widest(void)
{
    int w = mc_pick(65535, 65536, 65537, 70000, 131073), ns = mc_range(0, 3);
    mc_shard();
    int sz[2] = { 1, w }, acts[1] = { A_LINEAR };
    mc_ctx("%d samples through 1->%d", ns, w);
    neuralnet_t *nn = mk_net(1, sz, acts); fill_net_int(nn, 3, 1);
    run(nn, acts, ns, 0, 0, true, "widest"); neuralnet_free(nn);
}
/* data sets of more than 2^31 values; sum of widths times samples beyond 2^31 */
static void huge(void)
{
    int what = mc_choose(2); mc_shard(); if (SMALL) mc_skip();
    int ni = what ? 1 : 1 << 18, ns = what ? 30700 : 8196, L = what ? 2 : 1, sz[3] = { ni, what ? 70000 : 1, 1 }, acts[2] = { A_LINEAR, A_LINEAR };
    neuralnet_t *nn = mk_net(L, sz, acts); for (int l = 0; l < L; l++) { int n = nn->layer[l].n_input * nn->layer[l].n_output; for (int i = 0; i < n; i++) nn->layer[l].weight[i] = i == 0; memset(nn->layer[l].bias, 0, 4 * nn->layer[l].n_output); }
    size_t len = (size_t) ni * ns * 4 + 4096; float *x = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (x == MAP_FAILED) abort(); madvise(x, len, MADV_NOHUGEPAGE);
    for (int i = 0; i < ns; i++) if (i < 3 || i > ns - 5) x[(size_t) i * ni] = i + 1;
    float *y = calloc(ns, 4); mc_ctx("%d samples, network %d,%d,..", ns, ni, sz[1]); mc_ctxkey("huge"); mc_sample("%d samples through %d->%d->..", ns, ni, sz[1]);
    neuralnet_predict_batch(nn, ns, x, y); for (int i = 0; i < ns; i++) MC_CHECK(y[i] == (i < 3 || i > ns - 5 ? i + 1 : 0), "huge", "sample %d gives %g", i, y[i]);
    mc_eval(1); mc_nontrivial(1); munmap(x, len); free(y); neuralnet_free(nn);
}
/* depth, widths and samples at every power of two, one off on either side */
static void scale(void)
{
    int what = mc_choose(4), v = scale_pick(3, what == 0 ? (SMALL ? 65 : mc_thorough ? 2049 : 513) : SMALL ? 4097 : mc_thorough ? (1 << 17) + 1 : (1 << 16) + 1), ns = 3;
    mc_shard();
    int L = what == 0 ? v : 2, *sz = malloc(sizeof(int) * (2 * L + 1)), *acts = sz + L + 1, w = what == 0 ? mc_pick(1, 17) : 3;
    for (int i = 0; i <= L; i++) sz[i] = i % 3 == 1 ? w : w + 1;
    for (int i = 0; i < L; i++) acts[i] = i % 5 == 4 ? A_RELU : A_LINEAR;
    if (what == 1) sz[0] = v; else if (what == 2) sz[1] = v; else if (what == 3) ns = v;
    mc_ctx("%d layers, sizes %d,%d,.., %d samples", L, sz[0], sz[1], ns); mc_sample("%d layers, sizes %d,%d,.., %d samples", L, sz[0], sz[1], ns);
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_pass(nn, v);
    run(nn, acts, ns, 0, 0, true, "scale"); free(sz); neuralnet_free(nn);
}
/* every number of threads, directly and within a parallel region of the caller */
static void teams(void)
{
    team_done(); int ns = mc_range(0, SMALL ? 9 : mc_thorough ? 70 : 40); mc_shard(); int no = mc_pick(1, 3, 17), L = mc_range(1, 3); team_pick(mc_thorough ? 17 : 9);
    int sz[4] = { 3, L > 1 ? 5 : no, L > 2 ? 6 : no, no }, acts[3] = { A_RELU, A_RELU, A_RELU }; acts[L - 1] = A_LINEAR;
    mc_ctx("%d samples, 3->%d, depth %d, teams of %d%s", ns, no, L, team_n, team_modes[team_mode]); mc_sample("%d samples, 3->%d, depth %d, teams of %d%s", ns, no, L, team_n, team_modes[team_mode]);
    neuralnet_t *nn = mk_net(L, sz, acts); fill_net_int(nn, 31 + no, 2); run(nn, acts, ns, 0, 0, true, "teams"); neuralnet_free(nn); team_done();
}
/* values of every magnitude: exactly so many times the result */
static void magnitudes(void)
{
    int ns = mc_pick(1, 2, 3, 9), L = mc_range(1, 3), e = mc_range(-17, 13) * 4; mc_shard(); int no = mc_pick(1, 2, 7, 8, 9, 16, 17, 33), ni = mc_pick(1, 3, 9), act = mc_pick(A_LINEAR, A_RELU);
    int sz[4] = { ni, L > 1 ? 17 : no, L > 2 ? 6 : no, no }, acts[3] = { act, act, act }; sz[L] = no; neuralnet_t *nn = mk_net(L, sz, acts); fill_net_int(nn, 31 + no, 2);
    for (int l = 0; l < L; l++) for (int j = 0; j < sz[l + 1]; j++) nn->layer[l].bias[j] = ldexpf(nn->layer[l].bias[j], e);
    mc_ctx("%d samples, %d->%d, depth %d, values of about 2^%d", ns, ni, no, L, e); mc_sample("%d samples, %d->%d, depth %d, values of about 2^%d", ns, ni, no, L, e);
    in_exp = e; run(nn, acts, ns, 0, 0, true, "magnitudes"); in_exp = 0; neuralnet_free(nn);
}
const mc_suite_t mc_suites[] = { { "magnitudes", magnitudes, 0 },  { "teams", teams, 0 }, { "scale", scale, 0 },  { "small", small, 0 }, { "align", align, 0 }, { "acts", acts_all, 0 }, { "large", large, 0 }, { "widest", widest, 0 }, { "huge", huge, 0 }, { NULL, NULL, 0 } };
