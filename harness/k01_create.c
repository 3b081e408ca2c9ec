/* Creation (K01), parameter layout (K02), initialisation (K03), loss selection histories (K04). */
#include <limits.h>
#include "nnref.h"
#include "alloc.h"
#ifdef __SANITIZE_ADDRESS__
#define SMALL 1
#else
#define SMALL 0
#endif

#if PART == 1
static char *const names[] = { NULL, "relu", "bogus", "softmax", "tanh", "", "linear" };
static const char *const resolved[] = { "linear", "relu", "linear", "softmax", "tanh", "linear", "linear" };
static void one_create(int L, int *sz, char **an, const int *ak, long fail, bool valid)
{
    al_begin(fail);
    neuralnet_t *nn = neuralnet_create(L, sz, an);
    al_pause();
    if (!valid) MC_CHECK(!nn, "invalid-accepted", "an impossible network was created");
    else if (!al_failed()) MC_CHECK(nn, "valid-refused", "a valid network was refused");
    if (nn) {
        MC_CHECK(nn->n_layers == L && neuralnet_get_n_layers(nn) == L, "wrong-net", "%d layers instead of %d", nn->n_layers, L);
        MC_CHECK(!nn->loss, "loss-set", "a new network already has a loss");
        for (int l = 0; l < L; l++) {
            layer_t *y = &nn->layer[l];
            MC_CHECK(y->n_input == sz[l] && y->n_output == sz[l+1], "wrong-net", "layer %d is %d->%d instead of %d->%d", l, y->n_input, y->n_output, sz[l], sz[l+1]);
            MC_CHECK(y->weight && y->bias && is_aligned(y->weight) && is_aligned(y->bias), "alignment", "layer %d: storage missing or not SIMD-aligned", l);
            MC_CHECK(!strcmp(get_activation_name(y->activation_func), ak ? resolved[ak[l]] : "linear"), "activation", "layer %d: activation %s", l, get_activation_name(y->activation_func));
            size_t sw = al_room(y->weight), sb = al_room(y->bias), nw = (size_t) sz[l] * sz[l+1] * 4;
            MC_CHECK((!sw || sw >= nw) && (!sb || sb >= (size_t) sz[l+1] * 4), "storage-too-small", "layer %d: room for %zu and %zu bytes where %zu and %zu are needed", l, sw, sb, nw, (size_t) sz[l+1] * 4);
            for (int m = 0; m <= l; m++) {      /* no parameter is stored where another one is */
                layer_t *z = &nn->layer[m]; const char *f[2] = { (char*) y->weight, (char*) y->bias }, *g[2] = { (char*) z->weight, (char*) z->bias }; size_t fn[2] = { nw, 4 * (size_t) sz[l+1] }, gn[2] = { 4 * (size_t) sz[m] * sz[m+1], 4 * (size_t) sz[m+1] };
                for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (m < l || i < j) MC_CHECK(f[i] + fn[i] <= g[j] || g[j] + gn[j] <= f[i], "storage-shared", "layers %d and %d share storage", m, l);
            }
            if (nw < (1u << 20)) { memset(y->weight, 0, nw); memset(y->bias, 0, 4 * sz[l+1]); }
        }
        al_resume(); neuralnet_free(nn); al_pause();
    }
}
static bool check_create(int L, int *sz, char **an, const int *ak, long fail, bool valid)
{
    one_create(L, sz, an, ak, fail, valid);
    bool inj = al_failed(); long left = al_end();
    if (left > 0) { one_create(L, sz, an, ak, fail, valid); left = al_end(); }   /* (first-use allocations of the C library) */
    MC_CHECK(left <= 0, "leak", "%ld blocks leaked", left);
    mc_eval(1); mc_nontrivial(1);
    return inj;
}
static void shapes(void)
{
    static const int al[] = { 1, 2, 0, 17, -1, 33, 8, INT_MIN };
    int L = mc_range(-1, 4), na = L == 4 ? (mc_thorough ? 6 : 5) : 8, sz[5] = { 1, 1, 1, 1, 1 }, ak[4]; char *an[5] = { NULL }; bool valid = L >= 1;
    for (int i = 0; i <= L; i++) { sz[i] = al[mc_choose(na)]; if (sz[i] < 1) valid = false; if (i == 1) mc_shard(); }
    int pat = L >= 1 ? mc_choose(7) : 0;
    for (int i = 0; i < L; i++) { ak[i] = (pat + 3 * i) % 7; an[i] = names[ak[i]]; }
    mc_ctx("%d layers, sizes %d,%d,%d,%d,%d", L, sz[0], sz[1], sz[2], sz[3], sz[4]);
    mc_sample("%d layers, sizes %d,%d,%d,%d,%d -> %s", L, sz[0], sz[1], sz[2], sz[3], sz[4], valid ? "valid" : "refused");
    check_create(L, sz, an, ak, 0, valid);
}
static void activations(void)
{
    int L = mc_range(1, 4), ak[4]; char *an[5] = { NULL }; int sz[5] = { 3, 16, 5, 9, 2 };
    int none = mc_choose(2); if (none) { mc_ctx("%d layers, no activation names", L); check_create(L, sz, NULL, NULL, 0, true); return; }
    for (int i = 0; i < L; i++) { ak[i] = mc_choose(7); an[i] = names[ak[i]]; if (!i) mc_shard(); }
    mc_ctx("%d layers, activations %s,%s,..", L, an[0] ? an[0] : "(none)", L > 1 && an[1] ? an[1] : "(none)");
    check_create(L, sz, an, ak, 0, true);
}
static void huge(void)          /* products around the limits of int and size_t; large requests are refused by the allocator */
{
    static const int al[] = { 1, 2, 3, 16, 1000, 32768, 46340, 46341, 65535, 65536, 65537, 1 << 30, INT_MAX - 1, INT_MAX };
    int L = mc_range(1, 2), sz[3] = { 1, 1, 1 };
    for (int i = 0; i <= L; i++) { sz[i] = al[mc_choose(14)]; if (i == 1) mc_shard(); }
    mc_ctx("%d layers, sizes %d,%d,%d", L, sz[0], sz[1], sz[2]);
    size_t worst = 0; bool fits = true;
    for (int l = 0; l < L; l++) { size_t n = (size_t) sz[l] * sz[l+1] * 4; if (n > worst) worst = n; if (n > (64u << 20) || (size_t) sz[l+1] * 4 > (64u << 20)) fits = false; }
    al_max(64u << 20);
    al_begin(0);
    neuralnet_t *nn = neuralnet_create(L, sz, NULL);
    al_pause();
    if (fits) MC_CHECK(nn, "valid-refused", "a network that fits was refused");
    else MC_CHECK(!nn, "storage-too-small", "a network needing %zu bytes for one layer was created although at most 64 MB could be allocated", worst);
    al_resume(); neuralnet_free(nn); al_max(0);
    long left = al_end(); MC_CHECK(left <= 0, "leak", "%ld blocks leaked", left);
    mc_eval(1); mc_nontrivial(1);
}
static void oom(void)
{
    static const int al[] = { 1, 9, 40 };
    int L = mc_range(1, mc_thorough ? 5 : 4), sz[6], ak[5]; char *an[6] = { NULL };
    for (int i = 0; i <= L; i++) { sz[i] = al[mc_choose(3)]; if (i == 1) mc_shard(); }
    int pat = mc_choose(3);
    for (int i = 0; i < L; i++) { ak[i] = pat == 2 ? 2 : (pat + i) % 2; an[i] = names[ak[i]]; }
    int at = mc_range(1, 2 + 3 * 5 + 1);
    mc_ctx("%d layers, sizes %d,%d,.., allocation %d fails", L, sz[0], sz[1], at);
    if (check_create(L, sz, an, ak, at, true)) mc_sample("%d layers, allocation %d fails", L, at); else mc_skip();
}
static void scale(void)         /* depth and widths at every power of two, one off on either side */
{
    int what = mc_choose(3), v = scale_pick(3, what ? (SMALL ? 4097 : (1 << 19) + 1) : mc_thorough ? 4097 : 1025); mc_shard();
    int L = what ? 2 : v, *sz = malloc(sizeof(int) * (2 * L + 1)), *ak = sz + L + 1; char **an = calloc(L + 1, sizeof *an);
    for (int i = 0; i <= L; i++) sz[i] = 1 + i % 5; if (what) sz[what - 1] = v;
    for (int i = 0; i < L; i++) { ak[i] = (i * i + i / 7) % 7; an[i] = names[ak[i] ? ak[i] : 1]; if (!ak[i]) ak[i] = 1; }
    int none = mc_choose(2);
    mc_ctx("%d layers, sizes %d,%d,..%s", L, sz[0], sz[1], none ? ", no activations" : ""); mc_sample("%d layers, sizes %d,%d,..", L, sz[0], sz[1]);
    check_create(L, sz, none ? NULL : an, none ? NULL : ak, 0, true); free(sz); free(an);
}
static void refused_deep(void)  /* one size that is none, or one failing allocation, at every power of two of a deep description */
{
    int L = mc_pick(65, 300, 1030), at = scale_pick(1, L - 1), how = mc_choose(4); mc_shard();
    int *sz = malloc(sizeof(int) * (L + 1)); for (int i = 0; i <= L; i++) sz[i] = 1 + i % 4; if (how < 3) sz[at] = how == 0 ? 0 : how == 1 ? -1 : INT_MIN;
    mc_ctx("%d layers, size %d of them is impossible (%d)", L, at, how);
    if (how < 3) check_create(L, sz, NULL, NULL, 0, false); else check_create(L, sz, NULL, NULL, 2 * at + 1, true); free(sz);
}
const mc_suite_t mc_suites[] = { { "scale", scale, 0 }, { "refused-deep", refused_deep, 0 }, { "shapes", shapes, 0 }, { "activations", activations, 0 }, { "huge", huge, 0 }, { "oom", oom, 0 }, { NULL, NULL, 0 } };
void mc_harness_init(void){}

#elif PART == 2
void mc_harness_init(void){}
static void read_mem(const neuralnet_t *nn, float *p)
{
    for (int l = 0; l < nn->n_layers; l++) {
        int no = nn->layer[l].n_output, ni = nn->layer[l].n_input;
        memcpy(p, nn->layer[l].bias, 4 * no); p += no; memcpy(p, nn->layer[l].weight, (size_t) 4 * ni * no); p += (size_t) ni * no;
    }
}
static void layout_body(int L, int *sz, int off, int steps, const int *kind)
{
    int acts[L]; for (int i = 0; i < L; i++) acts[i] = A_LINEAR;
    neuralnet_t *nn = mk_net(L, sz, acts); if (L > 8) fill_net_pass(nn, 11); else fill_net_real(nn, 11);
    unsigned want = 0; for (int l = 0; l < L; l++) want += (sz[l] + 1) * sz[l+1];
    MC_CHECK(neuralnet_total_n_parameters(nn) == want, "count", "%u parameters reported, %u stored", neuralnet_total_n_parameters(nn), want);
    fbuf_t p = fb_new(want, off), d = fb_new(want, (off * 5 + 3) % 16); float *mem = malloc((size_t) 8 * want), *exp = mem + want;
    uint64_t h0 = hash_net(nn);
    neuralnet_get_parameters(nn, p.d);
    read_mem(nn, mem);
    MC_CHECK(fb_intact(&p) && hash_net(nn) == h0, "oob", "extraction wrote elsewhere");
    MC_CHECK(!memcmp(p.d, mem, (size_t) 4 * want), "order", "extracted parameters are not bias, weight, bias, weight ... in memory order");
    memcpy(exp, mem, (size_t) 4 * want);
    for (int s = 0; s < steps; s++) {
        for (unsigned i = 0; i < want; i++) {
            d.d[i] = kind[s] == 0 ? 0.25f * (i % 31) - 3 : kind[s] == 1 ? rval(i + 77 * s) : kind[s] == 2 ? (i % 5 == 2 ? 1e6f : 0.0f) : kind[s] == 3 ? -exp[i] : (float)((int)(i % 7) - 3) * (kind[s] == 4 ? 1e-9f : 1e-30f);
            exp[i] += d.d[i];
        }
        uint64_t hd = mc_hash(d.d, 4 * want, 0);
        neuralnet_update(nn, d.d);
        MC_CHECK(fb_intact(&d) && mc_hash(d.d, 4 * want, 0) == hd, "delta-changed", "the update changed the caller's vector");
        neuralnet_get_parameters(nn, p.d);
        MC_CHECK(fb_intact(&p), "oob", "extraction wrote elsewhere");
        for (unsigned i = 0; i < want; i++) if (memcmp(&p.d[i], &exp[i], 4) && p.d[i] != exp[i])
            mc_fail("update", "step %d: parameter %u is %.9g, expected %.9g", s, i, p.d[i], exp[i]);
    }
    for (int l = 0; l < L; l++) MC_CHECK(nn->layer[l].n_input == sz[l] && nn->layer[l].n_output == sz[l+1], "net-changed", "layer sizes changed");
    if (steps) {    /* back-propagation fills exactly `want` floats, in the same order: an update by it moves each parameter by its own slope */
        fbuf_t g = fb_new(want, 0); float *x = malloc(4 * ((size_t) sz[0] + sz[L])), *y = x + sz[0];
        for (int i = 0; i < sz[0]; i++) x[i] = 0.5f; for (int j = 0; j < sz[L]; j++) y[j] = 0;
        neuralnet_set_loss(nn, "mse"); neuralnet_backpropagation(nn, x, y, g.d);
        MC_CHECK(fb_intact(&g), "gradient-size", "back-propagation wrote outside the reported number of parameters");
        for (unsigned i = 0; i < want; i++) MC_CHECK(((uint32_t*) g.d)[i] != CANARY + 1, "gradient-size", "back-propagation did not write element %u of %u", i, want);
        fb_free(&g); free(x);
    }
    neuralnet_free(nn); fb_free(&p); fb_free(&d); free(mem);
    mc_eval(want); mc_nontrivial(1);
}
static void layout(void)
{
    static const int al[] = { 1, 2, 3, 7, 8, 9, 15, 16, 17, 19, 24, 31, 33, 40 };
    int L = mc_range(1, mc_thorough ? 4 : 3), sz[5], na = L == 4 ? 7 : L == 3 ? (SMALL ? 6 : mc_thorough ? 14 : 9) : 14;
    for (int i = 0; i <= L; i++) { sz[i] = al[mc_choose(na)]; if (i == 1) mc_shard(); }
    int off = mc_pick(0, 1, 8), k[2] = { mc_choose(2), 2 };
    mc_ctx("%d layers, sizes %d,%d,.. vector %d floats off alignment", L, sz[0], sz[1], off);
    mc_sample("%d layers, sizes %d,%d,.. vector %d floats off alignment", L, sz[0], sz[1], off);
    layout_body(L, sz, off, 2, k);
}
static void align(void)
{
    int ni = mc_range(1, SMALL ? 12 : 20), no = mc_range(1, SMALL ? 20 : 40), off = mc_choose(16), k[1] = { 1 }; mc_shard();
    int sz[2] = { ni, no };
    mc_ctx("layer %dx%d, vector %d floats off alignment", ni, no, off);
    layout_body(1, sz, off, 1, k);
}
static void sequences(void)
{
    int shape = mc_choose(3), n = mc_range(0, mc_thorough ? 6 : 4), k[6]; static int sz[3][4] = { { 2, 17, 3, 1 }, { 5, 1, 8, 9 }, { 16, 16, 1, 33 } };
    for (int i = 0; i < n; i++) k[i] = mc_choose(6);
    mc_shard();
    int off = n > 3 ? mc_choose(4) * 5 : mc_choose(16);
    mc_ctx("shape %d, %d updates, vector %d floats off alignment", shape, n, off);
    layout_body(3, sz[shape], off, n, k);
}
static void scale(void)          /* depth, inputs, outputs at every power of two, one off on either side */
{
    int what = mc_choose(3), v = scale_pick(3, what ? (SMALL ? 4097 : mc_thorough ? (1 << 20) + 1 : (1 << 17) + 1) : SMALL ? 257 : mc_thorough ? 2049 : 1025), k[2] = { 0, 1 }; mc_shard();
    int L = what ? 2 : v, *sz = malloc(sizeof(int) * (L + 1)); for (int i = 0; i <= L; i++) sz[i] = 1 + i % 5; if (what) sz[what - 1] = v;
    mc_ctx("%d layers, sizes %d,%d,..", L, sz[0], sz[1]); mc_sample("%d layers, sizes %d,%d,..", L, sz[0], sz[1]);
    layout_body(L, sz, mc_pick(0, 3), what || L < 70 ? 2 : 1, k); free(sz);
}
static void square(void)         /* layers of more than 2^16, 2^22 parameters with both sides wide */
{
    int a = mc_pick(255, 256, 257, 300, 1023, 2049), b = mc_pick(255, 256, 257, 1025, 2048), k[1] = { 1 }; mc_shard(); if (SMALL && a * b > 70000) mc_skip();
    int sz[2] = { a, b }; mc_ctx("layer %dx%d", a, b); layout_body(1, sz, 0, 1, k);
}
const mc_suite_t mc_suites[] = { { "scale", scale, 0 }, { "square", square, 0 }, { "layout", layout, 0 }, { "align", align, 0 }, { "sequences", sequences, 0 }, { NULL, NULL, 0 } };

#elif PART == 3
/* the library's rand() is ours */
static int mode; static unsigned lcg; static int draws, script[64], nscript; static const int *grid; static int gn;
static uint64_t gpos;
int rand(void)
{
    draws++;
    if (mode == 1) { if (draws <= nscript) return script[draws - 1]; lcg = lcg * 1103515245u + 12345u; return RAND_MAX / 4 + (lcg >> 8) % 1000000; }
    if (mode == 2) { uint64_t k = gpos++; uint64_t pair = ((k / 2) * 7919) % ((uint64_t) gn * gn); uint64_t c = k & 1 ? pair % gn : pair / gn; return (int)((c + 0.5) / gn * RAND_MAX); }
    if (mode == 3) { uint64_t z = (gpos = draws == 1 ? lcg : gpos) + 0x9e3779b97f4a7c15ull; gpos = z; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return (z ^ z >> 31) & RAND_MAX; }
    lcg = lcg * 1664525u + 1013904223u; unsigned a = lcg >> 16; lcg = lcg * 1664525u + 1013904223u; return ((a << 15) ^ (lcg >> 16)) & RAND_MAX;
}
void srand(unsigned s){ lcg = s; }
long random(void){ return rand(); }
void mc_harness_init(void){}
static int uniform_like(const char *a){ return !strcmp(a, "sigmoid") || !strcmp(a, "tanh") || !strcmp(a, "softmax") || !strcmp(a, "hard_sigmoid") || !strcmp(a, "softsign"); }
static int normal_like(const char *a){ return !strcmp(a, "relu") || !strcmp(a, "softplus"); }
static char *const inits[] = { NULL, "xavier", "kaiming", "unknown", "" };
/* every sequence of extreme/central generator outcomes */
static void outcomes(void)
{
    static const int v[] = { 0, RAND_MAX, RAND_MAX / 2, RAND_MAX / 2 + 1, RAND_MAX / 4, 1, RAND_MAX - 1, RAND_MAX / 2 + 33, RAND_MAX / 2 - 100, RAND_MAX / 8 };
    int a = mc_choose(A_N), in = mc_choose(5), sh = mc_choose(3); static const int shp[3][2] = { { 2, 2 }, { 1, 3 }, { 3, 5 } };
    mc_shard();
    nscript = mc_thorough ? 6 : 4; for (int i = 0; i < nscript; i++) script[i] = v[mc_choose(i < 4 ? 10 : 6)];
    int sz[2] = { shp[sh][0], shp[sh][1] }, acts[1] = { a };
    mc_ctx("%d->%d %s, initializer %s, generator outcomes %d %d %d %d ..", sz[0], sz[1], act_names[a], inits[in] ? inits[in] : "(none)", script[0], script[1], script[2], script[3]);
    neuralnet_t *nn = mk_net(1, sz, acts); int nw = sz[0] * sz[1];
    for (int i = 0; i < nw; i++) nn->layer[0].weight[i] = NAN; for (int j = 0; j < sz[1]; j++) nn->layer[0].bias[j] = 5;
    mode = 1; draws = 0; lcg = 1;
    char *list[2] = { inits[in], NULL };
    neuralnet_initialize(nn, in == 4 ? NULL : list);
    double b = sqrt(6.0 / (sz[0] + sz[1]));
    bool uni = in == 1 || (in != 2 && uniform_like(act_names[a]));
    for (int i = 0; i < nw; i++) {
        float w = nn->layer[0].weight[i];
        MC_CHECK(isfinite(w), "not-finite", "weight %d is %g", i, w);
        if (uni) MC_CHECK(fabs(w) <= b * (1 + 1e-6), "bound", "weight %d is %g, bound %g", i, w, b);
        else MC_CHECK(fabs(w) <= 14 * (in == 2 || normal_like(act_names[a]) ? sqrt(2.0 / sz[0]) : 1.0), "bound", "weight %d is %g: no normal deviate from a float generator is that large", i, w);
    }
    for (int j = 0; j < sz[1]; j++) MC_CHECK(nn->layer[0].bias[j] == 0, "bias", "bias %d is %g", j, nn->layer[0].bias[j]);
    neuralnet_free(nn); mc_eval(1); mc_nontrivial(1);
    mc_sample("%s/%s, generator outcomes %d %d %d %d ..", act_names[a], inits[in] ? inits[in] : "(none)", script[0], script[1], script[2], script[3]);
}
static int fcmp(const void *a, const void *b){ float x = *(float*) a, y = *(float*) b; return x < y ? -1 : x > y; }
/* feed every cell of a grid over the generator's outcome pairs once: the weights follow the selected distribution */
static void distribution(void)
{
    int a = mc_choose(A_N), in = mc_choose(5), pos = mc_choose(2); mc_shard();
    gn = 106; gpos = 0; mode = 2;
    int ni = 75, no = 300;                        /* 22500 weights */
    int sz[3], acts[2]; int l = pos;
    if (!pos) { sz[0] = ni; sz[1] = no; sz[2] = 1; acts[0] = a; acts[1] = A_LINEAR; } else { sz[0] = 1; sz[1] = ni; sz[2] = no; acts[0] = A_TANH; acts[1] = a; }
    mc_ctx("%d->%d %s, initializer %s, layer %d", ni, no, act_names[a], inits[in] ? inits[in] : "(none)", l);
    neuralnet_t *nn = mk_net(2, sz, acts);
    char *list[3] = { pos ? "xavier" : inits[in], pos ? inits[in] : "xavier", NULL };
    neuralnet_initialize(nn, in == 4 ? NULL : list);
    int n = ni * no; float *w = malloc(4 * n); memcpy(w, nn->layer[l].weight, 4 * n); qsort(w, n, 4, fcmp);
    bool uni = in == 1 || (in != 2 && uniform_like(act_names[a]));
    double sc = in == 2 || normal_like(act_names[a]) ? sqrt(2.0 / ni) : 1.0, b = sqrt(6.0 / (ni + no));
    if (in == 2) sc = sqrt(2.0 / ni);
    for (int k = 1; k < 20; k++) {
        double x = w[n * k / 20], F = uni ? (x / b + 1) / 2 : 0.5 * erfc(-x / sc / M_SQRT2);
        MC_CHECK(fabs(F - k / 20.0) < 0.02, "distribution", "the %d%% quantile of the weights is %g: %.3f of the %s distribution", 5 * k, x, F, uni ? "uniform" : "normal");
    }
    for (int i = 0; i < n; i++) if (uni) MC_CHECK(fabs(w[i]) <= b * (1 + 1e-6), "bound", "weight %g beyond the bound %g", w[i], b);
    for (int q = 0; q < 2; q++) for (int j = 0; j < nn->layer[q].n_output; j++) MC_CHECK(nn->layer[q].bias[j] == 0, "bias", "layer %d bias %d is %g", q, j, nn->layer[q].bias[j]);
    free(w); neuralnet_free(nn); mc_eval(1); mc_nontrivial(1);
}
/* signs and sizes of weights at any distance occur together as often as they do separately, for every seed of a generator that is good enough for that */
static void independence(void)
{
    int a = mc_choose(A_N), in = mc_choose(5), seed = mc_choose(mc_thorough ? 16 : 4), pos = mc_choose(2); mc_shard(); mode = 3; draws = 0; lcg = 17 + seed; static float med[1];
    int ni = 75, no = 300, sz[3], acts[2], l = pos; if (!pos) { sz[0] = ni; sz[1] = no; sz[2] = 1; acts[0] = a; acts[1] = A_LINEAR; } else { sz[0] = 1; sz[1] = ni; sz[2] = no; acts[0] = A_TANH; acts[1] = a; }
    mc_ctx("%d->%d %s, initializer %s, layer %d, seed %d", ni, no, act_names[a], inits[in] ? inits[in] : "(none)", l, seed); mc_sample("%d->%d %s, initializer %s, layer %d, seed %d", ni, no, act_names[a], inits[in] ? inits[in] : "(none)", l, seed);
    neuralnet_t *nn = mk_net(2, sz, acts); char *list[3] = { pos ? "xavier" : inits[in], pos ? inits[in] : "xavier", NULL }; neuralnet_initialize(nn, in == 4 ? NULL : list);
    int n = ni * no; const float *w = nn->layer[l].weight; float *s = malloc(4 * n); for (int i = 0; i < n; i++) s[i] = fabsf(w[i]); qsort(s, n, 4, fcmp); med[0] = s[n / 2]; free(s);
    static const int lags[] = { 1, 2, 3, 4, 5, 7, 8, 16, 75, 300, 0 };
    for (int k = 0; lags[k]; k++) {
        int d = lags[k], c[4][4] = { { 0 } }; for (int i = 0; i + d < n; i++) { int p = (w[i] > 0) + 2 * (fabsf(w[i]) > med[0]), q = (w[i + d] > 0) + 2 * (fabsf(w[i + d]) > med[0]); c[p][q]++; }
        for (int p = 0; p < 4; p++) for (int q = 0; q < 4; q++) MC_CHECK(fabs(c[p][q] / (double)(n - d) - 1 / 16.0) < 0.012, "dependent", "weights %d apart are %s and %s in %.4f of all cases, not %.4f", d, (char*[]){ "small negative", "small positive", "large negative", "large positive" }[p], (char*[]){ "small negative", "small positive", "large negative", "large positive" }[q], c[p][q] / (double)(n - d), 1 / 16.0);
    }
    neuralnet_free(nn); mc_eval(1); mc_nontrivial(1);
}
/* whatever was initialised before, seed + initialise gives the same network */
static neuralnet_t *net_kind(int k)
{
    static int sz[5][3] = { { 3, 5, 1 }, { 1, 1, 1 }, { 2, 7, 3 }, { 4, 4, 2 }, { 3, 3, 3 } };
    static const int ac[5][2] = { { A_RELU, A_RELU }, { A_LINEAR, A_LINEAR }, { A_TANH, A_SOFTMAX }, { A_SOFTPLUS, A_SIGMOID }, { A_RELU, A_TANH } };
    return mk_net(2, sz[k], ac[k]);
}
static void reproducible(void)
{
    int k = mc_choose(5), seed = mc_choose(2), n = mc_range(0, mc_thorough ? 4 : 3), hist[4];
    mc_shard(); mode = 0;
    for (int i = 0; i < n; i++) hist[i] = mc_choose(5);
    mc_ctx("network kind %d after initialising %d networks (%d %d %d ..)", k, n, n > 0 ? hist[0] : -1, n > 1 ? hist[1] : -1, n > 2 ? hist[2] : -1);
    uint64_t ref = 0, got;
    for (int pass = 0; pass < 2; pass++) {
        if (pass) for (int i = 0; i < n; i++) { neuralnet_t *h = net_kind(hist[i]); neuralnet_initialize(h, hist[i] == 1 ? STR_ARRAY("kaiming", "kaiming") : NULL); neuralnet_free(h); }
        neuralnet_t *nn = net_kind(k);
        srand(seed ? 4711 : 1);
        neuralnet_initialize(nn, NULL);
        got = hash_net(nn) ^ 0; uint64_t h = 0;
        for (int l = 0; l < 2; l++) h = mc_hash(nn->layer[l].weight, 4 * nn->layer[l].n_input * nn->layer[l].n_output, h);
        if (!pass) ref = h; else MC_CHECK(h == ref, "not-reproducible", "seeding and initialising again gives other weights");
        neuralnet_free(nn);
    }
    (void) got; mc_eval(1); mc_nontrivial(n > 0); mc_trans(n + 1);
}
static void scale(void)          /* every weight and bias of large layers and deep networks is initialised, and again the same */
{
    int what = mc_choose(4), v = scale_pick(3, what == 3 ? 2049 : what ? (SMALL ? 8193 : mc_thorough ? (1 << 21) + 1 : (1 << 18) + 1) : SMALL ? 257 : 1025), in = mc_choose(3); mc_shard(); mode = 0;
    int L = what ? 2 : v; if (what == 3 && v < 100) mc_skip(); if (SMALL && what == 3 && v > 300) mc_skip();
    int *sz = malloc(sizeof(int) * (2 * L + 1)), *acts = sz + L + 1; char **list = calloc(L + 1, sizeof *list);
    for (int i = 0; i <= L; i++) sz[i] = 1 + i % 5; if (what == 3) { sz[0] = v; sz[1] = 1023; sz[2] = 2; } else if (what) { sz[what - 1] = v; sz[2 - what + 1] = 2; }
    for (int i = 0; i < L; i++) { acts[i] = i % 9; list[i] = in == 1 ? "xavier" : "kaiming"; }
    mc_ctx("%d layers, sizes %d,%d,.., initializer %d", L, sz[0], sz[1], in); mc_sample("%d layers, sizes %d,%d,.., initializer %d", L, sz[0], sz[1], in);
    neuralnet_t *nn = mk_net(L, sz, acts); uint64_t h[2];
    for (int pass = 0; pass < 2; pass++) {
        for (int l = 0; l < L; l++) { size_t nw = (size_t) sz[l] * sz[l+1]; for (size_t i = 0; i < nw; i++) nn->layer[l].weight[i] = NAN; for (int j = 0; j < sz[l+1]; j++) nn->layer[l].bias[j] = 5; }
        srand(99 + in); neuralnet_initialize(nn, in ? list : NULL);
        for (int l = 0; l < L; l++) {
            size_t nw = (size_t) sz[l] * sz[l+1]; double b = sqrt(6.0 / ((double) sz[l] + sz[l+1])), ss = 0; bool uni = in == 1 || (in == 0 && uniform_like(act_names[acts[l]]));
            double sc = in == 2 || normal_like(act_names[acts[l]]) ? sqrt(2.0 / sz[l]) : 1.0, sd = uni ? b / sqrt(3.0) : sc;
            for (size_t i = 0; i < nw; i++) { float w = nn->layer[l].weight[i]; MC_CHECK(isfinite(w), "not-finite", "layer %d: weight %zu of %zu is %g", l, i, nw, w); if (uni) MC_CHECK(fabs(w) <= b * (1 + 1e-6), "bound", "layer %d: weight %zu is %g, bound %g", l, i, w, b); ss += (double) w * w; }
            if (nw > 20000) { double hs = 0; size_t half = nw / 2; for (size_t i = half; i < nw; i++) hs += (double) nn->layer[l].weight[i] * nn->layer[l].weight[i]; MC_CHECK(fabs(sqrt(ss / nw) / sd - 1) < 0.05 && fabs(sqrt(hs / (nw - half)) / sd - 1) < 0.05, "distribution", "layer %d: standard deviation %g (second half %g), expected %g", l, sqrt(ss / nw), sqrt(hs / (nw - half)), sd); }
            for (int j = 0; j < sz[l+1]; j++) MC_CHECK(nn->layer[l].bias[j] == 0, "bias", "layer %d: bias %d is %g", l, j, nn->layer[l].bias[j]);
        }
        h[pass] = hash_net(nn);
    }
    MC_CHECK(h[0] == h[1], "not-reproducible", "seeding and initialising again gives other weights");
    neuralnet_free(nn); free(sz); free(list); mc_eval(1); mc_nontrivial(1);
}
const mc_suite_t mc_suites[] = { { "scale", scale, 0 }, { "outcomes", outcomes, 0 }, { "distribution", distribution, 0 }, { "independence", independence, 0 }, { "reproducible", reproducible, MC_FORK }, { NULL, NULL, 0 } };

#else
void mc_harness_init(void){}
static char *const ln[] = { "mse", "binary_crossentropy", "categorical_crossentropy", "mae", "mean_absolute_percentage_error", "bogus", "categorical_accuracy" };
static const int valid[] = { 1, 1, 1, 1, 1, 0, 0 };
static const float X[3] = { 0.5f, -1.0f, 0.25f }, Y[5] = { 0, 1, 0, 0, 0 };
static uint64_t behaviour(neuralnet_t *nn, bool grad)
{
    float o[5]; neuralnet_predict(nn, X, o); uint64_t h = mc_hash(o, sizeof o, 1);
    if (grad) { int np = neuralnet_total_n_parameters(nn); fbuf_t g = fb_new(np, 0); neuralnet_backpropagation(nn, X, Y, g.d); h = mc_hash(g.d, 4 * np, h); fb_free(&g); }
    return h;
}
static neuralnet_t *mk(int a, int hid){ int sz[3] = { 3, 4, 5 }, acts[2] = { hid, a }; neuralnet_t *nn = mk_net(2, sz, acts); fill_net_real(nn, 9); return nn; }
static void histories(void)
{
    int a = mc_choose(A_N), hid = mc_pick(A_TANH, A_SIGMOID), n = mc_range(1, mc_thorough ? 6 : 4), op[6], last[2] = { -1, -1 };
    neuralnet_t *nn[2] = { mk(a, hid), mk(a == A_SIGMOID ? A_SOFTMAX : A_SIGMOID, A_RELU) };
    uint64_t p0[2] = { behaviour(nn[0], false), behaviour(nn[1], false) };
    char d[256] = ""; 
    for (int i = 0; i < n; i++) {
        int c = mc_choose(n > 3 ? 7 + 2 : 14), w, l; if (i == 1) mc_shard();
        if (n > 3) { w = c >= 7; l = w ? (c == 7 ? 1 : 5) : c; } else { w = c / 7; l = c % 7; }
        op[i] = c; snprintf(d + strlen(d), sizeof d - strlen(d), " net%d:%s", w, ln[l]);
        mc_ctx("output %s, selections%s", act_names[a], d);
        neuralnet_set_loss(nn[w], ln[l]); last[w] = l; mc_trans(1);
        if (!valid[l]) MC_CHECK(!nn[w]->loss, "unknown-kept", "an unknown loss name left a loss selected");
        else MC_CHECK(nn[w]->loss == get_loss_func(ln[l]), "wrong-loss", "another loss is selected");
        for (int q = 0; q < 2; q++) MC_CHECK(behaviour(nn[q], false) == p0[q], "prediction-changed", "selecting a loss changed predictions");
    }
    for (int q = 0; q < 2; q++) {
        if (last[q] < 0 || !valid[last[q]]) { MC_CHECK(!nn[q]->loss, "other-net", "net%d has a loss", q); continue; }
        neuralnet_t *f = q ? mk(a == A_SIGMOID ? A_SOFTMAX : A_SIGMOID, A_RELU) : mk(a, hid);
        neuralnet_set_loss(f, ln[last[q]]);
        MC_CHECK(behaviour(f, true) == behaviour(nn[q], true), "history", "net%d: gradients differ from a fresh network with loss %s", q, ln[last[q]]);
        neuralnet_free(f);
    }
    mc_sample("output %s, selections%s", act_names[a], d);
    neuralnet_free(nn[0]); neuralnet_free(nn[1]); mc_eval(1); mc_nontrivial(1); mc_trace(1);
    uint64_t st = mc_hash(last, sizeof last, a * 16 + hid); mc_state(st);
}
static void scale(void)          /* deep networks, wide outputs: the loss and the last layer's activation decide, as in a small one */
{
    static const int out[5] = { A_LINEAR, A_SIGMOID, A_SOFTMAX, A_TANH, A_SOFTPLUS };
    int what = mc_choose(2), v = scale_pick(2, what ? (SMALL ? 1025 : 32769) : SMALL ? 129 : 513), l1 = mc_choose(7), l2 = mc_choose(5); mc_shard();
    int L = what ? 2 : v, *sz = malloc(sizeof(int) * (2 * L + 1)), *acts = sz + L + 1; for (int i = 0; i <= L; i++) sz[i] = 2; if (what) sz[L] = v; for (int i = 0; i < L; i++) acts[i] = A_LINEAR; acts[L-1] = out[l2];
    mc_ctx("%d layers, %d outputs, %s then %s", L, sz[L], ln[l1], ln[l2]); mc_sample("%d layers, %d outputs, %s then %s", L, sz[L], ln[l1], ln[l2]);
    neuralnet_t *a = mk_net(L, sz, acts), *b = mk_net(L, sz, acts); fill_net_pass(a, 3); fill_net_pass(b, 3);
    for (int l = 0; l < L; l++) for (int j = 0; j < sz[l+1]; j++) a->layer[l].bias[j] *= 0.015625f, b->layer[l].bias[j] *= 0.015625f;
    neuralnet_set_loss(a, ln[l1]); neuralnet_set_loss(a, ln[l2]); neuralnet_set_loss(b, ln[l2]); mc_trans(3);
    int np = neuralnet_total_n_parameters(a); fbuf_t g = fb_new(np, 0), h = fb_new(np, 0); float x[2] = { 0.5f, -1.0f }, *y = calloc(sz[L], 4); y[sz[L] / 2] = 1;
    neuralnet_backpropagation(a, x, y, g.d); neuralnet_backpropagation(b, x, y, h.d);
    MC_CHECK(fb_intact(&g) && !memcmp(g.d, h.d, 4 * (size_t) np), "history", "gradients differ from a network with only the last selection");
    if (pairing_ok(l2 == 0 ? L_MSE : l2 == 1 ? L_BCE : l2 == 2 ? L_CCE : l2 == 3 ? L_MAE : L_MAPE, acts[L-1])) {
        double xd[2] = { 0.5, -1.0 }, *yd = calloc(sz[L] + 2 * (size_t) np, sizeof(double)), *rg = yd + sz[L]; yd[sz[L] / 2] = 1; bool kink;
        ref_backprop(a, acts, l2 == 0 ? L_MSE : l2 == 1 ? L_BCE : l2 == 2 ? L_CCE : l2 == 3 ? L_MAE : L_MAPE, NULL, xd, yd, rg, rg + np, &kink);
        if (!kink) for (int k = 0; k < np; k++) MC_CHECK(fabs(g.d[k] - rg[k]) <= 1e-5 * rg[np+k] + 2e-5 * fabs(rg[k]) + 1e-7, "wrong-gradient", "parameter %d: %.9g expected %.9g", k, g.d[k], rg[k]);
        free(yd);
    }
    fb_free(&g); fb_free(&h); free(y); free(sz); neuralnet_free(a); neuralnet_free(b); mc_eval(1); mc_nontrivial(1); mc_trace(1);
}
const mc_suite_t mc_suites[] = { { "scale", scale, 0 }, { "histories", histories, 0 }, { NULL, NULL, 0 } };
#endif
