/* Activations and their derivatives: all float inputs, all positions, lengths and alignments. */
#include <float.h>
#include "nnref.h"
#ifdef __SANITIZE_ADDRESS__
#define SMALL 1
#else
#define SMALL 0
#endif
static activation_func F[A_N]; static activation_derivative D[A_N];
void mc_harness_init(void)
{
    for (int a = 0; a < A_N; a++) { F[a] = get_activation_func(act_names[a]); D[a] = get_activation_derivative(F[a]); if (!F[a] || !D[a]) abort(); }
}
static float bits(uint32_t u){ float f; memcpy(&f, &u, 4); return f; }

/* distance of a float result from the exact value, in units of the tolerance the property grants */
static double act_err(int a, float x, float got)
{
    double r = ref_act1(a, x);
    if (isnan(got)) return INFINITY;
    if (isinf(got)) return fabs(r) > FLT_MAX * (1 - 4e-7) && (got > 0) == (r > 0) ? 0 : INFINITY;
    double rel = 16 * EPS_F * fabs(r), ab = 3e-45;
    switch (a) {
    case A_RELU: case A_LINEAR: return got == r ? 0 : INFINITY;
    case A_SIGMOID: if (got < 0 || got > 1) return INFINITY; rel *= 1; ab = 1e-37; break;
    case A_TANH:    if (got < -1 || got > 1) return INFINITY; ab = 3e-7; break;
    case A_HARD:    if (got < 0 || got > 1) return INFINITY; ab = 1.2e-7; break;
    case A_SOFTSIGN: if (got < -1 || got > 1) return INFINITY; break;
    case A_SOFTPLUS: if (got < 0) return INFINITY; rel *= 1; ab = 1e-37; break;
    case A_EXP: if (got < 0) return INFINITY; rel *= 1; break;
    }
    return fabs(got - r) / (rel + ab);
}

static void run_values(int a, uint32_t first, uint32_t step, int n)
{
    static fbuf_t b, o; static int cap;
    if (cap < n) { if (cap) { fb_free(&b); fb_free(&o); } b = fb_new(n, 0); o = fb_new(n, 0); cap = n; }
    int m = 0;
    for (int i = 0; i < n; i++) { float f = bits(first + step * i); if (isfinite(f)) b.d[m++] = f; }
    if (!m) mc_skip();
    for (int path = 0; path < 2; path++) {      /* whole vector / short vectors (scalar tails) */
        memcpy(o.d, b.d, 4 * m);
        if (!path) F[a](m, o.d); else for (int i = 0; i < m; i += 7) F[a](m - i < 7 ? m - i : 7, o.d + i);
        for (int i = 0; i < m; i++) {
            double e = act_err(a, b.d[i], o.d[i]);
            if (!(e <= 1)) mc_fail("inaccurate", "%s(%.9g) = %.9g, expected %.9g (%.3g x tolerance, %s vector)", act_names[a], b.d[i], o.d[i], ref_act1(a, b.d[i]), e, path ? "short" : "long");
        }
    }
    mc_eval(2 * m); mc_nontrivial(m);
}
static void allfloats(void)
{
    int a = mc_choose(A_SOFTMAX);
    uint32_t hi = mc_choose(SMALL ? 256 : 4096); if (SMALL) hi *= 16;
    mc_shard();
    mc_ctx("%s on floats with top 12 bits 0x%03x", act_names[a], hi);
    if (mc_thorough && !SMALL) { int k = mc_choose(256); run_values(a, (hi << 20) + k * 4096u, 1, 4096); mc_sample("%s on 4096 consecutive floats from bits 0x%08x", act_names[a], (hi << 20) + k * 4096u); return; }
    /* every 12-bit mantissa prefix below the top 12 bits, smallest and largest low byte */
    run_values(a, hi << 20, 256, 4096);
    run_values(a, (hi << 20) | 255, 256, 4096);
    mc_sample("%s on 8192 floats with top 12 bits 0x%03x", act_names[a], hi);
}
static const float probe[] = { 0.0f, 1.0f, -1.0f, 0.25f, -3.0f, 2.5f, -2.5f, 7.0f, -20.0f, 87.0f, -100.0f, 200.0f };
static void positions(void)
{
    int a = mc_choose(A_N), n = mc_range(0, SMALL ? 40 : 70);
    mc_shard();
    int off = mc_choose(16), v = mc_choose(2);
    mc_ctx("%s, length %d, start %d floats after a 64-byte boundary", act_names[a], n, off);
    fbuf_t b = fb_new(n, off); float x[71]; double r[71];
    if (a == A_SOFTMAX && n == 0) { fb_free(&b); mc_skip(); }
    for (int i = 0; i < n; i++) { b.d[i] = x[i] = v ? probe[(i * 5 + off + n) % 12] : 0.11f * (i - 30); r[i] = x[i]; }
    F[a](n, b.d);
    MC_CHECK(fb_intact(&b), "oob", "%s wrote outside the vector", act_names[a]);
    if (a == A_SOFTMAX) ref_softmax(n, r);
    for (int i = 0; i < n; i++) {
        double e = a == A_SOFTMAX ? fabs(b.d[i] - r[i]) / (3e-6 * r[i] + 1e-37) : act_err(a, x[i], b.d[i]);
        MC_CHECK(e <= 1, "inaccurate", "%s: element %d (%.9g) -> %.9g, expected %.9g", act_names[a], i, x[i], b.d[i], a == A_SOFTMAX ? r[i] : ref_act1(a, x[i]));
    }
    fb_free(&b); mc_eval(n ? n : 1); mc_nontrivial(n);
}
static void names(void)
{
    int a = mc_choose(A_N);
    MC_CHECK(F[a] == get_activation_func(act_names[a]), "name", "%s: two lookups differ", act_names[a]);
    MC_CHECK(!strcmp(get_activation_name(F[a]), act_names[a]), "name", "the function found as %s is named %s", act_names[a], get_activation_name(F[a]));
    for (int c = 0; c < A_N; c++) MC_CHECK(c == a || F[c] != F[a], "name", "%s and %s are the same function", act_names[a], act_names[c]);
    MC_CHECK(get_activation_derivative(F[a]) == D[a], "name", "derivative of %s", act_names[a]);
    mc_eval(1);
}

/* ---- derivatives ---- */
static double slope_err(int a, float y, float g, float got)
{
    double e = ref_slope(a, y) * g;
    if (fabs(e) > FLT_MAX * (1 - 1e-6)) return isnan(got) ? INFINITY : 0;
    if (!isfinite(got)) return INFINITY;
    if (a == A_RELU || a == A_LINEAR) return got == (float) e ? 0 : INFINITY;
    double ab = 1e-44 + 1e-44 * fabs(g), rel = 16 * EPS_F * fabs(e);
    if (a == A_TANH) ab += 2.5 * EPS_F * fabs(g);
    if (a == A_SOFTSIGN) ab += 4 * EPS_F * sqrt(ref_slope(a, y)) * fabs(g), rel *= 2;
    return fabs(got - e) / (rel + ab);
}
static void run_slopes(int a, uint32_t first, uint32_t step, int n)
{
    static fbuf_t b, o; static int cap;
    if (cap < n) { if (cap) { fb_free(&b); fb_free(&o); } b = fb_new(n, 0); o = fb_new(n, 0); cap = n; }
    static const float gs[5] = { 1.0f, -3.25f, 0.0f, 1e-3f, 512.0f };
    int m = 0;
    for (int i = 0; i < n; i++) { float f = bits(first + step * i); if (isfinite(f)) b.d[m++] = f; }
    F[a](m, b.d);                                /* the outputs the library really produces */
    { int k = 0; for (int i = 0; i < m; i++) if (isfinite(b.d[i])) b.d[k++] = b.d[i]; m = k; }
    if (!m) mc_skip();
    uint64_t h = mc_hash(b.d, 4 * m, 0);
    for (int path = 0; path < 2; path++) {
        for (int i = 0; i < m; i++) o.d[i] = gs[i % 5];
        if (!path) D[a](m, b.d, o.d); else for (int i = 0; i < m; i += 7) D[a](m - i < 7 ? m - i : 7, b.d + i, o.d + i);
        for (int i = 0; i < m; i++) {
            double e = slope_err(a, b.d[i], gs[i % 5], o.d[i]);
            if (!(e <= 1)) mc_fail("slope", "%s: output %.9g, incoming %.9g: got %.9g, expected %.9g (%.3g x tolerance)", act_names[a], b.d[i], gs[i % 5], o.d[i], ref_slope(a, b.d[i]) * gs[i % 5], e);
        }
    }
    MC_CHECK(mc_hash(b.d, 4 * m, 0) == h, "activation-changed", "%s derivative modified the activation values", act_names[a]);
    mc_eval(2 * m); mc_nontrivial(m);
}
static void allslopes(void)
{
    int a = mc_choose(A_SOFTMAX);
    uint32_t hi = mc_choose(SMALL ? 256 : 4096); if (SMALL) hi *= 16;
    mc_shard();
    mc_ctx("%s derivative on outputs for inputs with top 12 bits 0x%03x", act_names[a], hi);
    if (mc_thorough && !SMALL) { int k = mc_choose(256); run_slopes(a, (hi << 20) + k * 4096u, 1, 4096); mc_sample("%s slopes for 4096 consecutive inputs from bits 0x%08x", act_names[a], (hi << 20) + k * 4096u); return; }
    run_slopes(a, hi << 20, 256, 4096);
    run_slopes(a, (hi << 20) | 255, 256, 4096);
    mc_sample("%s slopes for 8192 inputs with top 12 bits 0x%03x", act_names[a], hi);
}
static void slopepos(void)
{
    int a = mc_choose(A_N), n = mc_range(0, SMALL ? 40 : 70);
    mc_shard();
    int o1 = mc_choose(16), o2 = mc_thorough ? mc_choose(16) : mc_pick(0, 1, 4, 8, 13);
    mc_ctx("%s derivative, length %d, activation at offset %d, gradient at offset %d", act_names[a], n, o1, o2);
    fbuf_t y = fb_new(n, o1), g = fb_new(n, o2); float gi[71];
    for (int i = 0; i < n; i++) { y.d[i] = ref_act1(a == A_SOFTMAX ? A_SIGMOID : a, i % 9 == 8 ? -2.5 : 0.13 * (i - 30)); g.d[i] = gi[i] = rval(i * 3 + n) + (i & 1); }
    uint64_t h = mc_hash(y.d, 4 * n, 0);
    D[a](n, y.d, g.d);
    MC_CHECK(fb_intact(&y) && fb_intact(&g), "oob", "%s derivative wrote outside the vectors", act_names[a]);
    MC_CHECK(mc_hash(y.d, 4 * n, 0) == h, "activation-changed", "%s derivative modified the activation values", act_names[a]);
    for (int i = 0; i < n; i++) {
        double e = a == A_SOFTMAX ? (g.d[i] == gi[i] ? 0 : 2) : slope_err(a, y.d[i], gi[i], g.d[i]);
        MC_CHECK(e <= 1, "slope", "%s: element %d: output %.9g, incoming %.9g: got %.9g", act_names[a], i, y.d[i], gi[i], g.d[i]);
    }
    fb_free(&y); fb_free(&g); mc_eval(n ? n : 1); mc_nontrivial(n);
}

/* ---- softmax ---- */
static void softmax_check(int n, const float *x, int off)
{
    fbuf_t b = fb_new(n, off); double r[n], m = x[0], s = 0, sum = 0;
    memcpy(b.d, x, 4 * n);
    F[A_SOFTMAX](n, b.d);
    MC_CHECK(fb_intact(&b), "oob", "softmax wrote outside the vector");
    for (int i = 1; i < n; i++) if (x[i] > m) m = x[i];
    for (int i = 0; i < n; i++) { r[i] = exp(x[i] - m); s += r[i]; }
    for (int i = 0; i < n; i++) {
        r[i] /= s; sum += b.d[i];
        double d = fabs(x[i] - m);
        MC_CHECK(b.d[i] >= 0 && b.d[i] <= 1.0f + 1e-6f, "not-a-probability", "softmax of %d values (max %.9g): element %d = %.9g", n, m, i, b.d[i]);
        MC_CHECK(fabs(b.d[i] - r[i]) <= (2e-6 + 2 * EPS_F * fmin(d, 200)) * r[i] + 2e-38, "wrong-softmax", "softmax of %d values, offset %d: element %d (%.9g, max %.9g) = %.9g, expected %.9g", n, off, i, x[i], m, b.d[i], r[i]);
    }
    MC_CHECK(fabs(sum - 1) <= 2e-6, "sum", "softmax of %d values sums to %.9g", n, sum);
    fb_free(&b); mc_eval(n); mc_nontrivial(n > 1);
}
static const float sal[] = { 0.0f, 1.0f, -1.0f, 0.5f, 88.0f, -88.0f, 89.5f, -104.0f, 1000.0f, -1e10f, 3e38f, -FLT_MAX, FLT_MAX, 1e-30f, 20.0f };
static void softvalues(void)
{
    int n = mc_range(1, 4), off = mc_pick(0, 3); float x[4];
    for (int i = 0; i < n; i++) { x[i] = sal[mc_choose(n == 4 ? (mc_thorough ? 15 : 9) : 15)]; if (i == 1) mc_shard(); }
    mc_ctx("softmax n=%d: %g %g %g %g", n, x[0], n>1?x[1]:0, n>2?x[2]:0, n>3?x[3]:0);
    mc_sample("softmax n=%d: %g %g %g %g", n, x[0], n>1?x[1]:0, n>2?x[2]:0, n>3?x[3]:0);
    softmax_check(n, x, off);
}
static void softwide(void)      /* all assignments of three values on SIMD-wide vectors */
{
    int n = mc_range(8, mc_thorough ? 11 : 9), off = mc_pick(0, 8, 5), set = mc_choose(3); float x[11];
    static const float v[3][3] = { { 0, 1.5f, -3 }, { 100, -100, 30 }, { 1e30f, -1e30f, 0 } };
    for (int i = 0; i < n; i++) { x[i] = v[set][mc_choose(3)]; if (i == 2) mc_shard(); }
    mc_ctx("softmax n=%d offset %d value set %d: %g %g %g %g %g %g %g %g", n, off, set, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]);
    softmax_check(n, x, off);
}
static void softpos(void)       /* every length, position of the maximum, alignment, background */
{
    int n = mc_range(1, SMALL ? 40 : 70), off = mc_choose(16);
    mc_shard();
    int pos = mc_choose(n), bg = mc_choose(5); float x[70];
    static const float mx[5] = { 0.5f, 5.0f, 95.0f, -80.0f, 3e38f };
    for (int i = 0; i < n; i++) x[i] = bg == 0 ? 0.5f : bg == 1 ? 0.05f * i - 3 : bg == 2 ? 90.0f - i * 0.4f : bg == 3 ? -100.0f + 0.01f * i : -3e38f;
    x[pos] = mx[bg];
    mc_ctx("softmax n=%d offset %d maximum at %d background %d", n, off, pos, bg);
    softmax_check(n, x, off);
}
/* lengths at every power of two, one off on either side; nothing outside is written */
static void scale(void)
{
    int a = mc_choose(A_SOFTMAX), n = scale_pick(63, SMALL ? 4097 : mc_thorough ? (1 << 22) + 1 : (1 << 18) + 1), off = mc_pick(0, 1, 8);
    mc_shard();
    mc_ctx("%s, length %d, offset %d", act_names[a], n, off); mc_sample("%s, length %d, offset %d", act_names[a], n, off);
    fbuf_t b = fb_new(n, off);
    for (int i = 0; i < n; i++) b.d[i] = 0.01f * (i % 1013) - 5.0f + (i >> 10) * 1e-3f;
    F[a](n, b.d);
    MC_CHECK(fb_intact(&b), "oob", "%s wrote outside the vector", act_names[a]);
    for (int i = 0; i < n; i++) { float x = 0.01f * (i % 1013) - 5.0f + (i >> 10) * 1e-3f; MC_CHECK(act_err(a, x, b.d[i]) <= 1, "inaccurate", "%s: element %d of %d (%.9g) -> %.9g, expected %.9g", act_names[a], i, n, x, b.d[i], ref_act1(a, x)); }
    fb_free(&b); mc_eval(n); mc_nontrivial(n);
}
static void slopescale(void)
{
    int a = mc_choose(A_N), n = scale_pick(63, SMALL ? 4097 : mc_thorough ? (1 << 22) + 1 : (1 << 18) + 1), off = mc_pick(0, 1, 8);
    mc_shard();
    mc_ctx("%s derivative, length %d, offset %d", act_names[a], n, off); mc_sample("%s derivative, length %d, offset %d", act_names[a], n, off);
    fbuf_t y = fb_new(n, off), g = fb_new(n, 0);
    for (int i = 0; i < n; i++) { y.d[i] = ref_act1(a == A_SOFTMAX ? A_SIGMOID : a, 0.01f * (i % 613) - 3.0f); g.d[i] = rval(i) + 2; }
    uint64_t h = mc_hash(y.d, 4 * (size_t) n, 0);
    D[a](n, y.d, g.d);
    MC_CHECK(fb_intact(&y) && fb_intact(&g), "oob", "%s derivative wrote outside the vectors", act_names[a]);
    MC_CHECK(mc_hash(y.d, 4 * (size_t) n, 0) == h, "activation-changed", "%s derivative modified the activation values", act_names[a]);
    for (int i = 0; i < n; i++) { float gi = rval(i) + 2; double e = a == A_SOFTMAX ? (g.d[i] == gi ? 0 : 2) : slope_err(a, y.d[i], gi, g.d[i]); MC_CHECK(e <= 1, "slope", "%s: element %d of %d: output %.9g, incoming %.9g: got %.9g", act_names[a], i, n, y.d[i], gi, g.d[i]); }
    fb_free(&y); fb_free(&g); mc_eval(n); mc_nontrivial(n);
}
/* softmax: long vectors, the maximum around every power of two and at the ends */
static void softscale(void)
{
    int n = scale_pick(63, SMALL ? 1025 : mc_thorough ? (1 << 20) + 1 : (1 << 17) + 1), bg = mc_choose(4), off = mc_pick(0, 5);
    mc_shard();
    int k = mc_choose(24), pos = k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : k == 3 ? n - 2 : (k & 1 ? (1 << (k / 2 + 4)) : (1 << (k / 2 + 4)) - 1); if (pos >= n) mc_skip();
    static const float mx[4] = { 95.0f, 0.5f, -80.0f, 3e38f };
    mc_ctx("softmax of %d values, maximum at %d, background %d, offset %d", n, pos, bg, off); mc_sample("softmax of %d values, maximum at %d, background %d", n, pos, bg);
    fbuf_t b = fb_new(n, off); float *x = malloc(4 * (size_t) n); double s = 0, sum = 0, m = mx[bg];
    for (int i = 0; i < n; i++) x[i] = bg == 0 ? 1e-3f * (i % 900) : bg == 1 ? 0.5f : bg == 2 ? -100.0f + 0.01f * (i % 900) : -3e38f;
    x[pos] = mx[bg]; memcpy(b.d, x, 4 * (size_t) n);
    F[A_SOFTMAX](n, b.d);
    MC_CHECK(fb_intact(&b), "oob", "softmax wrote outside the vector");
    for (int i = 0; i < n; i++) s += exp(x[i] - m);
    double tol = (2e-6 + 2 * EPS_F * 110) + n * EPS_F;
    for (int i = 0; i < n; i++) {
        double r = exp(x[i] - m) / s; sum += b.d[i];
        MC_CHECK(b.d[i] >= 0 && b.d[i] <= 1.0f + 1e-6f, "not-a-probability", "softmax of %d values: element %d = %.9g", n, i, b.d[i]);
        MC_CHECK(fabs(b.d[i] - r) <= tol * r + 2e-38, "wrong-softmax", "softmax of %d values: element %d (%.9g, max %.9g) = %.9g, expected %.9g", n, i, x[i], m, b.d[i], r);
    }
    MC_CHECK(fabs(sum - 1) <= 2e-6 + n * EPS_F, "sum", "softmax of %d values sums to %.9g", n, sum);
    free(x); fb_free(&b); mc_eval(n); mc_nontrivial(n);
}
const mc_suite_t mc_suites[] = {
#if PART == 4
    { "scale", scale, 0 }, { "allfloats", allfloats, 0 }, { "positions", positions, 0 }, { "names", names, 0 },
#elif PART == 5
    { "scale", slopescale, 0 }, { "allslopes", allslopes, 0 }, { "slopepos", slopepos, 0 },
#else
    { "scale", softscale, 0 }, { "softvalues", softvalues, 0 }, { "softwide", softwide, 0 }, { "softpos", softpos, 0 },
#endif
    { NULL, NULL, 0 } };
