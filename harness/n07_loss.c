/* Loss gradients (PART 7) and metrics (PART 8): all small vectors over value alphabets, all lengths and positions. */
#include "nnref.h"
#ifdef __SANITIZE_ADDRESS__
#define SMALL 1
#else
#define SMALL 0
#endif
void mc_harness_init(void){}
enum { MSE, MAE, MAPE, BCE, CCE, BACC, CACC, NM };
static const char *const mname[NM] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "binary_crossentropy", "categorical_crossentropy", "binary_accuracy", "categorical_accuracy" };
static const char *const mshort[NM] = { "mse", "mae", "mape", NULL, NULL, NULL, NULL };
static const float al[] = { 0.0f, 1.0f, -1.0f, 0.5f, -0.5f, 2.0f, -0.0f, 0.25f, 1e-9f, -3.75f, 1000.0f, -1e6f, 1e-7f, 0.999999f, 3e18f, -1e-7f };
#define NAL 16

static void loss_check(int k, loss_func f, int n, const float *p, const float *y, int off)
{
    fbuf_t g = fb_new(n, off), pb = fb_new(n, off), yb = fb_new(n, (off + 5) % 16);
    memcpy(pb.d, p, 4 * n); memcpy(yb.d, y, 4 * n);
    f(n, pb.d, yb.d, g.d);
    MC_CHECK(fb_intact(&g) && fb_intact(&pb) && fb_intact(&yb), "oob", "%s wrote outside its vectors", mname[k]);
    MC_CHECK(!memcmp(pb.d, p, 4 * n) && !memcmp(yb.d, y, 4 * n), "input-changed", "%s changed its inputs", mname[k]);
    for (int i = 0; i < n; i++) {
        double d = (double) p[i] - y[i], lo, hi, sc = 1;
        switch (k) {
        case MSE: lo = hi = 2 * d / n; break;
        case MAE: lo = d > 0 ? 1.0 / n : -1.0 / n; hi = d < 0 ? -1.0 / n : 1.0 / n; break;
        case MAPE: sc = 100 / fmax(fabs((double) y[i]), 1e-7) / n; lo = d > 0 ? sc : -sc; hi = d < 0 ? -sc : sc; break;
        case BCE: lo = hi = d / n; break;
        default: lo = hi = d; break;
        }
        double tol = 4e-7 * fmax(fabs(lo), fabs(hi)) + (k == MSE || k == BCE || k == CCE ? 1.5e-7 * (fabs(p[i]) + fabs(y[i])) / (k == CCE ? 1 : n) * 0 + 1e-44 : 0);
        MC_CHECK(g.d[i] >= lo - tol && g.d[i] <= hi + tol, "wrong-gradient", "%s, length %d, element %d: prediction %.9g target %.9g: %.9g, expected %.9g..%.9g", mname[k], n, i, p[i], y[i], g.d[i], lo, hi);
    }
    fb_free(&g); fb_free(&pb); fb_free(&yb); mc_eval(n ? n : 1); mc_nontrivial(n);
}
static void metric_check(int k, metric_func f, int n, const float *p, const float *y, int off)
{
    fbuf_t pb = fb_new(n, off), yb = fb_new(n, (off + 5) % 16);
    memcpy(pb.d, p, 4 * n); memcpy(yb.d, y, 4 * n);
    float got = f(n, pb.d, yb.d);
    MC_CHECK(fb_intact(&pb) && fb_intact(&yb) && !memcmp(pb.d, p, 4 * n) && !memcmp(yb.d, y, 4 * n), "input-changed", "%s changed its inputs", mname[k]);
    double lo = 0, hi = 0, mag = 0; bool perfect = true; const double e = 1e-7f, e1 = (double)(1.0f - 1e-7f);
    for (int i = 0; i < n; i++) {
        double d = fabs((double) p[i] - y[i]), v; if (d != 0) perfect = false;
        switch (k) {
        case MSE: v = d * d; lo += v; hi += v; mag += v; break;
        case MAE: lo += d; hi += d; mag += d; break;
        case MAPE: v = 100 * d / fmax(fabs((double) y[i]), e); lo += v; hi += v; mag += v; break;
        case BCE: case CCE: {
            double c = fmin(fmax(p[i], e), e1), a = y[i] * log(c), b = k == BCE ? (1.0 - y[i]) * log1p(-c) : 0;
            lo -= a + b; hi -= a + b; mag += fabs(a) + fabs(b);
            double edge = p[i] < 1e-5 || p[i] > 1 - 1e-5 ? 0.2 : 0;     /* width of the clipping region in float */
            if (k == BCE) { double s = edge * (fabs(1.0 - y[i]) + fabs(y[i])); lo -= s; hi += s; }
            else { double s = (p[i] < 1e-5 ? 0.05 : 3e-7) * fabs(y[i]); lo -= s; hi += s; }
            break; }
        case BACC: {    /* one half counts as one */
            double a = fmin(fmax(y[i], 0), 1), b = fmin(fmax(p[i], 0), 1);
            bool eq = (a >= 0.5) == (b >= 0.5);
            lo += eq; hi += eq; mag += 1; break; }
        default: break;
        }
    }
    if (k == CACC) { int a = 0, b = 0; for (int i = 1; i < n; i++) { if (y[i] > y[a]) a = i; if (p[i] > p[b]) b = i; } lo = hi = a == b; }
    else { lo /= n; hi /= n; mag /= n; }
    double tol = (n + 4) * 2.4e-7 * mag + 1e-44;
    if (hi > 3.4e38) { MC_CHECK(!isnan(got) && got > 3e38, "wrong-metric", "%s of huge errors is %.9g", mname[k], got); }
    else {
        MC_CHECK(isfinite(got), "not-finite", "%s, length %d (prediction[0]=%.9g target[0]=%.9g) is %.9g", mname[k], n, p[0], y[0], got);
        MC_CHECK(got >= lo - tol && got <= hi + tol, "wrong-metric", "%s, length %d (prediction[0]=%.9g target[0]=%.9g): %.9g, expected %.9g..%.9g", mname[k], n, p[0], y[0], got, lo, hi);
    }
    if (k <= MAPE) { MC_CHECK(got >= 0, "negative", "%s is %.9g", mname[k], got); if (perfect) MC_CHECK(got == 0, "perfect", "%s of a perfect match is %.9g", mname[k], got); }
    if (k >= BACC) MC_CHECK(got >= 0 && got <= 1, "range", "%s is %.9g", mname[k], got);
    fb_free(&pb); fb_free(&yb); mc_eval(1); mc_nontrivial(1);
}
static void dispatch(int k, int n, const float *p, const float *y, int off)
{
#if PART == 7
    loss_check(k, get_loss_func(mname[k]), n, p, y, off);
#else
    metric_check(k, get_metric_func(mname[k]), n, p, y, off);
#endif
}
#define NK (PART == 7 ? 5 : NM)
static void values(void)
{
    int k = mc_choose(NK), n = mc_range(1, 3), lim = n < 3 ? NAL : mc_thorough ? 11 : SMALL ? 5 : 8; float p[3], y[3];
    for (int i = 0; i < n; i++) { p[i] = al[mc_choose(lim)]; y[i] = al[mc_choose(lim)]; if (i == 0) mc_shard(); }
    mc_ctx("%s n=%d p=%g,%g,%g y=%g,%g,%g", mname[k], n, p[0], n>1?p[1]:0, n>2?p[2]:0, y[0], n>1?y[1]:0, n>2?y[2]:0);
    mc_sample("%s n=%d p=%g,%g,%g y=%g,%g,%g", mname[k], n, p[0], n>1?p[1]:0, n>2?p[2]:0, y[0], n>1?y[1]:0, n>2?y[2]:0);
    dispatch(k, n, p, y, 0);
}
static void lengths(void)       /* a special pair at every position of every length over several backgrounds */
{
    int k = mc_choose(NK), n = mc_range(1, SMALL ? 40 : mc_thorough ? 140 : 70);
    mc_shard();
    int pos = mc_choose(n), bg = mc_choose(3), sp = mc_choose(4), off = mc_pick(0, 1, 7, 8); float p[140], y[140];
    for (int i = 0; i < n; i++) {
        p[i] = bg == 0 ? 0.3f : bg == 1 ? 0.02f + 0.96f * ((i * 7) % 13) / 13.0f : rval(i + n); y[i] = bg == 0 ? 0.3f : bg == 1 ? (float)(i % 2) : rval(i + 5000); }
    p[pos] = (float[]){ 0.9f, 1.0f, -2.5f, 0.7f }[sp]; y[pos] = (float[]){ 1.0f, 0.0f, -0.5f, 0.7f }[sp];
    mc_ctx("%s n=%d special pair %d at %d background %d offset %d", mname[k], n, sp, pos, bg, off);
    dispatch(k, n, p, y, off);
}
static void large(void)         /* lengths at every power of two, one off on either side; a dominating pair anywhere */
{
    int k = mc_choose(NK), n = mc_choose(2) ? mc_pick(1000, 20000) : scale_pick(127, SMALL ? 4097 : mc_thorough ? (1 << 22) + 1 : (1 << 19) + 1); mc_shard();
    int c = mc_choose(16), pos = c == 0 ? -1 : c == 1 ? n - 1 : c == 2 ? 0 : c == 3 ? n / 2 : c == 4 ? 32767 : c == 5 ? 65535 : 1 << (c + 3), match = mc_choose(2); if (pos >= n || (pos < 0 && match)) mc_skip();
    float *p = malloc(8 * (size_t) n), *y = p + n;
    for (int i = 0; i < n; i++) { p[i] = 0.5f + 0.4f * rval(i); y[i] = pos < 0 ? (i * 7L / 3) % 2 : p[i]; }
    if (pos >= 0) { p[pos] = k == BCE || k == CCE ? 1e-3f : 3.0f; y[pos] = match || k == BCE || k == CCE ? 3.0f : 0.0f; if (k == CACC && match != 1) y[(pos + 1) % n] = 2.0f; }
    mc_ctx("%s n=%d, special pair at %d (%d)", mname[k], n, pos, match); mc_sample("%s n=%d, special pair at %d", mname[k], n, pos);
    dispatch(k, n, p, y, 0); free(p);
}
static void lookup(void)
{
    int k = mc_choose(NM), sh = mc_choose(2);
    const char *nm = sh ? mshort[k] : mname[k]; if (!nm) mc_skip();
    metric_func m = get_metric_func(nm); loss_func l = get_loss_func(nm);
    mc_ctx("name %s", nm);
#if PART == 8
    MC_CHECK(m, "name", "metric %s not found", nm);
    MC_CHECK(!strcmp(get_metric_name(m), mname[k]), "name", "metric %s is reported as %s", nm, get_metric_name(m));
    for (int j = 0; j < NM; j++) MC_CHECK((get_metric_func(mname[j]) == m) == (j == k), "name", "metric %s and %s", nm, mname[j]);
    if (k < BACC) MC_CHECK(l && get_metric_func(get_loss_name(l)) == m, "name", "loss %s has no metric of the same name", nm);
#else
    if (k < BACC) {
        MC_CHECK(l, "name", "loss %s not found", nm);
        MC_CHECK(!strcmp(get_loss_name(l), mname[k]), "name", "loss %s is reported as %s", nm, get_loss_name(l));
        for (int j = 0; j < 5; j++) MC_CHECK((get_loss_func(mname[j]) == l) == (j == k), "name", "loss %s and %s", nm, mname[j]);
    } else MC_CHECK(!l, "name", "%s is not a loss", nm);
#endif
    mc_eval(1); mc_nontrivial(1);
}
/* every documented name with one character removed, changed, added or its case changed is unknown */
static void unknown(void)
{
    int k = mc_choose(NM + 3), edit = mc_choose(4); const char *src = k < NM ? mname[k] : mshort[k - NM];
    int n = strlen(src), pos = mc_choose(n + 1); char b[64] = "";
    if (edit == 0) { if (pos == n) mc_skip(); memcpy(b, src, pos); strcpy(b + pos, src + pos + 1); }
    else if (edit == 1) { if (pos == n) mc_skip(); strcpy(b, src); b[pos] ^= 0x20; }
    else if (edit == 2) { memcpy(b, src, pos); b[pos] = '_'; strcpy(b + pos + 1, src + pos); }
    else { memcpy(b, src, pos); b[pos] = 0; if (pos == n) strcat(b, " "); }
    for (int j = 0; j < NM; j++) if (!strcmp(b, mname[j]) || (mshort[j] && !strcmp(b, mshort[j]))) mc_skip();
    mc_ctx("unknown name '%s'", b);
#if PART == 7
    MC_CHECK(!get_loss_func(b), "unknown-name", "'%s' selects %s", b, get_loss_name(get_loss_func(b)));
    MC_CHECK(strcmp(get_loss_name(NULL), mname[0]) != 0, "unknown-name", "no loss is reported as %s", get_loss_name(NULL));
#else
    MC_CHECK(!get_metric_func(b), "unknown-name", "'%s' selects %s", b, get_metric_name(get_metric_func(b)));
#endif
    mc_eval(1); mc_nontrivial(1);
}
const mc_suite_t mc_suites[] = { { "values", values, 0 }, { "lengths", lengths, 0 }, { "large", large, 0 }, { "lookup", lookup, 0 }, { "unknown", unknown, 0 }, { NULL, NULL, 0 } };
