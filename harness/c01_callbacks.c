/* Callbacks: early stopping (C01), checkpoints (C02), the training log (C03), progress reports (C04). */
#define _GNU_SOURCE
#include "nnref.h"
#include "npyref.h"
#include "zipref.h"
#include "optimizer_implementations.h"
#include "earlystopping.h"
#include "modelcheckpoint.h"
#include "logger.h"
#include "progress.h"
#include <limits.h>
#include <float.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <termios.h>
#ifdef __SANITIZE_ADDRESS__
#define ASANB 1
#else
#define ASANB 0
#endif
void mc_harness_init(void){ setenv("TZ", "UTC", 1); tzset(); }
time_t time(time_t *t){ if (t) *t = 1700000000; return 1700000000; }

static metric_func mlist[64]; static const char *const mnames[] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "binary_crossentropy", "categorical_crossentropy", "binary_accuracy", "categorical_accuracy" };
static float own_metric(const int n, const float *p, const float *y){ (void) n; (void) p; (void) y; return 0; }
static neuralnet_t *net; static optimizer_t *opt;
static void mk_opt(int nm, bool longest){ int sz[2] = { 3, 2 }, a[1] = { A_LINEAR }; net = mk_net(1, sz, a); fill_net_int(net, 1, 3); neuralnet_set_loss(net, "mse"); for (int i = 0; i < nm; i++) mlist[i] = get_metric_func(mnames[longest ? 2 : i % 7]); mlist[nm] = NULL; opt = OPTIMIZER(SGD_new(net, OPTIMIZER_PROPERTIES(.metrics = mlist, .progress = NULL), SGD_PROPERTIES())); }
static void rm_opt(void){ if (opt) optimizer_free(opt); if (net) neuralnet_free(net); opt = NULL; net = NULL; }

#if PART <= 2
/* ---- the monitored score ---- */
static const float full[] = { 1.0f, 0.5f, 2.0f, -1.0f, 0.0f, -0.0f, 1.00000012f, FLT_MAX, -FLT_MAX, INFINITY, -INFINITY, NAN, 1e-45f };
typedef struct { bool greater, has; float best; int since, patience; bool flag; } es_t;
static bool better(es_t *m, float s){ bool b = !isnan(s) && (!m->has || (m->greater ? s > m->best : s < m->best)); if (b) { m->has = true; m->best = s; } return b; }
static bool es_step(es_t *m, float s){ if (better(m, s)) m->since = 0; else if (++m->since > m->patience) m->flag = true; return m->flag; }
/* results of one epoch: the monitored one is s, all others move the other way */
static float *results(int nm, bool valid, int idx, float s, int e){ int n = nm * (1 + valid); float *r = malloc(4 * n); for (int i = 0; i < n; i++) r[i] = i == idx ? s : ((e & 1) ? -100.0f * (e + 1) : 100.0f * (e + 1)) * ((i & 1) ? 1 : -1); return r; }
static int where(int monitor, int nm, bool valid){ return monitor >= 0 ? monitor : valid ? nm : 0; }
#endif

#if PART == 1
/* one instance, every sequence of scores */
static void seq(const float *alpha, int na, int depth, bool small)
{
    bool greater = mc_choose(2); int patience = small ? mc_pick(0, 1, 2) : mc_pick(0, 1, 3, INT_MAX), nm = 1, monitor = -1; bool valid = false;
    es_t m = { .greater = greater, .patience = patience }; static earlystopping_t *es; if (es) callback_free(CALLBACK(es)); es = earlystopping_new(EARLYSTOPPING_SETTINGS(.patience = patience, .monitor_idx = monitor, .greater_is_better = greater)); if (!opt) mk_opt(1, false);
    mc_ctx("%s is better, patience %d", greater ? "greater" : "smaller", patience); MC_CHECK(!earlystopping_do_stop(es), "early-stop", "asks to stop before the first epoch"); char hist[300]; int hl = 0; hist[0] = 0;
    for (int e = 0; e < depth; e++) {
        int k = mc_choose(na); if (e == 1) mc_shard(); float s = alpha[k], *r = results(nm, valid, where(monitor, nm, valid), s, e); hl += snprintf(hist + hl, sizeof hist - hl, " %g", s);
        callback_run(CALLBACK(es), opt, r, valid); free(r); bool want = es_step(&m, s), got = earlystopping_do_stop(es); mc_trans(1); if (e + 1 == depth) { mc_eval(1); mc_nontrivial(1); }
        mc_state(mc_hash(&(struct { int k; float b; int s, f, g, p; }){ m.has, m.has ? m.best : 0, m.since, m.flag, greater, patience }, 24, 0));
        MC_CHECK(got == want, want ? "late-stop" : "early-stop", "scores%s: stop is %d, expected %d (best %g, %d epochs without improvement)", hist, got, want, m.best, m.since);
    }
    mc_trace(1); mc_sample("%s is better, patience %d, scores%s", greater ? "greater" : "smaller", patience, hist);
}
static void values(void){ seq(full, 13, mc_thorough ? 5 : 4, false); }
static void longer(void){ static const float a[] = { 1.0f, 0.5f, 2.0f, NAN }; seq(a, 4, mc_thorough ? 9 : 7, true); }
/* which value is monitored */
static void monitored(void)
{
    int nm = mc_range(1, 4), monitor = mc_range(-1, 2 * nm - 1); bool greater = mc_choose(2); mc_shard(); if (opt) rm_opt(); mk_opt(nm, false);
    static const float a[] = { 1.0f, 0.5f, 2.0f }; es_t m = { .greater = greater, .patience = 1 }; static earlystopping_t *es; if (es) callback_free(CALLBACK(es)); es = earlystopping_new(EARLYSTOPPING_SETTINGS(.patience = 1, .monitor_idx = monitor, .greater_is_better = greater));
    mc_ctx("%d metrics, monitoring %d", nm, monitor); mc_sample("%d metrics, monitoring %d, with and without validation", nm, monitor);
    for (int e = 0; e < 4; e++) {
        bool valid = monitor >= nm ? true : mc_choose(2); float s = a[mc_choose(3)], *r = results(nm, valid, where(monitor, nm, valid), s, e); callback_run(CALLBACK(es), opt, r, valid); free(r);
        bool want = es_step(&m, s), got = earlystopping_do_stop(es); mc_eval(1); mc_nontrivial(1); mc_trans(1); MC_CHECK(got == want, "monitored", "epoch %d%s: stop is %d, expected %d", e + 1, valid ? " with validation" : "", got, want);
    }
    mc_trace(1);
}
/* several instances: created at any time, used in any order, freed and created again */
static void instances(void)
{
    static earlystopping_t *es[3]; static const float a[] = { 1.0f, 0.5f, 2.0f }; es_t m[3]; bool live[3] = { 0 }; for (int i = 0; i < 3; i++) { if (es[i]) callback_free(CALLBACK(es[i])); es[i] = NULL; } if (!opt) mk_opt(1, false);
    int depth = mc_thorough ? 8 : 6; char hist[300]; int hl = 0; hist[0] = 0; int conf = mc_choose(4);
    for (int e = 0; e < depth; e++) {
        int i = mc_choose(2), op = live[i] ? mc_choose(4) : 3; if (e == 2) mc_shard();
        if (op == 3) { if (live[i]) { callback_free(CALLBACK(es[i])); es[i] = NULL; live[i] = false; hl += snprintf(hist + hl, sizeof hist - hl, " free%d", i); continue; } bool g = conf >> i & 1; es[i] = earlystopping_new(EARLYSTOPPING_SETTINGS(.patience = i, .greater_is_better = g)); m[i] = (es_t){ .greater = g, .patience = i }; live[i] = true; hl += snprintf(hist + hl, sizeof hist - hl, " new%d", i); }
        else { float s = a[op]; hl += snprintf(hist + hl, sizeof hist - hl, " %d:%g", i, s); callback_run(CALLBACK(es[i]), opt, &s, false); es_step(&m[i], s); }
        for (int j = 0; j < 2; j++) if (live[j]) { bool got = earlystopping_do_stop(es[j]); MC_CHECK(got == m[j].flag, "instances", "%s: instance %d (%s is better, patience %d): stop is %d, expected %d", hist, j, m[j].greater ? "greater" : "smaller", j, got, m[j].flag); }
        mc_trans(1);
    }
    mc_eval(1); mc_nontrivial(1); mc_trace(1); mc_sample("two instances:%s", hist);
}
const mc_suite_t mc_suites[] = { { "values", values }, { "longer", longer }, { "monitored", monitored }, { "instances", instances }, { 0 } };
#endif

#if PART == 2
/* what a checkpoint file holds: 0 absent, 1 the parameters of the epoch `stamp`, -1 anything else */
static void stamp_net(neuralnet_t *nn, int stamp){ for (int l = 0; l < nn->n_layers; l++) { for (int j = 0; j < nn->layer[l].n_output; j++) nn->layer[l].bias[j] = stamp * 64 + j; for (int k = 0; k < nn->layer[l].n_input * nn->layer[l].n_output; k++) nn->layer[l].weight[k] = -stamp * 64 - k; } }
static int holds(const char *file)
{
    size_t n; if (access(file, F_OK)) return 0; unsigned char *f = get_file(file, &n); ze_t z[8]; memset(z, 0, sizeof z); const char *why; int k = zip_parse(f, n, z, 8, &why), st = -1; free(f); if (k < 0) return -1;
    const float *w = NULL, *b = NULL; for (int i = 0; i < k; i++) { nf_t h; if (nf_parse(z[i].data, z[i].n, &h, false)) continue; if (!strncmp(z[i].name, "weight_0", 8) && h.bytes == 24) w = (void*)(z[i].data + h.off); if (!strncmp(z[i].name, "bias_0", 6) && h.bytes == 8) b = (void*)(z[i].data + h.off); }
    if (w && b) { float bb[2], ww[6]; memcpy(bb, b, 8); memcpy(ww, w, 24); st = (int) bb[0] / 64; for (int j = 0; j < 2; j++) if (bb[j] != st * 64 + j) st = -1; for (int j = 0; st > 0 && j < 6; j++) if (ww[j] != -st * 64 - j) st = -1; }
    zip_free(z, k); return st;
}
static modelcheckpoint_t *cp[3]; static void cp_reset(void){ for (int i = 0; i < 3; i++) { if (cp[i]) callback_free(CALLBACK(cp[i])); cp[i] = NULL; } if (chdir(mc_workdir)) abort(); mc_output_reset(); }
static void seq(const float *alpha, int na, int depth)
{
    cp_reset(); bool greater = mc_choose(2), verbose = mc_choose(2), keep = mc_choose(2); if (!opt) mk_opt(1, false); es_t m = { .greater = greater }; unlink("c.npz"); int stamp = 0, beststamp = 0;
    cp[0] = modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.filename = "c.npz", .greater_is_better = greater, .verbose = verbose)); char hist[300]; int hl = 0; hist[0] = 0; mc_ctx("%s is better", greater ? "greater" : "smaller");
    for (int e = 0; e < depth; e++) {
        float s = alpha[mc_choose(na)]; if (e == 1) mc_shard(); hl += snprintf(hist + hl, sizeof hist - hl, " %g", s); stamp_net(net, ++stamp); if (!keep) unlink("c.npz");
        float *r = results(1, false, 0, s, e); callback_run(CALLBACK(cp[0]), opt, r, false); free(r); bool imp = better(&m, s); if (imp) beststamp = stamp;
        int want = keep || imp ? beststamp : 0, got = holds("c.npz"); mc_trans(1); mc_eval(1); mc_nontrivial(e > 0); mc_state(mc_hash(&(struct { int a, b, c, d, e; float f; }){ keep, greater, beststamp, stamp, m.has, m.has ? m.best : 0 }, 24, 0));
        MC_CHECK(got == want, got == want ? "" : want && !got ? "not-saved" : !want ? "rewritten" : "not-the-best", "scores%s: %s the file holds epoch %d, expected %d", hist, keep ? "" : "(file removed before each epoch)", got, want);
        MC_CHECK(net->layer[0].bias[0] == stamp * 64, "network-changed", "the checkpoint changed the network");
    }
    mc_trace(1); mc_sample("%s is better, scores%s", greater ? "greater" : "smaller", hist);
}
static void values(void){ seq(full, 13, mc_thorough ? 4 : 3); }
static void longer(void){ static const float a[] = { 1.0f, 0.5f, 2.0f, NAN }; seq(a, 4, mc_thorough ? 7 : 5); }
static void monitored(void)
{
    cp_reset(); int nm = mc_range(1, 3), monitor = mc_range(-1, 2 * nm - 1); bool greater = mc_choose(2); mc_shard(); if (opt) rm_opt(); mk_opt(nm, false); unlink("c.npz"); int stamp = 0, beststamp = 0;
    static const float a[] = { 1.0f, 0.5f, 2.0f }; es_t m = { .greater = greater }; cp[0] = modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.filename = "c.npz", .monitor_idx = monitor, .greater_is_better = greater));
    mc_ctx("%d metrics, monitoring %d", nm, monitor); mc_sample("%d metrics, monitoring %d", nm, monitor);
    for (int e = 0; e < 3; e++) {
        bool valid = monitor >= nm ? true : mc_choose(2); float s = a[mc_choose(3)], *r = results(nm, valid, where(monitor, nm, valid), s, e); stamp_net(net, ++stamp); callback_run(CALLBACK(cp[0]), opt, r, valid); free(r); if (better(&m, s)) beststamp = stamp;
        int got = holds("c.npz"); mc_eval(1); mc_nontrivial(1); mc_trans(1); MC_CHECK(got == beststamp, "monitored", "epoch %d%s: the file holds epoch %d, expected %d", e + 1, valid ? " with validation" : "", got, beststamp);
    }
    mc_trace(1);
}
static void instances(void)
{
    cp_reset(); static const float a[] = { 1.0f, 0.5f, 2.0f }; static const char *const fn[2] = { "i0.npz", "i1.npz" }; es_t m[2]; bool live[2] = { 0 }; int beststamp[2] = { 0 }, stamp = 0; for (int i = 0; i < 2; i++) unlink(fn[i]); if (!opt) mk_opt(1, false);
    int depth = mc_thorough ? 7 : 5; char hist[300]; int hl = 0; hist[0] = 0; int conf = mc_choose(4);
    for (int e = 0; e < depth; e++) {
        int i = mc_choose(2), op = live[i] ? mc_choose(4) : 3; if (e == 2) mc_shard(); stamp_net(net, ++stamp);
        if (op == 3) { if (live[i]) { callback_free(CALLBACK(cp[i])); cp[i] = NULL; live[i] = false; hl += snprintf(hist + hl, sizeof hist - hl, " free%d", i); continue; } bool g = conf >> i & 1; cp[i] = modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.filename = fn[i], .greater_is_better = g)); m[i] = (es_t){ .greater = g }; live[i] = true; hl += snprintf(hist + hl, sizeof hist - hl, " new%d", i); }
        else { float s = a[op]; hl += snprintf(hist + hl, sizeof hist - hl, " %d:%g", i, s); callback_run(CALLBACK(cp[i]), opt, &s, false); if (better(&m[i], s)) beststamp[i] = stamp; }
        for (int j = 0; j < 2; j++) { int got = holds(fn[j]); MC_CHECK(got == beststamp[j], "instances", "%s: file %d holds epoch %d, expected %d", hist, j, got, beststamp[j]); }
        mc_trans(1);
    }
    mc_eval(1); mc_nontrivial(1); mc_trace(1); mc_sample("two checkpoints:%s", hist);
}
static void names(void)
{
    static const char *const fn[] = { "plain.npz", "100%.npz", "%s.npz", "%n%n.npz", "a%%b.npz", "%d-%f-%5.2e.npz", "acc%.npz", "%", "with space", "no-extension", "ü.npz", NULL, "%100000d", "%*d%*d%*d", ".hidden%x" };
    cp_reset(); int k = mc_choose(sizeof fn / sizeof *fn + 1); mc_shard(); char lng[200]; const char *f, *is; if (!opt) mk_opt(1, false);
    if (k == sizeof fn / sizeof *fn) { int n = mc_range(100, 128); memset(lng, 'l', n); lng[n] = 0; memcpy(lng + n / 2, "%s", 2); f = is = lng; } else { f = fn[k]; is = f ? f : "checkpoint.npz"; }
    unlink(is); cp[0] = modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.filename = f)); stamp_net(net, 5); float s = 1; mc_ctx("file name '%s'", f ? f : "(default)"); mc_ctxkey("name"); mc_sample("file name '%s'", f ? f : "(default)"); callback_run(CALLBACK(cp[0]), opt, &s, false);
    int got = holds(is); mc_eval(1); mc_nontrivial(1); MC_CHECK(got == 5, "name", "file '%s': holds %d, expected the network", is, got); unlink(is);
}
const mc_suite_t mc_suites[] = { { "values", values }, { "longer", longer }, { "monitored", monitored }, { "instances", instances }, { "names", names, MC_FORK }, { 0 } };
#endif

#if PART == 3
/* ---- the log ---- */
static logger_t *lg; static void lg_free(void){ if (lg) callback_free(CALLBACK(lg)); lg = NULL; }
/* one logged line: epoch number and (name, value) pairs; NULL if fine */
static const char *line_ok(const char *p, size_t n, long epoch, const metric_func *mf, int nm, bool valid, const float *res)
{
    static char b[40000]; if (n >= sizeof b) return "too long"; memcpy(b, p, n); b[n] = 0; if (strlen(b) != n) return "contains a NUL byte"; char *q = strstr(b, "Epoch"); if (!q) return "no epoch";
    char *e; long ep = strtol(q + 5, &e, 10); if (e == q + 5 || ep != epoch) return "wrong epoch number"; q = e;
    for (int i = 0; i < nm * (1 + valid); i++) {
        while (*q == ' ') q++; const char *nm_ = get_metric_name(mf[i % nm]); char want[100]; snprintf(want, sizeof want, "%s%s:", i >= nm ? "val_" : "", nm_); if (strncmp(q, want, strlen(want))) return "a metric is missing or misplaced"; q += strlen(want);
        float v = strtof(q, &e), w = res[i]; if (e == q) return "a value is missing"; q = e; bool same = isnan(w) ? isnan(v) : isinf(w) ? v == w : fabs((double) v - w) <= 1e-5 * fabs(w) + 1e-44; if (!same) return "wrong value";
    }
    while (*q == ' ') q++; return *q ? "something behind the last value" : NULL;
}
static float val(int k){ static const float v[] = { 0.5f, 1.25e-3f, 0.0f, -1.0f, 3.4028235e38f, -3.4028235e38f, INFINITY, -INFINITY, NAN, 1e-45f, 12345.678f, 1e-38f }; return v[k % 12]; }
/* one epoch is one line, on the standard output and in the file */
static void lines(void)
{
    int nm = mc_thorough ? mc_range(1, 60) : mc_pick(1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 30, 60); bool longest = mc_choose(2), valid = mc_choose(2); mc_shard(); bool quiet = mc_choose(2), file = mc_choose(2); int start = mc_pick(0, 1, 999, 1000, 99999, 2147483646), v0 = mc_choose(12), custom = mc_choose(2);
    if (chdir(mc_workdir)) abort(); lg_free(); rm_opt(); mk_opt(nm, longest); if (custom) mlist[nm - 1] = own_metric; unlink("log"); float *r = malloc(4 * nm * (1 + valid)); for (int i = 0; i < nm * (1 + valid); i++) r[i] = val(v0 + i);
    mc_ctx("%d metrics%s, epoch %d", nm, valid ? " with validation" : "", start); mc_ctxkey("line"); mc_sample("%d %smetrics%s, epoch %d, values from %g", nm, longest ? "long " : "", valid ? " with validation" : "", start, val(v0)); mc_output_reset();
    lg = logger_new(LOGGER_SETTINGS(.epoch_count = start, .filename = file ? "log" : NULL, .no_stdout = quiet)); callback_run(CALLBACK(lg), opt, r, valid); fflush(NULL);
    static char out[60000]; size_t n = mc_output(out, sizeof out); const char *w;
    if (quiet) MC_CHECK(n == 0, "stdout", "printed %zu bytes though the standard output is disabled", n);
    else { MC_CHECK(n > 0 && memchr(out, '\n', n) == out + n - 1, "stdout", "printed %zu bytes, not exactly one line", n); w = line_ok(out, n - 1, start, mlist, nm, valid, r); MC_CHECK(!w, "stdout", "standard output: %s: %.200s", w, out); }
    if (file) { unsigned char *f = get_file("log", &n); MC_CHECK(n > 0 && memchr(f, '\n', n) == f + n - 1, "file-lines", "wrote %zu bytes, not exactly one line", n); w = line_ok((char*) f, n - 1, start, mlist, nm, valid, r); MC_CHECK(!w, "file", "log file: %s: %.200s", w, f); free(f); }
    else MC_CHECK(access("log", F_OK), "file", "a file was written though none is configured");
    free(r); mc_eval(1); mc_nontrivial(nm > 1); mc_trans(1);
}
static long nlog; static char *text; static size_t tlen;   /* expected content: the text so far */
static void rd_log(void){ free(text); text = (char*) get_file("log", &tlen); if (!text) { text = malloc(1); tlen = 0; } }
static size_t last_line(void){ size_t i = tlen; while (i && text[i - 1] != '\n') i--; return i; }
/* what the next run may start with: `full` the last epoch that is logged for sure (-1 none), `maybe` the number on a cut line (-2 none) */
static bool allowed(long got, long full, long maybe){ return got == full + 1 || (maybe >= 0 && got == maybe + 1); }
/* histories of runs: each logs some epochs; between runs the end of the file may be lost; the numbers continue */
static void runs(void)
{
    int nm = mc_pick(1, 4, 11, 40), first = mc_pick(0, 8, 98, 12345); bool valid = nm > 1; int nruns = 3; if (chdir(mc_workdir)) abort(); lg_free(); rm_opt(); mk_opt(nm, false); unlink("log"); float *r = malloc(4 * nm * (1 + valid)); for (int i = 0; i < nm * (1 + valid); i++) r[i] = val(i);
    long full = -1, maybe = -2; char hist[300]; int hl = 0; hist[0] = 0; mc_output_reset(); mc_ctxkey("runs");
    for (int run = 0; run < nruns; run++) {
        int k = mc_range(0, 2); hl += snprintf(hist + hl, sizeof hist - hl, " %d epochs;", k); int start = run == 0 ? first : 0; mc_ctx("%d metrics, first epoch %d:%s", nm, first, hist);
        lg = logger_new(LOGGER_SETTINGS(.epoch_count = start, .filename = "log", .no_stdout = true)); long ep = -1;
        for (int e = 0; e < k; e++) {
            rd_log(); size_t before = tlen; bool nl = !before || text[before - 1] == '\n'; callback_run(CALLBACK(lg), opt, r, valid); rd_log(); mc_trans(1);
            MC_CHECK(tlen > before + 1 && text[tlen - 1] == '\n', "line", "%s: the epoch did not append a line", hist); size_t s = before + !nl; if (!nl) MC_CHECK(text[before] == '\n', "glued", "%s: the line is appended to a partly written line", hist);
            char *end = memchr(text + s, '\n', tlen - s); MC_CHECK(end == text + tlen - 1, "line", "%s: the epoch appended more than one line", hist); char *q = memmem(text + s, tlen - s, "Epoch", 5); MC_CHECK(q, "line", "%s: no epoch", hist); long got = strtol(q + 5, NULL, 10);
            if (e == 0 && run == 0 && start) MC_CHECK(got == start, "start", "%s: first epoch is %ld, not %d", hist, got, start);
            else if (e == 0) MC_CHECK(allowed(got, full, maybe), "continue", "%s: the run starts with epoch %ld, the last logged is %ld%s", hist, got, full, maybe >= 0 ? " (and a partly written line)" : "");
            else MC_CHECK(got == ep + 1, "continue", "%s: epoch %ld follows %ld", hist, got, ep);
            const char *w = line_ok(text + s, tlen - 1 - s, got, mlist, nm, valid, r); MC_CHECK(!w, "line", "%s: %s", hist, w); ep = full = got; maybe = -2; mc_eval(1); mc_nontrivial(run > 0); mc_state(mc_hash(&(struct { long a; int b, c; }){ got - first, run, nm * 2 + nl }, 16, first));
        }
        lg_free(); if (run == 1) mc_shard(); if (run == nruns - 1) break; rd_log();
        if (tlen && text[tlen - 1] == '\n') {
            size_t s = last_line(); if (s == tlen) { tlen--; s = last_line(); tlen++; } size_t len = tlen - s; bool every = (nm == 1 && (!run || !ASANB)) || (mc_thorough && nm < 40 && (!run || nm == 1)); int cut = mc_choose(every ? len : 31); int left = every ? len - cut : cut == 30 ? (int) len - 1 : cut ? cut - 1 : (int) len; if (run && !mc_thorough && cut % 3 && left < (int) len) mc_skip();    /* bytes of the last line that remain */
            if (left < (int) len) {
                if (truncate("log", s + left)) abort(); hl += snprintf(hist + hl, sizeof hist - hl, " cut to %d bytes;", left);
                char *q = memmem(text + s, len, "Epoch", 5); char *e; strtol(q + 5, &e, 10); char *ns = q + 5; while (*ns == ' ') ns++; size_t vis = s + left;
                long prevfull = -1; { size_t t = s; size_t sv = tlen; tlen = t; if (t) { tlen = t - 1; size_t p = last_line(); tlen = sv; for (;;) { char *pq = memmem(text + p, t - p, "Epoch", 5); if (pq) { char *pe; long v = strtol(pq + 5, &pe, 10); if (pe > pq + 5 && pe < text + t) { prevfull = v; break; } } if (!p) break; t = p; size_t sv2 = tlen; tlen = p - 1; p = last_line(); tlen = sv2; } } tlen = sv; }
                maybe = text + vis > ns ? strtol(strndupa(ns, text + vis - ns), NULL, 10) : -2; bool complete = text + vis >= e; bool certain = left == (int) len - 1;
                if (certain) { full = maybe; maybe = -2; } else { full = prevfull; if (!complete && maybe < prevfull) maybe = -2; }
            }
        }
    }
    lg_free(); free(r); mc_trace(1); mc_sample("%d metrics, first epoch %d:%s", nm, first, hist);
}
/* any prior content: no crash, and no epoch in it means starting from the first */
static void contents(void)
{
    static const char *const c[] = { "", "\n", "x", "Epoch", "Epoch ", "Epoch\n", "Epoch x\n", "[12:00:00] Epoch", "[12:00:00] Epoch  ", "hello world\n", "hello\nworld", "\n\n\n", "Epoch 99999999999999999999 a\n", "Epoch 2147483647 mse: 1\n", "Epoch -5 mse: 1\n", "Epoc", "epoch 4\n", "\r\n", "Epoch 7 mse: 1.0\n", "[12:00:00] Epoch   7 mse: 1.0\nlater remark\n", "[12:00:00] Epoch   7 mse: 1.0\n\n\n" };
    static const int expect[] = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, -1, -1, -1, 0, 0, 0, 8, 8, 8 };
    int k = mc_choose(sizeof c / sizeof *c + 4), pad = 0, want; mc_shard(); if (chdir(mc_workdir)) abort(); lg_free(); rm_opt(); mk_opt(1, false); size_t n; static char b[200000];
    if (k < (int)(sizeof c / sizeof *c)) { pad = mc_pick(0, 1, 100, 230, 240, 250, 253, 254, 255, 256, 300, 510, 5000, 70000); char fill = "xo\n "[mc_choose(4)]; memset(b, fill, pad); n = pad + strlen(c[k]); memcpy(b + pad, c[k], strlen(c[k])); want = expect[k]; if (want == 0 && k == 16) want = 0; }
    else if (k == (int)(sizeof c / sizeof *c)) { n = mc_range(1, 300); memset(b, 0, n); want = 0; }                                                   /* binary */
    else if (k == (int)(sizeof c / sizeof *c) + 1) { n = mc_range(1, 300); for (size_t i = 0; i < n; i++) b[i] = 128 + i % 128; want = 0; }
    else if (k == (int)(sizeof c / sizeof *c) + 2) { int ln = mc_range(200, 560); n = sprintf(b, "[12:00:00] Epoch  41 m: 1\n[12:00:00] Epoch  42 "); while ((int) n < ln) b[n++] = "metric: 1.0 "[n % 12]; b[n++] = '\n'; want = 43; }
    else { n = sprintf(b, "[12:00:00] Epoch  41 m: 1\n"); int ln = mc_range(200, 560); n += sprintf(b + n, "%*s\n", ln, "a remark"); want = 42; }
    put_file("log", b, n); float s = 1; mc_ctx("%zu bytes of prior content, ending in '%.40s'", n, b + (n > 40 ? n - 40 : 0)); mc_ctxkey("content"); mc_sample("%zu bytes of prior content, ending in '%.20s'", n, b + (n > 20 ? n - 20 : 0)); mc_output_reset();
    lg = logger_new(LOGGER_SETTINGS(.filename = "log", .no_stdout = true)); callback_run(CALLBACK(lg), opt, &s, false); rd_log(); mc_eval(1); mc_nontrivial(n > 0); mc_trans(1);
    MC_CHECK(tlen > n && !memcmp(text, b, n), "content", "the prior content is not kept"); char *q = memmem(text + n, tlen - n, "Epoch", 5); MC_CHECK(q, "content", "no line is appended"); long got = strtol(q + 5, NULL, 10);
    if (want >= 0) MC_CHECK(got == want, "continue", "starts with epoch %ld, expected %d", got, want);
}
/* places that cannot be written */
static void places(void)
{
    if (chdir(mc_workdir)) abort(); lg_free(); rm_opt(); mk_opt(2, false); int k = mc_choose(4); mc_shard(); bool quiet = mc_choose(2); static const char *const p[] = { "missing/dir/log", ".", "/dev/full", "/dev/null" }; float r[2] = { 1, 2 }; mc_ctx("logging to %s", p[k]); mc_ctxkey("place"); mc_sample("logging to %s", p[k]); mc_output_reset(); static char out[5000];
    lg = logger_new(LOGGER_SETTINGS(.epoch_count = k == 1 ? 0 : 3, .filename = p[k], .no_stdout = quiet)); for (int e = 0; e < 3; e++) callback_run(CALLBACK(lg), opt, r, false); fflush(NULL); size_t n = mc_output(out, sizeof out); int nl = 0; for (size_t i = 0; i < n; i++) nl += out[i] == '\n'; mc_eval(1); mc_nontrivial(1);
    if (!quiet) MC_CHECK(nl == 3, "stdout", "%d lines on the standard output after three epochs", nl);
}
const mc_suite_t mc_suites[] = { { "lines", lines }, { "runs", runs }, { "contents", contents }, { "places", places }, { 0 } };
#endif

#if PART == 4
/* ---- progress of an epoch ---- */
static int calls, lastx, total, bsz; static char bad[200];
static void rec(int x, int n, const char *fmt, ...){ (void) fmt; int want = (calls + 1) * bsz > total ? total : (calls + 1) * bsz; if (!bad[0] && (x != want || n != total)) snprintf(bad, sizeof bad, "call %d reports %d of %d, expected %d of %d", calls + 1, x, n, want, total); calls++; lastx = x; }
static void epochs(void)
{
    int kind = mc_choose(4), n = mc_range(1, mc_thorough ? 60 : 33); mc_shard(); int bs = mc_range(1, n + 2), shuffle = mc_choose(2); int sz[2] = { 3, 2 }, a[1] = { A_LINEAR }; neuralnet_t *nn = mk_net(1, sz, a); fill_net_int(nn, 1, 3); neuralnet_set_loss(nn, "mse");
    optimizer_properties_t p = OPTIMIZER_PROPERTIES(.batchsize = bs, .progress = rec, .shuffle = shuffle); optimizer_t *o = kind == 0 ? OPTIMIZER(SGD_new(nn, p, SGD_PROPERTIES())) : kind == 1 ? OPTIMIZER(RMSprop_new(nn, p, RMSPROP_PROPERTIES())) : kind == 2 ? OPTIMIZER(adagrad_new(nn, p, ADAGRAD_PROPERTIES())) : OPTIMIZER(adam_new(nn, p, ADAM_PROPERTIES()));
    float *x = calloc(n * 3, 4), *y = calloc(n * 2, 4), r[4]; static const char *const kn[] = { "SGD", "RMSprop", "Adagrad", "Adam" }; mc_ctx("%s, %d samples, batch size %d", kn[kind], n, bs); mc_sample("%s, %d samples, batch size %d", kn[kind], n, bs);
    for (int e = 0; e < 2; e++) { calls = 0; total = n - (e && n > 1); bsz = bs; bad[0] = 0; optimizer_run_epoch(o, total, x, y, e ? n : 0, x, y, r); MC_CHECK(!bad[0], "progress", "epoch %d: %s", e + 1, bad); MC_CHECK(calls == (total + bs - 1) / bs && lastx == total, "progress", "epoch %d: %d calls, the last reports %d of %d", e + 1, calls, lastx, total); mc_eval(1); mc_nontrivial(n > bs); mc_trans(calls); }
    free(x); free(y); optimizer_free(o); neuralnet_free(nn);
}
/* more mini-batches than a percentage, a byte or a short holds */
static void many(void)
{
    int kind = mc_choose(4), n = mc_pick(99, 100, 101, 127, 129, 150, 199, 200, 201, 255, 256, 257, 300, 999, 1000, 1001, 1025, 2049, 10001, 32769, 65537); mc_shard(); int bs = mc_pick(1, 2, 3, 10), sz[2] = { 1, 1 }, a[1] = { A_LINEAR }; if (n > 3000 && kind == 3 && bs == 1 && n > 40000 && !mc_thorough) mc_skip(); neuralnet_t *nn = mk_net(1, sz, a); fill_net_int(nn, 1, 3); neuralnet_set_loss(nn, "mse");
    optimizer_properties_t p = OPTIMIZER_PROPERTIES(.batchsize = bs, .progress = rec); optimizer_t *o = kind == 0 ? OPTIMIZER(SGD_new(nn, p, SGD_PROPERTIES())) : kind == 1 ? OPTIMIZER(RMSprop_new(nn, p, RMSPROP_PROPERTIES())) : kind == 2 ? OPTIMIZER(adagrad_new(nn, p, ADAGRAD_PROPERTIES())) : OPTIMIZER(adam_new(nn, p, ADAM_PROPERTIES()));
    float *x = calloc(n, 4), r[4]; mc_ctx("optimizer %d, %d samples, batch size %d", kind, n, bs); mc_sample("optimizer %d, %d samples, batch size %d", kind, n, bs); calls = 0; total = n; bsz = bs; bad[0] = 0; optimizer_run_epoch(o, n, x, x, 0, NULL, NULL, r); MC_CHECK(!bad[0], "progress", "%s", bad); MC_CHECK(calls == (n + bs - 1) / bs && lastx == n, "progress", "%d calls, the last reports %d of %d", calls, lastx, n); mc_eval(1); mc_nontrivial(1); mc_trans(calls);
    free(x); optimizer_free(o); neuralnet_free(nn);
}
/* ---- the bar on a terminal ---- */
static int master = -1, slave, realout;
static void tty(void){ if (master >= 0) return; master = posix_openpt(O_RDWR | O_NOCTTY | O_NONBLOCK); if (master < 0 || grantpt(master) || unlockpt(master)) { perror("pty"); abort(); } slave = open(ptsname(master), O_RDWR | O_NOCTTY); if (slave < 0) { perror("pts"); abort(); } struct termios t; tcgetattr(slave, &t); cfmakeraw(&t); tcsetattr(slave, TCSANOW, &t); realout = dup(1); }
static char shown[70000]; static size_t nshown;
static void bar(int cols, int x, int n, const char *label)
{
    struct winsize w = { .ws_col = cols, .ws_row = 20 }; ioctl(slave, TIOCSWINSZ, &w); fflush(stdout); dup2(slave, 1); progress_ascii(x, n, "%s", label); fflush(stdout); dup2(realout, 1); nshown = 0; ssize_t k; while (nshown < sizeof shown - 1 && (k = read(master, shown + nshown, sizeof shown - 1 - nshown)) > 0) nshown += k; shown[nshown] = 0;
}
/* NULL if what is shown is a correct bar */
static const char *bar_ok(int cols, int x, int n, const char *label)
{
    static char why[200]; size_t ll = strlen(label); if (!nshown) return cols >= (int) ll + 8 ? "nothing is shown" : NULL;
    char *end = memchr(shown, '\n', nshown), *cr = memchr(shown, '\r', nshown); char *stop = end && cr ? (end < cr ? end : cr) : end ? end : cr; if (!stop) return "the line is not ended or returned"; if (stop[1] && !(stop[0] == '\r' && stop[1] == '\n' && !stop[2])) return "something behind the end of the line";
    if ((end != NULL) != (x == n)) return x == n ? "no line end at completion" : "the line is ended before completion"; int width = stop - shown; if (width > cols) { snprintf(why, sizeof why, "%d columns are printed", width); return why; }
    if (strncmp(shown, label, ll)) return "the label is missing"; char *p = shown + ll; if (*p != '[') return "no bar"; p++; int c = 0, d = 0; while (*p == '#') c++, p++; while (*p == '-') d++, p++; if (*p != ']') return "no end of the bar"; int w = c + d; char *e; long pc = strtol(p + 1, &e, 10); if (*e != '%') return "no percentage";
    long want = (long)((__int128) x * 100 / n); if (pc != want) { snprintf(why, sizeof why, "%ld%% is shown, the floor is %ld%%", pc, want); return why; }
    double exact = (double) x * w / n; if (fabs(c - exact) > 1.0 || (x == n && c != w) || (x < n && c == w && w > 0 && exact < w - 1)) { snprintf(why, sizeof why, "%d of %d columns filled, proportional is %.2f", c, w, exact); return why; }
    return NULL;
}
static void one(int cols, int x, int n, const char *label){ bar(cols, x, n, label); const char *w = bar_ok(cols, x, n, label); mc_eval(1); mc_nontrivial(nshown > 0); MC_CHECK(!w, "bar", "%d of %d on %d columns, label '%s': %s: %.120s", x, n, cols, label, w, shown); }
static void small(void){ tty(); int n = mc_range(1, mc_thorough ? 130 : 101), cols = mc_pick(80, 30, 8, 9, 120); mc_shard(); mc_ctx("%d samples, %d columns", n, cols); mc_sample("every x of %d samples on %d columns", n, cols); for (int x = 0; x <= n; x++) one(cols, x, n, ""); }
static void widths(void){ tty(); int cols = mc_range(1, mc_thorough ? 300 : 140); mc_shard(); int l = mc_pick(0, 1, 7, 20, 79, 200); char label[201]; memset(label, 'L', l); label[l] = 0; mc_ctx("%d columns, label of %d", cols, l); mc_sample("%d columns, label of %d characters", cols, l); for (int x = 0; x <= 12; x++) one(cols, x, 12, label); }
static void large(void)
{
    tty(); int n = mc_pick(1000, 999, 16777215, 16777216, 16777217, 16777219, 33554433, 60000000, 100000000, 999999999, 1073741825, INT_MAX - 1, INT_MAX), cols = mc_pick(80, 200, 1000, 3000); mc_shard(); mc_ctx("%d samples, %d columns", n, cols); mc_sample("%d samples on %d columns", n, cols);
    for (int p = 0; p <= 100; p++) for (int d = -2; d <= 2; d++) { long long x = ((long long) n * p + 99) / 100 + d; if (x < 0 || x > n) continue; if (cols > 1000 && (p % 25 || d)) continue; one(cols, (int) x, n, "Train: "); }
}
/* formats, and not a terminal */
static void other(void)
{
    int k = mc_choose(6); static const int LL[] = { 255, 256, 257, 1023, 1024, 1025, 4096, 1 << 16, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 10000000 }; int ln = k == 4 ? LL[mc_choose(12)] : k == 5 ? mc_range(0, 76) : 0, piped = k >= 4 ? mc_choose(2) : 0; mc_shard(); tty(); mc_ctx("case %d (%d characters%s)", k, ln, piped ? ", to a pipe" : ""); mc_sample("labels from formats, output to a file or pipe (case %d)", k);
    if (k >= 4) {  /* labels that are far longer than the line, or that can't be formatted: nothing overflows, and whatever is shown fits */
        char *f = malloc(ln + 30); memset(f, 'L', ln); strcpy(f + ln, k == 4 ? "%d" : ln == 70 ? "%2147483647dx" : "%lsx"); if (ln > 70) sprintf(f, "%%%dd", INT_MAX - (ln - 71)); int pfd[2] = { -1, -1 }; if (piped) { if (pipe(pfd)) abort(); fcntl(pfd[0], F_SETFL, O_NONBLOCK); }
        for (int x = 0; x <= 8; x += 4) { struct winsize w = { .ws_col = 60, .ws_row = 20 }; ioctl(slave, TIOCSWINSZ, &w); fflush(stdout); dup2(piped ? pfd[1] : slave, 1); if (k == 4 || ln >= 70) progress_ascii(x, 8, f, 1); else progress_ascii(x, 8, f, L"\x20ac"); fflush(stdout); dup2(realout, 1); nshown = 0; ssize_t r; while ((r = read(piped ? pfd[0] : master, shown + nshown, sizeof shown - 1 - nshown)) > 0) nshown += r; shown[nshown] = 0; int cols = 0; for (char *q = shown; *q && *q != '\n'; q++) { if (*q == '\r') cols = 0; else if ((*q & 0xc0) != 0x80) cols++; if (cols > 60) break; } mc_eval(1); mc_nontrivial(1); MC_CHECK(piped ? nshown == 0 : cols <= 60, piped ? "not-a-terminal" : "long-label", "a label of %d characters%s: %d columns of 60, %d bytes are shown: %.100s", ln, k == 5 ? " and what can't be formatted" : "", cols, (int) nshown, shown); }
        if (piped) close(pfd[0]), close(pfd[1]); free(f);
    } else if (k < 3) { for (int x = 0; x <= 8; x++) { struct winsize w = { .ws_col = 60, .ws_row = 20 }; ioctl(slave, TIOCSWINSZ, &w); fflush(stdout); dup2(slave, 1); if (k == 0) progress_ascii(x, 8, "Epoch %d of %s: ", 12, "many"); else if (k == 1) progress_ascii(x, 8, "100%% %5.2f ", 3.25); else progress_ascii(x, 8, ""); fflush(stdout); dup2(realout, 1); nshown = 0; ssize_t r; while ((r = read(master, shown + nshown, sizeof shown - 1 - nshown)) > 0) nshown += r; shown[nshown] = 0; const char *w2 = bar_ok(60, x, 8, k == 0 ? "Epoch 12 of many: " : k == 1 ? "100%  3.25 " : ""); mc_eval(1); mc_nontrivial(1); MC_CHECK(!w2, "label", "%d of 8: %s: %.100s", x, w2, shown); } }
    else { int pfd[2]; if (pipe(pfd)) abort(); fcntl(pfd[0], F_SETFL, O_NONBLOCK); fflush(stdout); dup2(pfd[1], 1); for (int x = 0; x <= 8; x++) progress_ascii(x, 8, "Train: "); fflush(stdout); dup2(realout, 1); char b[100]; ssize_t r = read(pfd[0], b, sizeof b); close(pfd[0]); close(pfd[1]); mc_eval(9); mc_nontrivial(1); MC_CHECK(r <= 0, "not-a-terminal", "%zd bytes are printed to a pipe", r); }
}
const mc_suite_t mc_suites[] = { { "epochs", epochs }, { "many", many }, { "small", small }, { "widths", widths }, { "large", large }, { "other", other }, { 0 } };
#endif
