/* User-supplied activations (C05): lookups of names in any order, names of every length, networks that use them. */
#include "nnref.h"
#include "alloc.h"
#include "zipref.h"
#include "optimizer_implementations.h"
#include "evaluate.h"
#include "neuralnet_predict_batch.h"
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <sys/mman.h>
#ifdef __SANITIZE_ADDRESS__
#define ASANB 1
#else
#define ASANB 0
#endif
void mc_harness_init(void){}
static char L[300]; static void setl(void){ snprintf(L, sizeof L, "%s/lib", mc_arg("root", "/tmp")); }
static bool mapped(const char *what){ FILE *f = fopen("/proc/self/maps", "r"); char b[6000]; bool r = false; while (fgets(b, sizeof b, f)) if (strstr(b, what)) r = true; fclose(f); return r; }

/* ---- names, and what they mean ---- */
typedef struct { const char *fmt; int k; float mul, add; bool res, der; char lib; } nm_t;   /* k: 0 builtin/none ... */
static const nm_t nm[] = {
    { "f@%s/a.so", 0, 2, 1, true, true, 'a' },     { "g@%s/a.so", 0, -2, 0, true, false, 'a' },
    { "f@%s/b.so", 0, 3, 1, true, true, 'b' },     { "relu@%s/b.so", 0, 1, 30, true, true, 'b' },
    { "missing@%s/b.so", 0, 1, 0, false },         { "f@%s/none.so", 0, 1, 0, false },
    { "f@%s/a@b.so", 0, 5, 1, true, true, 'c' },   { "@%s/a.so", 0, 1, 0, false },
    { "f@%s/./a.so", 0, 2, 1, true, true, 'a' },   { "f@%s/text.so", 0, 1, 0, false },
    { "f@%s", 0, 1, 0, false },                    { "u@%s/undef.so", 0, 1, 0, false },
    { "f@", 0, 1, 0, false },                      { "f%.0s", 0, 1, 0, false },
    { "%.0s", 0, 1, 0, false },                    { "@%.0s", 0, 1, 0, false },
    { "helper_@@%s/a.so", 0, 1, 0, false },        { "f@%s/a.so ", 0, 1, 0, false },
    { " f@%s/a.so", 0, 1, 0, false },              { "reluu%.0s", 0, 1, 0, false },
    { "linear%.0s", 0, 1, 0, true, true, 0 },      { "ff@%s/a.so", 0, 1, 0, false },
    { "g@%s/b.so", 0, -3, 0, true, false, 'b' },   { "f@%s/empty.so", 0, 1, 0, false },
    { "sin@%.0s", 0, 1, 0, false },
};
enum { NN = sizeof nm / sizeof *nm };
static char names[NN][400]; static void mknames(void){ setl(); for (int i = 0; i < NN; i++) snprintf(names[i], sizeof names[i], nm[i].fmt, L); }
static activation_func got[NN];
/* the network of one layer with this activation */
static void use(int k, const char *when)
{
    int sz[2] = { 9, 9 }; char *an[1] = { names[k] }; mc_output_reset(); al_pause();
    al_resume(); neuralnet_t *nn = neuralnet_create(1, sz, an); al_pause(); MC_CHECK(nn, "create", "%s: no network with activation \"%s\"", when, names[k]);
    static char out[4096]; if (!nm[k].res) MC_CHECK(mc_output(out, sizeof out) > 0, "warning", "%s: no warning about \"%s\"", when, names[k]);
    for (int i = 0; i < 9; i++) { nn->layer[0].bias[i] = 0; for (int j = 0; j < 9; j++) nn->layer[0].weight[i * 9 + j] = i == j; }
    float SIMD_ALIGN(x[16]), SIMD_ALIGN(y[16]); for (int i = 0; i < 9; i++) x[i] = i - 4; neuralnet_predict(nn, x, y);
    for (int i = 0; i < 9; i++) MC_CHECK(fabsf(y[i] - (nm[k].mul * x[i] + nm[k].add)) <= 1e-5f * (1 + fabsf(y[i])), "value", "%s: \"%s\" of %g is %g, expected %g", when, names[k], x[i], y[i], nm[k].mul * x[i] + nm[k].add);
    al_resume(); neuralnet_free(nn); al_pause(); mc_eval(1); mc_nontrivial(nm[k].res);
}
static void lookup(int k, const char *when)
{
    activation_func p = get_activation_func(names[k]); MC_CHECK(!!p == nm[k].res, "resolve", "%s: \"%s\" is %sresolved", when, names[k], p ? "" : "not ");
    if (!p) return; if (got[k]) MC_CHECK(p == got[k], "changed", "%s: \"%s\" is another function than before", when, names[k]); got[k] = p;
    const char *nmn = get_activation_name(p); bool okn = !strcmp(nmn, names[k]) || ((k == 0 || k == 8) && (!strcmp(nmn, names[0]) || !strcmp(nmn, names[8]))); MC_CHECK(okn, "name", "%s: \"%s\" is reported as \"%s\"", when, names[k], nmn);
    activation_derivative d = get_activation_derivative(p); MC_CHECK(!!d == nm[k].der, "derivative", "%s: \"%s\" has %s derivative", when, names[k], d ? "a" : "no");
    float SIMD_ALIGN(a[16]), SIMD_ALIGN(e[16]); for (int i = 0; i < 9; i++) { a[i] = i; e[i] = i + 1; }
    if (d) { d(9, a, e); for (int i = 0; i < 9; i++) MC_CHECK(fabsf(e[i] - (nm[k].add == 30 ? 1 : nm[k].mul) * (i + 1)) < 1e-4f, "derivative", "%s: the derivative of \"%s\" gives %g", when, names[k], e[i]); }
}
static int logfd[2];
static void start_log(void){ if (pipe2(logfd, O_CLOEXEC | O_NONBLOCK)) abort(); char b[20]; sprintf(b, "%d", logfd[1]); setenv("C05_LOG_FD", b, 1); }
static void lookups(void)
{
    mknames(); int depth = ASANB ? 2 : mc_thorough ? 4 : 3, seq[4]; char b[400] = "", *p = b; int na = mc_thorough || ASANB ? NN : depth == 3 ? NN : NN;
    for (int i = 0; i < depth; i++) { seq[i] = mc_choose(i >= 3 ? 12 : na); if (i == 0) mc_shard(); p += sprintf(p, "%d ", seq[i]); }
    mc_ctx("lookups: %s(first \"%s\")", b, names[seq[0]]); mc_sample("lookups \"%s\", \"%s\", ...", names[seq[0]] , names[seq[1]]);
    memset(got, 0, sizeof got); char when[60]; bool lib[256] = { 0 };
    for (int i = 0; i < depth; i++) {
        sprintf(when, "step %d", i + 1); lookup(seq[i], when); use(seq[i], when); if (nm[seq[i]].res) lib[(unsigned char) nm[seq[i]].lib] = true;
        for (int j = 0; j < i; j++) { sprintf(when, "step %d, again", i + 1); if (nm[seq[j]].res) { lookup(seq[j], when); use(seq[j], when); } }
        MC_CHECK(lib['b'] || !mapped("/lib/b.so"), "leak-library", "step %d: library b.so stays open though no name of it was resolved", i + 1); mc_trans(1); uint64_t hs = 0; for (int j = 0; j <= i; j++) if (nm[seq[j]].res) hs = hs * 31 + seq[j] + 1; mc_state(hs);
    }
}
/* nothing is kept by repeating what was done before */
static void repeated(void)
{
    mknames(); int n = 3, seq[3]; for (int i = 0; i < n; i++) { seq[i] = mc_choose(i == 2 ? 6 : NN); if (i == 0) mc_shard(); } if (ASANB && seq[1] > 2) mc_skip(); mc_ctx("repeating \"%s\", \"%s\", \"%s\"", names[seq[0]], names[seq[1]], names[seq[2]]);
    memset(got, 0, sizeof got); for (int r = 0; r < 2; r++) for (int i = 0; i < n; i++) use(seq[i], "warm-up");
    al_begin(0); for (int r = 0; r < 4; r++) for (int i = 0; i < n; i++) use(seq[i], "repeated"); long live = al_end(); MC_CHECK(live <= 0, "leak", "%ld blocks are kept by repeating the lookups of \"%s\", \"%s\", \"%s\"", live, names[seq[0]], names[seq[1]], names[seq[2]]);
}
/* at exit every library is closed once, everything else is untouched */
static void exits(void)
{
    mknames(); int n = 3, seq[3]; for (int i = 0; i < n; i++) { seq[i] = mc_choose(12); if (i == 0) mc_shard(); } mc_ctx("process end after \"%s\", \"%s\", \"%s\"", names[seq[0]], names[seq[1]], names[seq[2]]);
    start_log(); pid_t c = fork(); if (c == 0) { int dn = open("/dev/null", O_WRONLY); if (!mc_replaying()) { dup2(dn, 2); dup2(dn, 1); } for (int i = 0; i < n; i++) get_activation_func(names[seq[i]]); exit(0); }
    int st; waitpid(c, &st, 0); MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "exit", "the process ends with status %x", st); char e[200]; ssize_t r = read(logfd[0], e, sizeof e); close(logfd[0]); close(logfd[1]); int open_[256] = { 0 };
    for (ssize_t i = 0; i + 1 < r; i += 2) { int *o = &open_[(unsigned char) e[i + 1]]; *o += e[i] == '+' ? 1 : -1; MC_CHECK(*o == 0 || *o == 1, "exit", "library %c is closed twice", e[i + 1]); }
    for (int i = 0; i < 256; i++) MC_CHECK(!open_[i], "exit", "library %c is not closed", i); mc_eval(1); mc_nontrivial(r > 0);
}
/* a process that has looked nothing up yet; it loads and uses a network when told to */
typedef struct { float x[16], y[16]; int loaded; char path[600]; } fresh_t; static fresh_t *fr; static int frp[2]; static pid_t frc;
static void fresh_start(void)
{
    fr = mmap(NULL, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (pipe(frp)) abort(); fflush(stdout); fflush(stderr); frc = fork(); if (frc) { close(frp[0]); return; }
    close(frp[1]); char c; if (read(frp[0], &c, 1) != 1) _exit(0);
    neuralnet_t *b = neuralnet_load(fr->path); fr->loaded = b ? 1 : -1; if (b) { float SIMD_ALIGN(x[16]), SIMD_ALIGN(y[16]) = { 0 }; memcpy(x, fr->x, sizeof x); neuralnet_predict(b, x, y); memcpy(fr->y, y, sizeof y); neuralnet_free(b); } exit(0);
}
static void fresh_run(const char *path, const float *x)
{
    strcpy(fr->path, path); memcpy(fr->x, x, 64); if (write(frp[1], "x", 1) != 1) abort(); close(frp[1]); int st; waitpid(frc, &st, 0); MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "fresh", "a new process that loads and uses the network ends with status %x", st); MC_CHECK(fr->loaded == 1, "fresh-load", "a new process cannot load the network");
}
/* symbols of every length; library paths of every length; saved and loaded */
static void lengths(void)
{
    setl(); fresh_start(); static char name[12000]; int what = mc_choose(3), k = 1, len = 0; static const int pl[] = { 60, 62, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4000, 4090 };
    float mul = 2, add = 1; bool der = true, res = true;
    if (what == 0) { k = mc_range(1, 200); mc_shard(); memset(name, 's', k); sprintf(name + k, "@%s/syms.so", L); mul = 1 + k * 0.125f; add = 0; der = k % 3 != 0; }
    else if (what == 1) { len = mc_choose(3) == 0 ? pl[mc_choose(21)] : mc_range(60, 200); mc_shard(); int l0 = strlen(L) + 6; if (len < l0) mc_skip(); int pad = len - l0; char *q = name; q += sprintf(q, "f@%s/", L); while (pad >= 2) { *q++ = '.'; *q++ = '/'; pad -= 2; } if (pad) *q++ = '/'; strcpy(q, "a.so"); }
    else { k = mc_pick(1, 100, 255, 256, 257, 1000, 5000, 9000); int w = mc_choose(4); mc_shard(); memset(name, 'q', k); sprintf(name + k, w == 0 ? "" : w == 1 ? "@%s/a.so" : w == 2 ? "@" : "@%s/none.so", L); if (w == 3) { sprintf(name, "f@%s/", L); int l = strlen(name); memset(name + l, 'p', k); name[l + k] = 0; } res = false; mul = 1; add = 0; }
    mc_ctx("%s name of %zu characters: %.100s", res ? "resolvable" : "unresolvable", strlen(name), name); mc_sample("a name of %zu characters: %.60s...", strlen(name), name);
    activation_func f = get_activation_func(name); MC_CHECK(!!f == res, "resolve", "not %sresolved", res ? "" : "un");
    if (res) { MC_CHECK(!strcmp(get_activation_name(f), name), "name", "reported as %.300s", get_activation_name(f)); MC_CHECK(!!get_activation_derivative(f) == der, "derivative", "%s derivative", der ? "no" : "a"); }
    int pos = mc_choose(3), sz[4] = { 3, 9, 9, 2 }; char *an[3] = { "tanh", "sigmoid", "relu" }; an[pos] = name; int acts[3] = { A_TANH, A_SIGMOID, A_RELU }; acts[pos] = A_LINEAR;
    neuralnet_t *nn = neuralnet_create(3, sz, an); MC_CHECK(nn, "create", "no network"); fill_net_real(nn, 5); float SIMD_ALIGN(x[16]) = { 0.5f, -0.25f, 1 }, SIMD_ALIGN(y[16]), SIMD_ALIGN(y2[16]), SIMD_ALIGN(h[16]); neuralnet_predict(nn, x, y);
    /* by hand */
    memcpy(h, x, sizeof x); for (int l = 0; l < 3; l++) { float o[16]; for (int j = 0; j < sz[l + 1]; j++) { double z = nn->layer[l].bias[j]; for (int i = 0; i < sz[l]; i++) z += (double) h[i] * nn->layer[l].weight[i * sz[l + 1] + j]; o[j] = l == pos ? mul * z + add : ref_act1(acts[l], z); } memcpy(h, o, sizeof o); }
    for (int j = 0; j < 2; j++) MC_CHECK(fabsf(y[j] - h[j]) <= 1e-4f * (1 + fabsf(h[j])), "value", "prediction %g instead of %g", y[j], h[j]);
    char path[600]; snprintf(path, sizeof path, "%s/n.npz", mc_workdir); neuralnet_save(nn, "%s", path); neuralnet_t *b = neuralnet_load(path); MC_CHECK(b, "load", "the saved network does not load");
    for (int l = 0; l < 3; l++) MC_CHECK(b->layer[l].activation_func == nn->layer[l].activation_func, "saved-name", "layer %d is loaded with activation %.200s", l, get_activation_name(b->layer[l].activation_func)); neuralnet_predict(b, x, y2); MC_CHECK(!memcmp(y, y2, 8), "saved", "the loaded network predicts something else");
    neuralnet_free(b);
    fresh_run(path, x); for (int j = 0; j < 2; j++) MC_CHECK(fabsf(fr->y[j] - y[j]) <= 1e-6f * (1 + fabsf(y[j])), "fresh", "a new process predicts %g instead of %g", fr->y[j], y[j]);
    unlink(path); neuralnet_free(nn); mc_eval(1); mc_nontrivial(res);
}
/* networks of user-supplied and built-in activations behave alike */
static const int tw[] = { A_TANH, A_SIGMOID, A_RELU, A_LINEAR, A_SOFTPLUS, A_SOFTSIGN, A_EXP };
static void nets(void)
{
    setl(); static const int S[] = { 1, 3, 8, 9, 17 }; int n = mc_range(1, 3), acts[3], sz[4]; char *an[3]; static char nb[3][400]; int usr[3], any = 0; sz[0] = S[1 + mc_choose(3)]; mc_shard();
    for (int l = 0; l < n; l++) { int a = mc_choose(n == 3 ? 3 : 7); acts[l] = tw[a]; usr[l] = mc_choose(2); any |= usr[l]; sz[l + 1] = n == 3 ? S[1 + (a + l) % 3] : S[mc_choose(n == 1 ? 5 : 3)]; if (usr[l]) snprintf(nb[l], sizeof nb[l], "u_%s@%s/a.so", act_names[acts[l]], L); an[l] = usr[l] ? nb[l] : (char*) act_names[acts[l]]; }
    if (!any) mc_skip(); int loss = mc_pick(L_MSE, L_MAE);
    mc_ctx("%d layers %d,%d.. activations %.20s %.20s %.20s loss %s", n, sz[0], sz[1], an[0], n > 1 ? an[1] : "", n > 2 ? an[2] : "", loss_names[loss]); mc_sample("%d layers, activations %.12s %.12s %.12s", n, an[0], n > 1 ? an[1] : "", n > 2 ? an[2] : "");
    neuralnet_t *nn = neuralnet_create(n, sz, an); MC_CHECK(nn, "create", "no network"); fill_net_real(nn, n * 7 + sz[1]); neuralnet_set_loss(nn, loss_names[loss]); int no = sz[n], ni = sz[0], B = 3;
    fbuf_t x = fb_new(B * ni, 0), y = fb_new(B * no, 0), o = fb_new(B * no, 0); for (int i = 0; i < B * ni; i++) x.d[i] = rval(i + 77); for (int i = 0; i < B * no; i++) y.d[i] = rval(i + 991) * 2;
    double xd[3][32], yd[3][32]; for (int s = 0; s < B; s++) { for (int i = 0; i < ni; i++) xd[s][i] = x.d[s * ni + i]; for (int j = 0; j < no; j++) yd[s][j] = y.d[s * no + j]; }
    neuralnet_predict_batch(nn, B, x.d, o.d); static double all[200], err[200], g[2000], mg[2000]; int tot = nn_sum_outputs(nn);
    for (int s = 0; s < B; s++) { ref_forward(nn, acts, NULL, xd[s], all, err); for (int j = 0; j < no; j++) MC_CHECK(fabs(o.d[s * no + j] - all[tot - no + j]) <= err[tot - no + j] + 1e-6, "predict", "sample %d output %d is %.9g, expected %.9g", s, j, o.d[s * no + j], all[tot - no + j]); }
    unsigned np = neuralnet_total_n_parameters(nn); fbuf_t gr = fb_new(np, 0); static float SIMD_ALIGN(xs[64]), SIMD_ALIGN(ys[64]); memcpy(xs, x.d, 4 * ni); memcpy(ys, y.d, 4 * no); neuralnet_backpropagation(nn, xs, ys, gr.d); bool kink; ref_backprop(nn, acts, loss, NULL, xd[0], yd[0], g, mg, &kink);
    if (!kink) for (unsigned k = 0; k < np; k++) MC_CHECK(fabs(gr.d[k] - g[k]) <= 2e-5 * mg[k] + 1e-5 * fabs(g[k]) + 1e-7, "gradient", "derivative %u is %.9g, expected %.9g", k, gr.d[k], g[k]); MC_CHECK(fb_intact(&gr) && fb_intact(&o), "oob", "memory around the results was written");
    /* one step of gradient descent */
    static double p0[2000]; { int q = 0; for (int l = 0; l < n; l++) { for (int j = 0; j < sz[l + 1]; j++) p0[q++] = nn->layer[l].bias[j]; for (int k = 0; k < sz[l] * sz[l + 1]; k++) p0[q++] = nn->layer[l].weight[k]; } }
    float res[8]; optimizer_t *opt = OPTIMIZER(SGD_new(nn, OPTIMIZER_PROPERTIES(.batchsize = 1, .shuffle = false, .progress = NULL), SGD_PROPERTIES(.learning_rate = 0.5f))); optimizer_run_epoch(opt, 1, xs, ys, 0, NULL, NULL, res); optimizer_free(opt);
    if (!kink) { int q = 0; for (int l = 0; l < n; l++) { for (int j = 0; j < sz[l + 1]; j++, q++) MC_CHECK(fabs(nn->layer[l].bias[j] - (p0[q] - 0.5 * g[q])) <= 2e-5 * mg[q] + 1e-5 * fabs(g[q]) + 1e-6, "train", "bias %d of layer %d is %g after a step, expected %g", j, l, nn->layer[l].bias[j], p0[q] - 0.5 * g[q]); for (int k = 0; k < sz[l] * sz[l + 1]; k++, q++) MC_CHECK(fabs(nn->layer[l].weight[k] - (p0[q] - 0.5 * g[q])) <= 2e-5 * mg[q] + 1e-5 * fabs(g[q]) + 1e-6, "train", "weight %d of layer %d is %g after a step, expected %g", k, l, nn->layer[l].weight[k], p0[q] - 0.5 * g[q]); } }
    char path[600]; snprintf(path, sizeof path, "%s/n.npz", mc_workdir); neuralnet_save(nn, "%s", path); neuralnet_t *b = neuralnet_load(path); MC_CHECK(b, "load", "the saved network does not load"); for (int l = 0; l < n; l++) MC_CHECK(b->layer[l].activation_func == nn->layer[l].activation_func && !memcmp(b->layer[l].weight, nn->layer[l].weight, 4 * sz[l] * sz[l + 1]), "saved", "layer %d is loaded differently (%s)", l, get_activation_name(b->layer[l].activation_func));
    neuralnet_free(b); neuralnet_free(nn); fb_free(&x); fb_free(&y); fb_free(&o); fb_free(&gr); mc_eval(1); mc_nontrivial(!kink);
}
/* files that name activations which are not there (any more) */
static void copy(const char *from, const char *to){ size_t n; unsigned char *f = get_file(from, &n); if (!f) abort(); put_file(to, f, n); free(f); }
static void files(void)
{
    mknames(); fresh_start(); static char own[3][700]; char lf[3][660]; for (int i = 0; i < 2; i++) { snprintf(lf[i], 660, "%s/own%d.so", mc_workdir, i); copy(names[i * 2] + 2, lf[i]); } snprintf(own[0], 700, "f@%s", lf[0]); snprintf(own[1], 700, "g@%s", lf[0]); snprintf(own[2], 700, "f@%s", lf[1]);
    int n = mc_range(1, 3), k[3], sz[4] = { 4, 4, 4, 4 }; char *an[3]; for (int l = 0; l < n; l++) { k[l] = mc_choose(4); an[l] = k[l] < 3 ? own[k[l]] : "tanh"; } int gone = mc_choose(4); mc_ctx("%d layers with activations %.50s %d %d, %s before loading", n, an[0], n > 1 ? k[1] : -1, n > 2 ? k[2] : -1, gone ? gone == 1 ? "first library removed" : gone == 2 ? "second library removed" : "first library replaced by another one" : "nothing removed"); mc_sample("%d layers, variant %d", n, gone);
    neuralnet_t *nn = neuralnet_create(n, sz, an); MC_CHECK(nn, "create", "no network"); fill_net_real(nn, 3); char path[600]; snprintf(path, sizeof path, "%s/n.npz", mc_workdir); neuralnet_save(nn, "%s", path);
    if (gone == 1) unlink(lf[0]); if (gone == 2) unlink(lf[1]); if (gone == 3) { unlink(lf[0]); copy(names[2] + 2, lf[0]); }
    float SIMD_ALIGN(x[16]) = { 1, -1, 0.5f, 0.25f }; float h[4]; memcpy(h, x, 16);
    for (int l = 0; l < n; l++) { float o[4]; for (int j = 0; j < 4; j++) { double v = nn->layer[l].bias[j]; for (int i = 0; i < 4; i++) v += (double) h[i] * nn->layer[l].weight[i * 4 + j]; float fac = gone == 3 ? 3 : 2; o[j] = k[l] == 3 ? tanh(v) : (gone == 1 && k[l] < 2) || (gone == 2 && k[l] == 2) ? v : k[l] == 0 ? fac * v + 1 : k[l] == 1 ? -fac * v : 3 * v + 1; } memcpy(h, o, 16); }
    fresh_run(path, x); for (int j = 0; j < 4; j++) MC_CHECK(fabsf(fr->y[j] - h[j]) <= 1e-4f * (1 + fabsf(h[j])), "fresh", "a new process predicts %g instead of %g", fr->y[j], h[j]);
    float SIMD_ALIGN(y[16]), SIMD_ALIGN(y2[16]); neuralnet_predict(nn, x, y); neuralnet_t *b = neuralnet_load(path); MC_CHECK(b, "load", "not loaded"); neuralnet_predict(b, x, y2); MC_CHECK(!memcmp(y, y2, 16), "saved", "the loaded network predicts something else although everything is known already"); neuralnet_free(b); neuralnet_free(nn); unlink(path); unlink(lf[0]); unlink(lf[1]); mc_eval(1); mc_nontrivial(1);
}
/* every allocation of a lookup fails in turn; afterwards the name resolves */
static void faults(void)
{
    mknames(); int k = mc_choose(12), pre = mc_pick(-1, 0, 2); mc_shard(); memset(got, 0, sizeof got); if (pre >= 0) lookup(pre, "before"); int at = mc_range(1, 12); mc_ctx("allocation %d fails in the lookup of \"%s\"%s", at, names[k], pre < 0 ? "" : " after another one");
    int any = mc_choose(2); al_any(any); al_begin(at); activation_func f = get_activation_func(names[k]); bool hit = al_failed(); al_end(); al_any(0); if (!hit) mc_skip();
    if (f) { float SIMD_ALIGN(y[16]); for (int i = 0; i < 9; i++) y[i] = i; MC_CHECK(nm[k].res, "resolve", "\"%s\" is resolved", names[k]); f(9, y); for (int i = 0; i < 9; i++) MC_CHECK(y[i] == nm[k].mul * i + nm[k].add, "value", "wrong value %g", y[i]); }
    if (pre >= 0) { lookup(pre, "after"); use(pre, "after"); } if (!any) lookup(k, "retried"); use(k, any ? "retried" : "retried"); mc_eval(1); mc_nontrivial(1);
}
const mc_suite_t mc_suites[] = { { "lookups", lookups, MC_FORK }, { "repeated", repeated, MC_FORK }, { "exits", exits, MC_FORK }, { "lengths", lengths, MC_FORK }, { "nets", nets }, { "files", files, MC_FORK }, { "faults", faults, MC_FORK }, { 0 } };
