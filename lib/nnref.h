/* nnref.h - independent double-precision reference of what the library documents. */
#ifndef NNREF_H
#define NNREF_H
#include <math.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "neuralnet.h"
#include "activation.h"
#include "loss.h"
#include "metrics.h"
#include "simd.h"
#include "mc.h"

/* Names are passed in memory that is used again for the next one: the library may look at them only during the call. */
#ifndef NN_PLAIN_NAMES
static __thread char nn_name_[300];
static inline const char *nn_name(const char *s){ if (!s) return s; int i = 0; while (s[i] && i < 299) i++; if (s[i]) return s; for (int k = 0; k <= i; k++) ((volatile char*) nn_name_)[k] = s[k]; return nn_name_; }
#define neuralnet_set_loss(n, s) neuralnet_set_loss(n, nn_name(s))
#define get_activation_func(s) get_activation_func(nn_name(s))
#define get_loss_func(s) get_loss_func(nn_name(s))
#define get_metric_func(s) get_metric_func(nn_name(s))
#endif

enum { A_SIGMOID, A_TANH, A_RELU, A_LINEAR, A_SOFTPLUS, A_SOFTSIGN, A_HARD, A_EXP, A_SOFTMAX, A_N };
static const char *const act_names[A_N] = { "sigmoid", "tanh", "relu", "linear", "softplus", "softsign", "hard_sigmoid", "exponential", "softmax" };

static inline double ref_act1(int a, double x)
{
    switch (a) {
    case A_SIGMOID:  return 1.0 / (1.0 + exp(-x));
    case A_TANH:     return tanh(x);
    case A_RELU:     return x > 0 ? x : 0.0;
    case A_LINEAR:   return x;
    case A_SOFTPLUS: return (x > 0 ? x : 0.0) + log1p(exp(-fabs(x)));
    case A_SOFTSIGN: return isinf(x) ? (x > 0 ? 1.0 : -1.0) : x / (1.0 + fabs(x));
    case A_HARD:     return x < -2.5 ? 0.0 : x > 2.5 ? 1.0 : 0.2 * x + 0.5;
    case A_EXP:      return exp(x);
    }
    return NAN;
}
/* slope as a function of the activation's own output */
static inline double ref_slope(int a, double y)
{
    switch (a) {
    case A_SIGMOID:  return y * (1.0 - y);
    case A_TANH:     return 1.0 - y * y;
    case A_RELU:     return y > 0 ? 1.0 : 0.0;
    case A_LINEAR:   return 1.0;
    case A_SOFTPLUS: return -expm1(-y);
    case A_SOFTSIGN: return (1.0 - fabs(y)) * (1.0 - fabs(y));
    case A_HARD:     return y <= 0.0 || y >= 1.0 ? 0.0 : 0.2;
    case A_EXP:      return y;
    }
    return 1.0;
}
static inline void ref_softmax(int n, double *v)
{
    double m = v[0], s = 0;
    for (int i = 1; i < n; i++) if (v[i] > m) m = v[i];
    for (int i = 0; i < n; i++) { v[i] = exp(v[i] - m); s += v[i]; }
    for (int i = 0; i < n; i++) v[i] /= s;
}
static inline void ref_act(int a, int n, double *v)
{
    if (a == A_SOFTMAX) ref_softmax(n, v);
    else for (int i = 0; i < n; i++) v[i] = ref_act1(a, v[i]);
}
static inline double act_lip(int a, double z, double err)
{
    switch (a) {
    case A_SIGMOID: return 0.25;
    case A_HARD: return 0.2;
    case A_EXP: return exp(z + err);
    }
    return 1.0;
}
#define EPS_F 5.9604645e-8     /* 2^-24 */

/* Forward pass. a[] (per layer outputs, concatenated) and err[] (rigorous bound on the float result's error)
 * may be NULL. Returns through out/oerr the last layer. `par` optionally overrides the parameters
 * (documented order: per layer bias, weights). */
static inline void ref_forward(const neuralnet_t *nn, const int *acts, const double *par, const double *x, double *all, double *allerr)
{
    int maxn = nn->layer[0].n_input;
    for (int l = 0; l < nn->n_layers; l++) if (nn->layer[l].n_output > maxn) maxn = nn->layer[l].n_output;
    double *in = malloc(sizeof(double) * maxn * 2), *ie = in + maxn;
    for (int i = 0; i < nn->layer[0].n_input; i++) { in[i] = x[i]; ie[i] = 0; }
    double *o = all, *e = allerr;
    for (int l = 0; l < nn->n_layers; l++) {
        int ni = nn->layer[l].n_input, no = nn->layer[l].n_output;
        for (int j = 0; j < no; j++) {
            double b = par ? par[j] : nn->layer[l].bias[j];
            double z = b, mag = fabs(b), er = 0;
            for (int i = 0; i < ni; i++) {
                double w = par ? par[no + (size_t)i*no + j] : nn->layer[l].weight[(size_t)i*no + j];
                z += w * in[i]; mag += fabs(w * in[i]); er += fabs(w) * ie[i];
            }
            o[j] = z; e[j] = er + (ni + 3) * 2 * EPS_F * mag;
        }
        double me = 0;
        if (acts[l] == A_SOFTMAX) for (int j = 0; j < no; j++) if (e[j] > me) me = e[j];
        for (int j = 0; j < no; j++) {
            if (acts[l] == A_SOFTMAX) e[j] = me;
            else e[j] = e[j] * act_lip(acts[l], o[j], e[j]);
        }
        ref_act(acts[l], no, o);
        for (int j = 0; j < no; j++) {
            if (acts[l] == A_SOFTMAX) e[j] = 2 * e[j] * (o[j] + 1e-7) + 4e-6 * o[j] + 1e-12;
            else if (acts[l] != A_LINEAR && acts[l] != A_RELU) e[j] += 4e-7 + 2e-6 * fabs(o[j]);
        }
        if (par) par += no + (size_t)ni * no;
        for (int j = 0; j < no; j++) { in[j] = o[j]; ie[j] = e[j]; }
        o += no; e += no;
    }
    free(in);
}
static inline int nn_sum_outputs(const neuralnet_t *nn){ int s = 0; for (int i = 0; i < nn->n_layers; i++) s += nn->layer[i].n_output; return s; }

enum { L_MSE, L_MAE, L_MAPE, L_BCE, L_CCE, L_N };
static const char *const loss_names[L_N] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "binary_crossentropy", "categorical_crossentropy" };
/* gradient of the loss w.r.t. predictions (cross-entropies: w.r.t. the pre-activation of the matching output) */
static inline double ref_loss_grad(int l, int n, double p, double y)
{
    switch (l) {
    case L_MSE: return 2.0 * (p - y) / n;
    case L_MAE: return (p >= y ? 1.0 : -1.0) / n;
    case L_MAPE: return (p >= y ? 100.0 : -100.0) / (fmax(fabs(y), 1e-7) * n);
    case L_BCE: return (p - y) / n;
    case L_CCE: return p - y;
    }
    return NAN;
}
static inline bool pairing_ok(int loss, int act)
{
    if (loss == L_BCE) return act == A_SIGMOID;
    if (loss == L_CCE) return act == A_SOFTMAX;
    return act != A_SOFTMAX;
}

/* Backward pass in double: g (documented order) and mag (sum of magnitudes, for tolerances).
 * kink is set if the result is not well defined because some value sits on a kink. */
static inline void ref_backprop(const neuralnet_t *nn, const int *acts, int loss, const double *par, const double *x, const double *y, double *g, double *mag, bool *kink)
{
    int L = nn->n_layers, tot = nn_sum_outputs(nn);
    double *all = malloc(sizeof(double) * tot * 4), *err = all + tot, *d = err + tot, *dm = d + tot;
    ref_forward(nn, acts, par, x, all, err);
    *kink = false;
    int off[L]; long poff[L]; int o = 0; long p = 0;
    for (int l = 0; l < L; l++) { off[l] = o; poff[l] = p; o += nn->layer[l].n_output; p += (long)(nn->layer[l].n_input + 1) * nn->layer[l].n_output; }
    for (int l = L - 1; l >= 0; l--) {
        int no = nn->layer[l].n_output, ni = nn->layer[l].n_input;
        double *a = all + off[l], *e = err + off[l], *D = d + off[l], *M = dm + off[l];
        if (l == L - 1) {
            for (int j = 0; j < no; j++) {
                if ((loss == L_MAE || loss == L_MAPE) && fabs(a[j] - y[j]) <= 4 * e[j]) *kink = true;
                D[j] = ref_loss_grad(loss, no, a[j], y[j]);
                M[j] = fabs(D[j]) + (loss == L_MSE ? 2.0/no : loss == L_BCE ? 1.0/no : loss == L_CCE ? 1.0 : 0) * (e[j] / 1e-5 + fabs(a[j]) * 1e-1);
            }
        } else {
            int no2 = nn->layer[l+1].n_output;
            for (int j = 0; j < no; j++) {
                double s = 0, m = 0;
                for (int k = 0; k < no2; k++) {
                    double w = par ? par[poff[l+1] + no2 + (long)j*no2 + k] : nn->layer[l+1].weight[(long)j*no2 + k];
                    s += w * d[off[l+1] + k]; m += fabs(w) * dm[off[l+1] + k];
                }
                D[j] = s; M[j] = m * (1 + no2 * 2 * EPS_F / 1e-5);      /* (long sums lose more) */
            }
        }
        bool skip = l == L - 1 && (loss == L_BCE || loss == L_CCE);
        if (!skip) for (int j = 0; j < no; j++) {
            if (acts[l] == A_RELU && fabs(a[j]) <= 4 * e[j]) { double z = 0; (void) z; if (a[j] > 0 || e[j] > 0) { /* recompute pre-activation distance below */ } }
            double s = ref_slope(acts[l], a[j]);
            D[j] *= s;
            M[j] *= fabs(s) + (acts[l] == A_RELU || acts[l] == A_LINEAR || acts[l] == A_HARD ? 0 : 0.05 + e[j] / 1e-5);
        }
        for (int j = 0; j < no; j++) {
            g[poff[l] + j] = D[j]; mag[poff[l] + j] = M[j];
            for (int i = 0; i < ni; i++) {
                double in = l ? all[off[l-1] + i] : x[i];
                double ie = l ? err[off[l-1] + i] : 0;
                g[poff[l] + no + (long)i*no + j] = in * D[j];
                mag[poff[l] + no + (long)i*no + j] = (fabs(in) + ie / 1e-5 * 0.1) * M[j];
            }
        }
    }
    /* kinks of relu / hard_sigmoid: pre-activation too close to a corner */
    {
        int maxn = nn->layer[0].n_input; for (int l = 0; l < L; l++) if (nn->layer[l].n_output > maxn) maxn = nn->layer[l].n_output;
        for (int l = 0; l < L; l++) {
            if (acts[l] != A_RELU && acts[l] != A_HARD) continue;
            int no = nn->layer[l].n_output, ni = nn->layer[l].n_input;
            for (int j = 0; j < no; j++) {
                double b = par ? par[poff[l] + j] : nn->layer[l].bias[j], z = b, m = fabs(b), er = 0;
                for (int i = 0; i < ni; i++) {
                    double in = l ? all[off[l-1] + i] : x[i], ie = l ? err[off[l-1] + i] : 0;
                    double w = par ? par[poff[l] + no + (long)i*no + j] : nn->layer[l].weight[(long)i*no + j];
                    z += w * in; m += fabs(w * in); er += fabs(w) * ie;
                }
                er += (ni + 3) * 2 * EPS_F * m;
                if (acts[l] == A_RELU && fabs(z) <= 2 * er) *kink = true;
                if (acts[l] == A_HARD && (fabs(z - 2.5) <= 2 * er + 1e-5 || fabs(z + 2.5) <= 2 * er + 1e-5)) *kink = true;
            }
        }
    }
    free(all);
}

static inline double ref_metric(const char *name, int n, const float *p, const float *y)
{
    double s = 0; const double eps = 1e-7f;
    if (!strcmp(name, "mean_squared_error") || !strcmp(name, "mse")) { for (int i = 0; i < n; i++) s += ((double)p[i]-y[i])*((double)p[i]-y[i]); return s / n; }
    if (!strcmp(name, "mean_absolute_error") || !strcmp(name, "mae")) { for (int i = 0; i < n; i++) s += fabs((double)p[i]-y[i]); return s / n; }
    if (!strcmp(name, "mean_absolute_percentage_error") || !strcmp(name, "mape")) { for (int i = 0; i < n; i++) s += fabs((double)p[i]-y[i]) / fmax(fabs((double)y[i]), eps); return 100.0 * s / n; }
    if (!strcmp(name, "binary_crossentropy")) {
        for (int i = 0; i < n; i++) { double c = fmin(fmax(p[i], eps), (double)(1.0f - (float)eps)); s += y[i]*log(c) + (1.0-y[i])*log(1.0-c); } return -s / n; }
    if (!strcmp(name, "categorical_crossentropy")) {
        for (int i = 0; i < n; i++) { double c = fmin(fmax(p[i], eps), (double)(1.0f - (float)eps)); s += y[i]*log(c); } return -s / n; }
    if (!strcmp(name, "binary_accuracy")) {
        for (int i = 0; i < n; i++) { double a = round(fmin(fmax(y[i],0),1)), b = round(fmin(fmax(p[i],0),1)); s += a == b; } return s / n; }
    if (!strcmp(name, "categorical_accuracy")) {
        int a = 0, b = 0; for (int i = 1; i < n; i++) { if (y[i] > y[a]) a = i; if (p[i] > p[b]) b = i; } return a == b; }
    return NAN;
}

/* deterministic small values */
static inline uint32_t h32(uint32_t x){ x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; x ^= x >> 16; return x; }
static inline float ival(uint32_t k, int lim){ return (float)((int)(h32(k) % (2*lim+1)) - lim); }   /* integer in [-lim,lim] */
static inline float rval(uint32_t k){ return ((int)(h32(k) % 2001) - 1000) / 1000.0f; }

static inline neuralnet_t *mk_net(int L, const int *sizes, const int *acts)
{
    char *an[L + 1]; int sz[L + 1];
    for (int i = 0; i < L; i++) an[i] = (char*) act_names[acts[i]];
    an[L] = NULL;
    memcpy(sz, sizes, sizeof sz);
#ifndef NN_PLAIN_NAMES
    static __thread char buf[64][24]; if (L <= 64) for (int i = 0; i < L; i++) { const char *s = an[i]; for (int k = 0; k < 24; k++) { ((volatile char*) buf[i])[k] = *s; if (*s) s++; } an[i] = buf[i]; }
    neuralnet_t *nn = neuralnet_create(L, sz, an); if (L <= 64) for (int i = 0; i < L; i++) ((volatile char*) buf[i])[0] = '?';
    return nn;
#else
    return neuralnet_create(L, sz, an);
#endif
}
static inline void fill_net_int(neuralnet_t *nn, uint32_t seed, int lim)
{
    for (int l = 0; l < nn->n_layers; l++) {
        int no = nn->layer[l].n_output, ni = nn->layer[l].n_input;
        for (int j = 0; j < no; j++) nn->layer[l].bias[j] = ival(seed + 7919*l + j, lim);
        for (long k = 0; k < (long)ni * no; k++) nn->layer[l].weight[k] = ival(seed * 31 + 104729*l + k + 1000003, lim);
    }
}
static inline void fill_net_real(neuralnet_t *nn, uint32_t seed)
{
    for (int l = 0; l < nn->n_layers; l++) {
        int no = nn->layer[l].n_output, ni = nn->layer[l].n_input;
        float sc = 1.5f / sqrtf(ni);
        for (int j = 0; j < no; j++) nn->layer[l].bias[j] = 0.3f * rval(seed + 7919*l + j);
        for (long k = 0; k < (long)ni * no; k++) nn->layer[l].weight[k] = sc * rval(seed * 31 + 104729*l + k + 1000003);
    }
}
/* Sizes at which a counter or buffer of any width overflows: 2^k-1, 2^k, 2^k+1 within the limits. */
static inline int scale_pick(int lo, int hi)
{
    int v[100], n = 0;
    for (int k = 1; k < 31; k++) for (int d = -1; d <= 1; d++) { long x = (1L << k) + d; if (x >= lo && x <= hi && (!n || v[n-1] < x)) v[n++] = (int) x; }
    return v[mc_choose(n)];
}
/* Every unit passes on one input, with either sign, plus a small integer: exact at every depth. */
static inline void fill_net_pass(neuralnet_t *nn, uint32_t seed)
{
    for (int l = 0; l < nn->n_layers; l++) {
        int no = nn->layer[l].n_output, ni = nn->layer[l].n_input;
        memset(nn->layer[l].weight, 0, sizeof(float) * (size_t) ni * no);
        for (int j = 0; j < no; j++) {
            nn->layer[l].bias[j] = ival(seed + 7919*l + j, 1);
            nn->layer[l].weight[(size_t)(j % ni) * no + j] = h32(seed + 31*l + j) & 1 ? 1.0f : -1.0f;
        }
        if (ni > no) for (int i = no; i < ni; i++) nn->layer[l].weight[(size_t) i * no + i % no] = h32(seed + 17*l + i) & 1 ? 1.0f : -1.0f;
    }
}
static inline uint64_t hash_net(const neuralnet_t *nn)
{
    uint64_t h = nn->n_layers;
    for (int l = 0; l < nn->n_layers; l++) {
        const layer_t *y = &nn->layer[l];
        h = mc_hash(&y->n_input, sizeof(int), h); h = mc_hash(&y->n_output, sizeof(int), h);
        h = mc_hash(y->bias, sizeof(float) * y->n_output, h);
        h = mc_hash(y->weight, sizeof(float) * y->n_input * y->n_output, h);
        h = mc_hash(&y->activation_func, sizeof(void*), h);
        h = mc_hash(&y->activation_derivative, sizeof(void*), h);
    }
    h = mc_hash(&nn->loss, sizeof(void*), h);
    return h;
}

/* A float buffer with canaries: data starts `off` floats after a 64-byte boundary. Heap exact at the end, so
 * that AddressSanitizer builds detect overruns too. */
typedef struct { char *base; float *d; int n; int off; } fbuf_t;
#define CANARY 0x7fc0dead
static inline fbuf_t fb_new(int n, int off)
{
    fbuf_t b; b.n = n; b.off = off;
    size_t front = 64 + 4 * (size_t) off;
#ifdef __SANITIZE_ADDRESS__
    size_t back = 0;
#else
    size_t back = 128;
#endif
    void *p = NULL;
    if (posix_memalign(&p, 64, front + 4 * (size_t) n + back)) abort();
    b.base = p; b.d = (float*)(b.base + front);
    uint32_t *u = p;
    for (size_t i = 0; i < front / 4; i++) u[i] = CANARY;
    for (size_t i = 0; i < (size_t) n; i++) ((uint32_t*)b.d)[i] = CANARY + 1;   /* NaN */
    for (size_t i = 0; i < back / 4; i++) ((uint32_t*)(b.d + n))[i] = CANARY;
    return b;
}
static inline bool fb_intact(const fbuf_t *b)
{
    const uint32_t *u = (const uint32_t*) b->base;
    size_t front = (64 + 4 * (size_t) b->off) / 4;
    for (size_t i = 0; i < front; i++) if (u[i] != CANARY) return false;
#ifndef __SANITIZE_ADDRESS__
    u = (const uint32_t*)(b->d + b->n);
    for (size_t i = 0; i < 32; i++) if (u[i] != CANARY) return false;
#endif
    return true;
}
static inline void fb_free(fbuf_t *b){ free(b->base); b->base = NULL; }
#endif
