/* Archives: network round trip (S01), array lists (S03), foreign networks (S04), damaged archives (S06). */
#include "nnref.h"
#include "alloc.h"
#include "zipref.h"
#include "npy_array_list.h"
#include "neuralnet_predict_batch.h"
#include <sys/wait.h>
static char path[600];
void mc_harness_init(void){}
static void setpath(void){ if (!path[0]) snprintf(path, sizeof path, "%s/a.npz", mc_workdir); }
#ifdef __SANITIZE_ADDRESS__
#define ASANB 1
#else
#define ASANB 0
#endif
static const uint32_t special[] = { 0x7fc00001, 0xff800000, 0x80000000, 0x00000001, 0x7f7fffff, 0x7f800000, 0x807fffff, 0x00000000, 0xffc0dead, 0x7f800001, 0x3f800000, 0xbf000000 };
enum { NSP = 12 };
static void bits(float *p, uint32_t b){ memcpy(p, &b, 4); }
static void fill_bits(neuralnet_t *nn, unsigned seed){ for (int l = 0; l < nn->n_layers; l++) { int no = nn->layer[l].n_output, ni = nn->layer[l].n_input; for (int j = 0; j < no; j++) bits(&nn->layer[l].bias[j], h32(seed + l * 97 + j)); for (long k = 0; k < (long) ni * no; k++) bits(&nn->layer[l].weight[k], h32(seed * 13 + l * 7001 + k + 5000)); } }
static void same_net(const neuralnet_t *a, const neuralnet_t *b, const char *how)
{
    MC_CHECK(b, "not-loaded", "%s: not loaded", how);
    MC_CHECK(a->n_layers == b->n_layers, "layers", "%s: %d layers instead of %d", how, b->n_layers, a->n_layers);
    for (int l = 0; l < a->n_layers; l++) {
        const layer_t *x = &a->layer[l], *y = &b->layer[l];
        MC_CHECK(x->n_input == y->n_input && x->n_output == y->n_output, "sizes", "%s: layer %d is %d->%d instead of %d->%d", how, l, y->n_input, y->n_output, x->n_input, x->n_output);
        MC_CHECK(x->activation_func == y->activation_func, "activation", "%s: layer %d has activation %s instead of %s", how, l, get_activation_name(y->activation_func), get_activation_name(x->activation_func));
        MC_CHECK(is_aligned(y->weight) && is_aligned(y->bias), "alignment", "%s: layer %d is not aligned", how, l);
        MC_CHECK(!memcmp(x->bias, y->bias, 4 * x->n_output), "bias", "%s: biases of layer %d differ", how, l);
        MC_CHECK(!memcmp(x->weight, y->weight, 4 * (size_t) x->n_output * x->n_input), "weight", "%s: weights of layer %d differ", how, l);
    }
}
/* the file at p must be a valid archive describing nn */
static void check_file(const char *p, const neuralnet_t *nn)
{
    size_t n; unsigned char *f = get_file(p, &n); MC_CHECK(f, "no-file", "no file at %s", p);
    static ze_t z[2200]; const char *why; int k = zip_parse(f, n, z, 2200, &why); MC_CHECK(k >= 0, "not-zip", "the file is not a valid archive: %s", why);
    int L = nn->n_layers; MC_CHECK(k == 2 * L + 1, "entries", "%d entries for %d layers", k, L);
    int seen = 0;
    for (int i = 0; i < k; i++) {
        nf_t r; const char *w = nf_parse(z[i].data, z[i].n, &r, true); MC_CHECK(!w, "not-npy", "entry '%s': %s", z[i].name, w);
        MC_CHECK(z[i].n == r.off + r.bytes, "not-npy", "entry '%s' has %zu bytes", z[i].name, z[i].n);
        if (r.type != 'f') continue;
        layer_t *y = &nn->layer[seen / 2]; int isb = seen & 1; seen++;
        MC_CHECK(r.elem == 4 && r.endian == '<' && !r.fortran && r.ndim == 2 - isb, "not-npy", "entry '%s' is no float32 %s", z[i].name, isb ? "vector" : "matrix");
        MC_CHECK(isb ? r.shape[0] == y->n_output : r.shape[0] == y->n_input && r.shape[1] == y->n_output, "shape", "entry '%s': wrong shape", z[i].name);
        MC_CHECK(!memcmp(z[i].data + r.off, isb ? y->bias : y->weight, r.bytes), "bytes", "entry '%s': other values than the network's", z[i].name);
    }
    MC_CHECK(seen == 2 * L, "entries", "%d float arrays for %d layers", seen, L);
    zip_free(z, k); free(f);
}
#if PART == 1
static void save_load(neuralnet_t *nn)
{
    setpath(); int fds = open_fds(); uint64_t h = hash_net(nn);
    for (int rep = 0; ; rep++) {
        al_begin(0);
        neuralnet_save(nn, path);
        neuralnet_t *b = neuralnet_load(path);
        al_pause();
        MC_CHECK(hash_net(nn) == h, "modified", "saving modified the network");
        same_net(nn, b, "loaded network");
        MC_CHECK(!b->loss, "loss", "a loaded network has a loss already");
        int ni = nn->layer[0].n_input, no = nn->layer[nn->n_layers-1].n_output;
        fbuf_t x = fb_new(ni, 0), o1 = fb_new(no, 0), o2 = fb_new(no, 0); for (int i = 0; i < ni; i++) x.d[i] = ival(i, 3);
        neuralnet_predict(nn, x.d, o1.d); neuralnet_predict(b, x.d, o2.d);
        for (int i = 0; i < no; i++) MC_CHECK(!memcmp(o1.d + i, o2.d + i, 4) || (isnan(o1.d[i]) && isnan(o2.d[i])), "prediction", "output %d is %g instead of %g", i, o2.d[i], o1.d[i]);
        fb_free(&x); fb_free(&o1); fb_free(&o2);
        al_resume(); neuralnet_free(b);
        long left = al_end(); if (left > 0 && !rep) continue;
        MC_CHECK(left <= 0, "leak", "%ld blocks leaked", left); break;
    }
    MC_CHECK(open_fds() == fds, "leak-fd", "a file is left open");
    check_file(path, nn);
    mc_eval(1); mc_nontrivial(1);
}
static void shapes(void)
{
    static const int al[] = { 1, 5, 16, 2, 33, 100, 8, 3 };
    int L = mc_range(1, 3), na = L == 1 ? 8 : L == 2 ? 6 : mc_thorough ? 6 : 4, sz[4], ac[3]; for (int i = 0; i <= L; i++) { sz[i] = al[mc_choose(na)]; if (i == 1) mc_shard(); }
    int a0 = mc_choose(9); for (int i = 0; i < L; i++) ac[i] = (a0 + 4 * i + i * i) % 9;
    mc_ctx("sizes %d,%d,%d,%d first activation %s", sz[0], sz[1], L > 1 ? sz[2] : 0, L > 2 ? sz[3] : 0, act_names[a0]); mc_sample("sizes %d,%d,.. %s", sz[0], sz[1], act_names[a0]);
    neuralnet_t *nn = mk_net(L, sz, ac); fill_bits(nn, a0 + 1); save_load(nn); neuralnet_free(nn);
}
static void activations(void)
{
    int L = mc_range(1, 4), sz[5] = { 3, 2, 4, 2, 3 }, ac[4]; for (int i = 0; i < L; i++) { ac[i] = mc_choose(L == 4 ? (mc_thorough ? 9 : 5) : 9); if (i == 1) mc_shard(); }
    mc_ctx("%d layers, activations %s %s %s %s", L, act_names[ac[0]], L > 1 ? act_names[ac[1]] : "", L > 2 ? act_names[ac[2]] : "", L > 3 ? act_names[ac[3]] : "");
    neuralnet_t *nn = mk_net(L, sz, ac); fill_net_int(nn, 3, 4); save_load(nn); neuralnet_free(nn);
}
static void values(void)       /* every special bit pattern at every parameter, in pairs */
{
    int sz[3] = { 3, 4, 2 }, ac[2] = { A_LINEAR, A_LINEAR }; neuralnet_t *nn = mk_net(2, sz, ac); fill_net_int(nn, 1, 3); int n = neuralnet_total_n_parameters(nn);
    int at = mc_choose(n), v = mc_choose(NSP); mc_shard(); int at2 = mc_choose(mc_thorough ? n : 5), v2 = mc_choose(mc_thorough ? NSP : 4); at2 = mc_thorough ? at2 : at2 * 5 % n;
    float *p[64]; int k = 0; for (int l = 0; l < 2; l++) { for (int j = 0; j < nn->layer[l].n_output; j++) p[k++] = &nn->layer[l].bias[j]; for (int j = 0; j < nn->layer[l].n_output * nn->layer[l].n_input; j++) p[k++] = &nn->layer[l].weight[j]; }
    bits(p[at2], special[v2]); bits(p[at], special[v]);
    mc_ctx("parameter %d = %08x, parameter %d = %08x", at2, special[v2], at, special[v]);
    save_load(nn); neuralnet_free(nn);
}
static void deep(void)
{
    int L = mc_pick(5, 9, 10, 11, 33, 99, 100, 101, 130, 255, 256), w = mc_choose(3); int sz[300], ac[300]; for (int i = 0; i <= L; i++) sz[i] = w == 0 ? 1 : w == 1 ? 1 + i % 4 : 7; for (int i = 0; i < L; i++) ac[i] = i % 9;
    mc_ctx("%d layers", L); neuralnet_t *nn = mk_net(L, sz, ac); fill_net_real(nn, L); save_load(nn); neuralnet_free(nn);
}
static void large(void)
{
    int a = mc_pick(1, 255, 1000, 3000), b = mc_pick(1, 257, 1024, 2999), ac[1] = { A_LINEAR }, sz[2] = { a, b }; mc_ctx("%d -> %d", a, b);
    neuralnet_t *nn = mk_net(1, sz, ac); fill_bits(nn, 3); save_load(nn); neuralnet_free(nn);
}
static void names(void)        /* formatted names and the length limit; the target is created, nothing else */
{
    int ac[1] = { A_TANH }, sz[2] = { 2, 3 }; neuralnet_t *nn = mk_net(1, sz, ac); fill_net_int(nn, 1, 3);
    char want[700], dir[600]; snprintf(dir, sizeof dir, "%s/d", mc_workdir); mkdir(dir, 0755); if (chdir(dir)) abort();
    int k = mc_choose(10), len = 0; mc_output_reset();
    mc_ctx("name kind %d", k);
    switch (k) {
    case 0: neuralnet_save(nn, "e%d-%s-%.2f.npz", -17, "x", 1.5); strcpy(want, "e-17-x-1.50.npz"); break;
    case 1: neuralnet_save(nn, "100%%s.npz"); strcpy(want, "100%s.npz"); break;
    case 2: neuralnet_save(nn, "%s", "a%d%n%s.npz"); strcpy(want, "a%d%n%s.npz"); break;
    case 3: case 4: len = mc_range(120, 135); memset(want, 'q', len); want[len] = 0; mc_ctx("name of %d characters", len); if (k == 3) neuralnet_save(nn, want); else neuralnet_save(nn, "%s%0*d", "q", len - 1, 0); if (k == 4) { memset(want, '0', len); want[0] = 'q'; } break;
    case 5: neuralnet_save(nn, "%c%c%05ld%%", 'a', 'b', 42L); strcpy(want, "ab00042%"); break;
    case 7: len = 999; neuralnet_save(nn, "%2147483647dx", 1); break;     /* these can't be formatted */
    case 8: case 9: len = 999; { int l = k == 8 ? 1 : mc_range(1, 140); memset(want, 'q', l); strcpy(want + l, "%lsx"); mc_ctx("%d characters and one that has no form in the locale", l); neuralnet_save(nn, want, L"\x20ac"); } break;
    case 6: neuralnet_save(nn, "./%s/%s.z", ".", "q"); strcpy(want, "q.z"); break;
    }
    int n = 0; DIR *d = opendir("."); struct dirent *e; char got[300] = ""; while ((e = readdir(d))) if (e->d_name[0] != '.') { n++; strcpy(got, e->d_name); } closedir(d);
    static char out[2000]; fflush(NULL); mc_output(out, sizeof out);
    if (len > 128) MC_CHECK(n == 0 && strstr(out, "arning"), "limit", "a name of %d characters (999: that can't be formatted) was not refused with a warning (%d files)", len, n);
    else { MC_CHECK(n == 1 && !strcmp(got, want), "name", "saved as '%s' instead of '%s' (%d files)", got, want, n); neuralnet_t *b = neuralnet_load(want); same_net(nn, b, "loaded network"); neuralnet_free(b); unlink(want); }
    neuralnet_free(nn); if (chdir(mc_workdir)) abort(); mc_eval(1); mc_nontrivial(1);
}
static void replace(void)      /* whatever was at the path before is replaced, by every sequence of saves */
{
    setpath(); int ac[4] = { A_TANH, A_RELU, A_SIGMOID, A_LINEAR }, szs[3][5] = { { 2, 3 }, { 4, 5, 6, 2, 1 }, { 200, 150, 3 } }, Ls[3] = { 1, 4, 2 };
    int pre = mc_choose(6); unlink(path); static char junk[50000];
    if (pre == 1) put_file(path, "", 0); else if (pre == 2) { memset(junk, 'x', sizeof junk); put_file(path, junk, sizeof junk); } else if (pre == 3) put_file(path, "PK\5\6\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 22);
    else if (pre == 4) { zw_t w = { 0 }; zw_add(&w, "activations", "abc", 3, 0); zw_add(&w, "other", "abc", 3, 0); zw_end(&w); put_file(path, w.b, w.n); zw_free(&w); } else if (pre == 5) put_file(path, "PK\3\4 truncated archive", 22);
    mc_ctx("previous content %d", pre);
    for (int s = 0; s < (mc_thorough ? 4 : 3); s++) {
        int k = mc_choose(3); neuralnet_t *nn = mk_net(Ls[k], szs[k], ac); fill_net_int(nn, s + k, 4); neuralnet_save(nn, path);
        neuralnet_t *b = neuralnet_load(path); same_net(nn, b, "loaded network"); check_file(path, nn);
        int n = 0; DIR *d = opendir(mc_workdir); struct dirent *e; while ((e = readdir(d))) if (!strncmp(e->d_name, "a.npz", 5)) n++; closedir(d); MC_CHECK(n == 1, "litter", "%d files left by saving", n);
        neuralnet_free(b); neuralnet_free(nn); mc_eval(1); mc_nontrivial(1);
    }
}
static void refused(void)
{
    int k = mc_choose(5), ac[1] = { A_TANH }, sz[2] = { 2, 3 }; neuralnet_t *nn = mk_net(1, sz, ac); int fds = open_fds(); uint64_t h = hash_net(nn);
    mc_ctx("impossible save %d", k); mc_output_reset();
    if (k == 0) neuralnet_save(NULL, "x"); else if (k == 1) neuralnet_save(nn, NULL); else if (k == 2) neuralnet_save(nn, "%s/no/such/dir/x.npz", mc_workdir); else if (k == 3) neuralnet_save(nn, "%s", mc_workdir); else neuralnet_save(nn, "");
    static char out[2000]; fflush(NULL); mc_output(out, sizeof out); MC_CHECK(out[0], "silent", "nothing was reported");
    MC_CHECK(open_fds() == fds && hash_net(nn) == h, "state", "files left open or the network changed");
    MC_CHECK(!neuralnet_load("/nonexistent/x") && !neuralnet_load(mc_workdir), "accepted", "something that is no file was loaded");
    neuralnet_free(nn); mc_eval(1);
}
static void numpy_reads(void)
{
    char d[600], p[900]; snprintf(d, sizeof d, "%s/np", mc_workdir); mkdir(d, 0755); snprintf(p, sizeof p, "%s/manifest", d); FILE *m = fopen(p, "w"); int k = 0;
    for (int L = 1; L <= 3; L++) for (int a = 0; a < 5; a++) for (int b = 0; b < 4; b++) {
        static const int al[] = { 1, 5, 16, 33, 7 }; int sz[4] = { al[a], al[b], al[(a + b) % 5], al[(a + 2) % 5] }, ac[3] = { a, b + 4, (a + b) % 9 }; neuralnet_t *nn = mk_net(L, sz, ac); fill_bits(nn, k);
        snprintf(p, sizeof p, "%s/%d.npz", d, k); neuralnet_save(nn, "%s/%d.npz", d, k);
        fprintf(m, "npz %d 0", k);
        for (int l = 0; l < L; l++) { fprintf(m, " weight_%d bias_%d", l, l); snprintf(p, sizeof p, "%s/%d.weight_%d.bin", d, k, l); put_file(p, nn->layer[l].weight, 4 * sz[l] * sz[l+1]); snprintf(p, sizeof p, "%s/%d.bias_%d.bin", d, k, l); put_file(p, nn->layer[l].bias, 4 * sz[l+1]); }
        int w = 0; for (int l = 0; l < L; l++) if ((int) strlen(act_names[ac[l]]) > w) w = strlen(act_names[ac[l]]); char nb[100]; memset(nb, 0, sizeof nb); for (int l = 0; l < L; l++) memcpy(nb + l * w, act_names[ac[l]], strlen(act_names[ac[l]]));
        fprintf(m, " activations\n"); snprintf(p, sizeof p, "%s/%d.activations.bin", d, k); put_file(p, nb, w * L); neuralnet_free(nn); k++;
    }
    fclose(m); char cmd[1600]; snprintf(cmd, sizeof cmd, "python3-vt %s/tools/np_check.py %s", mc_arg("verif", "/verif"), d);
    mc_output_reset(); int rc = system(cmd); static char out[2000]; mc_output(out, sizeof out);
    MC_CHECK(WIFEXITED(rc) && WEXITSTATUS(rc) <= 1 && strstr(out, "checked"), "harness", "NumPy could not be run: %s", out); MC_CHECK(rc == 0, "numpy-disagrees", "%s", out);
    snprintf(cmd, sizeof cmd, "rm -r %s", d); system(cmd); mc_trace(k); mc_eval(k); mc_nontrivial(k);
}
static bool ro_try(const char *p){ neuralnet_t *n = neuralnet_load(p); bool ok = n && n->n_layers == 2 && n->layer[0].weight[1] == ival(6, 5); neuralnet_free(n); return ok; }
static void readonly(void)     /* reading needs no permission to write */
{
    mc_shard(); setpath(); int s[3] = { 2, 3, 1 }, ac[2] = { A_TANH, A_RELU }; neuralnet_t *nn = mk_net(2, s, ac); nn->layer[0].weight[1] = ival(6, 5); unlink(path); neuralnet_save(nn, path); neuralnet_free(nn); size_t n; unsigned char *f = get_file(path, &n); if (!f) mc_skip(); mc_ctx("a network that cannot be written"); mc_sample("a network that cannot be written");
    int r = read_only(mc_workdir, "a.npz", f, n, ro_try); free(f); if (r < 0) mc_skip(); MC_CHECK(!r, "read-only", "the network is not loaded from a file without write permission"); mc_eval(1); mc_nontrivial(1);
}
static void scale(void)        /* depth and widths at every power of two, one off on either side */
{
    int what = mc_choose(3), v = scale_pick(3, what ? (ASANB ? 4097 : mc_thorough ? (1 << 20) + 1 : (1 << 18) + 1) : ASANB ? 129 : mc_thorough ? 1025 : 513); mc_shard();
    int L = what ? 2 : v, *sz = malloc(sizeof(int) * (2 * L + 1)), *ac = sz + L + 1; for (int i = 0; i <= L; i++) sz[i] = 1 + i % 4; if (what) sz[what - 1] = v; for (int i = 0; i < L; i++) ac[i] = (i * 5 + i / 9) % 9;
    mc_ctx("%d layers, sizes %d,%d,..", L, sz[0], sz[1]); mc_sample("%d layers, sizes %d,%d,..", L, sz[0], sz[1]);
    neuralnet_t *nn = mk_net(L, sz, ac); if (what) fill_bits(nn, v); else fill_net_pass(nn, v); save_load(nn); neuralnet_free(nn); free(sz);
}
const mc_suite_t mc_suites[] = { { "scale", scale }, { "read-only", readonly }, { "shapes", shapes }, { "activations", activations }, { "values", values }, { "deep", deep }, { "large", large }, { "names", names }, { "replace", replace }, { "refused", refused }, { "numpy-reads", numpy_reads }, { 0 } };
#endif
#if PART == 3
static npy_array_t *mk_arr(int k)      /* arrays of different kinds, told apart by their contents */
{
    npy_array_t *a = calloc(1, sizeof *a); static const struct { char t; int e, nd; size_t sh[3]; bool fo; } v[] = { { 'f', 4, 1, { 3 } }, { 'S', 5, 1, { 2 } }, { 'f', 8, 2, { 2, 3 }, true }, { 'i', 1, 0 }, { 'u', 2, 2, { 0, 4 } }, { 'f', 4, 2, { 20, 30 } } };
    int q = k % 6; a->typechar = v[q].t; a->elem_size = v[q].e; a->ndim = v[q].nd; memcpy(a->shape, v[q].sh, 24); a->fortran_order = v[q].fo; size_t n = v[q].e; for (int i = 0; i < v[q].nd; i++) n *= v[q].sh[i];
    a->data = malloc(n + 1); for (size_t i = 0; i < n; i++) a->data[i] = k * 10 + i; return a;
}
static void same_arr(const npy_array_t *a, const npy_array_t *b, int i)
{
    MC_CHECK(a->typechar == b->typechar && a->elem_size == b->elem_size && a->ndim == b->ndim && a->fortran_order == b->fortran_order, "contents", "array %d has another type", i);
    for (int k = 0; k < a->ndim; k++) MC_CHECK(a->shape[k] == b->shape[k], "contents", "array %d has another shape", i);
    MC_CHECK(!memcmp(a->data, b->data, npy_array_calculate_datasize(a)), "contents", "array %d has other bytes", i);
}
static npy_array_t *copy_arr(const npy_array_t *a){ npy_array_t *b = malloc(sizeof *b); *b = *a; size_t n = npy_array_calculate_datasize(a); b->data = memcpy(malloc(n + 1), a->data, n); return b; }
enum { MAXL = 1100 };
typedef struct { npy_array_t *a[MAXL]; char name[MAXL][400]; int n; } model_t;
static void m_add(model_t *m, bool front, npy_array_t *a, const char *name){ int at = front ? 0 : m->n; for (int i = m->n; i > at; i--) { m->a[i] = m->a[i-1]; strcpy(m->name[i], m->name[i-1]); } m->a[at] = a; strcpy(m->name[at], name); m->n++; }
static void m_check(const model_t *m, npy_array_list_t *l)
{
    MC_CHECK((int) npy_array_list_length(l) == m->n, "length", "length %zu instead of %d", npy_array_list_length(l), m->n);
    int i = 0; for (npy_array_list_t *p = l; p; p = p->next, i++) {
        MC_CHECK(i < m->n, "order", "too many elements"); MC_CHECK(p->array == m->a[i], "order", "another array at position %d", i);
        if (i == 0) { uint64_t h = m->n; for (int k = 0; k < m->n; k++) { h = mc_hash(m->name[k], strlen(m->name[k]) + 1, h); h = mc_hash(m->a[k]->shape, 8 * m->a[k]->ndim, h + m->a[k]->typechar + 256 * m->a[k]->elem_size); } mc_state(h); }
        if (strlen(m->name[i]) <= 80) MC_CHECK(p->filename && !strcmp(p->filename, m->name[i]), "name", "position %d is named '%s' instead of '%s'", i, p->filename ? p->filename : "(none)", m->name[i]);
    }
}
/* saves and reads back; duplicate names may be dropped but then must not be counted */
static void m_save(const model_t *m, npy_array_list_t *l, int comp, const char *to)
{
    int fds = open_fds(); mc_output_reset();
    int r = comp < 0 ? npy_array_list_save(to, l) : npy_array_list_save_compressed(to, l, comp, 0);
    MC_CHECK(open_fds() == fds, "leak-fd", "a file is left open");
    static char want[MAXL][400]; static const npy_array_t *wa[MAXL]; int k = 0;
    for (int i = 0; i < m->n; i++) { bool dup = false; for (int j = 0; j < k; j++) if (!strcmp(want[j], m->name[i])) dup = true; if (dup) continue; strcpy(want[k], m->name[i]); wa[k++] = m->a[i]; }
    size_t n; unsigned char *f = get_file(to, &n); MC_CHECK(f, "no-file", "nothing was written");
    static ze_t z[MAXL]; const char *why; int got = zip_parse(f, n, z, MAXL, &why); MC_CHECK(got >= 0, "not-zip", "not a valid archive: %s", why);
    MC_CHECK(r == got, "count", "%d reported as saved, %d in the archive", r, got); MC_CHECK(got == k, "missing", "%d arrays in the archive instead of %d", got, k);
    static char out[4000]; fflush(NULL); mc_output(out, sizeof out); if (k < m->n) MC_CHECK(out[0], "silent", "an array was dropped without a word");
    for (int i = 0; i < k; i++) {
        if (strlen(want[i]) <= 80) MC_CHECK(!strcmp(z[i].name, want[i]), "name", "entry %d is named '%s' instead of '%s'", i, z[i].name, want[i]);
        else MC_CHECK(z[i].name[0] && strlen(z[i].name) <= 80, "name", "entry %d of a too long name is named '%s'", i, z[i].name);
        int want_m = comp < 0 ? 0 : comp; if (z[i].n && (z[i].method != want_m)) mc_fail("compression", "entry %d is stored with method %d instead of %d", i, z[i].method, want_m);
        nf_t h; const char *w = nf_parse(z[i].data, z[i].n, &h, true); MC_CHECK(!w, "not-npy", "entry %d: %s", i, w);
        MC_CHECK(h.type == wa[i]->typechar && h.elem == wa[i]->elem_size && h.ndim == wa[i]->ndim && h.fortran == wa[i]->fortran_order && z[i].n == h.off + h.bytes && !memcmp(z[i].data + h.off, wa[i]->data, h.bytes), "contents", "entry %d has other contents", i);
    }
    npy_array_list_t *b = npy_array_list_load(to); MC_CHECK((int) npy_array_list_length(b) == k, "length", "%zu arrays read back instead of %d", npy_array_list_length(b), k);
    int i = 0; for (npy_array_list_t *p = b; p; p = p->next, i++) { MC_CHECK(p->filename && !strcmp(p->filename, z[i].name), "name", "array %d is read back as '%s'", i, p->filename ? p->filename : "(none)"); same_arr(wa[i], p->array, i); }
    if (b) npy_array_list_free(b); zip_free(z, got); free(f); MC_CHECK(open_fds() == fds, "leak-fd", "a file is left open"); mc_eval(1); mc_nontrivial(1); mc_trans(1);
}
static void ops(void)          /* every sequence of appends and prepends, saved after every step */
{
    setpath(); int depth = mc_range(1, mc_thorough ? 8 : 6); npy_array_list_t *l = NULL; static model_t m; m.n = 0; static const char *const nm[] = { "arr", "b_%d", "arr" };
    static npy_array_list_t *old; al_begin(0);
    for (int s = 0; s < depth; s++) {
        int op = mc_choose(4); if (s == 2) mc_shard(); npy_array_t *a = mk_arr(s + depth); char name[100];
        if (op & 2) snprintf(name, sizeof name, "same"); else snprintf(name, sizeof name, "n%d_%s.npy", s, "x");
        if (op == 0) l = npy_array_list_append(l, a, "n%d_%s.npy", s, "x"); else if (op == 1) l = npy_array_list_prepend(l, a, "n%d_%s.npy", s, "x"); else if (op == 2) l = npy_array_list_append(l, a, "same"); else l = npy_array_list_prepend(l, a, "%s", "same");
        al_pause(); m_add(&m, op & 1, a, name); m_check(&m, l); mc_trans(1); al_resume();
    }
    m_save(&m, l, depth & 1 ? -1 : 8, path); m_check(&m, l);
    npy_array_list_free(l); al_end();
}
static void leaks(void)
{
    setpath(); int depth = mc_range(0, 3), comp = mc_choose(3) - 1, where = mc_choose(2); static const char *const nm[] = { "a", "a", "b", "c" }; mc_ctx("%d arrays, compression %d, %s", depth, comp, where ? "unwritable" : "writable");
    for (int rep = 0; ; rep++) {
        al_begin(0); npy_array_list_t *l = NULL; for (int i = 0; i < depth; i++) l = npy_array_list_append(l, mk_arr(i), nm[i]);
        char p[700]; snprintf(p, sizeof p, where ? "%s/no/dir" : "%s/leak.npz", mc_workdir); int r = npy_array_list_save_compressed(p, l, comp == -1 ? 8 : comp == 1 ? 77 : 0, 0);
        if (where || comp == 1 || !depth) MC_CHECK(r == 0, "false-success", "%d arrays reported as saved", r); npy_array_list_t *b = where || r == 0 ? NULL : npy_array_list_load(p); if (b) npy_array_list_free(b); if (l) npy_array_list_free(l);
        long left = al_end(); if (left > 0 && !rep) continue; MC_CHECK(left <= 0, "leak", "%ld blocks leaked", left); break;
    }
    mc_eval(1);
}
static void name_forms(void)   /* names: every length around the limit, format characters, other scripts, empty */
{
    setpath(); static model_t m; m.n = 0; npy_array_list_t *l = NULL; char name[400]; int k = mc_choose(60), pos = mc_choose(3), pre = mc_choose(2), comp = mc_choose(2) ? 8 : 0;
    static const char *const sp[] = { "%s%n%d", "100%", "a/b/c.npy", "../x", "\xc3\xa6\xc3\xb8\xc3\xa5", "a b", "weird\\name", "\"q\"", "%", "x.npy" };
    if (k < 10) strcpy(name, sp[k]); else { int len = k < 50 ? 60 + k - 10 : (int[]){ 1, 2, 10, 120, 127, 128, 200, 250, 255, 256 }[k - 50]; memset(name, 'n', len); name[len] = 0; }
    mc_ctx("name of %zu characters, position %d", strlen(name), pos); mc_sample("name '%.20s' (%zu characters) at %d", name, strlen(name), pos);
    for (int i = 0; i < 3; i++) { npy_array_t *a = mk_arr(i + k); char o[20]; sprintf(o, "o%d", i); if (pre) { l = i == pos ? npy_array_list_prepend(l, a, "%s", name) : npy_array_list_prepend(l, a, "o%d", i); } else l = i == pos ? npy_array_list_append(l, a, "%s", name) : npy_array_list_append(l, a, "o%d", i); m_add(&m, pre, a, i == pos ? name : o); }
    m_check(&m, l); m_save(&m, l, comp, path); npy_array_list_free(l);
}
static void unformed(void)     /* names that can't be formatted are replaced like those that are too long */
{
    setpath(); static model_t m; m.n = 0; npy_array_list_t *l = NULL; int k = mc_choose(40), pos = mc_choose(3), pre = mc_choose(2); char f[300], name[400]; memset(name, 'n', 300); name[300] = 0; mc_shard();
    int c = k < 10 ? k + 1 : 60 + k; memset(f, 'f', c); strcpy(f + c, "%lsx"); if (k == 0) strcpy(f, "%2147483647dx"); mc_ctx("name '%s' that can't be formatted, position %d", f, pos); mc_sample("name '%s' that can't be formatted, position %d", f, pos);
    for (int i = 0; i < 3; i++) { npy_array_t *a = mk_arr(i + k); char o[20]; sprintf(o, "o%d", i); npy_array_list_t *(*add)(npy_array_list_t*, npy_array_t*, const char*, ...) = pre ? npy_array_list_prepend : npy_array_list_append; if (i != pos) l = add(l, a, "o%d", i); else if (k == 0) l = add(l, a, f, 1); else l = add(l, a, f, L"\x20ac"); m_add(&m, pre, a, i == pos ? name : o); }
    m_check(&m, l); m_save(&m, l, k & 1 ? 8 : 0, path); npy_array_list_free(l);
}
static void generated(void)    /* several too long names, next to names that look like generated ones */
{
    setpath(); static model_t m; m.n = 0; npy_array_list_t *l = NULL; char name[400]; int n = mc_range(1, 4);
    for (int i = 0; i < n; i++) { npy_array_t *a = mk_arr(i); if (mc_choose(2)) { memset(name, 'a' + i, 90 + i); name[90 + i] = 0; } else sprintf(name, "m%d", i); l = npy_array_list_append(l, a, "%s", name); m_add(&m, 0, a, name); }
    m_check(&m, l); m_save(&m, l, -1, path); m_save(&m, l, 8, path); npy_array_list_free(l);
}
static void targets(void)      /* writing over anything, or where nothing can be written */
{
    setpath(); static model_t m; m.n = 0; npy_array_list_t *l = NULL; for (int i = 0; i < 3; i++) { npy_array_t *a = mk_arr(i); char o[20]; sprintf(o, "o%d", i); l = npy_array_list_append(l, a, "o%d", i); m_add(&m, 0, a, o); }
    char p[700]; int k = mc_choose(7), comp = mc_pick(-1, 8, 0); mc_ctx("target %d, compression %d", k, comp); unlink(path);
    if (k == 0 || k == 1) { snprintf(p, sizeof p, k ? "%s/no/such" : "%s", mc_workdir); mc_output_reset(); int r = comp < 0 ? npy_array_list_save(p, l) : npy_array_list_save_compressed(p, l, comp, 0); MC_CHECK(r == 0, "false-success", "%d reported as saved", r); }
    else if (k == 2) { put_file(path, "keep", 4); int r = npy_array_list_save_compressed(path, l, 77, 0); MC_CHECK(r == 0, "false-success", "%d reported as saved with an unknown compression", r); size_t n; unsigned char *f = get_file(path, &n); MC_CHECK(f && n == 4, "destroyed", "the previous file was destroyed"); free(f); }
    else { if (k == 4) put_file(path, "", 0); if (k == 5) { static char junk[9999]; put_file(path, junk, sizeof junk); } if (k == 6) { zw_t w = { 0 }; zw_add(&w, "o1", "abc", 3, 0); zw_add(&w, "old", "abc", 3, 8); zw_end(&w); put_file(path, w.b, w.n); zw_free(&w); } m_save(&m, l, comp, path); }
    MC_CHECK(npy_array_list_save(path, NULL) == 0, "false-success", "an empty list was saved");
    npy_array_list_free(l); mc_eval(1);
}
static void sizes(void)        /* many and large arrays, all compressions */
{
    setpath(); static model_t m; m.n = 0; npy_array_list_t *l = NULL; int n = mc_pick(1, 2, 11), e = mc_pick(0, 1, 4000, 65536, 300000), comp = mc_pick(-1, 8, 0), rnd = mc_choose(2); mc_ctx("%d arrays of %d bytes", n, e);
    for (int i = 0; i < n; i++) { npy_array_t *a = calloc(1, sizeof *a); a->typechar = 'u'; a->elem_size = 1; a->ndim = 1; a->shape[0] = e; a->data = malloc(e + 1); for (int k = 0; k < e; k++) a->data[k] = rnd ? h32(k + i) : i; char o[20]; sprintf(o, "arr_%d.npy", i); l = npy_array_list_append(l, a, "arr_%d.npy", i); m_add(&m, 0, a, o); }
    m_save(&m, l, comp, path); npy_array_list_free(l);
}
static void numpy_reads(void)
{
    char d[600], p[900]; snprintf(d, sizeof d, "%s/np", mc_workdir); mkdir(d, 0755); snprintf(p, sizeof p, "%s/manifest", d); FILE *mf = fopen(p, "w"); int k = 0;
    for (int n = 1; n <= 5; n++) for (int c = 0; c < 2; c++) for (int s = 0; s < 6; s++) {
        npy_array_list_t *l = NULL; fprintf(mf, "npz %d %d", k, c ? 8 : 0);
        for (int i = 0; i < n; i++) { npy_array_t *a = mk_arr(i + s); if (a->fortran_order) a->fortran_order = false; l = npy_array_list_append(l, a, "e_%d_%d", k, i); fprintf(mf, " e_%d_%d", k, i); snprintf(p, sizeof p, "%s/%d.e_%d_%d.bin", d, k, k, i); put_file(p, a->data, npy_array_calculate_datasize(a)); }
        fprintf(mf, "\n"); snprintf(p, sizeof p, "%s/%d.npz", d, k); MC_CHECK(npy_array_list_save_compressed(p, l, c ? 8 : 0, 0) == n, "count", "not all saved"); npy_array_list_free(l); k++;
    }
    fclose(mf); char cmd[1600]; snprintf(cmd, sizeof cmd, "python3-vt %s/tools/np_check.py %s", mc_arg("verif", "/verif"), d);
    mc_output_reset(); int rc = system(cmd); static char out[2000]; mc_output(out, sizeof out);
    MC_CHECK(WIFEXITED(rc) && WEXITSTATUS(rc) <= 1 && strstr(out, "checked"), "harness", "NumPy could not be run: %s", out); MC_CHECK(rc == 0, "numpy-disagrees", "%s", out);
    snprintf(cmd, sizeof cmd, "rm -r %s", d); system(cmd); mc_trace(k); mc_eval(k); mc_nontrivial(k);
}
static model_t big;
static void many(void)         /* long lists, made in either direction, with too long names, equal names, names that look generated */
{
    setpath(); model_t *m = &big; m->n = 0; npy_array_list_t *l = NULL; int v = scale_pick(3, ASANB ? 257 : mc_thorough ? 1025 : 513), kind = mc_choose(5), front = mc_choose(2), comp = mc_choose(2) ? 8 : -1; mc_shard(); char name[400];
    if (ASANB && v > 200 && (front || comp > 0)) mc_skip();
    mc_ctx("%d arrays, names of kind %d, %s, compression %d", v, kind, front ? "prepended" : "appended", comp); mc_sample("%d arrays, names of kind %d, %s", v, kind, front ? "prepended" : "appended");
    for (int i = 0; i < v; i++) {
        npy_array_t *a = mk_arr(i); bool lng = kind == 1 || (kind == 2 && i % 3 == 1) || (kind == 4 && i > v / 2); if (lng) { memset(name, 'a' + i % 26, 100); sprintf(name + 100, "%d", i); } else if (kind == 3) sprintf(name, "n%d", i / 2); else sprintf(name, "e_%d", i);
        l = front ? npy_array_list_prepend(l, a, "%s", name) : npy_array_list_append(l, a, "%s", name); m_add(m, front, a, name);
    }
    m_check(m, l); m_save(m, l, comp, path); npy_array_list_free(l);
}
static void long_free(void)    /* a list of any length can be counted and freed */
{
    int v = scale_pick(1023, ASANB ? 65537 : mc_thorough ? (1 << 22) + 1 : (1 << 20) + 1); mc_shard(); mc_ctx("%d arrays", v); mc_sample("%d arrays prepended, counted, freed", v); npy_array_list_t *l = NULL;
    for (int i = 0; i < v; i++) { npy_array_t *a = calloc(1, sizeof *a); a->ndim = 1; a->shape[0] = 1; a->typechar = 'u'; a->elem_size = 1; a->data = malloc(1); l = npy_array_list_prepend(l, a, "n"); }
    MC_CHECK((int) npy_array_list_length(l) == v, "length", "length %zu instead of %d", npy_array_list_length(l), v); npy_array_list_free(l); mc_eval(1); mc_nontrivial(1);
}
static bool ro_try(const char *p){ npy_array_list_t *l = npy_array_list_load(p); bool ok = npy_array_list_length(l) == 2 && l->array->shape[0] == 7 && !strcmp(l->next->filename, "b"); npy_array_list_free(l); return ok; }
static void readonly(void)     /* reading needs no permission to write */
{
    int z = mc_choose(2); mc_shard(); setpath(); npy_array_list_t *l = NULL; for (int i = 0; i < 2; i++) { npy_array_t *a = calloc(1, sizeof *a); a->ndim = 1; a->shape[0] = 7 + i; a->typechar = 'f'; a->elem_size = 4; a->data = calloc(8, 4); l = npy_array_list_append(l, a, "%c", 'a' + i); }
    unlink(path); if (z) npy_array_list_save_compressed(path, l, ZIP_CM_DEFLATE, 0); else npy_array_list_save(path, l); npy_array_list_free(l); size_t n; unsigned char *f = get_file(path, &n); if (!f) mc_skip(); mc_ctx("an archive that cannot be written"); mc_sample("an archive that cannot be written");
    int r = read_only(mc_workdir, "a.npz", f, n, ro_try); free(f); if (r < 0) mc_skip(); MC_CHECK(!r, "read-only", "the list is not loaded from a file without write permission"); mc_eval(1); mc_nontrivial(1);
}
const mc_suite_t mc_suites[] = { { "many", many }, { "read-only", readonly }, { "long-free", long_free, MC_FORK }, { "operations", ops }, { "leaks", leaks }, { "names", name_forms }, { "generated-names", generated }, { "unformed", unformed }, { "targets", targets }, { "sizes", sizes }, { "numpy-reads", numpy_reads }, { 0 } };
#endif
#if PART == 4 || PART == 6
typedef struct { char d[8]; int e; int nd; size_t sh[8]; bool fo; unsigned char *data; size_t n; char name[40]; bool gone; } arr_t;
static void arr_free(arr_t *a){ free(a->data); a->data = NULL; }
static arr_t arr_f(int nd, size_t r, size_t c, const float *src){ arr_t a = { .d = "<f4", .e = 4, .nd = nd, .sh = { r, c } }; a.n = 4 * r * (nd == 2 ? c : 1); a.data = malloc(a.n + 1); if (src) memcpy(a.data, src, a.n); return a; }
static void zip_up(const arr_t *a, int k, int method, zw_t *w)
{
    static unsigned char buf[1 << 20];
    for (int i = 0; i < k; i++) { if (a[i].gone) continue; size_t h = nf_gen(buf, a[i].d, a[i].fo, a[i].sh, a[i].nd, 0, 0); memcpy(buf + h, a[i].data, a[i].n); zw_add(w, a[i].name, buf, h + a[i].n, method); }
    zw_end(w);
}
static arr_t arr_s(int n, int width, const char *const *names)
{
    arr_t a = { .e = width, .nd = 1, .sh = { n } }; sprintf(a.d, "|S%d", width); a.n = n * width; a.data = calloc(1, a.n + 1); for (int i = 0; i < n; i++) { size_t l = strlen(names[i]); memcpy(a.data + i * width, names[i], l < width ? l : width); } strcpy(a.name, "activations"); return a;
}
static int from_net(const neuralnet_t *nn, arr_t *a)
{
    int k = 0; for (int l = 0; l < nn->n_layers; l++) { const layer_t *y = &nn->layer[l]; a[k] = arr_f(2, y->n_input, y->n_output, y->weight); sprintf(a[k].name, "arr_%d.npy", k); k++; a[k] = arr_f(1, y->n_output, 0, y->bias); sprintf(a[k].name, "arr_%d.npy", k); k++; } return k;
}
#endif
#if PART == 4
static void expect(const neuralnet_t *want)
{
    int fds = open_fds(); mc_output_reset();
    for (int rep = 0; ; rep++) {
        al_begin(0); al_max(64u << 20); neuralnet_t *b = neuralnet_load(path); al_pause();
        if (want) { same_net(want, b, "loaded network"); int no = want->layer[want->n_layers-1].n_output, ni = want->layer[0].n_input; fbuf_t x = fb_new(ni, 0), o1 = fb_new(no, 0), o2 = fb_new(no, 0); for (int i = 0; i < ni; i++) x.d[i] = ival(i, 3); neuralnet_predict(want, x.d, o1.d); neuralnet_predict(b, x.d, o2.d); for (int i = 0; i < no; i++) MC_CHECK(!memcmp(o1.d + i, o2.d + i, 4) || (isnan(o1.d[i]) && isnan(o2.d[i])), "prediction", "output %d is %g instead of %g", i, o2.d[i], o1.d[i]); fb_free(&x); fb_free(&o1); fb_free(&o2); }
        else MC_CHECK(!b, "accepted", "arrays that describe no network were loaded as one (%d layers)", b->n_layers);
        al_resume(); neuralnet_free(b); long left = al_end(); if (left > 0 && !rep) continue; MC_CHECK(left <= 0, "leak", "%ld blocks leaked", left); break;
    }
    MC_CHECK(open_fds() == fds, "leak-fd", "a file is left open");
    if (!want) { static char out[3000]; fflush(NULL); mc_output(out, sizeof out); MC_CHECK(out[0], "silent", "refused without a word"); }
    mc_eval(1); mc_nontrivial(1);
}
static void valid(void)
{
    setpath(); static const int al[] = { 2, 5, 1, 17, 40 }; int L = mc_range(1, 3), sz[4], ac[3], na = L == 1 ? 5 : L == 2 ? 4 : 3; for (int i = 0; i <= L; i++) sz[i] = al[mc_choose(na)]; mc_shard();
    int method = mc_pick(0, 8, -8), pos = mc_choose(2 * L + 2) - 1, nn_ = pos < 0 ? 0 : mc_choose(L + 1), wk = pos < 0 ? 0 : mc_choose(3), a0 = pos < 0 ? 0 : mc_choose(mc_thorough ? 10 : 3); const char *nm[3]; int W = 1;
    for (int i = 0; i < L; i++) { int q = mc_thorough ? (a0 + 3 * i) % 10 : (a0 * 3 + 5 * i + sz[0] + pos) % 10; nm[i] = q == 9 ? "no_such_function" : act_names[q]; ac[i] = i < nn_ && q < 9 ? q : A_LINEAR; if (i < nn_ && (int) strlen(nm[i]) > W) W = strlen(nm[i]); }
    W += wk == 1 ? 1 : wk == 2 ? 90 : 0;
    neuralnet_t *nn = mk_net(L, sz, ac); fill_bits(nn, pos + 5); arr_t a[8]; int k = from_net(nn, a);
    if (pos >= 0) { memmove(a + pos + 1, a + pos, (k - pos) * sizeof *a); a[pos] = arr_s(nn_, W, nm); k++; }
    mc_ctx("%d layers, sizes %d,%d,.., method %d, %d names of width %d at %d", L, sz[0], sz[1], method, nn_, W, pos); mc_sample("%d layers, %d names of width %d at position %d, method %d", L, nn_, W, pos, method);
    zw_t w = { 0 }; zip_up(a, k, method, &w); put_file(path, w.b, w.n); zw_free(&w); for (int i = 0; i < k; i++) arr_free(a + i);
    expect(nn); neuralnet_free(nn);
}
static void invalid(void)
{
    setpath(); static const int szs[][4] = { { 2, 5 }, { 5, 2, 3 }, { 3, 4, 2, 5 }, { 4, 4, 4, 4 }, { 1, 1, 1, 1 }, { 1, 7, 1 } }; static const int Ls[] = { 1, 2, 3, 3, 3, 2 };
    int s = mc_choose(6), L = Ls[s], ac[3] = { A_TANH, A_RELU, A_SIGMOID }, method = mc_choose(2) * 8; neuralnet_t *nn = mk_net(L, szs[s], ac); fill_net_int(nn, 3, 5); arr_t a[12]; int k = from_net(nn, a); const char *nm[3] = { "tanh", "relu", "sigmoid" };
    int pos = mc_choose(2 * L + 2) - 1; if (pos >= 0) { memmove(a + pos + 1, a + pos, (k - pos) * sizeof *a); a[pos] = arr_s(L, 8, nm); k++; } mc_shard();
    int i = mc_choose(k), m = mc_choose(40); bool isn = i == pos, isw = !isn && a[i].nd == 2; size_t r = a[i].sh[0], c = isw ? a[i].sh[1] : 1; static const char *const ds[] = { "<f8", "<f2", ">f4", "<i4", "|u1", "|b1", "<c8", "<u4", "<f16", "|V4" }; static const int de[] = { 8, 2, 4, 4, 1, 1, 8, 4, 16, 4 };
    mc_ctx("sizes %d,%d,.. of %d layers, names at %d, defect %d at array %d, method %d", szs[s][0], szs[s][1], L, pos, m, i, method); mc_sample("%d layers, names at %d, defect %d at array %d", L, pos, m, i);
    #define RESIZE(ND, R, C, Z) do { a[i].nd = ND; a[i].sh[0] = R; a[i].sh[1] = C; a[i].sh[2] = Z; a[i].n = a[i].e; for (int q_ = 0; q_ < a[i].nd; q_++) a[i].n *= a[i].sh[q_]; a[i].data = realloc(a[i].data, a[i].n + 1); } while (0)
    if (m < 10) { strcpy(a[i].d, ds[m]); a[i].e = de[m]; RESIZE(a[i].nd, a[i].sh[0], a[i].sh[1], 1); memset(a[i].data, 0, a[i].n); }
    else switch (m) {
    case 10: if (isn) mc_skip(); a[i].gone = true; break;
    case 11: for (int q = 0; q < k; q++) if (q != pos) a[q].gone = true; break;
    case 12: for (int q = 0; q < k; q++) a[q].gone = true; break;
    case 13: if (!isw) mc_skip(); RESIZE(2, r + 1, c, 1); if (i == (pos == 0) ) { if (1) mc_skip(); } break;
    case 14: if (!isw || r == 1 || i == (pos == 0)) mc_skip(); RESIZE(2, r - 1, c, 1); break;
    case 15: if (!isw) mc_skip(); RESIZE(2, r, c + 1, 1); break;
    case 16: if (!isw || c == 1) mc_skip(); RESIZE(2, r, c - 1, 1); break;
    case 17: if (!isw) mc_skip(); RESIZE(2, 0, c, 1); break;
    case 18: if (!isw) mc_skip(); RESIZE(2, r, 0, 1); break;
    case 19: if (!isw) mc_skip(); RESIZE(1, r * c, 1, 1); break;
    case 20: if (!isw) mc_skip(); RESIZE(3, r, c, 1); break;
    case 21: if (!isw) mc_skip(); RESIZE(3, 1, r, c); break;
    case 22: if (isn || isw) mc_skip(); RESIZE(2, r, 1, 1); break;
    case 23: if (isn || isw) mc_skip(); RESIZE(2, 1, r, 1); break;
    case 24: if (isn) mc_skip(); RESIZE(0, 1, 1, 1); break;
    case 25: if (isn || isw) mc_skip(); RESIZE(1, r + 1, 1, 1); break;
    case 26: if (isn || isw || r == 1) mc_skip(); RESIZE(1, r - 1, 1, 1); break;
    case 27: if (isn || isw) mc_skip(); RESIZE(1, 0, 1, 1); break;
    case 28: if (!isw || r < 2 || c < 2) mc_skip(); a[i].fo = true; break;
    case 29: if (!isw || r == c) mc_skip(); RESIZE(2, c, r, 1); break;
    case 30: if (pos < 0 || i) mc_skip(); a[k] = arr_s(L, 8, nm); strcpy(a[k].name, "again"); k++; break;
    case 31: if (!isn) mc_skip(); RESIZE(2, 1, L, 1); break;
    case 32: if (!isn) mc_skip(); RESIZE(0, 1, 1, 1); break;
    case 33: if (!isn) mc_skip(); sprintf(a[i].d, "<U2"); break;
    case 34: if (i) mc_skip(); a[k] = arr_f(1, 3, 0, NULL); memset(a[k].data, 0, 12); strcpy(a[k].name, "extra"); k++; break;
    case 35: if (i) mc_skip(); a[k] = arr_f(2, 99, 2, NULL); memset(a[k].data, 0, a[k].n); strcpy(a[k].name, "extra_w"); k++; a[k] = arr_f(1, 2, 0, NULL); memset(a[k].data, 0, 8); strcpy(a[k].name, "extra_b"); k++; break;
    case 36: { if (isn || i + 1 >= k) mc_skip(); int q = i + 1 == pos ? i + 2 : i + 1; if (q >= k) mc_skip(); arr_t t = a[i]; a[i] = a[q]; a[q] = t; char n1[40]; strcpy(n1, a[i].name); strcpy(a[i].name, a[q].name); strcpy(a[q].name, n1); break; }
    case 37: if (!isw) mc_skip(); a[i].nd = 2; a[i].sh[0] = 1ull << 32; a[i].sh[1] = 0; a[i].n = 0; break;
    case 38: if (!isw) mc_skip(); a[i].nd = 2; a[i].sh[0] = r + (1ull << 32); break;          /* (data too short as well) */
    case 39: if (isn) mc_skip(); a[i].n--; break;
    }
    zw_t w = { 0 }; zip_up(a, k, method, &w); put_file(path, w.b, w.n); zw_free(&w); for (int q = 0; q < k; q++) arr_free(a + q);
    expect(NULL); neuralnet_free(nn);
}
static unsigned char *corpus, **rec; static size_t corpus_n; static int nrec;
static size_t rec_len(const unsigned char *q)
{
    uint32_t fl = rd(q, 4); const unsigned char *p = q + 4 + fl; int L = (int) rd(p, 4); p += 4; if (L > 0) { int sz[L + 1]; memcpy(sz, p, 4 * (L + 1)); p += 4 * (L + 1) + 4 * L; for (int l = 0; l < L; l++) p += 4 * (size_t)(sz[l] + 1) * sz[l+1]; } return p - q;
}
static void numpy_written(void)
{
    setpath();
    if (!corpus) { char p[600]; snprintf(p, sizeof p, "%s/nets", mc_arg("root", "/tmp")); corpus = get_file(p, &corpus_n); if (!corpus || !corpus_n) { fprintf(stderr, "no corpus\n"); abort(); } rec = calloc(200000, sizeof *rec); for (unsigned char *q = corpus; q < corpus + corpus_n; q += rec_len(q)) rec[nrec++] = q; }
    int grp = mc_choose((nrec + 99) / 100); mc_shard(); int i = grp * 100 + mc_choose(100); if (i >= nrec) mc_skip();
    if (ASANB && !mc_thorough && i % 8) mc_skip();
    unsigned char *q = rec[i]; uint32_t fl = rd(q, 4); put_file(path, q + 4, fl); q += 4 + fl; int L = (int) rd(q, 4); q += 4; neuralnet_t *nn = NULL;
    if (L > 0) { int sz[4], ac[3]; memcpy(sz, q, 4 * (L + 1)); q += 4 * (L + 1); memcpy(ac, q, 4 * L); q += 4 * L; nn = mk_net(L, sz, ac); for (int l = 0; l < L; l++) { memcpy(nn->layer[l].bias, q, 4 * sz[l+1]); q += 4 * sz[l+1]; memcpy(nn->layer[l].weight, q, 4 * sz[l] * sz[l+1]); q += 4 * sz[l] * sz[l+1]; } }
    mc_ctx("NumPy archive %d (%s)", i, L > 0 ? "a network" : "not a network"); expect(nn); mc_trace(1); neuralnet_free(nn);
}
static void scale(void)        /* depth and widths at every power of two, one off on either side; other archive writers */
{
    setpath(); int what = mc_choose(3), v = scale_pick(3, what ? (ASANB ? 2049 : 32769) : ASANB ? 129 : mc_thorough ? 1025 : 513), method = mc_choose(2) * 8, pos = mc_choose(4); mc_shard();
    int L = what ? 2 : v, *sz = malloc(sizeof(int) * (2 * L + 1)), *ac = sz + L + 1; for (int i = 0; i <= L; i++) sz[i] = 1 + i % 4; if (what) sz[what - 1] = v; const char **nm = malloc(L * sizeof *nm);
    for (int i = 0; i < L; i++) { ac[i] = (i * 5 + i / 9) % 9; nm[i] = act_names[ac[i]]; if (!pos) ac[i] = A_LINEAR; }
    mc_ctx("%d layers, sizes %d,%d,.., names %d, method %d", L, sz[0], sz[1], pos, method); mc_sample("%d layers, sizes %d,%d,.., names %d, method %d", L, sz[0], sz[1], pos, method);
    neuralnet_t *nn = mk_net(L, sz, ac); fill_net_pass(nn, v); arr_t *a = malloc((2 * L + 2) * sizeof *a); int k = from_net(nn, a);
    if (pos) { int at = pos == 1 ? k : pos == 2 ? 0 : k / 2; memmove(a + at + 1, a + at, (k - at) * sizeof *a); a[at] = arr_s(L, pos == 3 ? 60 : 12, nm); k++; }
    zw_t w = { 0 }; zip_up(a, k, method, &w); put_file(path, w.b, w.n); zw_free(&w); for (int i = 0; i < k; i++) arr_free(a + i);
    expect(nn); neuralnet_free(nn); free(a); free(nm); free(sz);
}
const mc_suite_t mc_suites[] = { { "scale", scale }, { "networks", valid }, { "not-networks", invalid }, { "numpy-written", numpy_written }, { 0 } };
#endif
#if PART == 6
static void use_net(neuralnet_t *nn)
{
    int L = nn->n_layers; MC_CHECK(L >= 1, "inconsistent", "%d layers", L); size_t tot = 0;
    for (int l = 0; l < L; l++) {
        layer_t *y = &nn->layer[l]; MC_CHECK(y->n_input >= 1 && y->n_output >= 1 && (!l || y->n_input == nn->layer[l-1].n_output), "inconsistent", "layer %d is %d->%d", l, y->n_input, y->n_output);
        MC_CHECK(y->weight && y->bias && is_aligned(y->weight) && is_aligned(y->bias) && y->activation_func, "inconsistent", "layer %d is incomplete", l);
        size_t sw = al_room(y->weight), sb = al_room(y->bias); MC_CHECK((!sw || sw >= 4 * (size_t) y->n_input * y->n_output) && (!sb || sb >= 4 * (size_t) y->n_output), "inconsistent", "layer %d: %zu bytes for %dx%d", l, sw, y->n_input, y->n_output);
        tot += (size_t)(y->n_input + 1) * y->n_output;
    }
    MC_CHECK(neuralnet_total_n_parameters(nn) == tot, "inconsistent", "parameter count"); int ni = nn->layer[0].n_input, no = nn->layer[L-1].n_output;
    fbuf_t x = fb_new(2 * ni, 0), o = fb_new(2 * no, 0), p = fb_new(tot, 0); for (int i = 0; i < 2 * ni; i++) x.d[i] = 0.5f;
    neuralnet_predict(nn, x.d, o.d); neuralnet_predict_batch(nn, 2, x.d, o.d); neuralnet_get_parameters(nn, p.d); MC_CHECK(fb_intact(&o) && fb_intact(&p), "overrun", "using the network wrote outside its results"); fb_free(&x); fb_free(&o); fb_free(&p);
    mc_nontrivial(1);
}
static void use_list(npy_array_list_t *l, size_t file)
{
    for (; l; l = l->next) {
        npy_array_t *a = l->array; MC_CHECK(a && a->ndim >= 0 && a->ndim <= 8, "inconsistent", "an array has %d dimensions", a ? a->ndim : -1); size_t n = npy_array_calculate_datasize(a), s = al_size(a->data); unsigned __int128 t = a->elem_size; bool zero = false; for (int i = 0; i < a->ndim; i++) { if (!a->shape[i]) zero = true; else { t *= a->shape[i]; if (t >> 64) t = (unsigned __int128) 1 << 64; } } if (zero) t = 0;
        MC_CHECK(t == n && (!s || s >= n), "inconsistent", "an array needs more bytes than it has (%zu)", s); volatile char c = 0; for (size_t i = 0; i < n; i += 61) c += a->data[i]; if (n) c += a->data[n-1]; if (l->filename) c += strlen(l->filename); mc_nontrivial(1);
    }
}
/* What is loaded was in one of the undamaged archives: the checksums tell. */
static struct { npy_array_t a; } was[16]; static int n_was; static uint64_t was_net[2]; static bool any_net;
static bool known(const npy_array_t *a){ for (int i = 0; i < n_was; i++) { const npy_array_t *w = &was[i].a; if (a->typechar != w->typechar || a->elem_size != w->elem_size || a->ndim != w->ndim || a->fortran_order != w->fortran_order) continue; bool same = true; for (int d = 0; d < a->ndim; d++) same = same && a->shape[d] == w->shape[d]; if (same && !memcmp(a->data, w->data, npy_array_calculate_datasize(a))) return true; } return false; }
static void damaged(const unsigned char *f, size_t n)
{
    setpath(); put_file(path, f, n); int fds = open_fds();
    for (int m = 0; m < 2; m++) for (int rep = 0; ; rep++) {
        al_begin(0); al_max(64u << 20);
        if (m) { npy_array_list_t *l = npy_array_list_load(path); al_pause(); use_list(l, n); for (npy_array_list_t *e = l; e; e = e->next) MC_CHECK(known(e->array), "made-up", "an array is returned that was in no archive"); al_resume(); if (l) npy_array_list_free(l); }
        else { neuralnet_t *nn = neuralnet_load(path); al_pause(); if (nn) { use_net(nn); MC_CHECK(any_net || hash_net(nn) == was_net[0] || hash_net(nn) == was_net[1], "made-up", "a network is returned that was in no archive"); } al_resume(); neuralnet_free(nn); }
        long left = al_end(); if (left > 0 && !rep) continue; MC_CHECK(left <= 0, "leak", "%s leaked %ld blocks", m ? "loading the list" : "loading the network", left); break;
    }
    MC_CHECK(open_fds() == fds, "leak-fd", "a file is left open"); mc_eval(2);
}
static unsigned char *base[5]; static size_t base_n[5];
static void bases(void)
{
    if (base[0]) return; setpath();
    int sz[3] = { 2, 3, 1 }, ac[2] = { A_TANH, A_SIGMOID }; neuralnet_t *nn = mk_net(2, sz, ac); fill_net_int(nn, 1, 3); neuralnet_save(nn, path); base[0] = get_file(path, &base_n[0]);
    arr_t a[8]; int k = from_net(nn, a); const char *nm[2] = { "tanh", "sigmoid" }; a[k++] = arr_s(2, 8, nm);
    for (int m = 1; m < 4; m++) { zw_t w = { 0 }; zip_up(a, k, m == 1 ? 8 : m == 2 ? -8 : 0, &w); base[m] = memcpy(malloc(w.n), w.b, w.n); base_n[m] = w.n; zw_free(&w); }
    zw_t w = { 0 }; zw_add(&w, "readme", "no array", 8, 0); zip_up(a, 2, 0, &w); base[4] = memcpy(malloc(w.n), w.b, w.n); base_n[4] = w.n;
    if (!base_n[0]) abort(); was_net[0] = hash_net(nn); neuralnet_free(nn); put_file(path, base[4], base_n[4]); nn = neuralnet_load(path); if (!nn) abort(); was_net[1] = hash_net(nn); neuralnet_free(nn);
    for (int i = 0; i < k; i++) { npy_array_t *m = &was[n_was++].a; m->typechar = a[i].d[1]; m->elem_size = a[i].e; m->ndim = a[i].nd; m->fortran_order = a[i].fo; for (int d = 0; d < a[i].nd; d++) m->shape[d] = a[i].sh[d]; m->data = (char*) a[i].data; }
    static ze_t z[8]; const char *why; int nz = zip_parse(base[0], base_n[0], z, 8, &why); if (nz != k) abort(); nf_t h; if (nf_parse(z[k-1].data, z[k-1].n, &h, true) || h.type != 'S') abort();
    npy_array_t *m = &was[n_was++].a; m->typechar = 'S'; m->elem_size = h.elem; m->ndim = 1; m->shape[0] = h.shape[0]; m->data = (char*) z[k-1].data + h.off;
    m = &was[n_was++].a; m->typechar = 'f'; m->elem_size = 4; m->ndim = 1; m->shape[0] = 40; static float f[40]; for (int i = 0; i < 40; i++) f[i] = ival(i + 1, 50); m->data = (char*) f;
}
static unsigned char buf[1 << 16];
static int pickb(int k){ bases(); int b = mc_choose(k); memcpy(buf, base[b], base_n[b]); return b; }
static void truncated(void){ int b = pickb(5); size_t len = mc_choose(base_n[b] + 1); mc_shard(); mc_ctx("archive %d (%zu bytes) cut to %zu", b, base_n[b], len); mc_sample("archive %d cut to %zu of %zu bytes", b, len, base_n[b]); damaged(buf, len); }
static void beheaded(void){ int b = pickb(5); size_t cut = mc_choose(base_n[b] + 1); mc_shard(); mc_ctx("archive %d without its first %zu bytes", b, cut); damaged(buf + cut, base_n[b] - cut); }
static void onebyte(void)
{
    int b = pickb(mc_thorough ? 5 : 3); int pos = mc_choose(base_n[b]); mc_shard(); int v = mc_choose(mc_thorough ? 256 : ASANB ? 5 : 12), old = buf[pos], nv = mc_thorough ? v : ASANB ? (int[]){ 0, 255, old ^ 1, old ^ 0x80, old + 1 }[v] : v < 8 ? old ^ 1 << v : v == 8 ? 0 : v == 9 ? 255 : v == 10 ? old ^ 255 : old + 1;
    nv &= 255; if (nv == old) mc_skip(); buf[pos] = nv; mc_ctx("archive %d, byte %d changed from %d to %d", b, pos, old, nv); mc_sample("archive %d, byte %d: %d -> %d", b, pos, old, nv); damaged(buf, base_n[b]);
}
static void fields(void)       /* every 2- and 4-byte field set to boundary values */
{
    static const uint32_t v[] = { 0, 0xffffffff, 0x7fffffff, 0x80000000, 1, 0xffff, 0xfffe, 0x10000 }; int b = pickb(mc_thorough ? 5 : 2), pos = mc_choose(base_n[b] - 4), w = mc_choose(2) ? 4 : 2; mc_shard(); uint32_t x = v[mc_choose(w == 2 ? 5 : mc_thorough ? 8 : ASANB ? 2 : 4)];
    if (!memcmp(buf + pos, &x, w)) mc_skip(); memcpy(buf + pos, &x, w); mc_ctx("archive %d, %d bytes at %d set to %x", b, w, pos, x); damaged(buf, base_n[b]);
}
static void structure(void)    /* blocks cut out or doubled */
{
    int b = pickb(5); int n = base_n[b], from = mc_choose((n + 15) / 16) * 16; mc_shard(); int len = (mc_choose(mc_thorough ? 64 : 12) + 1) * (mc_thorough ? 4 : 16), dup = mc_choose(2); if (from + len > n) mc_skip();
    if (dup) { memmove(buf + from + len, buf + from, n - from); n += len; } else { memmove(buf + from, buf + from + len, n - from - len); n -= len; }
    mc_ctx("archive %d, %d bytes at %d %s", b, len, from, dup ? "doubled" : "removed"); damaged(buf, n);
}
static void twoarchives(void)  /* interrupted overwriting in place: the beginning of one archive, the end of another */
{
    int b = pickb(5), c = mc_choose(5); if (b == c) mc_skip(); int cut = mc_choose((base_n[b] + 6) / 7) * 7; mc_shard(); static unsigned char m[1 << 16]; size_t n = base_n[c]; memcpy(m, base[c], n); memcpy(m, buf, cut); if (cut > n) n = cut; mc_ctx("first %d bytes of archive %d over archive %d", cut, b, c); damaged(m, n);
}
/* The contents of one entry end, or stop being readable, after p bytes, while the directory promises all of them. */
static void streams(void)
{
    static unsigned char bin[4096], c[2 * 4096 + 64]; bases(); setpath(); int net = mc_choose(2), which = net ? mc_choose(5) : 0, how = mc_choose(6), blk = how < 4 && mc_choose(2);
    int sz[3] = { 2, 3, 1 }, ac[2] = { A_TANH, A_SIGMOID }; neuralnet_t *nn = mk_net(2, sz, ac); fill_net_int(nn, 1, 3); arr_t a[8]; int k = 0; const char *nm[2] = { "tanh", "sigmoid" };
    if (net) { k = from_net(nn, a); a[k++] = arr_s(2, 8, nm); } else {  float f[40]; for (int i = 0; i < 40; i++) f[i] = ival(i + 1, 50); a[k] = arr_f(1, 40, 0, f); strcpy(a[k++].name, "weights"); } neuralnet_free(nn);
    zw_t w = { 0 }; int p = 0; size_t total = 0;
    for (int i = 0; i < k; i++) {
        size_t h = nf_gen(bin, a[i].d, a[i].fo, a[i].sh, a[i].nd, 0, 0), n = h + a[i].n; memcpy(bin + h, a[i].data, a[i].n); uint32_t crc = crc32(0, bin, n); if (i != which) { zw_add(&w, a[i].name, bin, n, how < 4 ? 8 : 0); continue; }
        total = n; p = mc_choose(n); unsigned char *q = c; for (int from = 0; from < p || (!p && q == c); ) { int len = blk && p - from > 1 ? (p - from) / 2 : p - from; if (how >= 4) { memcpy(q, bin, p); q += p; break; } *q++ = how == 2 && from + len == p; le(q, len, 2); le(q + 2, ~len, 2); memcpy(q + 4, bin + from, len); q += 4 + len; from += len; if (!p) break; }
        switch (how) { case 0: *q++ = 7; *q++ = 0; break;                                  /* a block of a kind that doesn't exist */ case 1: break; /* no last block */ case 3: *q++ = 1; le(q, 5, 2); le(q + 2, 5, 2); q += 4; break; /* a block with a wrong length */ }
        zw_add_raw(&w, a[i].name, c, q - c, how == 5 ? p : n, how == 5 ? crc32(0, bin, p) : crc, how < 4 ? 8 : 0);
    }
    zw_end(&w); for (int i = 0; i < k; i++) arr_free(&a[i]); mc_shard();
    static const char *const hows[] = { "a bad block", "a missing last block", "an early end", "a bad block length", "less stored data than promised", "less data" };
    mc_ctx("array %d of a %s: %s after %d of %zu bytes%s", which, net ? "network" : "list", hows[how], p, total, blk ? ", in two blocks" : ""); mc_sample("array %d of a %s: %s after %d of %zu bytes", which, net ? "network" : "list", hows[how], p, total);
    any_net = which == 4 && how == 5 && p < 6; damaged(w.b, w.n); any_net = false; neuralnet_t *r = neuralnet_load(path); if (net && !(which == 4 && how == 5 && p < 6)) MC_CHECK(!r, "made-up", "a network is loaded though one of its arrays is incomplete"); neuralnet_free(r);
    npy_array_list_t *l = npy_array_list_load(path), *e = l; for (; e; e = e->next) MC_CHECK(!e->filename || strcmp(e->filename, net ? (char[][12]){ "arr_0.npy", "arr_1.npy", "arr_2.npy", "arr_3.npy", "activations" }[which] : "weights"), "made-up", "an array is returned that is not in the file"); if (l) npy_array_list_free(l);
    mc_nontrivial(1); zw_free(&w);
}
const mc_suite_t mc_suites[] = { { "streams", streams }, { "truncated", truncated }, { "beheaded", beheaded }, { "one-byte", onebyte }, { "fields", fields }, { "structure", structure }, { "two-archives", twoarchives }, { 0 } };
#endif
