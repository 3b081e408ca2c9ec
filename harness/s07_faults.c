/* Faults while saving (S07) and while loading or saving (S08): every file system call and every allocation in turn. */
#include "nnref.h"
#include "alloc.h"
#include "zipref.h"
#include "faultio.h"
#include "npy_array_list.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/wait.h>
#ifdef __SANITIZE_ADDRESS__
#define ASANB 1
#else
#define ASANB 0
#endif
static char path[600];
void mc_harness_init(void){}
static void setup(void){ if (!path[0]) snprintf(path, sizeof path, "%s/t.npz", mc_workdir); if (!fio_available()) { fprintf(stderr, "system call faults are not available here\n"); abort(); } }

/* the things that are saved and loaded */
enum { O_NET, O_NETBIG, O_LIST, O_LISTZ, O_LISTBIG, O_LISTBIGZ, O_ARR, O_ARRBIG, O_N };
static const char *const onames[] = { "a small network", "a large network", "a list", "a compressed list", "a large list", "a large compressed list", "an array", "a large array" };
static neuralnet_t *mknet(int big, int ver)
{
    int ac[2] = { A_TANH, A_SIGMOID }, s[2][3] = { { 2, 3, 1 }, { 60, 50, 9 } }; neuralnet_t *nn = mk_net(2, s[big], ac); fill_net_int(nn, 10 + ver, 90); if (ver == 1) { neuralnet_free(nn); int t[2] = { 4, 4 }; nn = mk_net(1, t, ac); fill_net_int(nn, 99, 90); } return nn;
}
static npy_array_t *mkarr(int k, int n, int ver){ npy_array_t *a = calloc(1, sizeof *a); a->typechar = 'f'; a->elem_size = 4; a->ndim = 1; a->shape[0] = n; a->data = malloc(4 * n + 1); float *f = (float*) a->data; for (int i = 0; i < n; i++) f[i] = ival(i + 1000 * k + 77777 * ver, 5000); return a; }
static npy_array_list_t *mklist(int big, int ver){ npy_array_list_t *l = NULL; for (int i = 0; i < 3 - ver; i++) l = npy_array_list_append(l, mkarr(i, big ? 3000 + i : 5 + i, ver), "e%d", i); return l; }
static bool is_list(const char *p, npy_array_list_t *l)     /* the file is exactly the archive of this list (independent parser) */
{
    size_t n; unsigned char *f = get_file(p, &n); if (!f) return false; static ze_t z[20]; const char *why; int k = zip_parse(f, n, z, 20, &why); bool ok = k == (int) npy_array_list_length(l);
    if (k < 0) { free(f); return false; }
    for (int i = 0; ok && i < k; i++, l = l->next) { nf_t h; ok = !strcmp(z[i].name, l->filename) && !nf_parse(z[i].data, z[i].n, &h, true) && h.ndim == l->array->ndim && z[i].n == h.off + h.bytes && h.type == l->array->typechar && h.elem == l->array->elem_size && h.shape[0] == l->array->shape[0] && !memcmp(z[i].data + h.off, l->array->data, h.bytes); }
    zip_free(z, k); free(f); return ok;
}
static bool is_net(const char *p, const neuralnet_t *nn)
{
    size_t n; unsigned char *f = get_file(p, &n); if (!f) return false; static ze_t z[20]; const char *why; int k = zip_parse(f, n, z, 20, &why), seen = 0; if (k < 0) { free(f); return false; }
    bool ok = k == 2 * nn->n_layers + 1, names = false;
    for (int i = 0; ok && i < k; i++) {
        nf_t h; if (nf_parse(z[i].data, z[i].n, &h, true) || z[i].n != h.off + h.bytes) { ok = false; break; }
        if (h.type == 'S') { names = h.ndim == 1 && h.shape[0] == nn->n_layers; for (int l = 0; names && l < nn->n_layers; l++) { const char *a = get_activation_name(nn->layer[l].activation_func); names = strlen(a) <= h.elem && !strncmp((char*) z[i].data + h.off + l * h.elem, a, h.elem); } continue; }
        if (seen >= 2 * nn->n_layers) { ok = false; break; }
        layer_t *y = &nn->layer[seen / 2]; ok = h.bytes == 4u * (seen & 1 ? 1 : y->n_input) * y->n_output && !memcmp(z[i].data + h.off, seen & 1 ? y->bias : y->weight, h.bytes); seen++;
    }
    zip_free(z, k); free(f); return ok && names && seen == 2 * nn->n_layers;
}
static bool is_arr(const char *p, const npy_array_t *a){ size_t n; unsigned char *f = get_file(p, &n); nf_t h; bool ok = f && !nf_parse(f, n, &h, true) && n == h.off + h.bytes && h.bytes == 4 * a->shape[0] && !memcmp(f + h.off, a->data, h.bytes); free(f); return ok; }
typedef struct { int o; neuralnet_t *nn; npy_array_list_t *l; npy_array_t *a; } obj_t;
static obj_t mk(int o, int ver){ obj_t b = { o }; if (o <= O_NETBIG) b.nn = mknet(o == O_NETBIG, ver); else if (o >= O_ARR) b.a = mkarr(7, (o == O_ARRBIG ? 5000 : 6) + ver, ver); else b.l = mklist(o >= O_LISTBIG, ver); return b; }
static void del(obj_t *b){ if (b->nn) neuralnet_free(b->nn); if (b->l) npy_array_list_free(b->l); if (b->a) npy_array_free(b->a); }
static uint64_t hash_obj(const obj_t *b){ if (b->nn) return hash_net(b->nn); if (b->a) return mc_hash(b->a->data, 4 * b->a->shape[0], 1); uint64_t h = 5; for (npy_array_list_t *l = b->l; l; l = l->next) h = mc_hash(l->array->data, 4 * l->array->shape[0], mc_hash(l->filename, strlen(l->filename), h)); return h; }
/* -1: the interface does not say; else number saved */
/* libzip 1.7.3 itself loses memory or its descriptor when one of these calls fails, or when its own allocations do (shown by a
 * program that calls nothing but libzip): not this code's to release. Arrays are written without libzip. */
static bool zip_own(const obj_t *b, int any){ return !b->a && (any || fio_seek()); }
static bool fd_was[256]; static int snap_fds(void){ for (int i = 3; i < 256; i++) fd_was[i] = fcntl(i, F_GETFD) != -1; return open_fds(); }
static void close_new_fds(void){ for (int i = 3; i < 256; i++) if (!fd_was[i]) close(i); }
static int save(const obj_t *b, const char *p)
{
    switch (b->o) { case O_NET: case O_NETBIG: neuralnet_save(b->nn, p); return -1; case O_LIST: case O_LISTBIG: return npy_array_list_save(p, b->l); case O_LISTZ: case O_LISTBIGZ: return npy_array_list_save_compressed(p, b->l, ZIP_CM_DEFLATE, 0); }
    npy_array_save(p, b->a); return -1;
}
static bool is(const obj_t *b, const char *p){ return b->nn ? is_net(p, b->nn) : b->a ? is_arr(p, b->a) : is_list(p, b->l); }
static const char *const mnames[] = { "none", "fails", "is cut short", "fails, and all later ones", "meets the end of the file, and all later ones", "is where the process is killed", "is torn when the process is killed", "is the last before the process is killed" };
static char out[6000];
/* after a save of `b` over what was there before (`prev`: bytes, NULL if none) */
static void judge_save(const obj_t *b, const unsigned char *prev, size_t pn, int r, bool killed, bool atomic)
{
    size_t n; unsigned char *f = get_file(path, &n); bool old = prev ? f && n == pn && !memcmp(f, prev, n) : !f; bool new = is(b, path); free(f);
    if (atomic) MC_CHECK(old || new, "destroyed", "the target holds neither the complete previous nor the complete new file (%zu bytes)", n);
    if (!killed) {
        fflush(NULL); mc_output(out, sizeof out);
        if (!new) MC_CHECK(r <= 0 && (r == 0 || out[0]), "unreported", "nothing was written but no failure is reported (result %d)", r);
        if (r > 0) MC_CHECK(r == (int) npy_array_list_length(b->l), "count", "%d reported as saved", r);
    }
}
#if PART == 7
static long ncalls[O_N][3];
static unsigned char *prevb[O_N][3]; static size_t prevn[O_N][3];
static void put_prev(int o, int pre){ unlink(path); if (pre) put_file(path, prevb[o][pre], prevn[o][pre]); }
static void prep(int o, int pre)
{
    if (ncalls[o][pre]) return;
    obj_t p = mk(o, 1), b = mk(o, 0); unlink(path); save(&p, path); if (pre == 2) { static char junk[3000]; memset(junk, 'j', sizeof junk); put_file(path, junk, sizeof junk); } if (pre) prevb[o][pre] = get_file(path, &prevn[o][pre]);
    put_prev(o, pre); save(&b, path); put_prev(o, pre);       /* warm up */
    fio_arm(0, FIO_NONE, 0); int r = save(&b, path); long n = fio_disarm(); ncalls[o][pre] = n; MC_CHECK(is(&b, path), "save", "%s is not saved correctly without any fault (result %d)", onames[o], r); if (n < 3) { fprintf(stderr, "no file calls seen\n"); abort(); }
    del(&p); del(&b);
}
static void one(int o, int pre, int at, int mode, int err)
{
    obj_t b = mk(o, 0); uint64_t h = hash_obj(&b);
    mc_ctx("saving %s over %s: file call %d of %ld %s%s%s", onames[o], pre == 0 ? "nothing" : pre == 1 ? "a previous file" : "something else", at, ncalls[o][pre], mnames[mode], mode == FIO_ERR || mode == FIO_PERSIST ? ": " : "", mode == FIO_ERR || mode == FIO_PERSIST ? strerror(err) : "");
    mc_sample("saving %s over %s: file call %d of %ld %s", onames[o], pre ? "a previous file" : "nothing", at, ncalls[o][pre], mnames[mode]);
    if (mode >= FIO_KILL) {
        put_prev(o, pre); fflush(NULL);
        pid_t c = fork(); if (c < 0) abort(); if (!c) { fio_arm(at, mode, err); save(&b, path); fio_disarm(); _exit(fio_hit() ? 78 : 79); }
        int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ; MC_CHECK(WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 79), "crash", "the saving process ended with status %x instead of being killed", st);
        judge_save(&b, prevb[o][pre], prevn[o][pre], -1, true, true); mc_nontrivial(WEXITSTATUS(st) == 77);
        /* the next start of the program saves as usual */
        int r = save(&b, path); MC_CHECK(is(&b, path), "stuck", "after the kill a new save does not work (result %d)", r);
    } else for (int rep = 0; ; rep++) {
        put_prev(o, pre); int fds = snap_fds(); fflush(NULL); mc_output_reset();
        al_begin(0); fio_arm(at, mode, err); int r = save(&b, path); fio_disarm(); long left = al_end();
        if (left > 0 && !rep) continue;
        MC_CHECK(left <= 0 || zip_own(&b, 0), "leak", "%s at %s: %ld blocks leaked", mnames[mode], fio_what(), left);
        MC_CHECK(open_fds() == fds || zip_own(&b, 0), "leak-fd", "%s at %s: a file is left open", mnames[mode], fio_what()); close_new_fds();
        MC_CHECK(hash_obj(&b) == h, "modified", "a failing save modified what is saved");
        judge_save(&b, prevb[o][pre], prevn[o][pre], r, false, true); mc_nontrivial(fio_hit());
        r = save(&b, path); MC_CHECK(is(&b, path), "stuck", "after the fault a new save does not work (result %d)", r); break;
    }
    del(&b); mc_eval(1);
}
static void single(void)
{
    setup(); int o = mc_choose(O_ARR), pre = mc_choose(3); prep(o, pre); int at = 1 + mc_choose(ncalls[o][pre] + 1); mc_shard(); int mode = mc_pick(FIO_ERR, FIO_SHORT, FIO_PERSIST, FIO_EOF, FIO_KILL, FIO_KILL_TORN, FIO_KILL_AFTER);
    if (ASANB && mode >= FIO_KILL) mc_skip();
    int err = mode == FIO_ERR ? (mc_thorough ? mc_pick(EIO, ENOSPC, EACCES, EINTR, EMFILE, EDQUOT) : mc_pick(ENOSPC, EIO)) : mode == FIO_PERSIST ? mc_pick(ENOSPC, EIO) : EIO;
    one(o, pre, at, mode, err);
}
static void histories(void)    /* several saves in a row, each killed at any point: the file is always one of the versions */
{
    setup(); int o = mc_pick(O_NET, O_LISTZ); prep(o, 1); obj_t v[3] = { mk(o, 0), mk(o, 1), mk(o, 0) }; put_prev(o, 1); int n = mc_thorough && !ASANB ? 3 : 2; bool ok = false;
    for (int s = 0; s < n; s++) {
        int step = !s ? 1 : s > 1 ? 8 : mc_thorough && !ASANB ? 1 : 4, at = 1 + step * mc_choose(ncalls[o][1] / step + 1), k = s & 1; if (!s) mc_shard(); fflush(NULL); pid_t c = fork(); if (!c) { fio_arm(at, FIO_KILL_AFTER, EIO); save(&v[k], path); fio_disarm(); _exit(79); } int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ;
        mc_ctx("save %d of %s killed after call %d", s, onames[o], at); MC_CHECK(is(&v[0], path) || is(&v[1], path), "destroyed", "the target holds none of the versions"); if (WEXITSTATUS(st) == 79) MC_CHECK(is(&v[k], path), "save", "an undisturbed save did not write the file"); mc_eval(1); mc_nontrivial(1);
    }
    for (int i = 0; i < 3; i++) del(&v[i]);
}
const mc_suite_t mc_suites[] = { { "single-faults", single }, { "killed-saves", histories }, { 0 } };
#endif
#if PART == 8
/* 0: load (arrays: load), 1: memory-map; returns NULL-ness and correctness */
static bool load_ok(const obj_t *b, int mm, bool *null)
{
    bool ok; *null = false;
    if (b->nn) { neuralnet_t *n = neuralnet_load(path); if (!n) { *null = true; return true; } al_pause(); ok = hash_net(n) == hash_net(b->nn); al_resume(); neuralnet_free(n); return ok; }
    if (b->a) { npy_array_t *a = mm ? npy_array_mmap(path) : npy_array_load(path); if (!a) { *null = true; return true; } ok = a->typechar == 'f' && a->elem_size == 4 && a->ndim == 1 && a->shape[0] == b->a->shape[0] && !memcmp(a->data, b->a->data, 4 * a->shape[0]); npy_array_free(a); return ok; }
    npy_array_list_t *l = npy_array_list_load(path), *q = b->l, *p = l; if (!l) { *null = true; return true; }
    ok = true; for (; p && q; p = p->next, q = q->next) ok = ok && p->array->ndim == 1 && p->array->shape[0] == q->array->shape[0] && p->array->typechar == 'f' && !memcmp(p->array->data, q->array->data, 4 * q->array->shape[0]) && p->filename && !strcmp(p->filename, q->filename);
    if (p || q) ok = false; npy_array_list_free(l); return ok;
}
static long nl[O_N][2], na[O_N][2][2], ns[O_N], nsa[O_N][2];
static void prep(int o, int mm)
{
    if (nl[o][mm]) return; obj_t b = mk(o, 0); bool null; unlink(path); save(&b, path); load_ok(&b, mm, &null);
    fio_arm(0, FIO_NONE, 0); bool ok = load_ok(&b, mm, &null); nl[o][mm] = fio_disarm(); MC_CHECK(ok && !null, "load", "%s is not loaded correctly without any fault", onames[o]);
    for (int any = 0; any < 2; any++) { al_any(any); al_begin(0); load_ok(&b, mm, &null); na[o][mm][any] = al_count(); al_end(); al_begin(0); save(&b, path); nsa[o][any] = al_count(); al_end(); } al_any(0);
    fio_arm(0, FIO_NONE, 0); save(&b, path); ns[o] = fio_disarm(); if (nl[o][mm] < 2 || ns[o] < 2 || na[o][mm][0] < 1) { fprintf(stderr, "nothing seen: %ld %ld %ld\n", nl[o][mm], ns[o], na[o][mm][0]); abort(); } del(&b);
}
static void judge_load(const obj_t *b, int mm, long alloc_at, int any, long io_at, int mode, int err)
{
    for (int rep = 0; ; rep++) {
        int fds = snap_fds(); bool null; fflush(NULL); mc_output_reset(); al_any(any); al_begin(alloc_at); if (io_at) fio_arm(io_at, mode, err); bool ok = load_ok(b, mm, &null); if (io_at) fio_disarm(); bool inj = al_failed(); long left = al_end(); al_any(0);
        if (left > 0 && !rep) continue;
        MC_CHECK(ok, "wrong", "a wrong result was returned"); MC_CHECK(left <= 0 || zip_own(b, any), "leak", "%ld blocks leaked (%s) after %s", left, null ? "refused" : "loaded", fio_what()); MC_CHECK(open_fds() == fds || zip_own(b, any), "leak-fd", "a file is left open after %s", fio_what()); close_new_fds(); MC_CHECK(!mm || !mapped_regions(path), "leak-map", "the file is still mapped");
        if (!inj && !(io_at && fio_hit())) MC_CHECK(!null, "refused", "refused although nothing failed");
        load_ok(b, mm, &null); MC_CHECK(!null, "stuck", "after the fault the file cannot be loaded any more"); mc_eval(1); mc_nontrivial(inj || (io_at && fio_hit())); break;
    }
}
static void load_io(void)
{
    setup(); int o = mc_choose(O_N), mm = o >= O_ARR ? mc_choose(2) : 0; prep(o, mm); long at = 1 + mc_choose(nl[o][mm]); mc_shard(); int mode = mc_pick(FIO_ERR, FIO_SHORT, FIO_EOF, FIO_PERSIST), err = mode == FIO_ERR || mode == FIO_PERSIST ? (mc_thorough ? mc_pick(EIO, ENOMEM, EACCES, EINTR, EMFILE) : mc_pick(EIO, ENOMEM)) : EIO;
    mc_ctx("%s %s: file call %ld of %ld %s (%s)", mm ? "mapping" : "loading", onames[o], at, nl[o][mm], mnames[mode], strerror(err)); mc_sample("%s %s: file call %ld of %ld %s", mm ? "mapping" : "loading", onames[o], at, nl[o][mm], mnames[mode]);
    obj_t b = mk(o, 0); save(&b, path); judge_load(&b, mm, 0, 0, at, mode, err); del(&b);
}
static void load_mem(void)
{
    setup(); int o = mc_choose(O_N), mm = o >= O_ARR ? mc_choose(2) : 0; prep(o, mm); int any = ASANB ? 0 : mc_choose(2); if (na[o][mm][any] < 1) mc_skip(); long at = 1 + mc_choose(na[o][mm][any]); mc_shard();
    mc_ctx("%s %s: allocation %ld of %ld fails (%s)", mm ? "mapping" : "loading", onames[o], at, na[o][mm][any], any ? "all" : "own"); mc_sample("%s %s: allocation %ld of %ld fails", mm ? "mapping" : "loading", onames[o], at, na[o][mm][any]);
    obj_t b = mk(o, 0); save(&b, path); judge_load(&b, mm, at, any, 0, 0, 0); del(&b);
}
static void judge_saved(const obj_t *b, long alloc_at, int any, long io_at, int mode, int err)
{
    uint64_t h = hash_obj(b); obj_t p = mk(b->o, 1); size_t pn; save(&p, path); unsigned char *prev = get_file(path, &pn);
    for (int rep = 0; ; rep++) {
        put_file(path, prev, pn); int fds = snap_fds(); fflush(NULL); mc_output_reset(); al_any(any); al_begin(alloc_at); if (io_at) fio_arm(io_at, mode, err); int r = save(b, path); if (io_at) fio_disarm(); bool inj = al_failed(); long left = al_end(); al_any(0);
        if (left > 0 && !rep) continue;
        MC_CHECK(left <= 0 || zip_own(b, any), "leak", "%ld blocks leaked after %s", left, fio_what()); MC_CHECK(open_fds() == fds || zip_own(b, any), "leak-fd", "a file is left open after %s", fio_what()); close_new_fds(); MC_CHECK(hash_obj(b) == h, "modified", "a failing save modified what is saved");
        judge_save(b, prev, pn, r, false, !b->a); if (!inj && !(io_at && fio_hit())) MC_CHECK(is(b, path), "save", "not saved although nothing failed");
        save(b, path); MC_CHECK(is(b, path), "stuck", "after the fault saving does not work any more"); mc_eval(1); mc_nontrivial(inj || (io_at && fio_hit())); break;
    }
    free(prev); del(&p);
}
static void save_mem(void)
{
    setup(); int o = mc_choose(O_N); prep(o, 0); int any = ASANB ? 0 : mc_choose(2); if (nsa[o][any] < 1) mc_skip(); long at = 1 + mc_choose(nsa[o][any]); mc_shard();
    mc_ctx("saving %s: allocation %ld of %ld fails (%s)", onames[o], at, nsa[o][any], any ? "all" : "own"); mc_sample("saving %s: allocation %ld of %ld fails", onames[o], at, nsa[o][any]); obj_t b = mk(o, 0); judge_saved(&b, at, any, 0, 0, 0); del(&b);
}
static void save_io(void)
{
    setup(); int o = mc_choose(O_N); prep(o, 0); long at = 1 + mc_choose(ns[o]); mc_shard(); int mode = mc_pick(FIO_ERR, FIO_SHORT, FIO_PERSIST), err = mc_pick(ENOSPC, EIO);
    mc_ctx("saving %s: file call %ld of %ld %s (%s)", onames[o], at, ns[o], mnames[mode], strerror(err)); mc_sample("saving %s: file call %ld of %ld %s", onames[o], at, ns[o], mnames[mode]); obj_t b = mk(o, 0); judge_saved(&b, 0, 0, at, mode, err); del(&b);
}
static void load_twice(void)   /* an allocation and a file call fail in the same load */
{
    setup(); int o = mc_pick(O_NET, O_LISTZ, O_ARR); prep(o, 0); long at = 1 + mc_choose(nl[o][0]), al = 1 + mc_choose(na[o][0][0]); mc_shard(); int mode = mc_pick(FIO_ERR, FIO_EOF);
    mc_ctx("loading %s: file call %ld %s, allocation %ld fails", onames[o], at, mnames[mode], al); obj_t b = mk(o, 0); save(&b, path); judge_load(&b, 0, al, 0, at, mode, EIO); del(&b);
}
const mc_suite_t mc_suites[] = { { "load-io", load_io }, { "load-memory", load_mem }, { "save-memory", save_mem }, { "save-io", save_io }, { "load-two-faults", load_twice }, { 0 } };
#endif
