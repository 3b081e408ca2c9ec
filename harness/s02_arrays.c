/* Array files: round trips (S02) and damaged files (S05). */
#include "nnref.h"
#include "alloc.h"
#include "npyref.h"
#include "npy_array.h"
#include <sys/wait.h>
static char path[600];
static const struct { char t; int e; } ty[] = { {'f',4},{'S',5},{'f',8},{'i',1},{'c',32},{'b',1},{'u',2},{'f',2},{'S',1},{'i',4},{'u',8},{'c',8},{'f',16},{'i',2},{'u',1},{'i',8},{'u',4},{'c',16},{'S',77},{'S',300} };
enum { NT = sizeof ty / sizeof *ty };
void mc_harness_init(void){}
static void setpath(void){ if (!path[0]) snprintf(path, sizeof path, "%s/a.npy", mc_workdir); }
static void same(const npy_array_t *b, char t, size_t e, bool fo, int nd, const size_t *sh, const void *data, size_t n, const char *how)
{
    MC_CHECK(b, "refused", "%s refused a valid file", how);
    MC_CHECK(b->typechar == t && b->elem_size == e, "type", "%s: type %c%zu instead of %c%zu", how, b->typechar, b->elem_size, t, e);
    MC_CHECK(b->ndim == nd, "shape", "%s: %d dimensions instead of %d", how, b->ndim, nd);
    for (int i = 0; i < nd; i++) MC_CHECK(b->shape[i] == sh[i], "shape", "%s: dimension %d is %zu instead of %zu", how, i, b->shape[i], sh[i]);
    MC_CHECK(b->fortran_order == fo, "order", "%s: fortran_order %d instead of %d", how, b->fortran_order, fo);
    MC_CHECK(npy_array_calculate_datasize(b) == n, "size", "%s: data size %zu instead of %zu", how, npy_array_calculate_datasize(b), n);
    if (n) { size_t s = al_size(b->data); MC_CHECK(!s || s >= n, "storage", "%s: %zu bytes allocated for %zu", how, s, n);
             MC_CHECK(!memcmp(b->data, data, n), "bytes", "%s: the data differ", how); }
}
static void read_both(char t, size_t e, bool fo, int nd, const size_t *sh, const void *data, size_t n)
{
    int fds = open_fds();
    for (int m = 0; m < 2; m++) {
        const char *how = m ? "memory-mapping" : "loading";
        for (int rep = 0; ; rep++) {
            al_begin(0);
            npy_array_t *b = m ? npy_array_mmap(path) : npy_array_load(path);
            al_pause();
            same(b, t, e, fo, nd, sh, data, n, how);
            al_resume(); npy_array_free(b);
            long left = al_end(); if (left > 0 && !rep) continue;
            MC_CHECK(left <= 0, "leak", "%s and freeing leaked %ld blocks", how, left); break;
        }
        if (m) MC_CHECK(!mapped_regions(path), "leak-map", "part of the mapping is left after freeing");
        MC_CHECK(open_fds() == fds, "leak-fd", "%s left a file open", how);
        mc_eval(1); mc_nontrivial(1);
    }
}
static char *mkdata(size_t n, unsigned seed){ char *d = malloc(n ? n : 1); for (size_t i = 0; i < n; i++) d[i] = h32(i + seed) >> 7; return d; }
static size_t prod(int nd, const size_t *sh){ size_t p = 1; for (int i = 0; i < nd; i++) p *= sh[i]; return p; }
static void round_trip(char t, size_t e, char endian, bool fo, int nd, const size_t *sh)
{
    setpath();
    size_t n = prod(nd, sh) * e; char *d = mkdata(n, nd * 7 + e), *keep = memcpy(malloc(n + 1), d, n);
    npy_array_t a = { .data = d, .ndim = nd, .typechar = t, .elem_size = e, .endianness = endian, .fortran_order = fo }; memcpy(a.shape, sh, nd * sizeof *sh);
    npy_array_t before = a;
    unlink(path);
    for (int rep = 0; ; rep++) {
        al_begin(0); npy_array_save(path, &a); long left = al_end(); if (left > 0 && !rep) continue;
        MC_CHECK(left <= 0, "leak", "saving leaked %ld blocks", left); break;
    }
    MC_CHECK(!memcmp(&a, &before, sizeof a) && !memcmp(d, keep, n), "modified", "saving modified the array");
    size_t fn; unsigned char *f = get_file(path, &fn); nf_t r; const char *why = f ? nf_parse(f, fn, &r, true) : "no file";
    MC_CHECK(!why, "not-npy", "the written file is not a NumPy file: %s", why);
    MC_CHECK(r.type == t && r.elem == e && r.fortran == fo && r.ndim == nd && !memcmp(r.shape, sh, nd * sizeof *sh), "header", "the header describes another array");
    MC_CHECK(r.endian == (endian ? endian : e == 1 || t == 'S' ? '|' : '<'), "endian", "byte order '%c' in the header", r.endian);
    MC_CHECK(fn == r.off + n && !memcmp(f + r.off, d, n), "bytes", "the file has %zu bytes of other data", fn - r.off);
    free(f);
    read_both(t, e, fo, nd, sh, d, n);
    free(d); free(keep);
}
#if PART == 2
static void desc(char t, size_t e, char en, bool fo, int nd, const size_t *sh, char *b)
{ b += sprintf(b, "%c%c%zu %s (", en ? en : '?', t, e, fo ? "Fortran" : "C"); for (int i = 0; i < nd; i++) b += sprintf(b, "%zu,", sh[i]); strcpy(b, ")"); }
static void shapes(void)
{
    static const size_t al[] = { 1, 0, 3, 2, 17, 5, 64 };
    int nd = mc_choose(9), k = nd <= 2 ? 7 : nd == 3 ? 5 : nd == 4 ? 4 : nd <= 6 ? 3 : mc_thorough ? 3 : 2, ti = nd <= 2 ? mc_choose(NT) : -1; size_t sh[8]; unsigned h = 0;
    if (nd < 2) mc_shard();
    for (int i = 0; i < nd; i++) { sh[i] = nd >= 7 && k == 2 ? (size_t[]){ 1, 2 }[mc_choose(2)] : al[mc_choose(k)]; h = h * 31 + sh[i]; if (i == 1) mc_shard(); }
    if (ti < 0) ti = h % NT; int fo = mc_choose(2);
    char en = ty[ti].e == 1 || ty[ti].t == 'S' ? (mc_choose(2) ? '|' : 0) : (char[]){ 0, '<', '>' }[mc_choose(3)];
    if (prod(nd, sh) * ty[ti].e > 300000) mc_skip();
    char b[200]; desc(ty[ti].t, ty[ti].e, en, fo, nd, sh, b); mc_ctx("%s", b); mc_sample("%s", b);
    round_trip(ty[ti].t, ty[ti].e, en, fo, nd, sh);
}
static void zero8(void)       /* eight dimensions, one of them zero, the others with many digits */
{
    size_t sh[8]; int z = mc_choose(8), big = mc_choose(8), dig = mc_range(1, 17); size_t v = 9; for (int i = 1; i < dig; i++) v = v * 10 + 9;
    int nd = mc_pick(8, 7, 5); if (z >= nd || big >= nd || z == big) mc_skip();
    for (int i = 0; i < nd; i++) sh[i] = i == z ? 0 : i == big ? v : 1;
    char b[300]; desc('f', 4, 0, 0, nd, sh, b); mc_ctx("%s", b);
    round_trip('f', 4, 0, mc_choose(2), nd, sh);
}
static void sizes(void)       /* data sizes around stdio buffers and pages */
{
    static const int base[] = { 0, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 12288, 16384, 65536, 131072, 1 << 20 };
    int b = base[mc_choose(14)] - 128, d = mc_range(-70, 70); mc_shard(); size_t sh[2] = { b + d, 1 }; if (b + d < 0) mc_skip();
    mc_ctx("%d bytes of data", b + d); round_trip(d & 1 ? 'u' : 'S', 1, 0, 0, mc_range(1, 2), sh);
}
static int ro_map, ro_n;
static bool ro_try(const char *p){ npy_array_t *a = ro_map ? npy_array_mmap(p) : npy_array_load(p); if (!a || a->shape[0] != (size_t) ro_n) return false; for (int i = 0; i < ro_n; i++) if (a->data[i] != (char) (i * 7)) return false; npy_array_free(a); return true; }
static void readonly(void)    /* reading needs no permission to write */
{
    setpath(); ro_n = mc_pick(0, 1, 100, 3967, 3968, 3969, 100000); mc_shard(); ro_map = mc_choose(2); char *d = malloc(ro_n + 1); for (int i = 0; i < ro_n; i++) d[i] = i * 7; npy_array_t a = { .data = d, .ndim = 1, .shape = { ro_n }, .typechar = 'i', .elem_size = 1 };
    unlink(path); npy_array_save(path, &a); size_t n; unsigned char *f = get_file(path, &n); if (!f) mc_skip(); mc_ctx("%s a file of %d bytes that cannot be written", ro_map ? "mapping" : "loading", ro_n); mc_sample("%s a read-only file of %d bytes", ro_map ? "mapping" : "loading", ro_n);
    int r = read_only(mc_workdir, "a.npy", f, n, ro_try); free(f); free(d); if (r < 0) mc_skip(); MC_CHECK(!r, "read-only", "the array is not read from a file without write permission"); mc_eval(1); mc_nontrivial(1);
}
static void replace(void)     /* saving over an existing file of any other length */
{
    setpath(); size_t old = mc_pick(0, 1, 127, 128, 129, 5000, 100000), sh[1] = { (size_t) mc_pick(0, 1, 30, 1000, 30000) }; int e = mc_pick(1, 4);
    char *g = mkdata(old, 5); put_file(path, g, old); free(g);
    mc_ctx("saving %zu bytes over a file of %zu bytes", sh[0] * e, old);
    char *d = mkdata(sh[0] * e, 3); npy_array_t a = { .data = d, .ndim = 1, .shape = { sh[0] }, .typechar = 'u', .elem_size = e };
    npy_array_save(path, &a);
    size_t fn; unsigned char *f = get_file(path, &fn); nf_t r; const char *why = nf_parse(f, fn, &r, true); MC_CHECK(!why, "not-npy", "%s", why);
    MC_CHECK(fn == r.off + sh[0] * e, "stale", "the file has %zu bytes, the array %zu", fn, r.off + sh[0] * e); free(f);
    read_both('u', e, 0, 1, sh, d, sh[0] * e); free(d);
}
static void two_at_once(void) /* every interleaving of opening and freeing two arrays from two files */
{
    static char p[2][600]; static npy_array_t *h[2]; for (int i = 0; i < 2; i++) { if (h[i]) npy_array_free(h[i]); h[i] = NULL; }  size_t sh[2][1] = { { 7 }, { 3000 } }; char *d[2];
    for (int i = 0; i < 2; i++) { snprintf(p[i], sizeof p[i], "%s/t%d.npy", mc_workdir, i); d[i] = mkdata(sh[i][0] * 4, i); npy_array_t a = { .data = d[i], .ndim = 1, .shape = { sh[i][0] }, .typechar = 'f', .elem_size = 4 }; npy_array_save(p[i], &a); }
    int fds = open_fds();
    al_begin(0);
    for (int step = 0; step < (mc_thorough ? 7 : 5); step++) {
        int op = mc_choose(4), i = op & 1;
        if (h[i]) { if (op & 2) mc_skip(); npy_array_free(h[i]); h[i] = NULL; }
        else h[i] = op & 2 ? npy_array_mmap(p[i]) : npy_array_load(p[i]);
        al_pause();
        for (int k = 0; k < 2; k++) if (h[k]) same(h[k], 'f', 4, 0, 1, sh[k], d[k], sh[k][0] * 4, "open array");
        al_resume();
        mc_eval(1); mc_nontrivial(1);
    }
    for (int i = 0; i < 2; i++) { if (h[i]) npy_array_free(h[i]); h[i] = NULL; }
    MC_CHECK(al_end() <= 0, "leak", "memory leaked"); MC_CHECK(open_fds() == fds, "leak-fd", "files left open");
    for (int i = 0; i < 2; i++) { MC_CHECK(!mapped_regions(p[i]), "leak-map", "mapping left"); free(d[i]); }
}
static void foreign(void)     /* headers as other writers produce them: any total length, several styles */
{
    setpath();
    static const char *const ds[] = { "<f4", "|S7", "<c16", "|b1", "<i2", ">f4", "|u1" }; static const char dt[] = "fScbifu"; static const int de[] = { 4, 7, 16, 1, 2, 4, 1 };
    static const size_t shs[][8] = { { 3, 4 }, { 5 }, { 0 }, { 2, 0 }, { 2, 1, 3, 1, 2, 1, 2, 1 }, { 1000 }, { 2, 2, 2 } }; static const int nds[] = { 2, 1, 0, 2, 8, 1, 3 };
    int big = mc_choose(2), k = big ? 0 : mc_choose(7), s = big ? mc_pick(0, 5) : mc_choose(7), style = big ? 0 : mc_choose(3), fo = big ? 0 : mc_choose(2); mc_shard();
    size_t total; static unsigned char buf[80000];
    if (big) { int hi = mc_choose(258), lo = mc_choose(mc_thorough ? 256 : 9); static const int los[] = { 0, 1, 2, 63, 127, 128, 129, 200, 255 }; total = 10 + hi * 256 + (mc_thorough ? lo : los[lo]); if (total > 65545) mc_skip(); }
    else { int c = mc_choose(mc_thorough ? 420 : 60); total = mc_thorough ? 60 + c : c < 40 ? 64 + c * 7 : 250 + (c - 40) * 3; }
    size_t hn = nf_gen(buf, ds[k], fo, shs[s], nds[s], total, style); if (hn != total) mc_skip();
    size_t n = prod(nds[s], shs[s]) * de[k]; for (size_t i = 0; i < n; i++) buf[hn + i] = h32(i) >> 5;
    nf_t r; const char *why = nf_parse(buf, hn + n, &r, false); if (why) { fprintf(stderr, "reference disagrees with itself: %s\n", why); abort(); }
    int trail = mc_choose(2) * 5; memset(buf + hn + n, 0x5A, trail);
    mc_ctx("'%s' style %d, %d dimensions, header of %zu bytes, %d trailing bytes", ds[k], style, nds[s], total, trail); mc_sample("'%s' style %d, %d dimensions, header of %zu bytes", ds[k], style, nds[s], total);
    put_file(path, buf, hn + n + trail);
    read_both(dt[k], de[k], fo, nds[s], shs[s], buf + hn, n);
}
static unsigned char *corpus; static size_t corpus_n; static unsigned char **rec; static int nrec;
static void load_corpus(void)
{
    if (corpus) return;
    char p[600]; snprintf(p, sizeof p, "%s/corpus", mc_arg("root", "/tmp")); corpus = get_file(p, &corpus_n); if (!corpus || !corpus_n) { fprintf(stderr, "no corpus\n"); abort(); }
    rec = calloc(100000, sizeof *rec);
    for (unsigned char *q = corpus; q < corpus + corpus_n; ) { rec[nrec++] = q; uint32_t fl; memcpy(&fl, q, 4); q += 4 + fl; int nd = q[6]; q += 7; uint64_t n; memcpy(&n, q + 8 * nd, 8); q += 8 * nd + 8 + n; }
}
static void numpy_written(void)
{
    setpath(); load_corpus(); unsigned char *q = rec[mc_choose(nrec)]; uint32_t fl, e; memcpy(&fl, q, 4); unsigned char *file = q + 4; q = file + fl;
    char t = q[0]; memcpy(&e, q + 1, 4); bool fo = q[5]; int nd = q[6]; size_t sh[8]; memcpy(sh, q + 7, 8 * nd); q += 7 + 8 * nd; uint64_t n; memcpy(&n, q, 8); q += 8;
    nf_t r; const char *why = nf_parse(file, fl, &r, true);
    if (why || r.type != t || r.elem != e || r.fortran != fo || r.ndim != nd || memcmp(r.shape, sh, 8 * nd) || r.bytes != n) { fprintf(stderr, "the reference parser disagrees with NumPy: %s\n", why ? why : "other description"); abort(); }
    mc_ctx("written by NumPy: %c%u, %d dimensions, %d bytes", t, e, nd, (int) n);
    put_file(path, file, fl);
    read_both(t, e, fo, nd, sh, q, n); mc_trace(1);
}
static void numpy_reads(void)
{
    char d[600], p[700]; snprintf(d, sizeof d, "%s/np", mc_workdir); mkdir(d, 0755); snprintf(p, sizeof p, "%s/manifest", d); FILE *m = fopen(p, "w"); int k = 0;
    static const size_t shs[][8] = { { 3, 4 }, { 5 }, { 0 }, { 2, 0 }, { 2, 1, 3, 1, 2, 1, 2, 1 }, { 0 }, { 2, 2, 2 }, { 1000000, 1 }, { 1, 1 } }; static const int nds[] = { 2, 1, 0, 2, 8, 1, 3, 2, 2 };
    for (int t = 0; t < NT; t++) for (int s = 0; s < 9; s++) for (int fo = 0; fo < 2; fo++) {
        if (s == 7 && t % 7) continue;
        size_t n = prod(nds[s], shs[s]) * ty[t].e; char *data = mkdata(n, t); if (ty[t].t == 'b') for (size_t i = 0; i < n; i++) data[i] &= 1;
        npy_array_t a = { .data = data, .ndim = nds[s], .typechar = ty[t].t, .elem_size = ty[t].e, .fortran_order = fo }; memcpy(a.shape, shs[s], sizeof a.shape);
        snprintf(p, sizeof p, "%s/%d.npy", d, k); npy_array_save(p, &a); snprintf(p, sizeof p, "%s/%d.bin", d, k); put_file(p, data, n);
        fprintf(m, "npy %d %c %d %d %d", k, ty[t].t, ty[t].e, fo, nds[s]); for (int i = 0; i < nds[s]; i++) fprintf(m, " %zu", shs[s][i]); fprintf(m, "\n"); k++; free(data);
    }
    fclose(m);
    char cmd[1600]; snprintf(cmd, sizeof cmd, "python3-vt %s/tools/np_check.py %s", mc_arg("verif", "/verif"), d);
    mc_output_reset(); int rc = system(cmd); static char out[2000]; mc_output(out, sizeof out);
    MC_CHECK(WIFEXITED(rc) && WEXITSTATUS(rc) <= 1 && strstr(out, "checked"), "harness", "NumPy could not be run: %s", out);
    MC_CHECK(rc == 0, "numpy-disagrees", "%s", out);
    snprintf(cmd, sizeof cmd, "rm -r %s", d); system(cmd); mc_trace(k); mc_eval(k); mc_nontrivial(k);
}
static void dump(void)        /* describing and freeing never crash */
{
    int nd = mc_choose(9); size_t sh[8]; for (int i = 0; i < nd; i++) sh[i] = 11 + i; npy_array_t a = { .ndim = nd, .typechar = 'f', .elem_size = 4 }; memcpy(a.shape, sh, sizeof sh);
    for (int i = nd; i < 8; i++) a.shape[i] = 999;
    mc_output_reset(); npy_array_dump(mc_choose(2) ? &a : NULL); fflush(NULL); static char o[2000]; mc_output(o, sizeof o);
    for (int i = 0; i < nd; i++) { char w[20]; sprintf(w, "%d", 11 + i); if (strstr(o, "Dimensions")) MC_CHECK(strstr(o, w), "dump", "dimension %d missing in: %s", i, o); }
    MC_CHECK(!strstr(o, "999"), "dump", "a dimension that does not exist is printed: %s", o);
    mc_eval(1);
}
/* files beyond 2 and 4 GB (sparse), described by shapes whose parts are small: mapped and (once) loaded */
#include <sys/mman.h>
static void beyond(void)
{
    static const size_t T[] = { 1ull << 31, 1ull << 32, (1ull << 32) + (1ull << 31), 1ull << 33 };
    int t = mc_choose(mc_thorough ? 4 : 2), form = mc_choose(3), d = mc_range(-2, 2), load = mc_choose(2); mc_shard();
#ifdef __SANITIZE_ADDRESS__
    if (load) mc_skip();
#endif
    if (load && (d != 1 || form || t > (mc_thorough ? 1 : 0))) mc_skip();
    setpath(); size_t e = form == 0 ? 1 : form == 1 ? 4 : 16, n = T[t] / e + d, sh[2] = { n, 1 }; if (form == 1) { sh[0] = (T[t] + 65536 * (size_t)(d + 2)) / 65536 / 4; sh[1] = 65536; }
    size_t bytes = sh[0] * sh[1] * e; unsigned char h[300]; size_t hl = nf_gen(h, form == 0 ? "|u1" : form == 1 ? "<f4" : "<c16", false, sh, 2, 128, 0);
    unlink(path); int fd = open(path, O_RDWR | O_CREAT, 0644); if (fd < 0 || pwrite(fd, h, hl, 0) != (ssize_t) hl || ftruncate(fd, hl + bytes)) abort();
    size_t at[] = { 0, bytes - 1, bytes / 2, (1ull << 31) - 1, 1ull << 31, (1ull << 31) - hl, (1ull << 32) - 1, 1ull << 32, (1ull << 32) - hl, 12345 };
    for (int i = 0; i < 10; i++) if (at[i] < bytes) { unsigned char c = 7 + i; if (pwrite(fd, &c, 1, hl + at[i]) != 1) abort(); }
    close(fd); int fds = open_fds(); mc_ctx("%zu x %zu elements of %zu bytes (%zu bytes), %s", sh[0], sh[1], e, bytes, load ? "loaded" : "mapped"); mc_sample("%zu x %zu elements of %zu bytes, %s", sh[0], sh[1], e, load ? "loaded" : "mapped");
    npy_array_t *a = load ? npy_array_load(path) : npy_array_mmap(path);
    MC_CHECK(a, "refused", "a valid file of %zu bytes was refused", hl + bytes);
    MC_CHECK(a->ndim == 2 && a->shape[0] == sh[0] && a->shape[1] == sh[1] && a->elem_size == e, "shape", "%zu x %zu elements of %zu bytes", a->shape[0], a->shape[1], a->elem_size);
    MC_CHECK(npy_array_calculate_datasize(a) == bytes, "size", "data size %zu instead of %zu", npy_array_calculate_datasize(a), bytes);
    for (int i = 0; i < 10; i++) if (at[i] < bytes) { int c = 7 + i; for (int j = i + 1; j < 10; j++) if (at[j] == at[i]) c = 7 + j; MC_CHECK(a->data[at[i]] == c, "bytes", "byte %zu is %d instead of %d", at[i], a->data[at[i]], c); MC_CHECK(at[i] + 99 >= bytes || a->data[at[i] + 99] == 0 || at[i] + 99 == at[(i + 1) % 10], "bytes", "byte %zu is %d", at[i] + 99, a->data[at[i] + 99]); }
    npy_array_free(a); MC_CHECK(!mapped_regions(path), "leak-map", "part of the mapping is left after freeing"); MC_CHECK(open_fds() == fds, "leak-fd", "a file is left open");
    unlink(path); mc_eval(1); mc_nontrivial(1);
}
static void beyond_save(void)  /* an array of more than 2 (4) GB is written completely */
{
    int t = mc_choose(mc_thorough ? 2 : 1); mc_shard();
#ifdef __SANITIZE_ADDRESS__
    mc_skip();
#endif
    setpath(); size_t bytes = t ? (1ull << 32) + 4096 : (1ull << 31) + 4096, sh[2] = { bytes / 4096, 1024 }; char *d = mmap(NULL, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (d == MAP_FAILED) abort(); madvise(d, bytes, MADV_NOHUGEPAGE);
    size_t at[] = { 0, bytes - 1, (1ull << 31) - 1, 1ull << 31, bytes - 99 }; for (int i = 0; i < 5; i++) d[at[i]] = 3 + i;
    npy_array_t a = { .data = d, .ndim = 2, .shape = { sh[0], sh[1] }, .typechar = 'f', .elem_size = 4 }; mc_ctx("saving %zu bytes", bytes); mc_sample("saving %zu bytes", bytes);
    unlink(path); npy_array_save(path, &a); struct stat s; MC_CHECK(!stat(path, &s), "no-file", "nothing written");
    unsigned char h[1000] = ""; FILE *f = fopen(path, "rb"); size_t hn = fread(h, 1, 1000, f); nf_t r; const char *why = nf_parse(h, hn, &r, true); MC_CHECK(!why && r.ndim == 2 && r.shape[0] == sh[0] && r.shape[1] == sh[1], "not-npy", "%s", why ? why : "another shape");
    MC_CHECK((size_t) s.st_size == r.off + bytes, "bytes", "%zu bytes written instead of %zu", (size_t) s.st_size, r.off + bytes);
    for (int i = 0; i < 5; i++) { fseeko(f, r.off + at[i], SEEK_SET); int c = fgetc(f); MC_CHECK(c == 3 + i, "bytes", "byte %zu is %d instead of %d", at[i], c, 3 + i); }
    fclose(f); unlink(path); munmap(d, bytes); mc_eval(1); mc_nontrivial(1);
}
const mc_suite_t mc_suites[] = { { "beyond", beyond }, { "beyond-save", beyond_save }, { "shapes", shapes }, { "long-shapes", zero8 }, { "sizes", sizes }, { "read-only", readonly }, { "replace", replace }, { "two-arrays", two_at_once }, { "foreign-headers", foreign }, { "numpy-written", numpy_written }, { "numpy-reads", numpy_reads }, { "dump", dump }, { 0 } };
#endif
#if PART == 5
static unsigned char *vmax(size_t n){ static unsigned char *b; static size_t cap; if (n > cap) b = realloc(b, cap = n); return b; }
/* Reads the file; the result must be null or fully backed by the file. */
static void damaged(const unsigned char *f, size_t n)
{
    setpath(); put_file(path, f, n);
    nf_t r; const char *why = nf_parse(f, n, &r, false); int fds = open_fds();
    size_t hl = n >= 10 ? (f[8] | f[9] << 8) : 0, off = 10 + hl;
    for (int m = 0; m < 2; m++) for (int rep = 0; ; rep++) {
        const char *how = m ? "memory-mapping" : "loading";
        al_begin(0); al_max(64u << 20);
        npy_array_t *b = m ? npy_array_mmap(path) : npy_array_load(path);
        al_pause();
        if (!why && r.bytes > n - r.off) MC_CHECK(!b, "short-accepted", "%s accepted a file with %zu of %zu data bytes", how, n - r.off, (size_t) r.bytes);
        if (!why && r.bytes <= n - r.off && r.ndim <= 8) same(b, r.type, r.elem, r.fortran, r.ndim, r.shape, f + r.off, r.bytes, how);
        if (b) {
            MC_CHECK(off <= n, "unbacked", "%s: the header alone exceeds the file", how);
            MC_CHECK(b->ndim >= 0 && b->ndim <= 8, "unbacked", "%s: %d dimensions", how, b->ndim);
            unsigned __int128 s = b->elem_size; for (int i = 0; i < b->ndim; i++) { if (b->shape[i] && s > (((unsigned __int128) 1 << 127) / b->shape[i])) { s = ~(unsigned __int128) 0; } else s *= b->shape[i]; }
            bool zero = false; for (int i = 0; i < b->ndim; i++) if (!b->shape[i]) zero = true; if (zero) s = 0;
            MC_CHECK(s <= n - off, "unbacked", "%s: the shape needs more than the %zu data bytes of the file", how, n - off);
            MC_CHECK(npy_array_calculate_datasize(b) == (size_t) s, "size", "%s: data size %zu", how, npy_array_calculate_datasize(b));
            MC_CHECK(s == 0 || !memcmp(b->data, f + off, s), "bytes", "%s: the data are not those of the file", how);
            if (m == 0 && s) { size_t as = al_size(b->data); MC_CHECK(!as || as >= s, "storage", "%s: %zu bytes allocated", how, as); }
            mc_nontrivial(1);
            al_resume(); npy_array_free(b);
        }
        al_resume();
        long left = al_end(); if (left > 0 && !rep) continue;
        MC_CHECK(left <= 0, "leak", "%s leaked %ld blocks", how, left); break;
    }
    MC_CHECK(open_fds() == fds, "leak-fd", "a file is left open"); 
    MC_CHECK(!mapped_regions(path), "leak-map", "part of the mapping is left");
    mc_eval(2);
}
static size_t valid_file(int k, unsigned char *b)
{
    static const struct { const char *d; int e; size_t sh[8]; int nd; bool fo; size_t total; } v[] = {
        { "<f4", 4, { 3, 4 }, 2, 0, 128 }, { "|S7", 7, { 5 }, 1, 0, 80 }, { "<f8", 8, { 2, 1, 3 }, 3, 1, 128 }, { "<f4", 4, { 0 }, 0, 0, 64 }, { "|u1", 1, { 300 }, 1, 0, 330 }, { "<f4", 4, { 0, 3 }, 2, 0, 128 } };
    size_t h = nf_gen(b, v[k].d, v[k].fo, v[k].sh, v[k].nd, v[k].total, 0), n = prod(v[k].nd, v[k].sh) * v[k].e;
    for (size_t i = 0; i < n; i++) b[h + i] = h32(i + k) >> 3;
    return h + n;
}
static void truncated(void)
{
    unsigned char b[2000]; int k = mc_choose(6); size_t n = valid_file(k, b), len = mc_choose(n + 1); mc_shard();
    mc_ctx("valid file %d (%zu bytes) cut to %zu bytes", k, n, len); mc_sample("valid file %d cut to %zu of %zu bytes", k, len, n);
    damaged(b, len);
}
static void extended(void)
{
    unsigned char b[2000]; int k = mc_choose(6); size_t n = valid_file(k, b), more = mc_range(1, 40);
    for (size_t i = 0; i < more; i++) b[n + i] = 0x77; mc_ctx("valid file %d with %zu bytes appended", k, more);
    damaged(b, n + more);
}
static void onebyte(void)
{
    unsigned char b[2000]; int k = mc_choose(mc_thorough ? 6 : 3); size_t n = valid_file(k, b), pos = mc_choose(n < 140 ? n : 140); mc_shard(); int v = mc_choose(256);
    if (b[pos] == v) mc_skip();
    /* quick: in the padding only every eighth value */
    mc_ctx("valid file %d, byte %zu changed from %d to %d", k, pos, b[pos], v); mc_sample("valid file %d, byte %zu: %d -> %d", k, pos, b[pos], v);
    if (!mc_thorough && pos > 75 && v % 8) mc_skip();
    b[pos] = v; damaged(b, n);
}
static void twobytes(void)
{
    static const unsigned char al[] = "09'(),-<|:fS \n\0\xff}9"; unsigned char b[2000]; size_t n = valid_file(0, b);
    int p = mc_choose(72), q = mc_choose(72); mc_shard(); if (q <= p) mc_skip();
    if (!mc_thorough && !(p < 12 || (p >= 20 && p <= 26) || p >= 60)) mc_skip();
    if (!mc_thorough && !(q < 12 || (q >= 20 && q <= 26) || q >= 60)) mc_skip();
    int vi = mc_choose(mc_thorough ? 18 : 9), vj = mc_choose(mc_thorough ? 18 : 9);
    b[p] = al[mc_thorough ? vi : vi * 2]; b[q] = al[mc_thorough ? vj : vj * 2 + 1];
    mc_ctx("valid file 0, byte %d set to %d and byte %d to %d", p, b[p], q, b[q]);
    damaged(b, n);
}
static void grammar(void)     /* headers assembled from well- and malformed parts */
{
    static const char *const D[] = { "'descr': '<f4', ", "", "'descr': '<f4, ", "'descr': 'f4', ", "'descr': '<f', ", "'descr': '<f0', ", "'descr': '<f99999999999999999999', ", "'descr': '<f-4', ", "'descr': '<U4', ", "'descr': [('a', '<f4')], ", "'descr': '|O', ", "'descr': '", "'descr': '<", "'descr': '<f18446744073709551615', ", "'descr': '<f4294967297', ", "'descr': '>f4', ", "'descr': '<M8[ns]', ", "'descr': '\xff\xff\xff', ", "'descr': '<f9223372036854775807', " };
    static const char *const F[] = { "'fortran_order': False, ", "'fortran_order': True, ", "", "'fortran_order': Maybe, ", "'fortran_order': ", "'fortran_order': 0, " };
    static const char *const S[] = { "'shape': (3, 4), ", "'shape': (3,), ", "'shape': (), ", "", "'shape': (3, 4", "'shape': ", "'shape': (", "'shape': (3,,4), ", "'shape': (-1, 4), ", "'shape': (3, -4), ", "'shape': (99999999999999999999), ", "'shape': (4294967296, 4294967296), ", "'shape': (4611686018427387904,), ", "'shape': (4611686018427387905,), ", "'shape': (2, 4611686018427387904, 2), ", "'shape': (9223372036854775808,), ", "'shape': (18446744073709551615,), ", "'shape': (1,1,1,1,1,1,1,1,), ", "'shape': (1,1,1,1,1,1,1,1,1,), ", "'shape': (1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,), ", "'shape': (3L, 4L), ", "'shape': (0x3, 4), ", "'shape': (3.0, 4), ", "'shape': (a, b), ", "'shape': 12, ", "'shape': (12), ", "'shape': (65536, 65536, 65536, 65536), ", "'shape': (0, 18446744073709551615), ", "'shape': (18446744073709551615, 0), ", "'shape': (+3, 4), ", "'shape': (3 4), ", "'shape': [3, 4], " };
    static const char *const E[] = { "}          \n", "}", "", "\n", ")}\n" };
    int d = mc_choose(19), s = mc_choose(32); mc_shard(); int f = mc_choose(mc_thorough ? 6 : 4), e = mc_choose(mc_thorough ? 5 : 3), hm = mc_choose(5), dn = mc_pick(48, 47, 0, 49), order = mc_thorough ? mc_choose(2) : 0;
    if (!mc_thorough && ((d > 0) + (s > 0) + (f > 0) + (e > 0) + (hm > 0) > 3)) mc_skip();
    unsigned char b[3000]; char h[1500]; int n = order ? sprintf(h, "{%s%s%s%s", S[s], F[f], D[d], E[e]) : sprintf(h, "{%s%s%s%s", D[d], F[f], S[s], E[e]);
    size_t hl = hm == 0 ? n : hm == 1 ? n - 1 : hm == 2 ? 0 : hm == 3 ? 65535 : (size_t) n + 9;
    memcpy(b, "\x93NUMPY\1\0", 8); b[8] = hl; b[9] = hl >> 8; memcpy(b + 10, h, n); for (int i = 0; i < dn; i++) b[10 + n + i] = i * 7;
    mc_ctx("header \"%.*s\" with length field %zu and %d data bytes", n, h, hl, dn); mc_sample("header \"%.*s\", length field %zu, %d data bytes", n > 100 ? 100 : n, h, hl, dn);
    damaged(b, 10 + n + dn);
}
static void shortdata(void)   /* every shape x every amount of missing data */
{
    static const size_t al[] = { 1, 2, 5, 0, 1000 }; int nd = mc_range(0, 3), ti = mc_choose(4); size_t sh[8]; for (int i = 0; i < nd; i++) sh[i] = al[mc_choose(5)]; mc_shard();
    static const char *const ds[] = { "<f4", "|u1", "|S13", "<c16" }; static const int de[] = { 4, 1, 13, 16 }; size_t n = prod(nd, sh) * de[ti]; if (n > 20000 || (!mc_thorough && n > 5100)) mc_skip();
    unsigned char *b = vmax(30000); size_t h = nf_gen(b, ds[ti], mc_choose(2), sh, nd, 0, 0); memset(b + h, 0x3C, n);
    int miss = mc_pick(1, 2, 0, 3, 4, 15, 16, 4096, -1, -2); if (miss == -1) miss = n; if (miss == -2) miss = n / 2; if ((size_t) miss > n) mc_skip();
    mc_ctx("%s with %d dimensions, %d of %zu data bytes missing", ds[ti], nd, miss, n); damaged(b, h + n - miss);
}
static void notfiles(void)
{
    setpath(); char p[700]; int k = mc_choose(4); if (k == 0) snprintf(p, sizeof p, "%s/missing", mc_workdir); else if (k == 1) snprintf(p, sizeof p, "%s", mc_workdir); else if (k == 2) { put_file(path, "", 0); strcpy(p, path); } else strcpy(p, "");
    int fds = open_fds(); mc_ctx("path kind %d", k);
    for (int m = 0; m < 2; m++) { al_begin(0); npy_array_t *a = m ? npy_array_mmap(p) : npy_array_load(p); al_pause(); MC_CHECK(!a, "accepted", "something that is no array file was read"); al_resume(); if (al_end() > 0) { al_begin(0); a = m ? npy_array_mmap(p) : npy_array_load(p); MC_CHECK(al_end() <= 0, "leak", "memory leaked"); } MC_CHECK(open_fds() == fds, "leak-fd", "file left open"); mc_eval(1); mc_nontrivial(1); }
}
/* shapes whose product is small only if it is computed with too few bits */
static void wraps(void)
{
    static const char *const ds[] = { "|u1", "<f4", "<f8", "<c16", "|S3", "|S4294967297", "|S4294967300" }; static const size_t de[] = { 1, 4, 8, 16, 3, 4294967297ull, 4294967300ull };
    int k = mc_choose(7), nd = mc_range(1, 3), zero = mc_choose(2); size_t sh[3] = { 1, 1, 1 }; unsigned char b[400];
    if (nd == 1) { int p = mc_range(8, 63), more = mc_range(-4, 12); mc_shard(); sh[0] = (1ull << p) + more; }
    else if (nd == 2) { int p = mc_range(0, 63), q = mc_range(0, 63), more = mc_range(-1, 3); mc_shard(); if (p + q < 24) mc_skip(); sh[0] = (1ull << p) + (more == 2 ? 1 : 0); sh[1] = (1ull << q) + (more == 2 ? -1 : more == 3 ? 3 : more); if (!sh[1]) mc_skip(); }
    else { static const int e[] = { 0, 1, 8, 11, 15, 16, 20, 21, 31, 32, 33, 48, 62, 63 }; int p = e[mc_choose(14)], q = e[mc_choose(14)], r = e[mc_choose(14)]; mc_shard(); if (p + q + r < 24) mc_skip(); sh[0] = 1ull << p; sh[1] = 1ull << q; sh[2] = (1ull << r) + mc_choose(2); }
    unsigned __int128 n = de[k]; for (int i = 0; i < nd; i++) { n *= sh[i]; if (n >> 80) n = (unsigned __int128) 1 << 80; } if (n < (70u << 20) && n > 200) mc_skip();     /* (really that large: nothing special) */
    size_t h = nf_gen(b, ds[k], false, sh, nd, 0, 0); memset(b + h, 0x21, 48);
    mc_ctx("'%s', shape (%zu, %zu, %zu) of %d, %d data bytes", ds[k], sh[0], sh[1], sh[2], nd, zero ? 0 : 48); mc_sample("'%s', shape (%zu, %zu, %zu) of %d", ds[k], sh[0], sh[1], sh[2], nd);
    damaged(b, h + (zero ? 0 : 48));
}
const mc_suite_t mc_suites[] = { { "wraps", wraps }, { "truncated", truncated }, { "extended", extended }, { "one-byte", onebyte }, { "two-bytes", twobytes }, { "grammar", grammar }, { "short-data", shortdata }, { "not-files", notfiles }, { 0 } };
#endif
#if PART == 9
/* ---- what is said about an array: builder macros, header text, data size, printed description ---- */
static char hb[3 * 4096];
static void described(const npy_array_t *a, const char *what)
{
    npy_array_t before = *a; unsigned __int128 want = a->elem_size; for (int i = 0; i < a->ndim; i++) want *= a->shape[i];
    mc_ctx("%s: %c%zu, %d dimensions (%zu,%zu,%zu,..), %s order", what, a->typechar, a->elem_size, a->ndim, a->ndim > 0 ? a->shape[0] : 0, a->ndim > 1 ? a->shape[1] : 0, a->ndim > 2 ? a->shape[2] : 0, a->fortran_order ? "Fortran" : "C"); mc_sample("%s: %c%zu, %d dimensions", what, a->typechar, a->elem_size, a->ndim);
    memset(hb, 0xA5, sizeof hb); size_t hl = npy_array_get_header(a, hb + 4096); MC_CHECK(hl <= 4096, "header", "a header of %zu bytes", hl);
    for (size_t i = 0; i < sizeof hb; i++) if (i < 4096 || i >= 4096 + hl) MC_CHECK((unsigned char) hb[i] == 0xA5, "oob-header", "byte %ld of the buffer was written by a header of %zu bytes", (long) i - 4096, hl);
    nf_t r; const char *why = nf_parse((unsigned char*) hb + 4096, hl, &r, true); MC_CHECK(!why || !strcmp(why, "array too big"), "header", "the header is not valid: %s", why); MC_CHECK(r.off == hl, "header", "the header of %zu bytes announces %zu", hl, r.off);
    MC_CHECK(r.type == a->typechar && r.elem == a->elem_size && r.fortran == a->fortran_order && r.ndim == a->ndim, "header", "the header says %c%zu, %d dimensions, %s order", r.type, r.elem, r.ndim, r.fortran ? "Fortran" : "C"); for (int i = 0; i < a->ndim; i++) MC_CHECK(r.shape[i] == a->shape[i], "header", "dimension %d is %zu in the header instead of %zu", i, r.shape[i], a->shape[i]);
    if (!(want >> 64)) MC_CHECK(npy_array_calculate_datasize(a) == (size_t) want, "size", "the data size is %zu instead of %zu", npy_array_calculate_datasize(a), (size_t) want);
    mc_output_reset(); npy_array_dump(a); fflush(NULL); static char o[3000]; mc_output(o, sizeof o);
    bool dims = false, shape = false, type = false, order = false;
    for (char *l = strtok(o, "\n"); l; l = strtok(NULL, "\n")) {
        char *c = strchr(l, ':'); if (!c) continue;
        if (!strncmp(l, "Dimensions", 10)) { dims = true; MC_CHECK(atoi(c + 1) == a->ndim, "dump", "printed: %s", l); }
        if (!strncmp(l, "Shape", 5)) { shape = true; int n = 0; for (char *p = c + 1; *p; ) { if (*p == '-') mc_fail("dump", "a negative size is printed: %s", l); if (*p >= '0' && *p <= '9') { size_t v = strtoull(p, &p, 10); MC_CHECK(n < a->ndim && v == a->shape[n], "dump", "size %d is printed as %zu instead of %zu: %s", n, v, n < a->ndim ? a->shape[n] : 0, l); n++; } else p++; } MC_CHECK(n == a->ndim, "dump", "%d sizes are printed for %d dimensions: %s", n, a->ndim, l); }
        if (!strncmp(l, "Type", 4)) { type = true; char *q = strchr(c, '\''); MC_CHECK(q && q[1] == a->typechar, "dump", "printed: %s", l); q = strpbrk(q + 2, "0123456789"); MC_CHECK(q && strtoull(q, NULL, 10) == a->elem_size, "dump", "printed: %s", l); }
        if (!strncmp(l, "Fortran", 7)) { order = true; MC_CHECK(strstr(c, a->fortran_order ? "True" : "False"), "dump", "printed: %s", l); }
    }
    MC_CHECK(dims && shape && type && order, "dump", "the printed description is incomplete"); MC_CHECK(!memcmp(&before, a, sizeof before), "modified", "describing modified the array"); mc_eval(1); mc_nontrivial(1);
}
/* every shape of 0..8 dimensions over small, zero and huge sizes */
static void forms(void)
{
    static const size_t S[] = { 3, 0, 1, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 9007199254740993ull, 9223372036854775807ull }; static const int many[9] = { 9, 9, 9, 9, 5, 3, 3, 2, 2 };
    int nd = mc_range(0, 8), t = mc_choose(NT); bool fo = mc_choose(2); if (nd > 2) mc_shard(); if (nd > 3 && t > 1 && !mc_thorough) mc_skip(); npy_array_t a = { .ndim = nd, .typechar = ty[t].t, .elem_size = ty[t].e, .fortran_order = fo };
    for (int i = 0; i < nd; i++) { int k = mc_choose(many[nd]); a.shape[i] = S[many[nd] < 9 && k ? 9 - k : k]; } for (int i = nd; i < 8; i++) a.shape[i] = 777; described(&a, "array");
}
/* the macros of the documentation */
static void builders(void)
{
    static char d[400000]; npy_array_t a; int n = 0, nd = mc_range(1, 8), dt = mc_choose(16), v = mc_choose(3); mc_shard(); setpath();
    static const struct { char t; int e; } T[16] = { {'f',2},{'f',4},{'f',8},{'f',16},{'i',1},{'i',2},{'i',4},{'i',8},{'u',1},{'u',2},{'u',4},{'u',8},{'c',8},{'c',16},{'c',32}, {'b',1} };
#define B3(sh, ...) a = v == 0 ? *NPY_ARRAY_BUILDER(d, sh, __VA_ARGS__) : v == 1 ? *NPY_ARRAY_BUILDER(d, sh, __VA_ARGS__, .fortran_order = true) : *NPY_ARRAY_BUILDER((int*) d, sh, .fortran_order = false, __VA_ARGS__)
#define BD(DT) switch (nd) { case 1: B3(SHAPE(2), DT); break; case 2: B3(SHAPE(2, 3), DT); break; case 3: B3(SHAPE(2, 3, 4), DT); break; case 4: B3(SHAPE(2, 3, 4, 5), DT); break; case 5: B3(SHAPE(2, 3, 4, 5, 6), DT); break; case 6: B3(SHAPE(2, 3, 4, 5, 6, 7), DT); break; case 7: B3(SHAPE(2, 3, 4, 5, 6, 7, 1), DT); break; default: B3(SHAPE(2, 3, 4, 5, 6, 7, 1, 2), DT); } break
    switch (dt) { case 0: BD(NPY_DTYPE_FLOAT16); case 1: BD(NPY_DTYPE_FLOAT32); case 2: BD(NPY_DTYPE_FLOAT64); case 3: BD(NPY_DTYPE_FLOAT128); case 4: BD(NPY_DTYPE_INT8); case 5: BD(NPY_DTYPE_INT16); case 6: BD(NPY_DTYPE_INT32); case 7: BD(NPY_DTYPE_INT64); case 8: BD(NPY_DTYPE_UINT8); case 9: BD(NPY_DTYPE_UINT16); case 10: BD(NPY_DTYPE_UINT32); case 11: BD(NPY_DTYPE_UINT64); case 12: BD(NPY_DTYPE_COMPLEX64); case 13: BD(NPY_DTYPE_COMPLEX128); case 14: BD(NPY_DTYPE_COMPLEX256); default: BD(NPY_DTYPE_BOOL); }
    mc_ctx("builder of %d dimensions, type %d, variant %d", nd, dt, v); static const size_t W[8] = { 2, 3, 4, 5, 6, 7, 1, 2 }; (void) n;
    MC_CHECK(a.data == d && a.typechar == T[dt].t && (int) a.elem_size == T[dt].e && a.ndim == nd && a.fortran_order == (v == 1), "builder", "the builder makes %c%zu of %d dimensions, %s order", a.typechar, a.elem_size, a.ndim, a.fortran_order ? "Fortran" : "C"); for (int i = 0; i < nd; i++) MC_CHECK(a.shape[i] == W[i], "builder", "dimension %d is %zu instead of %zu", i, a.shape[i], W[i]);
    MC_CHECK(!a.map_addr, "builder", "the array claims to be mapped"); described(&a, "builder");
    size_t bytes = prod(nd, W) * T[dt].e; if (bytes > sizeof d) abort(); for (size_t i = 0; i < bytes; i++) d[i] = h32(i + dt) >> 5; unlink(path); npy_array_save(path, &a); read_both(T[dt].t, T[dt].e, v == 1, nd, W, d, bytes);
}
static void missing(void){ mc_shard(); mc_ctx("no array"); npy_array_dump(NULL); mc_eval(1); mc_nontrivial(1); }
const mc_suite_t mc_suites[] = { { "forms", forms }, { "builders", builders }, { "none", missing }, { 0 } };
#endif
