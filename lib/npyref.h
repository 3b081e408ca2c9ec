/* npyref.h - independent reference of the NumPy array format (version 1.0): a strict parser and a generator. */
#ifndef NPYREF_H
#define NPYREF_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
typedef struct { char endian, type; size_t elem; bool fortran; int ndim; size_t shape[32]; size_t off; unsigned __int128 bytes; } nf_t;

static const char *nf_lit(const char *p, const char *lit){ size_t n = strlen(lit); return p && !strncmp(p, lit, n) ? p + n : NULL; }
static const char *nf_sp(const char *p){ while (p && *p == ' ') p++; return p; }
/* 0: valid; otherwise a reason.  Exactly what numpy.lib.format demands of a simple-dtype version 1.0 header. */
static const char *nf_parse(const unsigned char *f, size_t n, nf_t *o, bool strict_pad)
{
    memset(o, 0, sizeof *o);
    if (n < 10) return "too short for the magic";
    if (memcmp(f, "\x93NUMPY", 6)) return "bad magic";
    if (f[6] != 1 || f[7] != 0) return "bad version";
    size_t hl = f[8] | f[9] << 8;
    if (n < 10 + hl) return "too short for the header";
    if (hl < 2 || f[10 + hl - 1] != '\n') return "header not terminated by a newline";
    if (strict_pad && (10 + hl) % 64) return "header not padded to a multiple of 64";
    char *h = malloc(hl + 1); memcpy(h, f + 10, hl); h[hl] = 0;
    const char *why = "bad dictionary", *p = h; bool have[3] = { false };
    if (memchr(h, 0, hl)) goto out;
    p = nf_sp(p); if (*p != '{') goto out; p = nf_sp(p + 1);
    o->off = 10 + hl;
    while (*p != '}') {
        const char *q;
        if ((q = nf_lit(p, "'descr'"))) {
            if (strncmp(q, ": ", 2)) goto out; q += 2; if (*q++ != '\'') { why = "unsupported descr"; goto out; }
            if (!*q || !strchr("<>|", *q)) { why = "unsupported descr"; goto out; } o->endian = *q++;
            if (!*q || !strchr("fiucbSV", *q)) { why = "unsupported descr"; goto out; } o->type = *q++;
            if (*q < '0' || *q > '9') { why = "unsupported descr"; goto out; }
            o->elem = 0; while (*q >= '0' && *q <= '9') { if (o->elem > 1u << 30) { why = "unsupported descr"; goto out; } o->elem = o->elem * 10 + (*q++ - '0'); }
            if (*q++ != '\'') { why = "unsupported descr"; goto out; } have[0] = true;
        } else if ((q = nf_lit(p, "'fortran_order'"))) {
            if (strncmp(q, ": ", 2)) goto out; q += 2;
            const char *r; if ((r = nf_lit(q, "True"))) o->fortran = true; else if ((r = nf_lit(q, "False"))) o->fortran = false; else goto out;
            q = r; have[1] = true;
        } else if ((q = nf_lit(p, "'shape'"))) {
            if (strncmp(q, ": ", 2)) goto out; q += 2; if (*q++ != '(') goto out; q = nf_sp(q); o->ndim = 0;
            while (*q != ')') {
                if (*q < '0' || *q > '9') { why = "bad shape"; goto out; }
                unsigned __int128 v = 0; while (*q >= '0' && *q <= '9') { v = v * 10 + (*q++ - '0'); if (v >> 63) { why = "bad shape"; goto out; } }
                if (*q == 'L') q++;
                if (o->ndim == 32) { why = "bad shape"; goto out; }
                o->shape[o->ndim++] = v; q = nf_sp(q);
                if (*q == ',') q = nf_sp(q + 1); else if (*q != ')' || o->ndim == 1) { why = "bad shape"; goto out; }
            }
            q++; have[2] = true;
        } else goto out;
        p = nf_sp(q); if (*p == ',') p = nf_sp(p + 1); else if (*p != '}') goto out;
    }
    p++; while (*p == ' ') p++; if (*p != '\n' || p != h + hl - 1) goto out;
    if (!have[0] || !have[1] || !have[2]) { why = "missing key"; goto out; }
    if (o->elem == 0) { why = "element size zero"; goto out; }
    unsigned __int128 b = o->elem; bool zero = false;
    for (int i = 0; i < o->ndim; i++) if (o->shape[i]) { b *= o->shape[i]; if (b >> 63) { why = "array too big"; goto out; } } else zero = true;
    o->bytes = zero ? 0 : b; why = NULL;
out:
    free(h); return why;
}
/* Writes pre-header and header; total header size `total` (0: pad to 64 as NumPy does). Returns bytes written. */
static size_t nf_gen(unsigned char *f, const char *descr, bool fortran, const size_t *shape, int ndim, size_t total, int style)
{
    char d[1024]; int n;
    n = sprintf(d, style == 2 ? "{'descr':'%s','fortran_order': %s,'shape': (" : "{'descr': '%s', 'fortran_order': %s, 'shape': (", descr, fortran ? "True" : "False");
    if (style == 2) n = sprintf(d, "{'descr': '%s','fortran_order': %s,'shape': (", descr, fortran ? "True" : "False");
    for (int i = 0; i < ndim; i++) n += sprintf(d + n, style == 1 ? "%s%zuL" : "%s%zu", i ? ", " : "", shape[i]);
    n += sprintf(d + n, ndim == 1 ? ",), }" : style == 2 ? ")}" : "), }");
    if (!total) total = (10 + n + 1 + 63) / 64 * 64;
    if (total < 10u + n + 1) total = 10 + n + 1;
    size_t hl = total - 10;
    memcpy(f, "\x93NUMPY\1\0", 8); f[8] = hl & 255; f[9] = hl >> 8;
    memcpy(f + 10, d, n); memset(f + 10 + n, ' ', hl - n - 1); f[10 + hl - 1] = '\n';
    return total;
}
static void put_file(const char *path, const void *p, size_t n)
{
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) { perror(path); abort(); }
    while (n) { ssize_t w = write(fd, p, n); if (w <= 0) { perror(path); abort(); } p = (const char*) p + w; n -= w; }
    close(fd);
}
static unsigned char *get_file(const char *path, size_t *n)
{
    int fd = open(path, O_RDONLY); *n = 0; if (fd < 0) return NULL;
    struct stat st; if (fstat(fd, &st)) { close(fd); return NULL; }
    unsigned char *b = malloc(st.st_size + 1); size_t got = 0; ssize_t r;
    while (got < (size_t) st.st_size && (r = read(fd, b + got, st.st_size - got)) > 0) got += r;
    close(fd); *n = got; return b;
}
static int open_fds(void){ int n = 0; for (int i = 0; i < 128; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
/* Runs a test on a file that can't be written, in a directory where nothing can be, in a process without the privilege to do so all the same:
 * 0 it held, 1 it did not, -1 no such process can be made here. `try' may print why not. */
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
static int read_only(const char *dir, const char *name, const void *data, size_t n, bool (*try)(const char *path)) __attribute__((unused));
static int read_only(const char *dir, const char *name, const void *data, size_t n, bool (*try)(const char *path))
{
    char d[500], p[600]; snprintf(d, sizeof d, "%s/ro", dir); snprintf(p, sizeof p, "%s/%s", d, name); chmod(d, 0755); unlink(p); rmdir(d); mkdir(d, 0755); put_file(p, data, n); chmod(p, 0444); chmod(d, 0555); fflush(NULL);
    pid_t c = fork();
    if (!c) {
        struct { uint32_t version; int pid; } h = { 0x20080522, 0 }; struct { uint32_t eff, perm, inh; } caps[2] = { 0 }; if (syscall(SYS_capset, &h, caps)) _exit(2);
        int fd = open(p, O_RDWR); if (fd >= 0) _exit(2); _exit(try(p) ? 0 : 1);
    }
    int st; waitpid(c, &st, 0); chmod(d, 0755); unlink(p); rmdir(d); return !WIFEXITED(st) ? 1 : WEXITSTATUS(st) == 2 ? -1 : WEXITSTATUS(st);
}
static int mapped_regions(const char *path)   /* mappings of this file still present */
{
    int fd = open("/proc/self/maps", O_RDONLY), n = 0; static char b[1 << 18]; size_t got = 0; ssize_t r;
    while (got < sizeof b - 1 && (r = read(fd, b + got, sizeof b - 1 - got)) > 0) got += r;
    close(fd); b[got] = 0;
    for (char *p = b; (p = strstr(p, path)); p++) n++;
    return n;
}
#endif
