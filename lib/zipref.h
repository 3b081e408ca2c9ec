/* zipref.h - independent reader and writer of zip archives (stored and deflated). */
#ifndef ZIPREF_H
#define ZIPREF_H
#include <zlib.h>
#include "npyref.h"
typedef struct { char name[300]; int method; size_t n; unsigned char *data; } ze_t;
typedef struct { unsigned char *b; size_t n, cap; unsigned char cd[160000]; size_t cdn; int k; } zw_t;
static void zw_put(zw_t *w, const void *p, size_t n){ if (w->n + n > w->cap) w->b = realloc(w->b, w->cap = (w->n + n) * 2 + 4096); memcpy(w->b + w->n, p, n); w->n += n; }
static void le(unsigned char *p, uint32_t v, int n){ for (int i = 0; i < n; i++) p[i] = v >> (8 * i); }
/* an entry with these bytes as its contents, whatever they are */
static void zw_add_raw(zw_t *w, const char *name, const void *c, size_t cn, size_t n, uint32_t crc, int method)
{
    size_t nl = strlen(name), at = w->n; unsigned char h[46];
    memset(h, 0, sizeof h); memcpy(h, "PK\3\4", 4); le(h + 4, 20, 2); le(h + 8, method, 2); le(h + 12, 0x21, 2); le(h + 14, crc, 4); le(h + 18, cn, 4); le(h + 22, n, 4); le(h + 26, nl, 2);
    zw_put(w, h, 30); zw_put(w, name, nl); zw_put(w, c, cn);
    unsigned char *d = w->cd + w->cdn; memset(d, 0, 46); memcpy(d, "PK\1\2", 4); le(d + 4, 20, 2); memcpy(d + 6, h + 4, 26); le(d + 42, at, 4); memcpy(d + 46, name, nl); w->cdn += 46 + nl; w->k++;
}
/* method 0: stored; 8: deflate with stored blocks; -8: really deflated (zlib) */
static void zw_add(zw_t *w, const char *name, const void *data, size_t n, int method)
{
    size_t cn = n; unsigned char *c = NULL; uint32_t crc = crc32(0, data, n);
    if (method == 8) {
        c = malloc(n + n / 60000 * 5 + 16); unsigned char *q = c; const unsigned char *s = data; size_t left = n;
        do { size_t k = left > 60000 ? 60000 : left; *q++ = left <= 60000; le(q, k, 2); le(q + 2, ~k, 2); memcpy(q + 4, s, k); q += 4 + k; s += k; left -= k; } while (left);
        cn = q - c;
    } else if (method == -8) {
        z_stream z = { 0 }; deflateInit2(&z, 6, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY); cn = deflateBound(&z, n); c = malloc(cn);
        z.next_in = (void*) data; z.avail_in = n; z.next_out = c; z.avail_out = cn; deflate(&z, Z_FINISH); cn = z.total_out; deflateEnd(&z);
    }
    zw_add_raw(w, name, c ? c : data, cn, n, crc, method ? 8 : 0); free(c);
}
static void zw_end(zw_t *w)
{
    size_t at = w->n; unsigned char e[22] = { 0 }; zw_put(w, w->cd, w->cdn); memcpy(e, "PK\5\6", 4); le(e + 8, w->k, 2); le(e + 10, w->k, 2); le(e + 12, w->cdn, 4); le(e + 16, at, 4); zw_put(w, e, 22);
}
static void zw_free(zw_t *w){ free(w->b); memset(w, 0, sizeof *w); }
static uint32_t rd(const unsigned char *p, int n){ uint32_t v = 0; for (int i = 0; i < n; i++) v |= (uint32_t) p[i] << (8 * i); return v; }
/* number of entries, or -1 and *why */
static int zip_parse(const unsigned char *f, size_t n, ze_t *out, int max, const char **why)
{
    *why = "no end record"; if (n < 22) return -1;
    size_t e = n - 22; while (memcmp(f + e, "PK\5\6", 4)) { if (!e) return -1; e--; }
    int k = rd(f + e + 10, 2); size_t c = rd(f + e + 16, 4); *why = "bad directory"; if (k > max || c > n) return -1;
    for (int i = 0; i < k; i++) {
        if (c + 46 > e || memcmp(f + c, "PK\1\2", 4)) return -1;
        int m = rd(f + c + 10, 2), nl = rd(f + c + 28, 2); uint32_t crc = rd(f + c + 16, 4); size_t cs = rd(f + c + 20, 4), us = rd(f + c + 24, 4), lo = rd(f + c + 42, 4);
        if (nl > 299) return -1; memcpy(out[i].name, f + c + 46, nl); out[i].name[nl] = 0; out[i].method = m; out[i].n = us; out[i].data = malloc(us + 1);
        *why = "bad local header"; if (lo + 30 > n || memcmp(f + lo, "PK\3\4", 4)) return -1;
        size_t d = lo + 30 + rd(f + lo + 26, 2) + rd(f + lo + 28, 2); *why = "data outside the file"; if (d + cs > n) return -1;
        if (m == 0) { *why = "stored size"; if (cs != us) return -1; memcpy(out[i].data, f + d, us); }
        else if (m == 8) { z_stream z = { 0 }; inflateInit2(&z, -15); z.next_in = (void*)(f + d); z.avail_in = cs; z.next_out = out[i].data; z.avail_out = us + 1; int r = inflate(&z, Z_FINISH); size_t t = z.total_out; inflateEnd(&z); *why = "bad deflate data"; if (r != Z_STREAM_END || t != us) return -1; }
        else { *why = "unknown method"; return -1; }
        *why = "bad checksum"; if (crc32(0, out[i].data, us) != crc) return -1;
        c += 46 + nl + rd(f + c + 30, 2) + rd(f + c + 32, 2); *why = "bad directory";
    }
    *why = NULL; return k;
}
static void zip_free(ze_t *z, int k){ for (int i = 0; i < k; i++) free(z[i].data); }
#endif
