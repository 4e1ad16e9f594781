/* A fixed piece of work on columns of its own below one directory, as a function of its seed.
 * Everything it observes goes into a digest.  Run alone and run next to others it must observe
 * the same. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "bigfile.h"

typedef struct { uint64_t h; uint64_t r; } W;
static void mix(W * w, const void * p, size_t n) {
    const unsigned char * c = p;
    for(size_t i = 0; i < n; i ++) w->h = (w->h ^ c[i]) * 1099511628211ull;
}
static void mixs(W * w, const char * s) { if(s) mix(w, s, strlen(s) + 1); else mix(w, "\1", 2); }
static void mixi(W * w, long long i) { mix(w, &i, sizeof(i)); }
static unsigned rnd(W * w, unsigned n) {
    w->r = w->r * 6364136223846793005ull + 1442695040888963407ull;
    return (unsigned) (w->r >> 33) % n;
}
static void err(W * w, int rt) {
    mixi(w, rt);
    if(rt != 0) { mixs(w, big_file_get_error_message()); big_file_set_error_message(NULL); }
}
static const char * DT[] = {"<i4", "<f8", ">i8", "<u4", ">f4", "<u8"};

static void column(W * w, BigFile * f, const char * name, int rows) {
    BigBlock bb; BigBlockPtr ptr; BigArray a;
    int nmemb = 1 + rnd(w, 3);
    size_t fs[3] = {rows / 3 + rnd(w, 7), rows / 3, 0};
    fs[2] = rows - fs[0] - fs[1];
    const char * disk = DT[rnd(w, 6)], * mem = DT[rnd(w, 6)], * back = DT[rnd(w, 6)];
    int wm = atoi(mem + 2), wb = atoi(back + 2);
    int pad = rnd(w, 3);
    size_t row = (size_t) wm * nmemb + wm * pad;
    char * buf = calloc(rows + 1, row > (size_t) 16 * nmemb ? row : (size_t) 16 * nmemb);
    for(int i = 0; i < rows; i ++) for(int k = 0; k < nmemb; k ++) {
        char * p = buf + i * row + (size_t) k * wm;
        int v = rnd(w, 100);
        if(mem[1] == 'f') {
            double d = v; float s = v;
            memcpy(p, wm == 8 ? (void *) &d : (void *) &s, wm);
        } else { long long l = v; int s = v; memcpy(p, wm == 8 ? (void *) &l : (void *) &s, wm); }
        if(mem[0] == '>') for(int j = 0; j < wm / 2; j ++) { char t = p[j]; p[j] = p[wm - 1 - j]; p[wm - 1 - j] = t; }
    }
    int rt = big_file_create_block(f, &bb, name, disk, nmemb, 3, fs);
    err(w, rt);
    if(rt) { free(buf); return; }
    size_t dims[2] = {rows, nmemb}; ptrdiff_t st[2] = {row, wm};
    big_array_init(&a, buf, mem, 2, dims, st);
    err(w, big_block_seek(&bb, &ptr, 0));
    err(w, big_block_write(&bb, &ptr, &a));
    mixi(w, ptr.aoffset);
    free(buf);
    err(w, big_block_seek(&bb, &ptr, rows + 5));       /* refused */
    char an[32];
    for(int i = 0; i < 30; i ++) {
        int n = rnd(w, 20); double v[20];
        for(int k = 0; k < n; k ++) v[k] = rnd(w, 1000);
        sprintf(an, "a%d", rnd(w, 40));
        err(w, big_block_set_attr(&bb, an, v, "<f8", n));
        if(i % 3 == 0) { sprintf(an, "a%d", rnd(w, 40)); err(w, big_block_remove_attr(&bb, an)); }
    }
    err(w, big_block_flush(&bb));
    err(w, big_block_close(&bb));
    rt = big_file_open_block(f, &bb, name);
    err(w, rt);
    if(rt) return;
    mixs(w, bb.dtype); mixi(w, bb.nmemb); mixi(w, bb.Nfile); mixi(w, bb.size);
    for(int i = 0; i < bb.Nfile; i ++) { mixi(w, bb.fsize[i]); mixi(w, bb.fchecksum[i]); }
    size_t n; BigAttr * at = big_block_list_attrs(&bb, &n);
    for(size_t i = 0; i < n; i ++) { mixs(w, at[i].name); mixs(w, at[i].dtype); mixi(w, at[i].nmemb); mix(w, at[i].data, (size_t) at[i].nmemb * dtype_itemsize(at[i].dtype)); }
    err(w, big_block_read_simple(&bb, 0, rows, &a, back));
    for(int i = 0; i < rows * nmemb; i ++) mix(w, (char *) a.data + (size_t) i * wb, wb);
    free(a.data);
    err(w, big_block_read_simple(&bb, rows / 2, rows, &a, NULL));
    mixi(w, a.dims[0]);
    free(a.data);
    err(w, big_block_close(&bb));
}

static void text(W * w) {
    char s[256], v[32];
    for(int i = 0; i < 400; i ++) {
        long long l = rnd(w, 100000); double d = l / 7.0;
        big_file_dtype_format(s, "<i8", &l, NULL); mixs(w, s);
        memset(v, 0, sizeof(v)); big_file_dtype_parse(s, "<i8", v, NULL); mix(w, v, 8);
        big_file_dtype_format(s, ">f8", &d, NULL); mixs(w, s);
        memset(v, 0, sizeof(v)); big_file_dtype_parse("3.25", ">f8", v, NULL); mix(w, v, 8);
        mixi(w, big_file_dtype_itemsize(DT[i % 6])); mixi(w, big_file_dtype_kind(DT[i % 6]));
    }
}

static void records(W * w, BigFile * f, int rows) {
    BigRecordType rt; memset(&rt, 0, sizeof(rt));
    big_record_type_clear(&rt);
    big_record_type_add(&rt, "r/x", "<f8", 2);
    big_record_type_add(&rt, "r/y", "<i4", 1);
    big_record_type_complete(&rt);
    char * buf = calloc(rows, rt.itemsize), * b2 = calloc(rows, rt.itemsize);
    for(int i = 0; i < rows; i ++) { double x[2] = {rnd(w, 99), rnd(w, 99)}; int y = rnd(w, 99); big_record_set(&rt, buf, i, 0, x); big_record_set(&rt, buf, i, 1, &y); }
    size_t fs[2] = {rows / 2, rows - rows / 2};
    err(w, big_file_create_records(f, &rt, "w+", 2, fs));
    err(w, big_file_write_records(f, &rt, 0, rows, buf));
    err(w, big_file_read_records(f, &rt, 0, rows, b2));
    mix(w, b2, (size_t) rows * rt.itemsize);
    big_record_type_clear(&rt);
    free(buf); free(b2);
}

uint64_t vs_bulk(const char * dir, unsigned seed, int rows, int rounds) {
    W w = {1469598103934665603ull, seed * 2654435761ull + 1};
    BigFile f; char name[64], ** names; int n;
    err(&w, big_file_create(&f, dir));
    for(int k = 0; k < rounds; k ++) {
        sprintf(name, "d%u/c%d", rnd(&w, 3), k);
        column(&w, &f, name, rows);
        if(k % 2) text(&w);
        if(k % 3 == 1) records(&w, &f, rows / 4 + 3);
        n = -1; names = NULL;
        if(big_file_list(&f, &names, &n) == 0) {
            uint64_t sum = 0;            /* in any order */
            for(int i = 0; i < n; i ++) { W x = {7, 0}; mixs(&x, names[i]); sum += x.h; free(names[i]); }
            free(names); mix(&w, &sum, sizeof(sum));
        }
        mixi(&w, n);
        BigBlock bb;
        sprintf(name, "missing%u/here%d", seed, k);
        err(&w, big_file_open_block(&f, &bb, name));
    }
    big_file_close(&f);
    return w.h;
}
