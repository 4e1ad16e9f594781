/* Thin accessors around the public API of the library in /repo/src, so that the Python
 * harness never depends on the layout of the structures.  Compiled together with the
 * library sources of the working tree. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "bigfile.h"

typedef struct { BigBlock bb; BigBlockPtr ptr; } H;

void * vs_file_new(void) { return calloc(1, sizeof(BigFile)); }
int vs_file_open(void * f, const char * p) { return big_file_open(f, p); }
int vs_file_create(void * f, const char * p) { return big_file_create(f, p); }
int vs_file_close(void * f) { return big_file_close(f); }
void vs_free(void * p) { free(p); }

void * vs_h_new(void) { return calloc(1, sizeof(H)); }
int vs_open(void * f, H * h, const char * name) {
    memset(&h->ptr, 0, sizeof(h->ptr));
    return big_file_open_block(f, &h->bb, name);
}
int vs_create(void * f, H * h, const char * name, const char * dtype, int nmemb, int Nfile, const size_t * fsize) {
    memset(&h->ptr, 0, sizeof(h->ptr));
    return big_file_create_block(f, &h->bb, name, dtype, nmemb, Nfile, fsize);
}
int vs_grow(H * h, int n, const size_t * fsize) { return big_block_grow(&h->bb, n, fsize); }
int vs_flush(H * h) { return big_block_flush(&h->bb); }
int vs_close(H * h) { return big_block_close(&h->bb); }
int vs_seek(H * h, ptrdiff_t o) { return big_block_seek(&h->bb, &h->ptr, o); }
int vs_seek_rel(H * h, ptrdiff_t o) { return big_block_seek_rel(&h->bb, &h->ptr, o); }
int vs_eof(H * h) { return big_block_eof(&h->bb, &h->ptr) != 0; }
ptrdiff_t vs_pos(H * h) {
    return h->bb.Nfile == 0 || h->bb.foffset == NULL ? h->ptr.roffset : (ptrdiff_t) h->bb.foffset[h->ptr.fileid] + h->ptr.roffset;
}
ptrdiff_t vs_aoff(H * h) { return h->ptr.aoffset; }
void * vs_bb(H * h) { return &h->bb; }
void * vs_ptr(H * h) { return &h->ptr; }

int vs_write(H * h, void * buf, const char * dtype, int ndim, const size_t * dims, const ptrdiff_t * strides) {
    BigArray a;
    big_array_init(&a, buf, dtype, ndim, dims, strides);
    return big_block_write(&h->bb, &h->ptr, &a);
}
int vs_read(H * h, void * buf, const char * dtype, int ndim, const size_t * dims, const ptrdiff_t * strides) {
    BigArray a;
    big_array_init(&a, buf, dtype, ndim, dims, strides);
    return big_block_read(&h->bb, &h->ptr, &a);
}
/* on success *data is malloc'ed by the library, dims[2] and dtype[8] are filled */
int vs_read_simple(H * h, ptrdiff_t start, ptrdiff_t size, const char * dtype, void ** data, size_t * dims, char * odtype) {
    BigArray a;
    memset(&a, 0, sizeof(a));
    int rt = big_block_read_simple(&h->bb, start, size, &a, dtype);
    *data = NULL;
    if(rt == 0) {
        *data = a.data;
        dims[0] = a.dims[0];
        dims[1] = a.dims[1];
        memcpy(odtype, a.dtype, 8);
    }
    return rt;
}
int vs_set_attr(H * h, const char * n, const void * d, const char * dt, int m) { return big_block_set_attr(&h->bb, n, d, dt, m); }
int vs_get_attr(H * h, const char * n, void * d, const char * dt, int m) { return big_block_get_attr(&h->bb, n, d, dt, m); }
int vs_remove_attr(H * h, const char * n) { return big_block_remove_attr(&h->bb, n); }
/* 1 found: fills nmemb, dtype, pointer to data */
/* setting an attribute (dst NULL: of the same name) from the memory that lookup returned */
int vs_set_from(H * h, H * from, const char * src, const char * dst) {
    BigAttr * a = big_block_lookup_attr(&from->bb, src);
    return big_block_set_attr(&h->bb, dst ? dst : a->name, a->data, a->dtype, a->nmemb);
}
int vs_lookup_attr(H * h, const char * n, int * nmemb, char * dtype, void ** data) {
    BigAttr * a = big_block_lookup_attr(&h->bb, n);
    if(!a) return 0;
    *nmemb = a->nmemb; memcpy(dtype, a->dtype, 8); *data = a->data;
    return 1;
}
int vs_nattr(H * h) { size_t n; big_block_list_attrs(&h->bb, &n); return (int) n; }
const char * vs_attr(H * h, int i, int * nmemb, char * dtype, void ** data) {
    size_t n;
    BigAttr * a = big_block_list_attrs(&h->bb, &n);
    *nmemb = a[i].nmemb; memcpy(dtype, a[i].dtype, 8); *data = a[i].data;
    return a[i].name;
}
int vs_nmemb(H * h) { return h->bb.nmemb; }
int vs_Nfile(H * h) { return h->bb.Nfile; }
size_t vs_size(H * h) { return h->bb.size; }
size_t vs_fsize(H * h, int i) { return h->bb.fsize[i]; }
unsigned int vs_sum(H * h, int i) { return h->bb.fchecksum[i]; }
const char * vs_dtype(H * h) { return h->bb.dtype; }

int vs_list(void * f, char *** names) {
    int n = 0;
    int rt = big_file_list(f, names, &n);
    if(rt != 0) return -1;
    return n;
}
char * vs_list_get(char ** names, int i) { return names[i]; }
void vs_list_free(char ** names, int n) { int i; for(i = 0; i < n; i ++) free(names[i]); free(names); }

/* records */
void * vs_rt_new(void) { return calloc(1, sizeof(BigRecordType)); }
void vs_rt_add(void * r, const char * n, const char * dt, int m) { big_record_type_add(r, n, dt, m); }
void vs_rt_set(void * r, int i, const char * n, const char * dt, int m) { big_record_type_set(r, i, n, dt, m); }
void vs_rt_complete(void * r) { big_record_type_complete(r); }
void vs_rt_clear(void * r) { big_record_type_clear(r); }
int vs_rt_itemsize(BigRecordType * r) { return (int) r->itemsize; }
int vs_rt_offset(BigRecordType * r, int i) { return r->fields[i].offset; }
void vs_rec_set(void * r, void * buf, ptrdiff_t i, int c, const void * d) { big_record_set(r, buf, i, c, d); }
void vs_rec_get(void * r, const void * buf, ptrdiff_t i, int c, void * d) { big_record_get(r, buf, i, c, d); }
int vs_rec_create(void * f, void * r, const char * mode, int n, const size_t * fs) { return big_file_create_records(f, r, mode, n, fs); }
int vs_rec_write(void * f, void * r, ptrdiff_t o, size_t n, const void * b) { return big_file_write_records(f, r, o, n, b); }
int vs_rec_read(void * f, void * r, ptrdiff_t o, size_t n, void * b) { return big_file_read_records(f, r, o, n, b); }

void vs_bufsize(size_t n) { big_file_set_buffer_size(n); }
const char * vs_err(void) { return big_file_get_error_message(); }
void vs_seterr(char * m) { big_file_set_error_message(m); }
void vs_fmt(char * b, const char * dt, const void * d, const char * fmt) { big_file_dtype_format(b, dt, d, fmt); }
int vs_parse(const char * b, const char * dt, void * d, const char * fmt) { return big_file_dtype_parse(b, dt, d, fmt); }
int vs_itemsize(const char * dt) { return big_file_dtype_itemsize(dt); }
int vs_kind(const char * dt) { return big_file_dtype_kind(dt); }
