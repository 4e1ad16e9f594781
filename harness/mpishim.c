/* Calls of the collective library made by simulated ranks (simpi.c), one Call per rank. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <mpi.h>
#include "bigfile.h"
#include "bigfile-mpi.h"
#include "mp-mpiu.h"

typedef struct { BigBlock bb; BigBlockPtr ptr; } H;
typedef struct {
    int op, null, conc, nmemb, nfile, ndim;
    void * f; H * h;
    const char * name, * dtype, * mode;
    const size_t * fsize; size_t size;
    void * buf; const size_t * dims; const ptrdiff_t * strides;
    ptrdiff_t off; void * rt;
    int * a, * b, * c, * d; void * out;
    int res, rank; char msg[600];
} Call;
enum { FOPEN, FCREATE, FCLOSE, OPEN, CREATE, CREATE_EVEN, GROW, GROW_EVEN, FLUSH, CLOSE, WRITE, READ, RECCREATE, RECWRITE, RECREAD,
       LWRITE, LREAD, ALLTOALLV, GATHER, SCATTER, GETLOC, BYTES };

int sim_run(int n, void (*body)(void *, MPI_Comm), void ** data, unsigned long seed, int pol, int str);
int sim_maxheld(void);
long sim_bytes(void);
static int anynull;

static void one(void * p, MPI_Comm world) {
    Call * c = p;
    MPI_Comm comm = world;
    BigArray a;
    char stale[40];
    int r = 0, rank;
    MPI_Comm_rank(world, &rank);
    if(anynull) MPI_Comm_split(world, c->null ? MPI_UNDEFINED : 0, rank, &comm);
    sprintf(stale, "stale message of rank %d", rank);
    big_file_set_error_message(stale);
    switch(c->op) {
    case FOPEN: r = big_file_mpi_open(c->f, c->name, comm); break;
    case FCREATE: r = big_file_mpi_create(c->f, c->name, comm); break;
    case FCLOSE: r = big_file_mpi_close(c->f, comm); break;
    case OPEN: memset(&c->h->ptr, 0, sizeof(c->h->ptr)); r = big_file_mpi_open_block(c->f, &c->h->bb, c->name, comm); break;
    case CREATE: memset(&c->h->ptr, 0, sizeof(c->h->ptr)); r = _big_file_mpi_create_block(c->f, &c->h->bb, c->name, c->dtype, c->nmemb, c->nfile, c->fsize, comm); break;
    case CREATE_EVEN: memset(&c->h->ptr, 0, sizeof(c->h->ptr)); r = big_file_mpi_create_block(c->f, &c->h->bb, c->name, c->dtype, c->nmemb, c->nfile, c->size, comm); break;
    case GROW: r = big_block_mpi_grow(&c->h->bb, c->nfile, c->fsize, comm); break;
    case GROW_EVEN: r = big_block_mpi_grow_simple(&c->h->bb, c->nfile, c->size, comm); break;
    case FLUSH: r = big_block_mpi_flush(&c->h->bb, comm); break;
    case CLOSE: r = big_block_mpi_close(&c->h->bb, comm); break;
    case WRITE: big_array_init(&a, c->buf, c->dtype, c->ndim, c->dims, c->strides); r = big_block_mpi_write(&c->h->bb, &c->h->ptr, &a, c->conc, comm); break;
    case READ: big_array_init(&a, c->buf, c->dtype, c->ndim, c->dims, c->strides); r = big_block_mpi_read(&c->h->bb, &c->h->ptr, &a, c->conc, comm); break;
    case LWRITE: if(c->null) break; big_array_init(&a, c->buf, c->dtype, c->ndim, c->dims, c->strides); { BigBlockPtr q = {0}; r = big_block_seek(&c->h->bb, &q, c->off); if(r == 0) r = big_block_write(&c->h->bb, &q, &a); } break;
    case LREAD: if(c->null) break; big_array_init(&a, c->buf, c->dtype, c->ndim, c->dims, c->strides); { BigBlockPtr q = {0}; r = big_block_seek(&c->h->bb, &q, c->off); if(r == 0) r = big_block_read(&c->h->bb, &q, &a); } break;
    case RECCREATE: r = big_file_mpi_create_records(c->f, c->rt, c->mode, c->nfile, c->fsize, comm); break;
    case RECWRITE: r = big_file_mpi_write_records(c->f, c->rt, c->off, c->size, c->buf, c->conc, comm); break;
    case RECREAD: r = big_file_mpi_read_records(c->f, c->rt, c->off, c->size, c->buf, c->conc, comm); break;
    case ALLTOALLV: {
        MPI_Datatype t;
        MPI_Type_contiguous(c->size, MPI_BYTE, &t); MPI_Type_commit(&t);
        r = MPIU_Alltoallv(c->buf, c->a, c->b, t, c->out, c->c, c->d, t, comm, c->conc);
        MPI_Type_free(&t);
        break;
    }
    /* nmemb elements of size bytes; out is given or allocated; the total is left in a[0] */
    case GATHER: { void * o = MPIU_Gather(comm, c->nfile, c->buf, c->out, c->nmemb, c->size, c->a); if(!c->out) c->out = o; break; }
    case SCATTER: { void * o = MPIU_Scatter(comm, c->nfile, c->buf, c->out, c->nmemb, c->size, c->a); if(!c->out) c->out = o; break; }
    case GETLOC: {
        MPI_Datatype ts[] = { MPI_INT, MPI_LONG, MPI_DOUBLE, MPI_FLOAT, MPI_UNSIGNED_LONG };
        c->a[0] = MPIU_GetLoc(c->buf, ts[c->nmemb], c->conc ? MPI_MAX : MPI_MIN, comm);
        break;
    }
    }
    c->res = r; c->rank = rank;
    const char * m = big_file_get_error_message();
    snprintf(c->msg, sizeof(c->msg), "%s", m ? m : "");
    if(anynull && comm != MPI_COMM_NULL) MPI_Comm_free(&comm);
}
int vs_mpi(int n, Call * calls, unsigned long seed, int pol, int strict) {
    void * d[256];
    int i;
    anynull = 0;
    for(i = 0; i < n; i ++) { d[i] = &calls[i]; if(calls[i].null) anynull = 1; }
    return sim_run(n, one, d, seed, pol, strict);
}
int vs_call_size(void) { return sizeof(Call); }
int vs_maxheld(void) { return sim_maxheld(); }
long vs_wrote(void) { return sim_bytes(); }
void vs_threshold(size_t n) { big_file_mpi_set_aggregated_threshold(n); }
