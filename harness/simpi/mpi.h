/* A stand-in for MPI in which the ranks are threads of one process that run one at a time,
 * in an order chosen by the harness (see ../simpi.c). */
#ifndef SIMPI_MPI_H
#define SIMPI_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct simpi_comm * MPI_Comm;
typedef struct simpi_type * MPI_Datatype;
typedef struct simpi_req * MPI_Request;
typedef struct simpi_group * MPI_Group;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t bytes; } MPI_Status;

#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_COMM_NULL ((MPI_Comm) 0)
#define MPI_DATATYPE_NULL ((MPI_Datatype) 0)
#define MPI_REQUEST_NULL ((MPI_Request) 0)
#define MPI_IN_PLACE ((void*) 1)
#define MPI_BOTTOM ((void*) 0)
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status*) 0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_MAX_ERROR_STRING 64
#define MPI_INFO_NULL 0
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 0
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_IDENT 0
#define MPI_CONGRUENT 1

enum { MPI_OP_NULL, MPI_SUM, MPI_MAX, MPI_MIN, MPI_PROD, MPI_LAND, MPI_LOR, MPI_LXOR, MPI_BAND, MPI_BOR, MPI_BXOR, MPI_MAXLOC, MPI_MINLOC };

extern MPI_Comm simpi_world(void), simpi_self(void);
#define MPI_COMM_WORLD (simpi_world())
#define MPI_COMM_SELF (simpi_self())
MPI_Datatype simpi_type(int k);
#define MPI_CHAR simpi_type(0)
#define MPI_SIGNED_CHAR simpi_type(0)
#define MPI_INT8_T simpi_type(0)
#define MPI_UNSIGNED_CHAR simpi_type(1)
#define MPI_BYTE simpi_type(1)
#define MPI_UINT8_T simpi_type(1)
#define MPI_PACKED simpi_type(1)
#define MPI_SHORT simpi_type(2)
#define MPI_INT16_T simpi_type(2)
#define MPI_UNSIGNED_SHORT simpi_type(3)
#define MPI_UINT16_T simpi_type(3)
#define MPI_INT simpi_type(4)
#define MPI_INT32_T simpi_type(4)
#define MPI_UNSIGNED simpi_type(5)
#define MPI_UINT32_T simpi_type(5)
#define MPI_LONG simpi_type(6)
#define MPI_LONG_LONG simpi_type(6)
#define MPI_LONG_LONG_INT simpi_type(6)
#define MPI_INT64_T simpi_type(6)
#define MPI_AINT simpi_type(6)
#define MPI_OFFSET simpi_type(6)
#define MPI_COUNT simpi_type(6)
#define MPI_UNSIGNED_LONG simpi_type(7)
#define MPI_UNSIGNED_LONG_LONG simpi_type(7)
#define MPI_UINT64_T simpi_type(7)
#define MPI_FLOAT simpi_type(8)
#define MPI_DOUBLE simpi_type(9)
#define MPI_C_BOOL simpi_type(1)
#define MPI_2INT simpi_type(10)
#define MPI_LONG_INT simpi_type(11)
#define MPI_DOUBLE_INT simpi_type(12)

int MPI_Init(int *, char ***); int MPI_Init_thread(int *, char ***, int, int *); int MPI_Finalize(void);
int MPI_Initialized(int *); int MPI_Finalized(int *);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
int MPI_Get_processor_name(char *, int *);
int MPI_Error_string(int, char *, int *);
int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *); int MPI_Comm_dup(MPI_Comm, MPI_Comm *); int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *); int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *); int MPI_Testall(int, MPI_Request *, int *, MPI_Status *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *); int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *); int MPI_Type_commit(MPI_Datatype *); int MPI_Type_free(MPI_Datatype *);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype *);
int MPI_Type_size(MPI_Datatype, int *); int MPI_Type_get_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Reduce_local(const void *, void *, int, MPI_Datatype, MPI_Op);
#ifdef __cplusplus
}
#endif
#endif
