/* Mock MPI: a deterministic, single-process message-passing layer.  Ranks are
   fibers; every choice an MPI implementation may make (delivery time, eager or
   rendezvous, which rank runs next, reduction order) comes from the test case. */
#ifndef VERIF_MOCK_MPI_H
#define VERIF_MOCK_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct mock_comm *MPI_Comm;
typedef struct mock_req *MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Fint;
typedef ptrdiff_t MPI_Aint;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int count_bytes; } MPI_Status;

#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 16
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_MAX_ERROR_STRING 64
#define MPI_INFO_NULL 0
#define MPI_VERSION 3
#define MPI_SUBVERSION 1

MPI_Comm mock_comm_world(void);
MPI_Comm mock_comm_self(void);
#define MPI_COMM_WORLD (mock_comm_world())
#define MPI_COMM_SELF (mock_comm_self())

enum { MPI_DATATYPE_NULL=0, MPI_CHAR, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_SHORT,
  MPI_UNSIGNED_SHORT, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG,
  MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_C_BOOL, MPI_INT32_T, MPI_INT64_T,
  MPI_UINT32_T, MPI_UINT64_T, MPI_INT8_T, MPI_UINT8_T };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_DOUBLE_PRECISION MPI_DOUBLE
#define MPI_REAL MPI_FLOAT
#define MPI_INTEGER MPI_INT
enum { MPI_OP_NULL=0, MPI_SUM, MPI_PROD, MPI_MIN, MPI_MAX, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR, MPI_BXOR };

int MPI_Init(int*,char***);
int MPI_Finalize(void);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm,int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Comm_rank(MPI_Comm,int*);
int MPI_Comm_size(MPI_Comm,int*);
int MPI_Comm_dup(MPI_Comm,MPI_Comm*);
int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_compare(MPI_Comm,MPI_Comm,int*);
MPI_Comm MPI_Comm_f2c(MPI_Fint);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
int MPI_Type_size(MPI_Datatype,int*);
int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*);

int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Wait(MPI_Request*,MPI_Status*);
int MPI_Waitall(int,MPI_Request*,MPI_Status*);
int MPI_Waitany(int,MPI_Request*,int*,MPI_Status*);
int MPI_Waitsome(int,MPI_Request*,int*,int*,MPI_Status*);
int MPI_Test(MPI_Request*,int*,MPI_Status*);
int MPI_Testall(int,MPI_Request*,int*,MPI_Status*);
int MPI_Testany(int,MPI_Request*,int*,int*,MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Probe(int,int,MPI_Comm,MPI_Status*);
int MPI_Iprobe(int,int,MPI_Comm,int*,MPI_Status*);

int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Gatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,int,MPI_Comm);
int MPI_Scatter(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Allgatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm);
int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Scan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Exscan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Iallreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm,MPI_Request*);
int MPI_Ibarrier(MPI_Comm,MPI_Request*);
int MPI_Ibcast(void*,int,MPI_Datatype,int,MPI_Comm,MPI_Request*);
#ifdef __cplusplus
}
#endif
#endif
