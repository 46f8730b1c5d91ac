#pragma once
// Stand-in for MPI. Ranks are processes forked by shim_mpi_run(); collectives go through a shared
// anonymous mapping guarded by process-shared barriers. Without shim_mpi_run() the world has size 1.
#include <cstddef>
#include <functional>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Request;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, count_; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_COMM_TYPE_SHARED 1
#define MPI_INFO_NULL 0
#define MPI_SUCCESS 0
#define MPI_CHAR 1
#define MPI_INT 4
#define MPI_FLOAT 5
#define MPI_DOUBLE 8
#define MPI_LONG 9
#define MPI_LONG_LONG 10
#define MPI_UNSIGNED 11
#define MPI_UNSIGNED_LONG 12
#define MPI_C_BOOL 13
#define MPI_BYTE 14
#define MPI_UINT64_T 15
#define MPI_INT64_T 16
#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_LOR 4
#define MPI_LAND 5
#define MPI_PROD 6
#define MPI_IN_PLACE ((void*)-1)
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_MULTIPLE 3
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
int MPI_Init(int*, char***);
int MPI_Finalize(void);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm, int);
int MPI_Barrier(MPI_Comm);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
double MPI_Wtime(void);
#ifdef __cplusplus
}
#endif
/// Runs fn(rank) in n forked processes; returns 0 when all exit with status 0, otherwise the number
/// of ranks that did not. n==1 still forks, so that every rank count sees the same environment.
int shim_mpi_run(int n, const std::function<int(int)>& fn, double timeout_s = 0.0);
/// Every rank publishes a byte block and receives everybody else's (used by the ParMesh stand-in).
void shim_mpi_allgather_bytes(const void* mine, std::size_t bytes, void* all /* bytes[0..n) concatenated */, std::size_t* sizes);
unsigned long shim_mpi_collective_count();
int shim_mpi_rank();
int shim_mpi_size();
void shim_mpi_stagger(unsigned us);
void shim_mpi_pretend(int rank, int size);
