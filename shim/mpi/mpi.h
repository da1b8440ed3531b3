/* Stand-in for MPI: the processes are fibers of one process under a controlled scheduler.
   See kmpi.hpp for the explorer's side. */
#pragma once
#include <cstddef>

struct kmpi_comm;
struct kmpi_request;
typedef kmpi_comm* MPI_Comm;
typedef kmpi_request* MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef long MPI_Aint;
typedef struct MPI_Status
{
    int MPI_SOURCE, MPI_TAG, MPI_ERROR, kcount;
} MPI_Status;

extern kmpi_comm kmpi_world_obj_, kmpi_self_obj_;
#define MPI_COMM_NULL (static_cast<MPI_Comm>(nullptr))
#define MPI_COMM_WORLD (&kmpi_world_obj_)
#define MPI_COMM_SELF (&kmpi_self_obj_)
#define MPI_REQUEST_NULL (static_cast<MPI_Request>(nullptr))
#define MPI_INFO_NULL 0
#define MPI_IN_PLACE (reinterpret_cast<void*>(-1L))
#define MPI_STATUS_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_STATUSES_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_MAX_PROCESSOR_NAME 128

enum : int {
    MPI_CHAR = 1, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG,
    MPI_LONG_LONG, MPI_LONG_LONG_INT, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_CXX_BOOL, MPI_C_BOOL, MPI_INT32_T,
    MPI_INT64_T, MPI_UINT32_T, MPI_UINT64_T, MPI_SHORT, MPI_INT8_T, MPI_UINT8_T, MPI_DATATYPE_NULL = 0
};
enum : int { MPI_SUM = 1, MPI_MIN, MPI_MAX, MPI_PROD, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR };
enum : int { MPI_THREAD_SINGLE = 0, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
enum : int { MPI_COMM_TYPE_SHARED = 1 };
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 0

extern "C" {
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalize(void);
int MPI_Finalized(int*);
[[noreturn]] int MPI_Abort(MPI_Comm, int);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Dims_create(int, int, int*);
int MPI_Cart_create(MPI_Comm, int, int const*, int const*, int, MPI_Comm*);
int MPI_Cart_coords(MPI_Comm, int, int, int*);
int MPI_Cart_rank(MPI_Comm, int const*, int*);
int MPI_Cart_get(MPI_Comm, int, int*, int*, int*);
int MPI_Cartdim_get(MPI_Comm, int*);
int MPI_Cart_shift(MPI_Comm, int, int, int*, int*);
int MPI_Cart_sub(MPI_Comm, int const*, MPI_Comm*);
int MPI_Send(void const*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(void const*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(void const*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Sendrecv(void const*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*);
int MPI_Get_count(MPI_Status const*, MPI_Datatype, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(void const*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(void const*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(void const*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(void const*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(void const*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(void const*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Scatter(void const*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(void const*, int, MPI_Datatype, void*, int const*, int const*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgatherv(void const*, int, MPI_Datatype, void*, int const*, int const*, MPI_Datatype, MPI_Comm);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Get_processor_name(char*, int*);
double MPI_Wtime(void);
}
