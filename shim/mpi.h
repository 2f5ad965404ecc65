// Stand-in for the part of the MPI API that NeoFOAM uses (declarations as in the MPI standard, handles as
// integers).  Only declared here: the contracts state what each call is assumed to do.  The replay harness
// defines the functions itself (harness/mpisim.hpp).
#pragma once
namespace NeoFOAMmpi
{
typedef int MPI_Comm;
typedef int MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Finalize();
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
}
using NeoFOAMmpi::MPI_Abort; using NeoFOAMmpi::MPI_Allreduce; using NeoFOAMmpi::MPI_Comm; using NeoFOAMmpi::MPI_Comm_rank; using NeoFOAMmpi::MPI_Comm_size;
using NeoFOAMmpi::MPI_Datatype; using NeoFOAMmpi::MPI_Finalize; using NeoFOAMmpi::MPI_Init; using NeoFOAMmpi::MPI_Init_thread;
using NeoFOAMmpi::MPI_Irecv; using NeoFOAMmpi::MPI_Isend; using NeoFOAMmpi::MPI_Op; using NeoFOAMmpi::MPI_Request;
using NeoFOAMmpi::MPI_Status; using NeoFOAMmpi::MPI_Test;
#define MPI_SUCCESS 0
#define MPI_COMM_NULL ((MPI_Comm)0x04000000)
#define MPI_COMM_WORLD ((MPI_Comm)0x44000000)
#define MPI_REQUEST_NULL ((MPI_Request)0x2c000000)
#define MPI_STATUS_IGNORE ((MPI_Status*)1)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_THREAD_MULTIPLE 3
#define MPI_MAX ((MPI_Op)1)
#define MPI_MIN ((MPI_Op)2)
#define MPI_SUM ((MPI_Op)3)
#define MPI_PROD ((MPI_Op)4)
#define MPI_LAND ((MPI_Op)5)
#define MPI_BAND ((MPI_Op)6)
#define MPI_LOR ((MPI_Op)7)
#define MPI_BOR ((MPI_Op)8)
#define MPI_MAXLOC ((MPI_Op)9)
#define MPI_MINLOC ((MPI_Op)10)
#define MPI_CHAR ((MPI_Datatype)1)
#define MPI_WCHAR ((MPI_Datatype)2)
#define MPI_SHORT ((MPI_Datatype)3)
#define MPI_INT ((MPI_Datatype)4)
#define MPI_LONG ((MPI_Datatype)5)
#define MPI_LONG_LONG ((MPI_Datatype)6)
#define MPI_UNSIGNED_SHORT ((MPI_Datatype)7)
#define MPI_UNSIGNED ((MPI_Datatype)8)
#define MPI_UNSIGNED_LONG ((MPI_Datatype)9)
#define MPI_UNSIGNED_LONG_LONG ((MPI_Datatype)10)
#define MPI_FLOAT ((MPI_Datatype)11)
#define MPI_DOUBLE ((MPI_Datatype)12)
#define MPI_LONG_DOUBLE ((MPI_Datatype)13)
#define MPI_CXX_BOOL ((MPI_Datatype)14)
#define MPI_CXX_FLOAT_COMPLEX ((MPI_Datatype)15)
#define MPI_CXX_DOUBLE_COMPLEX ((MPI_Datatype)16)
#define MPI_CXX_LONG_DOUBLE_COMPLEX ((MPI_Datatype)17)
