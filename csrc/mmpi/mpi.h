/* Model-checking MPI: the subset of MPI-1 that Athena uses, run under a scheduler that controls every
 * nondeterministic choice the standard allows. */
#ifndef VP_MPI_H
#define VP_MPI_H
#include <stddef.h>
typedef int MPI_Comm;
typedef int MPI_Group;
typedef int MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, count; } MPI_Status;
typedef long MPI_Aint;
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_COMM_NULL 0
#define MPI_GROUP_NULL 0
#define MPI_REQUEST_NULL 0
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_UNDEFINED (-32766)
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_IN_PLACE ((void*)-1)
enum { MPI_DATATYPE_NULL=0, MPI_CHAR, MPI_BYTE, MPI_INT, MPI_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_SHORT,
       MPI_UNSIGNED, MPI_UNSIGNED_LONG, MPI_UNSIGNED_CHAR, MPI_LONG_LONG };
enum { MPI_OP_NULL=0, MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_LOR };
int MPI_Init(int*,char***);
int MPI_Finalize(void);
int MPI_Initialized(int*);
int MPI_Abort(MPI_Comm,int);
int MPI_Comm_rank(MPI_Comm,int*);
int MPI_Comm_size(MPI_Comm,int*);
int MPI_Comm_group(MPI_Comm,MPI_Group*);
int MPI_Comm_create(MPI_Comm,MPI_Group,MPI_Comm*);
int MPI_Comm_dup(MPI_Comm,MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Group_incl(MPI_Group,int,const int*,MPI_Group*);
int MPI_Group_free(MPI_Group*);
int MPI_Group_size(MPI_Group,int*);
int MPI_Group_rank(MPI_Group,int*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm);
int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Wait(MPI_Request*,MPI_Status*);
int MPI_Waitall(int,MPI_Request*,MPI_Status*);
int MPI_Waitany(int,MPI_Request*,int*,MPI_Status*);
int MPI_Test(MPI_Request*,int*,MPI_Status*);
int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*);
double MPI_Wtime(void);
int MPI_Get_processor_name(char*,int*);
int MPI_Type_size(MPI_Datatype,int*);
#endif
