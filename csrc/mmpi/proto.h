/* wire protocol between a rank and the scheduler */
enum { M_INIT=1, M_ISEND, M_IRECV, M_WAITALL, M_WAITANY, M_SSEND, M_COLL, M_FINAL, M_ABORT, M_PULLED, M_ERR, M_TEST,
       S_RESUME=100, S_PULL, S_DELIVER };
typedef struct { int op, a, b, c, d, e; long n, len; } Hdr;   /* len = bytes that follow */
enum { C_BARRIER=1, C_BCAST, C_REDUCE, C_ALLREDUCE, C_ALLGATHER, C_GATHER, C_CREATE, C_DUP };
