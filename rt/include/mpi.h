// Model of the MPI library (subset) used for symbolic execution and replay.
#pragma once
#include <cstddef>
#include <cstdint>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; typedef int MPI_Info; typedef long long MPI_Offset; typedef long long MPI_Aint; typedef long long MPI_Count; typedef int MPI_Errhandler; typedef int MPI_Group;
struct SxMpiFile; typedef SxMpiFile *MPI_File;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long long sx_len; };
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_COMM_NULL 0
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 16
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-2)
#define MPI_PROC_NULL (-3)
#define MPI_UNDEFINED (-32766)
#define MPI_REQUEST_NULL (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_FILE_NULL ((MPI_File)0)
enum { MPI_BYTE = 1, MPI_CHAR, MPI_UNSIGNED_CHAR, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_UINT64_T, MPI_INT64_T, MPI_UINT32_T, MPI_INT32_T, MPI_C_BOOL, MPI_UINT8_T };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
enum { MPI_MAX = 1, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR };
enum { MPI_THREAD_SINGLE = 0, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
enum { MPI_MODE_RDONLY = 2, MPI_MODE_RDWR = 8, MPI_MODE_WRONLY = 4, MPI_MODE_CREATE = 1, MPI_MODE_EXCL = 64 };
enum { MPI_SEEK_SET = 600, MPI_SEEK_CUR, MPI_SEEK_END };
#define MPI_INFO_NULL 0
#define MPI_MAX_PROCESSOR_NAME 64
int MPI_Init(int *, char ***); int MPI_Init_thread(int *, char ***, int, int *); int MPI_Finalize(); int MPI_Initialized(int *); int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *); int MPI_Comm_dup(MPI_Comm, MPI_Comm *); int MPI_Comm_free(MPI_Comm *);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *); int MPI_Waitall(int, MPI_Request *, MPI_Status *); int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *); int MPI_Waitsome(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *); int MPI_Testall(int, MPI_Request *, int *, MPI_Status *); int MPI_Testany(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Request_free(MPI_Request *); int MPI_Cancel(MPI_Request *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *); int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *); int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm); int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_File_open(MPI_Comm, const char *, int, MPI_Info, MPI_File *); int MPI_File_close(MPI_File *); int MPI_File_delete(const char *, MPI_Info); int MPI_File_seek(MPI_File, MPI_Offset, int);
int MPI_File_read(MPI_File, void *, int, MPI_Datatype, MPI_Status *); int MPI_File_read_at(MPI_File, MPI_Offset, void *, int, MPI_Datatype, MPI_Status *); int MPI_File_read_all(MPI_File, void *, int, MPI_Datatype, MPI_Status *); int MPI_File_read_at_all(MPI_File, MPI_Offset, void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_write(MPI_File, const void *, int, MPI_Datatype, MPI_Status *); int MPI_File_write_at(MPI_File, MPI_Offset, const void *, int, MPI_Datatype, MPI_Status *); int MPI_File_write_at_all(MPI_File, MPI_Offset, const void *, int, MPI_Datatype, MPI_Status *); int MPI_File_set_size(MPI_File, MPI_Offset); int MPI_File_get_size(MPI_File, MPI_Offset *); int MPI_File_sync(MPI_File);
int MPI_Type_size(MPI_Datatype, int *); int MPI_Error_string(int, char *, int *); double MPI_Wtime(); int MPI_Get_processor_name(char *, int *);
// model controls (set by harnesses)
extern int sxmpi_send_mode;     // 0 eager (buffer read at once), 1 deferred (rendezvous), 2 nondeterministic per message
extern int sxmpi_delay_budget;  // how many times an available message may still be reported as not arrived
extern int sxmpi_any_choice;    // completion order of wait-any is nondeterministic
extern int sxmpi_strict;        // check buffer lifetime/immutability and request completion
void sxmpi_init();              // before sx_spawn
void sxmpi_check_clean(const char *where); // no outstanding requests on this rank
uint64_t sxmpi_pending_messages();
