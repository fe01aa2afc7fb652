// Replacement MPI.  Single-rank by default; in multi-rank mode every collective is a message to the
// controller process, which owns the schedule.
#pragma once
#include <mpi.h>
#include <cstdint>
#include <string>
#include <vector>

namespace shim {
constexpr int MAXR = 8;
struct Comm { int id; int size; int rank; };
enum Kind : int32_t { K_COLL = 1, K_FILE = 2, K_DONE = 3, K_ABORT = 4, K_NOTE = 5, K_LOCAL_ERR = 6 };
enum Coll : int32_t { C_BARRIER = 1, C_ALLGATHER, C_ALLREDUCE, C_BCAST, C_REDUCE, C_GATHER, C_HOST };
extern int fd;              // socket to the controller (<0: single rank)
extern bool bypass_files;   // harness-internal file access
extern long live_types, live_comms;   // created and not yet freed
extern long n_calls;        // MPI collectives issued by this process
extern std::vector<std::string> errors;  // misuse of MPI detected locally
// configure communicators of this process: world, and one extra communicator ("k communicator")
void configure(int wsize, int wrank, int ksize, int krank);
MPI_Comm kcomm();
void host_sum(double* v, size_t n);  // exchange of the model host between its ranks
void send_done(const std::string& payload);
void visible(const std::string& op, const std::string& path);  // file operation: wait for the grant
std::string exchange(int kind, int comm, int coll, int a, int b, const std::string& sig, const std::string& payload);
bool write_all(int fd, const void* p, size_t n);
bool read_all(int fd, void* p, size_t n);
struct Hdr { int32_t kind, comm, coll, a, b; uint32_t siglen; uint64_t len; };
}  // namespace shim
