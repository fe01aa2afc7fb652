#include "mpi_shim.hpp"
#include <unistd.h>
#include <errno.h>
#include <sys/time.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <complex>
#include <algorithm>

namespace shim {
int fd = -1;
bool bypass_files = false;
long n_calls = 0, live_types = 0, live_comms = 0;
std::vector<std::string> errors;
bool write_all(int f, const void* p, size_t n)
{
  const char* c = (const char*)p;
  while (n) { ssize_t r = ::write(f, c, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; c += r; n -= r; }
  return true;
}
bool read_all(int f, void* p, size_t n)
{
  char* c = (char*)p;
  while (n) { ssize_t r = ::read(f, c, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; c += r; n -= r; }
  return true;
}
std::string exchange(int kind, int comm, int coll, int a, int b, const std::string& sig, const std::string& payload)
{
  Hdr h{kind, comm, coll, a, b, (uint32_t)sig.size(), (uint64_t)payload.size()};
  std::string m((const char*)&h, sizeof h);
  m += sig; m += payload;
  if (!write_all(fd, m.data(), m.size())) _exit(97);
  uint64_t n;
  if (!read_all(fd, &n, 8)) _exit(97);
  std::string r(n, 0);
  if (n && !read_all(fd, &r[0], n)) _exit(97);
  return r;
}
void visible(const std::string& op, const std::string& path)
{
  if (fd < 0 || bypass_files) return;
  exchange(K_FILE, 0, 0, 0, 0, op + " " + path, "");
}
void host_sum(double* v, size_t n)
{
  if (fd < 0) return;
  std::string r = exchange(K_COLL, 3, C_HOST, n, 0, "d", std::string((const char*)v, n * 8));
  if (r.size() != n * 8) _exit(94);
  memcpy(v, r.data(), r.size());
}
void send_done(const std::string& payload)
{
  if (fd >= 0) exchange(K_DONE, 0, 0, 0, 0, "", payload);
}
struct Type { int id; int n; char basic[64]; long disp[64]; long lb, ub; bool predefined; bool committed; };
struct Op { int id; };
}  // namespace shim

using shim::Comm; using shim::Type; using shim::Op;

extern "C" {
struct ompi_predefined_communicator_t { Comm c; };
struct ompi_predefined_datatype_t { Type t; };
struct ompi_predefined_op_t { Op o; };
struct ompi_predefined_info_t { int i; };
struct ompi_predefined_request_t { int i; };
struct ompi_predefined_group_t { int i; };
struct ompi_predefined_errhandler_t { int i; };
struct ompi_predefined_communicator_t ompi_mpi_comm_world = {{1, 1, 0}};
struct ompi_predefined_communicator_t ompi_mpi_comm_self = {{0, 1, 0}};
struct ompi_predefined_communicator_t ompi_mpi_comm_null = {{-1, 0, -1}};
static ompi_predefined_communicator_t fake_kcomm = {{2, 1, 0}};
#define DT(name, letter, size) struct ompi_predefined_datatype_t name = {{letter, 1, {letter}, {0}, 0, size, true, true}};
DT(ompi_mpi_double, 'd', 8) DT(ompi_mpi_int, 'i', 4) DT(ompi_mpi_char, 'c', 1) DT(ompi_mpi_c_double_complex, 'z', 16)
DT(ompi_mpi_cxx_dblcplex, 'z', 16) DT(ompi_mpi_long, 'l', 8) DT(ompi_mpi_unsigned, 'u', 4) DT(ompi_mpi_unsigned_long, 'L', 8)
DT(ompi_mpi_float, 'f', 4) DT(ompi_mpi_byte, 'b', 1) DT(ompi_mpi_cxx_bool, 'b', 1) DT(ompi_mpi_c_bool, 'b', 1)
DT(ompi_mpi_long_long_int, 'l', 8) DT(ompi_mpi_unsigned_char, 'b', 1) DT(ompi_mpi_signed_char, 'c', 1) DT(ompi_mpi_short, 's', 2)
DT(ompi_mpi_int8_t, 'c', 1) DT(ompi_mpi_int32_t, 'i', 4) DT(ompi_mpi_int64_t, 'l', 8) DT(ompi_mpi_uint64_t, 'L', 8) DT(ompi_mpi_uint32_t, 'u', 4)
struct ompi_predefined_datatype_t ompi_mpi_datatype_null = {{0, 0, {0}, {0}, 0, 0, true, true}};
struct ompi_predefined_op_t ompi_mpi_op_sum = {{1}}, ompi_mpi_op_max = {{2}}, ompi_mpi_op_min = {{3}}, ompi_mpi_op_prod = {{4}},
    ompi_mpi_op_land = {{5}}, ompi_mpi_op_lor = {{6}}, ompi_mpi_op_null = {{0}};
struct ompi_predefined_info_t ompi_mpi_info_null; struct ompi_predefined_request_t ompi_request_null; struct ompi_predefined_group_t ompi_mpi_group_null;
struct ompi_predefined_errhandler_t ompi_mpi_errors_return, ompi_mpi_errors_are_fatal;
}

namespace shim {
static Comm& C(MPI_Comm c) { return *(Comm*)c; }
static Type& T(MPI_Datatype t) { return *(Type*)t; }
static long bsize(char b) { switch (b) { case 'd': case 'l': case 'L': return 8; case 'z': return 16; case 'i': case 'u': case 'f': return 4; case 's': return 2; default: return 1; } }
static long balign(char b) { return b == 'z' ? 8 : bsize(b); }
static long extent(const Type& t) { return t.ub - t.lb; }
static std::string sig(const Type& t) { return std::string(t.basic, t.basic + t.n); }
static void err(const std::string& m) { errors.push_back(m); if (fd >= 0) exchange(K_LOCAL_ERR, 0, 0, 0, 0, m, ""); }
static std::string pack(const void* buf, long count, const Type& t)
{
  std::string r;
  const char* p = (const char*)buf;
  for (long c = 0; c < count; ++c) for (int i = 0; i < t.n; ++i) r.append(p + c * extent(t) + t.disp[i], bsize(t.basic[i]));
  return r;
}
static void unpack(void* buf, long count, const Type& t, const char* src)
{
  char* p = (char*)buf;
  for (long c = 0; c < count; ++c) for (int i = 0; i < t.n; ++i) { long s = bsize(t.basic[i]); memcpy(p + c * extent(t) + t.disp[i], src, s); src += s; }
}
static long psize(const Type& t) { long s = 0; for (int i = 0; i < t.n; ++i) s += bsize(t.basic[i]); return s; }
void configure(int ws, int wr, int ks, int kr)
{
  ompi_mpi_comm_world.c = {1, ws, wr};
  fake_kcomm.c = {2, ks, kr};
}
MPI_Comm kcomm() { return (MPI_Comm)&fake_kcomm; }
static bool local(const Comm& c) { return fd < 0 || c.size == 1; }
static void checkcomm(MPI_Comm c, const char* fn)
{
  ++n_calls;
  if ((void*)c == (void*)&ompi_mpi_comm_null || c == nullptr) {
    err(std::string(fn) + ": null communicator");
    fprintf(stderr, "%s on null communicator\n", fn);
    _exit(96);
  }
}
}  // namespace shim
using namespace shim;

extern "C" {
int MPI_Init(int*, char***) { return MPI_SUCCESS; }
int MPI_Init_thread(int*, char***, int req, int* prov) { *prov = req; return MPI_SUCCESS; }
int MPI_Finalize(void) { return MPI_SUCCESS; }
int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return MPI_SUCCESS; }
double MPI_Wtime(void) { struct timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + 1e-6 * tv.tv_usec; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "model"); *l = 5; return MPI_SUCCESS; }
int MPI_Error_string(int, char* s, int* l) { strcpy(s, "error"); *l = 5; return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int code)
{
  if (fd >= 0) exchange(K_ABORT, 0, 0, code, 0, "MPI_Abort", "");
  fprintf(stderr, "MPI_Abort(%d)\n", code);
  _exit(95);
}
int MPI_Comm_rank(MPI_Comm c, int* r) { checkcomm(c, "MPI_Comm_rank"); *r = C(c).rank; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int* r) { checkcomm(c, "MPI_Comm_size"); *r = C(c).size; return MPI_SUCCESS; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r)
{
  checkcomm(a, "MPI_Comm_compare"); checkcomm(b, "MPI_Comm_compare");
  *r = (a == b) ? MPI_IDENT : (C(a).size == C(b).size ? MPI_CONGRUENT : MPI_UNEQUAL);
  return MPI_SUCCESS;
}
static std::vector<Comm*>& owned() { static std::vector<Comm*> v; return v; }
int MPI_Comm_dup(MPI_Comm a, MPI_Comm* b) { checkcomm(a, "MPI_Comm_dup"); Comm* n = new Comm(C(a)); owned().push_back(n); ++live_comms; *b = (MPI_Comm)n; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm* c)
{
  checkcomm(*c, "MPI_Comm_free");
  auto& v = owned();
  auto i = std::find(v.begin(), v.end(), (Comm*)*c);
  if (i == v.end()) err("MPI_Comm_free of a communicator that belongs to the host");
  else { delete *i; v.erase(i); --live_comms; }
  *c = (MPI_Comm)&ompi_mpi_comm_null;
  return MPI_SUCCESS;
}

int MPI_Barrier(MPI_Comm c)
{
  checkcomm(c, "MPI_Barrier");
  if (!local(C(c))) exchange(K_COLL, C(c).id, C_BARRIER, 0, 0, "", "");
  return MPI_SUCCESS;
}
static void use(MPI_Datatype t);
static int allgatherv(const void* sb, int sc, MPI_Datatype st, void* rb, const int* rc, const int* displs, MPI_Datatype rt, MPI_Comm c)
{
  use(rt);
  if (sb != MPI_IN_PLACE) use(st);
  Comm& cc = C(c);
  Type& R = T(rt);
  int n = cc.size, me = cc.rank;
  std::string mine;
  long mycount;
  if (sb == MPI_IN_PLACE) { mine = pack((char*)rb + displs[me] * extent(R), rc[me], R); mycount = rc[me]; }
  else { mine = pack(sb, sc, T(st)); mycount = sc; }
  std::string counts((const char*)rc, sizeof(int) * n), all;
  if (local(cc)) all = mine;
  else all = exchange(K_COLL, cc.id, C_ALLGATHER, mycount, 0, sig(R) + "|" + counts, mine);
  size_t off = 0;
  for (int r = 0; r < n; ++r) {
    size_t len = (size_t)rc[r] * psize(R);
    if (off + len > all.size()) { err("allgather: receive counts exceed the data sent"); return MPI_SUCCESS; }
    unpack((char*)rb + displs[r] * extent(R), rc[r], R, all.data() + off);
    off += len;
  }
  if (off != all.size()) err("allgather: receive counts smaller than the data sent");
  return MPI_SUCCESS;
}
int MPI_Allgatherv(const void* sb, int sc, MPI_Datatype st, void* rb, const int* rc, const int* displs, MPI_Datatype rt, MPI_Comm c)
{
  checkcomm(c, "MPI_Allgatherv");
  return allgatherv(sb, sc, st, rb, rc, displs, rt, c);
}
int MPI_Allgather(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, MPI_Comm c)
{
  checkcomm(c, "MPI_Allgather");
  int n = C(c).size;
  std::vector<int> cnt(n, rc), d(n);
  for (int i = 0; i < n; ++i) d[i] = i * rc;
  return allgatherv(sb, sc, st, rb, cnt.data(), d.data(), rt, c);
}
int MPI_Allreduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  checkcomm(c, "MPI_Allreduce");
  use(t);
  std::string mine = pack(sb == MPI_IN_PLACE ? rb : sb, n, T(t)), res;
  if (local(C(c))) res = mine;
  else res = exchange(K_COLL, C(c).id, C_ALLREDUCE, n, ((Op*)op)->id, sig(T(t)), mine);
  if (res.size() != mine.size()) { err("allreduce: size mismatch"); return MPI_SUCCESS; }
  unpack(rb, n, T(t), res.data());
  return MPI_SUCCESS;
}
int MPI_Reduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
  checkcomm(c, "MPI_Reduce");
  use(t);
  std::string mine = pack(sb == MPI_IN_PLACE ? rb : sb, n, T(t)), res;
  if (local(C(c))) res = mine;
  else res = exchange(K_COLL, C(c).id, C_REDUCE, root, ((Op*)op)->id, sig(T(t)), mine);
  if (C(c).rank == root && res.size() == mine.size()) unpack(rb, n, T(t), res.data());
  return MPI_SUCCESS;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  checkcomm(c, "MPI_Bcast");
  use(t);
  if (local(C(c))) return MPI_SUCCESS;
  std::string mine = pack(b, n, T(t));
  std::string res = exchange(K_COLL, C(c).id, C_BCAST, root, 0, sig(T(t)) + std::to_string(n), mine);
  if (res.size() == mine.size()) unpack(b, n, T(t), res.data());
  return MPI_SUCCESS;
}
static int gatherv(const void* sb, int sc, MPI_Datatype st, void* rb, const int* rc, const int* displs, MPI_Datatype rt, int root, MPI_Comm c)
{
  Comm& cc = C(c);
  bool me = cc.rank == root;
  std::string mine = sb == MPI_IN_PLACE ? pack((char*)rb + displs[root] * extent(T(rt)), rc[root], T(rt)) : pack(sb, sc, T(st)), all;
  if (local(cc)) all = mine;
  else all = exchange(K_COLL, cc.id, C_GATHER, root, 0, sb == MPI_IN_PLACE ? sig(T(rt)) : sig(T(st)), mine);
  if (!me) return MPI_SUCCESS;
  size_t off = 0;
  for (int r = 0; r < cc.size; ++r) {
    size_t len = (size_t)rc[r] * psize(T(rt));
    if (off + len > all.size()) { err("gather: receive counts exceed the data sent"); return MPI_SUCCESS; }
    unpack((char*)rb + displs[r] * extent(T(rt)), rc[r], T(rt), all.data() + off);
    off += len;
  }
  if (off != all.size()) err("gather: receive counts smaller than the data sent");
  return MPI_SUCCESS;
}
int MPI_Gatherv(const void* sb, int sc, MPI_Datatype st, void* rb, const int rc[], const int displs[], MPI_Datatype rt, int root, MPI_Comm c)
{
  checkcomm(c, "MPI_Gatherv");
  return gatherv(sb, sc, st, rb, rc, displs, rt, root, c);
}
int MPI_Gather(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, int root, MPI_Comm c)
{
  checkcomm(c, "MPI_Gather");
  int n = C(c).size;
  std::vector<int> cnt(n, rc), d(n);
  for (int i = 0; i < n; ++i) d[i] = i * rc;
  return gatherv(sb, sc, st, rb, cnt.data(), d.data(), rt, root, c);
}
static Type* freed[16];
static int nfreed = 0;
static Type* newtype() { ++live_types; return new Type(); }
static void use(MPI_Datatype t)
{
  Type& x = T(t);
  if (x.id == -1) err("MPI datatype used after it was freed");
  else if (!x.committed) err("MPI datatype used without MPI_Type_commit");
}
int MPI_Type_create_struct(int n, const int bl[], const MPI_Aint disp[], const MPI_Datatype types[], MPI_Datatype* out)
{
  Type* t = newtype();
  t->id = 1000; t->n = 0; t->predefined = false;
  long lb = 0, ub = 0, al = 1;
  for (int i = 0; i < n; ++i) {
    Type& o = T(types[i]);
    for (int k = 0; k < bl[i]; ++k) for (int j = 0; j < o.n; ++j) {
      if (t->n >= 64) { err("struct type too large"); return MPI_ERR_TYPE; }
      t->basic[t->n] = o.basic[j];
      t->disp[t->n] = disp[i] + k * extent(o) + o.disp[j];
      t->n++;
      al = std::max(al, balign(o.basic[j]));
    }
    lb = std::min(lb, (long)disp[i] + o.lb);
    ub = std::max(ub, (long)disp[i] + bl[i] * extent(o) + o.lb);
  }
  t->lb = lb;
  t->ub = lb + ((ub - lb) + al - 1) / al * al;  // alignment padding as OpenMPI does
  *out = (MPI_Datatype)t;
  return MPI_SUCCESS;
}
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* out)
{
  MPI_Aint d = 0; int bl = n; return MPI_Type_create_struct(1, &bl, &d, &o, out);
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ext, MPI_Datatype* out) { Type* t = newtype(); *t = T(o); t->lb = lb; t->ub = lb + ext; t->predefined = false; t->committed = false; *out = (MPI_Datatype)t; return MPI_SUCCESS; }
int MPI_Type_commit(MPI_Datatype* t) { T(*t).committed = true; return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype* t)
{
  Type& x = T(*t);
  if (x.predefined) err("MPI_Type_free of a predefined datatype");
  else if (x.id == -1) err("MPI datatype freed twice");
  else { x.id = -1; --live_types; Type*& q = freed[nfreed++ % 16]; delete q; q = &x; }
  *t = (MPI_Datatype)&ompi_mpi_datatype_null; return MPI_SUCCESS; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = psize(T(t)); return MPI_SUCCESS; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { *lb = T(t).lb; *e = extent(T(t)); return MPI_SUCCESS; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint)p; return MPI_SUCCESS; }
}
