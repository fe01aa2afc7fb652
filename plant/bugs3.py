LG = "src/utils/logger.hpp"
SL = "src/utils/step_logger.hpp"
PR = "src/preconditioner.hpp"
DV = "src/la/dvector.hpp"
LY = "src/la/layout.hpp"
LU = "src/la/utils.hpp"

bug("s35-report-appended", "C21", [(LG, "stream_ptr_ = std::make_shared<std::ofstream>(fname);", "stream_ptr_ = std::make_shared<std::ofstream>(fname, std::ios_base::app);")], main(r'''
  for (int i = 0; i < 2; ++i) { Par q; q.maxiter = 2; Host h{q}; minimise(h); }
  std::ifstream f("nlcg.out");
  std::string l; int n = 0;
  while (std::getline(f, l)) n += l == "nlcglib parameters";
  REQUIRE(n == 1, "the report describes %d runs", n);
'''), "a second minimisation in the same directory", "nlcg.out still holds the report of the earlier run")

bug("s36-report-step-number", "C21", [(N, "std::left << step << std::setw", "std::left << step % 100 << std::setw")], main(r'''
  Par q; q.maxiter = 130; q.tol = 1e-300; q.kappa = 1e-4; q.restart = 1; q.n = 8; q.b = 4; q.g = 0; q.nk = 1; q.ne = 4;
  Host h{q};
  minimise(h);
  int nr = log_records().size();
  REQUIRE(nr > 110, "only %d iterations", nr);
  std::ifstream f("nlcg.out");
  std::string l; int expect = 0;
  while (std::getline(f, l)) { std::istringstream is(l); std::string a, b, c, d, e; if ((is >> a >> b >> c >> d) && !(is >> e) && a.find_first_not_of("0123456789") == std::string::npos && d.compare(0, 2, "-1") == 0) { REQUIRE(atoi(a.c_str()) == expect, "iteration %d is reported as %s", expect, a.c_str()); ++expect; } }
  REQUIRE(expect == nr, "%d iterations reported, %d made", expect, nr);
'''), "a run of more than 100 iterations", "iterations beyond the 99th are reported with wrong numbers")

bug("s37-every-rank-prints", "C21", [(LG, "  Logger() {\n    MPI_Comm_rank(MPI_COMM_WORLD, &pid_);", "  Logger() {\n    MPI_Comm_rank(MPI_COMM_SELF, &pid_);")], main(r'''
  int r; MPI_Comm_rank(MPI_COMM_WORLD, &r);
  std::string fn = "std" + std::to_string(r);
  fflush(stdout);
  REQUIRE(freopen(fn.c_str(), "w", stdout), "scratch");
  Par q; q.maxiter = 3;
  Host h{q};
  h.comm = MPI_COMM_WORLD;
  h.p.erase(h.p.begin() + (1 - r));
  alarm(40);
  minimise(h);
  fflush(stdout);
  MPI_Barrier(MPI_COMM_WORLD);
  std::ifstream f(fn);
  std::string s((std::istreambuf_iterator<char>(f)), {});
  REQUIRE((r == 0) == (s.find("Fermi energy") != std::string::npos), "rank %d prints %zu characters", r, s.size());
  MPI_Barrier(MPI_COMM_WORLD);
'''), "more than one rank", "every rank prints the progress lines to standard output", 2)

bug("s38-gather-offset-write", "C22", [(MV, "std::partial_sum(nelems.begin(), nelems.end() - 1, scan.begin() + 1);", "std::partial_sum(nelems.begin(), nelems.end(), scan.begin() + 1);")], r'''
#include "host.hpp"
#include "la/mvector.hpp"
#include <new>
// every allocation is followed by a guard
static const unsigned char G = 0x5a;
void* operator new(size_t n) { char* p = (char*)malloc(n + 64); if (!p) throw std::bad_alloc(); *(size_t*)p = n; memset(p + 32 + n, G, 32); return p + 32; }
static long broken = 0;
void operator delete(void* q) noexcept { if (!q) return; char* p = (char*)q - 32; size_t n = *(size_t*)p; for (int i = 0; i < 32; ++i) broken += (unsigned char)p[32 + n + i] != G; free(p); }
void operator delete(void* q, size_t) noexcept { operator delete(q); }
int main(int argc, char** argv)
{
  init(argc, argv);
  {
    using namespace nlcglib;
    mvector<double> v(Communicator(MPI_COMM_WORLD));
    for (int i = 0; i < 3; ++i) v[{i, 0}] = 0.5 * i;
    auto a = v.allgather();
    REQUIRE(a.size() == 3, "gathered %zu values", a.size());
  }
  REQUIRE(broken == 0, "%ld bytes behind allocated memory were overwritten", broken);
  return done();
}
''', "any gather of scalars", "four bytes behind an allocated array are overwritten")

bug("s39-leak-on-host-exception", "C23", [(FE, "  energy.set_fn(key_fn, vec_fn);\n  energy.compute();", "  auto* occ = new std::vector<std::vector<double>>(vec_fn);\n  energy.set_fn(key_fn, *occ);\n  energy.compute();\n  delete occ;")], r'''
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <new>
static long live = 0;
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* malloc(size_t n) { void* p = __libc_malloc(n); live += p != nullptr; return p; }
extern "C" void free(void* p) { live -= p != nullptr; __libc_free(p); }
#include "host.hpp"
int main(int argc, char** argv)
{
  init(argc, argv);
  long last = 0, grow = 0;
  for (int i = 0; i < 12; ++i) {
    {
      Par q; q.maxiter = 3;
      Host h{q};
      int n = 0;
      h.at_eval = [&] { if (++n == 4) throw std::runtime_error("host"); };
      bool thrown = false;
      try { minimise(h); } catch (std::exception&) { thrown = true; }
      REQUIRE(thrown, "exception of the host is lost");
    }
    if (i > 5) grow += live > last;
    last = live;
  }
  REQUIRE(grow < 3, "memory grows with every call");
  return done();
}
''', "the host's energy evaluation throws", "the occupations handed to the host are leaked")

bug("s40-log-descriptor", "C23", [(SL, "      fout.flush();\n", "      fout.flush();\n      static std::map<int, std::ofstream> files;\n      files[i] = std::move(fout);\n")], r'''
#include "host.hpp"
#include <dirent.h>
static int nfd() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
int main(int argc, char** argv)
{
  init(argc, argv);
  auto go = [](int it) { Par q; q.maxiter = it; q.tol = 1e-300; Host h{q}; minimise(h); };
  go(1);
  int a = nfd();
  go(4);
  int b = nfd();
  REQUIRE(a == b, "%d files stay open", b - a);
  return done();
}
''', "a run with more iterations than the runs before it in the process", "every iteration number keeps a descriptor of the log open; after the log was removed, later runs write to the deleted file")

bug("s41-teter-unstrided", "C24", [(PR, "mdst(i, j) = entries(i) * msrc(i, j);", "mdst(i, j) = entries(i) * msrc.data()[i + j * m];")], r'''
#include "host.hpp"
#include "preconditioner.hpp"
struct Ekin : nlcglib::VectorBaseZ
{
  std::vector<double> v;
  buffer_t get(int) override { return buffer_t((int)v.size(), v.data(), memory_type::host, MPI_COMM_SELF); }
  const buffer_t get(int) const override { return buffer_t((int)v.size(), const_cast<double*>(v.data()), memory_type::host, MPI_COMM_SELF); }
  int size() const override { return 1; }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_SELF; }
  kindex_t kpoint_index(int) const override { return {0, 0}; }
};
int main(int argc, char** argv)
{
  init(argc, argv);
  {
    using namespace nlcglib;
    auto e = std::make_shared<Ekin>();
    e->v = {0.1, 1, 4};
    PreconditionerTeter<Kokkos::HostSpace> P(e);
    std::vector<cd> a(5 * 2, cd(99));
    for (int j = 0; j < 2; ++j) for (int i = 0; i < 3; ++i) a[i + 5 * j] = cd(i + 1, j);
    MatrixBaseZ::buffer_t buf({1, 5}, {3, 2}, a.data(), memory_type::host, MPI_COMM_SELF);
    KokkosDVector<Kokkos::complex<double>**, SlabLayoutV, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> X(Map<>(Communicator(MPI_COMM_SELF), SlabLayoutV({{0, 0, 3, 2}})), buf);
    auto Y = P.at(std::make_pair(0, 0))(X);
    for (int j = 0; j < 2; ++j) for (int i = 0; i < 3; ++i) {
      double x = e->v[i], f = 1 / (1 + 16 * x * x * x * x / (27 + 18 * x + 12 * x * x + 8 * x * x * x));
      cd w = f * cd(i + 1, j), y(Y.array()(i, j).real(), Y.array()(i, j).imag());
      REQUIRE(std::abs(y - w) < 1e-12, "element %d,%d", i, j);
    }
  }
  return done();
}
''', "preconditioning a matrix with padded columns", "rows of the wrong columns are preconditioned")

bug("s42-slab-extent", "C25", [(LY, "nrow_ += block.nrows;", "nrow_ = std::max(nrow_, block.x + block.nrows);")], r'''
#include "host.hpp"
#include "la/layout.hpp"
int main(int argc, char** argv)
{
  init(argc, argv);
  {
    nlcglib::SlabLayoutV a({{0, 0, 3, 2}, {3, 0, 2, 2}});
    REQUIRE(a.nrows() == 5 && a.ncols() == 2, "contiguous blocks: %d rows", a.nrows());
    nlcglib::SlabLayoutV b({{10, 0, 3, 2}, {40, 0, 2, 2}});
    REQUIRE(b.nrows() == 5, "blocks of another rank's rows: %d local rows", b.nrows());
  }
  return done();
}
''', "blocks that do not start at row 0 or leave gaps", "the number of local rows is that of the enclosing range")

bug("s43-zeros-uninitialised", "C25", [(LU, "mat_t zeros(input.map());", 'mat_t zeros(input.map(), Kokkos::view_alloc(Kokkos::WithoutInitializing, std::string("zeros")));')], r'''
#include "host.hpp"
#include "la/utils.hpp"
#include "la/mvector.hpp"
#include <malloc.h>
int main(int argc, char** argv)
{
  init(argc, argv);
  mallopt(M_PERTURB, 0x3f);
  {
    using namespace nlcglib;
    KokkosDVector<Kokkos::complex<double>**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace> X(Map<>(Communicator(MPI_COMM_SELF), SlabLayoutV({{0, 0, 7, 3}})), std::string("x"));
    auto Z = zeros_like()(X);
    for (int j = 0; j < 3; ++j) for (int i = 0; i < 7; ++i) REQUIRE(Z.array()(i, j) == Kokkos::complex<double>(0), "element %d,%d is not zero", i, j);
  }
  return done();
}
''', "memory that was used before", "zeros_like returns a matrix of arbitrary numbers")

bug("s44-operator-alias", "C24", [("src/operator.hpp", "auto Y = empty_like()(X);", "auto Y = to_layout_left_t<std::remove_reference_t<X_t>>(X.map());"), ("src/operator.hpp", "auto vX = as_buffer_protocol(X);", "deep_copy(Y, X);\n    auto vX = as_buffer_protocol(Y);")], main(r'''
  struct Op : nlcglib::OverlapBase {
    mutable int alias = 0;
    void apply(const key2&, nlcglib::MatrixBaseZ::buffer_t& o, nlcglib::MatrixBaseZ::buffer_t& in) const override
    {
      alias += o.data == in.data;
      int n = in.size[0];
      // neighbours enter: result must not overwrite what is still needed
      for (int j = 0; j < in.size[1]; ++j) for (int i = 0; i < n; ++i) o.data[i * o.stride[0] + j * o.stride[1]] = in.data[i * in.stride[0] + j * in.stride[1]] + 0.1 * in.data[(i ? i - 1 : n - 1) * in.stride[0] + j * in.stride[1]];
    }
    std::vector<key2> get_keys() const override { return {{0, 0}, {1, 0}}; }
  } op;
  Par q; q.maxiter = 2;
  Host h{q};
  OpP P(h);
  try { nlcglib::nlcg_us_cpu(h, P, op, q.sm, q.T, q.tol, q.kappa, q.tau, q.maxiter, q.restart); } catch (std::exception&) {}
  REQUIRE(op.alias == 0, "operator called with the same memory for input and output");
'''), "an operator that mixes plane waves", "the host's operator receives the same buffer as input and output")
