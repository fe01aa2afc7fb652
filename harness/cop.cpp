// C24: operator wrappers and the kinetic-energy preconditioner; C25: matrix containers, host adaptors and
// helpers.  The real templates are executed on every combination of shapes, memory layouts and key sets.
#include <nlcglib.hpp>
#include "la/dvector.hpp"
#include "la/mvector.hpp"
#include "la/utils.hpp"
#include "la/lapack.hpp"
#include "overlap.hpp"
#include "ultrasoft_precond.hpp"
#include "preconditioner.hpp"
#include "helper/funcs.hpp"
#include "utils/format.hpp"
#include "explore.hpp"
#include "mpi_shim.hpp"
#include <cstdarg>
#include <map>
#include <sstream>

using namespace nlcglib;
using ex::Ctx;
typedef Kokkos::complex<double> kz;
typedef std::complex<double> cd;
typedef std::pair<int, int> key2;
typedef KokkosDVector<kz**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace> ML;
typedef KokkosDVector<kz**, SlabLayoutV, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> MS;
static int C_ops = ex::ctr("operations_checked"), C_err = ex::ctr("rejected_with_error");
static std::string TIER = "quick", PROP;
static bool thorough() { return TIER == "thorough"; }
static std::string fmt(const char* f, ...) { char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static const cd SENT(-7.25e11, 3.5e13);

// a matrix of the host: n x b elements somewhere in a larger array
struct Buf
{
  int n, b, s0, s1, off;
  std::vector<cd> a;
  Buf(int n, int b, int lay, int seed) : n(n), b(b)
  {
    int p = lay % 3;                        // padding
    if (lay < 3) { s0 = 1; s1 = n + p; }    // columns
    else if (lay < 6) { s1 = 1; s0 = b + p; } // rows
    else { s0 = 2 + p; s1 = s0 * n + p; }   // both strides above 1
    off = 3 + p;
    a.assign(off + s0 * (n - 1) + s1 * (b - 1) + 6, SENT);
    for (int j = 0; j < b; ++j) for (int i = 0; i < n; ++i) at(i, j) = val(i, j, seed);
  }
  static cd val(int i, int j, int seed) { return {1 + i + 10 * j + 100 * seed, 0.5 * i - 0.25 * j + 3 * seed}; }
  cd& at(int i, int j) { return a[off + i * s0 + j * s1]; }
  MatrixBaseZ::buffer_t buf(memory_type m = memory_type::host, MPI_Comm c = MPI_COMM_SELF) { return {{s0, s1}, {n, b}, a.data() + off, m, c}; }
  // everything outside the elements is untouched
  bool pads() { std::vector<char> in(a.size(), 0); for (int j = 0; j < b; ++j) for (int i = 0; i < n; ++i) in[off + i * s0 + j * s1] = 1; for (size_t i = 0; i < a.size(); ++i) if (!in[i] && a[i] != SENT) return false; return true; }
  bool holds(int seed) { for (int j = 0; j < b; ++j) for (int i = 0; i < n; ++i) if (at(i, j) != val(i, j, seed)) return false; return pads(); }
  MS ms() { return MS(Map<>(Communicator(MPI_COMM_SELF), SlabLayoutV({{0, 0, n, b}})), buf()); }
};
static ML ml(int n, int b, int seed)
{
  ML m(Map<>(Communicator(MPI_COMM_SELF), SlabLayoutV({{0, 0, n, b}})), std::string("m"));
  for (int j = 0; j < b; ++j) for (int i = 0; i < n; ++i) m.array()(i, j) = kz(Buf::val(i, j, seed));
  return m;
}
static cd el(const kz& z) { return {z.real(), z.imag()}; }

static std::vector<key2> keyset(int id, int n)
{
  static const key2 K[][5] = {{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 0}}, {{5, 1}, {3, 0}, {-2, 7}, {5, 0}, {100000, -1}}, {{2147483647, 0}, {-2147483647 - 1, 1}, {0, -5}, {0, 5}, {-1, -1}}};
  return std::vector<key2>(K[id], K[id] + n);
}

// ------------------------------------------------------------------ C24
template <class BASE> struct HostOp : BASE
{
  std::vector<key2> keys;
  int n = 0, b = 0;
  mutable std::vector<std::string> bad;
  mutable std::map<key2, int> calls;
  mutable std::map<key2, std::vector<cd>> seen;
  static cd f(const key2& k, int i, cd x, int n) { return x * cd(1.0 + 0.001 * (k.first % 1000) + 0.01 * (k.second % 100), 0.5) + cd(i, n); }
  void apply(const key2& k, MatrixBaseZ::buffer_t& out, MatrixBaseZ::buffer_t& in) const override
  {
    calls[k]++;
    bool known = false;
    for (auto& q : keys) known = known || q == k;
    if (!known) bad.push_back("applied to a k-point that does not exist");
    if (in.size[0] != n || in.size[1] != b || out.size[0] != n || out.size[1] != b) { bad.push_back(fmt("sizes %dx%d -> %dx%d, should be %dx%d", in.size[0], in.size[1], out.size[0], out.size[1], n, b)); return; }
    if (in.memtype != memory_type::host || out.memtype != memory_type::host) { bad.push_back("memory type"); return; }
    std::vector<const cd*> A, B;
    for (int j = 0; j < b; ++j) for (int i = 0; i < n; ++i) { A.push_back(&in.data[i * in.stride[0] + j * in.stride[1]]); B.push_back(&out.data[i * out.stride[0] + j * out.stride[1]]); }
    std::sort(B.begin(), B.end());
    for (size_t i = 1; i < B.size(); ++i) if (B[i] == B[i - 1]) { bad.push_back("output elements overlap"); return; }
    for (auto p : A) if (std::binary_search(B.begin(), B.end(), p)) { bad.push_back("input and output overlap"); return; }
    std::vector<cd> v;
    for (int j = 0; j < b; ++j) for (int i = 0; i < n; ++i) { cd x = in.data[i * in.stride[0] + j * in.stride[1]]; v.push_back(x); out.data[i * out.stride[0] + j * out.stride[1]] = f(k, i, x, n); }
    seen[k] = v;
  }
  std::vector<key2> get_keys() const override { return keys; }
};
template <class W, class BASE> static bool op_case(int how, int n, int b, int lay, int ks, int nk, Ctx& x, const std::string& cs)
{
  auto bad = [&](const std::string& m) { x.fail(cs, m); return false; };
  HostOp<BASE> h;
  h.keys = keyset(ks, nk); h.n = n; h.b = b;
  W op(h);
  x.count(C_ops);
  auto expect = [&](const key2& k, const auto& Y, int seed) {
    if ((int)Y.array().extent(0) != n || (int)Y.array().extent(1) != b || Y.map().nrows() != n || Y.map().ncols() != b) return false;
    for (int j = 0; j < b; ++j) for (int i = 0; i < n; ++i) if (el(Y.array()(i, j)) != HostOp<BASE>::f(k, i, Buf::val(i, j, seed), n)) return false;
    return true;
  };
  if (how == 4 || how == 5) {
    // iteration
    size_t p = 0;
    std::string err;
    ML X = ml(n, b, 1);
    auto body = [&](auto& e) {
      if (p >= h.keys.size()) { err = "more entries than k-points"; return; }
      if (e.first != h.keys[p]) err = "wrong key while iterating";
      auto Y = e.second(X);
      if (!expect(h.keys[p], Y, 1)) err = "operator of the wrong k-point while iterating";
      ++p;
    };
    if (how == 4) for (auto& e : op) body(e);
    else { const W& cop = op; for (auto& e : cop) body(e); }
    if (!err.empty()) return bad(err);
    if (p != h.keys.size()) return bad(fmt("iteration visits %zu of %zu k-points", p, h.keys.size()));
    for (auto& k : h.keys) if (h.calls[k] != 1) return bad("operator applied more than once");
    if (!h.bad.empty()) return bad(h.bad[0]);
    return true;
  }
  std::vector<Buf> B;
  for (int k = 0; k < nk; ++k) B.emplace_back(n, b, lay, k);
  mvector<MS> X(Communicator(MPI_COMM_SELF));
  mvector<ML> Xl(Communicator(MPI_COMM_SELF));
  for (int k = 0; k < nk; ++k) { X[h.keys[k]] = B[k].ms(); Xl[h.keys[k]] = ml(n, b, k); }
  int times = 1;
  auto all = [&](const auto& R) {
    if ((int)R.size() != nk) return false;
    for (int k = 0; k < nk; ++k) if (!expect(h.keys[k], R.at(h.keys[k]), k)) return false;
    return true;
  };
  bool ok = true;
  if (how == 0) for (int k = 0; k < nk; ++k) { auto Y = op.at(h.keys[k])(X.at(h.keys[k])); ok = ok && expect(h.keys[k], Y, k); }
  if (how == 1) ok = all(eval_threaded(tapply_op(op, X)));
  if (how == 2) ok = all(eval_threaded(tapply([](auto y, auto s) { return s(y); }, X, op)));
  if (how == 3) { times = 2; auto e = tapply_op(op, Xl); ok = all(eval_threaded(e)) && all(eval_threaded(e)); }
  if (how == 6) ok = all(eval_threaded(tapply_async([](auto y, auto s) { return s(y); }, Xl, op)));
  if (!h.bad.empty()) return bad(h.bad[0]);
  if (!ok) return bad("the result is not what the host's operator wrote");
  for (int k = 0; k < nk; ++k) {
    if (h.calls[h.keys[k]] != times) return bad(fmt("operator called %d times, should be %d", h.calls[h.keys[k]], times));
    if (!B[k].holds(k)) return bad("the operand was modified");
    for (int j = 0; j < b; ++j) for (int i = 0; i < n; ++i) { if (el(Xl.at(h.keys[k]).array()(i, j)) != Buf::val(i, j, k)) return bad("the operand was modified"); if (h.seen[h.keys[k]][i + n * j] != Buf::val(i, j, k)) return bad("the operator saw other values than the operand's"); }
  }
  return true;
}

struct HostVec : VectorBaseZ
{
  std::vector<key2> keys;
  std::vector<std::vector<double>> v;
  std::vector<int> st;
  memory_type m = memory_type::host;
  MPI_Comm c = MPI_COMM_SELF;
  buffer_t d(int i) const { return buffer_t({st[i]}, {(int)(v[i].size() / st[i])}, const_cast<double*>(v[i].data()), m, MPI_COMM_SELF); }
  buffer_t get(int i) override { return d(i); }
  const buffer_t get(int i) const override { return d(i); }
  int size() const override { return v.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return c; }
  kindex_t kpoint_index(int i) const override { return keys[i]; }
};
static double teter(double t)
{
  long double T = t, tp = 16 * T * T * T * T / (27 + 18 * T + 12 * T * T + 8 * T * T * T);
  return 1 / (1 + tp);
}
static std::vector<double> ekins(int id, int n)
{
  std::vector<double> r;
  for (int i = 0; i < n; ++i) r.push_back(id == 0 ? 0.35 * i : id == 1 ? std::ldexp(1.0, 8 * i - 40) : id == 2 ? 1.0 / (1 + i) : id == 3 ? 0.0 : id == 4 ? std::ldexp(1.5, 12 * i) : 2.25 * ((i * 7) % 5));
  return r;
}
static bool teter_case(int how, int n, int b, int lay, int nk, int ks, int id, Ctx& x, const std::string& cs)
{
  auto bad = [&](const std::string& m) { x.fail(cs, m); return false; };
  x.count(C_ops);
  auto hv = std::make_shared<HostVec>();
  hv->keys = keyset(ks, nk);
  std::vector<std::vector<double>> ek;
  for (int k = 0; k < nk; ++k) {
    int s = 1 + (lay + k) % 3;
    auto e = ekins((id + k) % 6, n);
    std::vector<double> v(n * s, -1e9);
    for (int i = 0; i < n; ++i) v[i * s] = e[i];
    hv->v.push_back(v); hv->st.push_back(s); ek.push_back(e);
  }
  auto keep = hv->v;
  PreconditionerTeter<Kokkos::HostSpace> P(hv);
  if (hv->v != keep) return bad("kinetic energies of the host were modified");
  for (int k = 0; k < nk; ++k) {
    auto D = P.at(hv->keys[k]);
    auto D2 = P[hv->keys[k]];
    auto right = [&](const auto& Y) {
      for (int j = 0; j < b; ++j) for (int i = 0; i < n; ++i) { cd want = teter(ek[k][i]) * Buf::val(i, j, k); if (!(std::abs(el(Y(i, j)) - want) <= 1e-12 * std::abs(want) + 1e-300)) return false; }
      return true;
    };
    if (how == 0) {
      ML X = ml(n, b, k);
      auto Y = D(X);
      if (!right(Y.array())) return bad("preconditioned matrix is wrong");
      for (int j = 0; j < b; ++j) for (int i = 0; i < n; ++i) if (el(X.array()(i, j)) != Buf::val(i, j, k)) return bad("the operand was modified");
      if (Y.array().data() == X.array().data()) return bad("result shares memory with the operand");
      auto Z = D2(X);
      if (!right(Z.array())) return bad("second access gives another preconditioner");
    } else if (how == 1) {
      Buf B(n, b, lay, k);
      MS X = B.ms();
      auto Y = D(X);
      if (!right(Y.array())) return bad("preconditioned matrix is wrong");
      if (!B.holds(k)) return bad("the operand was modified");
    } else {
      Buf B(n, b, lay, k);
      MS X = B.ms();
      D.apply_in_place(X);
      if (!right(X.array())) return bad("in-place preconditioning is wrong");
      if (!B.pads()) return bad("memory outside the matrix was modified");
    }
  }
  return true;
}
static bool teter_scan(int part, Ctx& x, const std::string& cs)
{
  auto bad = [&](const std::string& m) { x.fail(cs, m); return false; };
  std::vector<double> t;
  if (part == 0) for (int e = -300; e <= 160; ++e) for (double m : {1.0, 1.25, 1.9}) t.push_back(std::ldexp(m, e));
  else for (double v = (part - 1) * 4; v < part * 4; v += thorough() ? 1.0 / 8192 : 1.0 / 1024) t.push_back(v);
  auto hv = std::make_shared<HostVec>();
  hv->keys = {{0, 0}}; hv->v = {t}; hv->st = {1};
  PreconditionerTeter<Kokkos::HostSpace> P(hv);
  ML X(Map<>(Communicator(MPI_COMM_SELF), SlabLayoutV({{0, 0, (int)t.size(), 1}})), std::string("m"));
  for (size_t i = 0; i < t.size(); ++i) X.array()(i, 0) = kz(1, -1);
  auto Y = P.at(key2(0, 0))(X);
  double last = 2;
  for (size_t i = 0; i < t.size(); ++i) {
    double v = Y.array()(i, 0).real();
    x.count(C_ops);
    if (!(std::abs(v - teter(t[i])) <= 1e-13)) return bad(fmt("kinetic energy %.17g: factor %.17g, should be %.17g", t[i], v, teter(t[i])));
    if (!(v <= last * (1 + 1e-14)) || !(v > 0) || v > 1) return bad(fmt("factor is not a falling number in (0,1] at %.17g", t[i]));
    if (Y.array()(i, 0).imag() != -v) return bad("imaginary part");
    last = v;
    x.state(ex::mixd(ex::mix(91, i), v, 1e-12));
  }
  return true;
}

// ------------------------------------------------------------------ C25
struct HostMat : MatrixBaseZ
{
  std::vector<key2> keys;
  std::vector<Buf>* B;
  memory_type m = memory_type::host;
  int dev = -1;
  MPI_Comm c = MPI_COMM_SELF;
  buffer_t get(int i) override { return (*B)[i].buf(i == dev ? m : memory_type::host); }
  const buffer_t get(int i) const override { return (*B)[i].buf(i == dev ? m : memory_type::host); }
  int size() const override { return B->size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return c; }
  kindex_t kpoint_index(int i) const override { return keys[i]; }
};
struct HostSc : ScalarBaseZ
{
  std::vector<key2> keys;
  std::vector<double> v;
  buffer_t get(int i) override { return v[i]; }
  const buffer_t get(int i) const override { return v[i]; }
  int size() const override { return v.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_SELF; }
  kindex_t kpoint_index(int i) const override { return keys[i]; }
};
template <class M> static bool same(const M& m, int n, int b, int seed)
{
  if ((int)m.array().extent(0) != n || (int)m.array().extent(1) != b || m.map().nrows() != n || m.map().ncols() != b || m.lsize() != n * b) return false;
  for (int j = 0; j < b; ++j) for (int i = 0; i < n; ++i) if (el(m.array()(i, j)) != Buf::val(i, j, seed)) return false;
  return true;
}
static bool adapt_case(int n, int b, int lay, int ks, int nk, int order, Ctx& x, const std::string& cs)
{
  auto bad = [&](const std::string& m) { x.fail(cs, m); return false; };
  auto K = keyset(ks, nk);
  for (int i = 0; i < order; ++i) std::next_permutation(K.begin(), K.end());
  std::vector<Buf> B;
  for (int k = 0; k < nk; ++k) B.emplace_back(n + k % 2, b, (lay + k) % 9, k);   // sizes and layouts differ between k-points
  auto hm = std::make_shared<HostMat>();
  hm->keys = K; hm->B = &B;
  {
    auto M = make_mmatrix<Kokkos::HostSpace>(hm);
    x.count(C_ops);
    if ((int)M.size() != nk) return bad("number of matrices");
    for (int k = 0; k < nk; ++k) {
      auto& m = M.at(K[k]);
      if (!same(m, B[k].n, b, k)) return bad("matrix of the host is read wrongly");
      if ((void*)m.array().data() != (void*)(B[k].a.data() + B[k].off)) return bad("adaptor does not refer to the host's memory");
      if (!m.map().is_local()) return bad("communicator of the matrix");
      // writing through the view
      for (int j = 0; j < b; ++j) for (int i = 0; i < B[k].n; ++i) m.array()(i, j) = kz(Buf::val(i, j, k + 50));
      if (!B[k].holds(k + 50)) return bad("writing through the adaptor reaches wrong elements");
      auto bp = as_buffer_protocol(m);
      if (bp.size[0] != B[k].n || bp.size[1] != b || bp.memtype != memory_type::host || bp.data != B[k].a.data() + B[k].off) return bad("buffer description of a view");
      for (int j = 0; j < b; ++j) for (int i = 0; i < B[k].n; ++i) if (&bp.data[i * bp.stride[0] + j * bp.stride[1]] != &B[k].at(i, j)) return bad("strides of a buffer description");
      // copies do not refer to it
      auto c1 = copy(m);
      auto c2 = do_copy()(m);
      ML c3 = empty_like()(m);
      if ((int)c3.array().extent(0) != B[k].n || (int)c3.array().extent(1) != b) return bad("empty_like has the wrong shape");
      deep_copy(c3, m);
      auto z = zeros_like()(m);
      for (int j = 0; j < b; ++j) for (int i = 0; i < B[k].n; ++i) if (el(z.array()(i, j)) != cd(0)) return bad("zeros_like is not zero");
      auto c4 = create_host_mirror(m);
      ML c5 = c1.copy();
      auto c6 = create_mirror_view_and_copy(Kokkos::HostSpace(), c1);
      for (int j = 0; j < b; ++j) for (int i = 0; i < B[k].n; ++i) m.array()(i, j) = kz(-3, 8);
      if (!B[k].pads()) return bad("memory outside the matrix was modified");
      if (!same(c1, B[k].n, b, k + 50) || !same(c2, B[k].n, b, k + 50) || !same(c3, B[k].n, b, k + 50) || !same(c4, B[k].n, b, k + 50) || !same(c5, B[k].n, b, k + 50) || !same(c6, B[k].n, b, k + 50)) return bad("a copy differs from its source or shares memory with it");
      for (int j = 0; j < b; ++j) for (int i = 0; i < B[k].n; ++i) c1.array()(i, j) = kz(0);
      if (!same(c5, B[k].n, b, k + 50)) return bad("copy() shares memory with its source");
      // handles share, copy in both directions
      ML h1 = c5, h2;
      h2 = h1;
      if (h2.array().data() != c5.array().data() || h1.array().data() != c5.array().data()) return bad("assigning a matrix copies its elements");
      deep_copy(m, c5);
      if (!B[k].holds(k + 50)) return bad("deep_copy into a host matrix");
      ML h3 = std::move(h1);
      if (!same(h3, B[k].n, b, k + 50)) return bad("moved matrix");
      auto bl = as_buffer_protocol(c5);
      for (int j = 0; j < b; ++j) for (int i = 0; i < B[k].n; ++i) if (bl.data[i * bl.stride[0] + j * bl.stride[1]] != Buf::val(i, j, k + 50)) return bad("buffer description of a matrix");
      auto& cm = c5;
      const ML& ccm = cm;
      auto bc = as_buffer_protocol(ccm);
      if (bc.data != bl.data || bc.stride != bl.stride || bc.size != bl.size || bc.memtype != memory_type::host) return bad("buffer description of a constant matrix");
    }
    auto MC = copy(M);
    for (int k = 0; k < nk; ++k) if (!same(MC.at(K[k]), B[k].n, b, k + 50)) return bad("copy of a collection");
    x.state(ex::mix(ex::mix(std::hash<std::string>()(cs), 1), nk));
  }
  for (int d = 0; d < nk; ++d) for (auto mt : {memory_type::device, memory_type::none}) {
    hm->dev = d; hm->m = mt;
    bool thrown = false;
    try { make_mmatrix<Kokkos::HostSpace>(hm); } catch (std::exception&) { thrown = true; }
    x.count(C_err);
    if (!thrown) return bad("matrix that is not in host memory is accepted");
  }
  // vectors and scalars
  auto hv = std::make_shared<HostVec>();
  auto hs = std::make_shared<HostSc>();
  hv->keys = hs->keys = K;
  for (int k = 0; k < nk; ++k) { int s = 1 + (lay + k) % 3; std::vector<double> v((n + k) * s, 1e99); for (int i = 0; i < n + k; ++i) v[i * s] = 10 * k + 0.5 * i; hv->v.push_back(v); hv->st.push_back(s); hs->v.push_back(0.125 * (k + 1)); }
  auto V = make_mmvector<Kokkos::HostSpace>(hv);
  auto S = make_mmscalar(hs);
  if ((int)V.size() != nk || (int)S.size() != nk) return bad("number of vectors");
  auto keep = hv->v;
  for (auto& v : hv->v) for (auto& e : v) e = -5;
  for (int k = 0; k < nk; ++k) {
    x.count(C_ops);
    auto& v = V.at(K[k]);
    if ((int)v.size() != n + k) return bad("size of a vector");
    for (int i = 0; i < n + k; ++i) if (v(i) != 10 * k + 0.5 * i) return bad("vector of the host is read wrongly or shares memory with it");
    if (S.at(K[k]) != 0.125 * (k + 1)) return bad("scalar of the host");
    auto e = empty_like()(v);
    if (e.size() != v.size() || (v.size() && e.data() == v.data())) return bad("empty_like of a vector");
    v(0) = 77;
  }
  for (auto& v : hv->v) for (auto& e : v) if (e != -5) return bad("vector of the host was modified");
  if (nk) {
    for (auto mt : {memory_type::device, memory_type::none}) {
      hv->m = mt;
      bool thrown = false;
      try { make_mmvector<Kokkos::HostSpace>(hv); } catch (std::exception&) { thrown = true; }
      x.count(C_err);
      if (!thrown) return bad("vector that is not in host memory is accepted");
    }
  }
  return true;
}
// vertical slab layouts: all lists of up to three blocks
static bool slab_case(int code, Ctx& x, const std::string& cs)
{
  auto bad = [&](const std::string& m) { x.fail(cs, m); return false; };
  int nb = code % 4, c = code / 4;
  std::vector<Block> v;
  int ask = c % 3 - 1; c /= 3;   // number of columns given: -1 (take it from the blocks), 0 or 1 more below
  int rows = 0;
  bool ok = true;
  int place = 0;   // where the blocks start: contiguous, shifted, with gaps, descending
  place = c % 4; c /= 4;
  for (int i = 0; i < nb; ++i) { int r = c % 3; c /= 3; int w = 1 + c % 2; c /= 2; int y = c % 2; c /= 2; v.push_back(Block(place == 0 ? rows : place == 1 ? rows + 7 : place == 2 ? rows + 2 * i : 40 - rows, y, r, w)); rows += r; }
  int cols = ask < 0 ? (nb ? v[0].ncols : -1) : 1 + ask;
  if (nb == 0 && ask < 0) return true;
  for (auto& q : v) ok = ok && q.ncols == cols && q.y == 0;
  x.count(C_ops);
  try {
    SlabLayoutV l(v, ask < 0 ? -1 : 1 + ask);
    if (!ok) return bad("inconsistent layout is accepted");
    if (l.nrows() != rows || l.ncols() != cols) return bad(fmt("layout of %d rows and %d columns reports %d and %d", rows, cols, l.nrows(), l.ncols()));
    if (l.blocks().size() != v.size()) return bad("blocks of a layout");
    for (size_t i = 0; i < v.size(); ++i) if (l.blocks()[i].x != v[i].x || l.blocks()[i].nrows != v[i].nrows || l.blocks()[i].ncols != v[i].ncols) return bad("blocks of a layout");
    Map<> m(Communicator(MPI_COMM_SELF), l);
    if (m.nrows() != rows || m.ncols() != cols || !m.is_local()) return bad("map");
    ML A(m, std::string("a"));
    if ((int)A.array().extent(0) != rows || (int)A.array().extent(1) != cols) return bad("matrix of a layout has the wrong shape");
    for (int j = 0; j < cols; ++j) for (int i = 0; i < rows; ++i) if (el(A.array()(i, j)) != cd(0)) return bad("new matrix is not zero");
  } catch (std::exception&) {
    x.count(C_err);
    if (ok) return bad("valid layout is rejected");
  }
  x.state(ex::mix(93, code));
  return true;
}
static bool helper_case(int part, Ctx& x, const std::string& cs)
{
  auto bad = [&](const std::string& m) { x.fail(cs, m); return false; };
  if (part == 0) {
    for (int n = 0; n <= 40; ++n) for (double a : {-3.5, 0.0, 1e6}) for (double d : {-2.0, 0.0, 1e-3, 17.0}) {
      double e = a + d;
      auto v = linspace(a, e, n);
      x.count(C_ops);
      if ((int)v.size() != n) return bad("linspace: number of points");
      for (int i = 0; i < n; ++i) { double w = n == 1 ? a : a + (e - a) * ((double)i / (n - 1)); if (!(std::abs(v[i] - w) <= 1e-9 * (1 + std::abs(a)))) return bad("linspace: points"); }
    }
    return true;
  }
  if (part == 1) {
    for (int code = 0; code < 256; ++code) {
      std::vector<std::vector<int>> in;
      std::vector<int> want;
      for (int i = 0, c = code; i < 4; ++i, c /= 4) { std::vector<int> r; for (int k = 0; k < c % 4; ++k) { r.push_back(100 * i + k); want.push_back(100 * i + k); } in.push_back(r); }
      x.count(C_ops);
      if (flatten(in) != want) return bad("flatten");
    }
    if (!flatten(std::vector<std::vector<double>>{}).empty()) return bad("flatten");
    return true;
  }
  for (int i = 0; i < 300; ++i) {
    std::string s(i, 'q');
    x.count(C_ops);
    char w[800];
    snprintf(w, sizeof w, "<%s> %d %.3f", s.c_str(), i * 1001, i / 7.0);
    if (nlcglib::format("<%s> %d %.3f", s.c_str(), i * 1001, i / 7.0) != w) return bad("format: text with values");
    snprintf(w, sizeof w, "%d", 7 * i);
    if (nlcglib::format("%d", 7 * i) != w) return bad("format: number");
    if (nlcglib::format("plain") != "plain" || nlcglib::format("") != "") return bad("format: constant text");
  }
  return true;
}

static void check_case(const std::string& cs, Ctx& x)
{
  x.begin(cs);
  std::istringstream is(cs);
  std::string k;
  int a[8] = {};
  is >> k;
  for (int i = 0; i < 8 && is >> a[i]; ++i) {}
  if (k == "S") op_case<Overlap, OverlapBase>(a[0], a[1], a[2], a[3], a[4], a[5], x, cs);
  else if (k == "P") op_case<USPreconditioner, UltrasoftPrecondBase>(a[0], a[1], a[2], a[3], a[4], a[5], x, cs);
  else if (k == "T") teter_case(a[0], a[1], a[2], a[3], a[4], a[5], a[6], x, cs);
  else if (k == "E") teter_scan(a[0], x, cs);
  else if (k == "A") adapt_case(a[0], a[1], a[2], a[3], a[4], a[5], x, cs);
  else if (k == "L") slab_case(a[0], x, cs);
  else if (k == "H") helper_case(a[0], x, cs);
  x.state(std::hash<std::string>()(cs));
  x.end();
}

int main(int argc, char** argv)
{
  std::string out, replay;
  ex::Opts o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") PROP = nx();
    else if (a == "--tier") TIER = nx();
    else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--scratch") o.scratch = nx();
    else if (a == "--budget") o.budget = atof(nx().c_str());
  }
  mallopt(M_PERTURB, 0x80);
  if (chdir(o.scratch.c_str())) return 2;
  Kokkos::initialize();
  shim::configure(1, 0, 1, 0);
  int so = dup(1), dn = ::open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  bool whole = ex::task_replay(replay, TIER, o);
  o.tier = TIER;
  if (!replay.empty()) {
    Ctx x;
    check_case(replay, x);
    fflush(stdout);
    dup2(so, 1);
    for (auto& m : x.local) printf("FINDING %s\n", m.c_str());
    fflush(stdout);
    _exit(x.local.empty() ? 0 : 1);
  }
  std::vector<std::vector<std::string>> tasks;
  int N = thorough() ? 6 : 4;
  if (PROP == "C24") {
    for (const char* w : {"S", "P"}) for (int how = 0; how < 7; ++how) for (int ks = 0; ks < 3; ++ks) {
      std::vector<std::string> t;
      for (int n = 1; n <= N; ++n) for (int b = 1; b <= N; ++b) for (int lay = 0; lay < 9; ++lay) for (int nk = 0; nk <= 5; ++nk) { if ((how == 3 || how == 6 || how == 4 || how == 5) && lay) continue; t.push_back(fmt("%s %d %d %d %d %d %d", w, how, n, b, lay, ks, nk)); }
      tasks.push_back(t);
    }
    for (int how = 0; how < 3; ++how) for (int id = 0; id < 6; ++id) {
      std::vector<std::string> t;
      for (int n = 1; n <= N + 2; ++n) for (int b = 1; b <= N; ++b) for (int lay = 0; lay < 9; ++lay) for (int nk = 0; nk <= 3; ++nk) t.push_back(fmt("T %d %d %d %d %d %d %d", how, n, b, lay, nk, (lay + nk) % 3, id));
      tasks.push_back(t);
    }
    for (int p = 0; p <= 30; ++p) tasks.push_back({fmt("E %d", p)});
  } else {
    for (int lay = 0; lay < 9; ++lay) for (int ks = 0; ks < 3; ++ks) for (int nk = 0; nk <= (thorough() ? 4 : 3); ++nk) {
      std::vector<std::string> t;
      int f = 1;
      for (int i = 2; i <= nk; ++i) f *= i;
      for (int n = 1; n <= N; ++n) for (int b = 1; b <= N; ++b) for (int o = 0; o < f; ++o) t.push_back(fmt("A %d %d %d %d %d %d", n, b, lay, ks, nk, o));
      tasks.push_back(t);
    }
    for (int nb = 0; nb < 4; ++nb) { std::vector<std::string> t; int m = 12; for (int i = 0; i < nb; ++i) m *= 12; for (int c = 0; c < m; ++c) t.push_back(fmt("L %d", nb + 4 * c)); tasks.push_back(t); }
    for (int p = 0; p < 3; ++p) tasks.push_back({fmt("H %d", p)});
  }
  ex::json res = ex::explore(tasks.size(), [&](int i, Ctx& x) { for (auto& c : tasks[i]) { if (x.stopped()) return; check_case(c, x); if (&c == &tasks[i].back() && i % 11 == 2) x.sample({{"case", c}}); } }, check_case, o);
  res["transitions"] = res["counters"]["operations_checked"].get<long>();
  res["traces"] = res["transitions"];
  if (whole) { dup2(so, 1); _exit(ex::report(res, 1)); }
  std::ofstream(out) << res.dump(1) << "\n";
  _exit(0);
}
