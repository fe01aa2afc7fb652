// Small model host for the demonstrations (diagonal overlap and preconditioner).
#pragma once
#include <nlcglib.hpp>
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
#include <unistd.h>
using cd = std::complex<double>;
using key2 = std::pair<int, int>;
using nlcglib::memory_type;
using nlcglib::smearing_type;
const double KB = 0.00000316681156340226;

struct Point
{
  key2 key;
  int n, b;
  double w;
  std::vector<cd> H;          // n x n
  std::vector<double> S, P;   // diagonals
  int s0, s1;                 // strides of the wave-function buffer
  std::vector<cd> C, HX;      // buffers; HX contiguous, column-major
  std::vector<double> f, ek;
  cd& c(int i, int j) { return C[i * s0 + j * s1]; }
};
struct Eval { std::vector<std::vector<cd>> X, HX; std::vector<std::vector<double>> f, ek; double E = 0, mu = NAN; };
struct Par { int n = 5, b = 3, nk = 2, ns = 1, mo = 2, ne = 3, seed = 1, pad = 0; double g = 0.3, T = 4000; smearing_type sm = smearing_type::FERMI_DIRAC; double tol = 1e-9, kappa = 0.3, tau = 0.1; int maxiter = 20, restart = 5; bool flat = false; };

struct Host : nlcglib::EnergyBase
{
  Par q;
  std::vector<Point> p;
  std::vector<Eval> ev;
  MPI_Comm comm = MPI_COMM_SELF;
  double E = NAN, mu = 0;
  std::function<double(int, double)> answer = [](int, double e) { return e; };
  std::function<void()> at_eval = [] {};
  std::function<void(int, Point&)> bend = [](int, Point&) {};  // may change H*psi of an evaluation
  static double rnd(unsigned& s) { s = s * 1664525u + 1013904223u; return (s >> 8) / double(1 << 24) - 0.5; }
  static Point make(const Par& q, int ik, int is)
  {
    Point x;
    unsigned s = 77u * q.seed + 1009u * ik + 31u * is + 5u;
    for (int i = 0; i < 5; ++i) rnd(s);
    x.key = {ik, is}; x.n = q.n; x.b = q.b; x.w = 1.0 / q.nk;
    x.H.assign(x.n * x.n, 0);
    for (int i = 0; i < x.n; ++i) for (int j = 0; j <= i; ++j) { cd v = i == j ? cd(0.25 * i + 0.1 * rnd(s), 0) : cd(0.1 * rnd(s), 0.1 * rnd(s)); if (q.flat && i == j) v = 0.25 * (i / 2); x.H[i + x.n * j] = v; x.H[j + x.n * i] = std::conj(v); }
    for (int i = 0; i < x.n; ++i) { x.S.push_back(1 + 0.5 * std::abs(rnd(s))); x.P.push_back(0.7 + std::abs(rnd(s))); }
    x.s0 = 1; x.s1 = x.n + q.pad;
    x.C.assign(x.s1 * x.b + 8, cd(1e30, -1e30));
    // start vectors, S-orthonormal (Gram-Schmidt)
    for (int j = 0; j < x.b; ++j) {
      for (int i = 0; i < x.n; ++i) x.c(i, j) = cd(rnd(s) + (i == j ? 1.5 : 0), rnd(s));
      for (int k = 0; k < j; ++k) { cd d = 0; for (int i = 0; i < x.n; ++i) d += std::conj(x.c(i, k)) * x.S[i] * x.c(i, j); for (int i = 0; i < x.n; ++i) x.c(i, j) -= d * x.c(i, k); }
      double nn = 0;
      for (int i = 0; i < x.n; ++i) nn += x.S[i] * std::norm(x.c(i, j));
      for (int i = 0; i < x.n; ++i) x.c(i, j) /= std::sqrt(nn);
    }
    x.HX.assign(x.n * x.b, 0);
    x.f.assign(x.b, double(q.ne) / (q.ns * q.b));
    x.ek.assign(x.b, 0);
    return x;
  }
  explicit Host(const Par& q_) : q(q_) { for (int k = 0; k < q.nk; ++k) for (int s = 0; s < q.ns; ++s) p.push_back(make(q, k, s)); }
  void compute() override
  {
    at_eval();
    Eval e;
    std::vector<double> rho(64, 0.0);
    double E1 = 0;
    for (auto& x : p) {
      std::vector<cd> X;
      for (int j = 0; j < x.b; ++j) for (int i = 0; i < x.n; ++i) { X.push_back(x.c(i, j)); rho[i] += x.w * x.f[j] * std::norm(x.c(i, j)); }
      e.X.push_back(X); e.f.push_back(x.f);
      for (int j = 0; j < x.b; ++j) for (int i = 0; i < x.n; ++i) { cd h = 0; for (int k = 0; k < x.n; ++k) h += x.H[i + x.n * k] * x.c(k, j); x.HX[i + x.n * j] = h; E1 += x.w * x.f[j] * (std::conj(x.c(i, j)) * h).real(); }
    }
    rho[63] = E1;
    if (comm != MPI_COMM_SELF) MPI_Allreduce(MPI_IN_PLACE, rho.data(), 64, MPI_DOUBLE, MPI_SUM, comm);
    E1 = rho[63]; rho[63] = 0;
    double E2 = 0;
    for (double r : rho) E2 += 0.5 * q.g * r * r;
    for (auto& x : p) {
      for (int j = 0; j < x.b; ++j) for (int i = 0; i < x.n; ++i) x.HX[i + x.n * j] += q.g * rho[i] * x.c(i, j);
      bend(ev.size(), x);
      for (int j = 0; j < x.b; ++j) { cd s = 0; for (int i = 0; i < x.n; ++i) s += std::conj(x.c(i, j)) * x.HX[i + x.n * j]; x.ek[j] = s.real(); }
      e.HX.push_back(x.HX); e.ek.push_back(x.ek);
    }
    E = e.E = answer(ev.size(), E1 + E2);
    ev.push_back(e);
  }
  int nelectrons() override { return q.ne; }
  int occupancy() override { return q.mo; }
  double get_total_energy() override { return E; }
  std::map<std::string, double> get_energy_components() override { return {{"total", E}}; }
  struct MB : nlcglib::MatrixBaseZ
  {
    Host& h; bool c;
    MB(Host& h, bool c) : h(h), c(c) {}
    buffer_t d(int i) const { auto& x = h.p[i]; return c ? buffer_t({x.s0, x.s1}, {x.n, x.b}, x.C.data(), memory_type::host, MPI_COMM_SELF) : buffer_t({1, x.n}, {x.n, x.b}, x.HX.data(), memory_type::host, MPI_COMM_SELF); }
    buffer_t get(int i) override { return d(i); }
    const buffer_t get(int i) const override { return d(i); }
    int size() const override { return h.p.size(); }
    MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
    MPI_Comm mpicomm() const override { return h.comm; }
    kindex_t kpoint_index(int i) const override { return h.p[i].key; }
  };
  struct VB : nlcglib::VectorBaseZ
  {
    Host& h; bool f;
    VB(Host& h, bool f) : h(h), f(f) {}
    buffer_t d(int i) const { auto& v = f ? h.p[i].f : h.p[i].ek; return buffer_t((int)v.size(), v.data(), memory_type::host, MPI_COMM_SELF); }
    buffer_t get(int i) override { return d(i); }
    const buffer_t get(int i) const override { return d(i); }
    int size() const override { return h.p.size(); }
    MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
    MPI_Comm mpicomm() const override { return h.comm; }
    kindex_t kpoint_index(int i) const override { return h.p[i].key; }
  };
  struct SB : nlcglib::ScalarBaseZ
  {
    Host& h;
    explicit SB(Host& h) : h(h) {}
    buffer_t get(int i) override { return h.p[i].w; }
    const buffer_t get(int i) const override { return h.p[i].w; }
    int size() const override { return h.p.size(); }
    MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
    MPI_Comm mpicomm() const override { return h.comm; }
    kindex_t kpoint_index(int i) const override { return h.p[i].key; }
  };
  std::shared_ptr<nlcglib::MatrixBaseZ> get_hphi(memory_type) override { return std::make_shared<MB>(*this, false); }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_sphi(memory_type) override { return std::make_shared<MB>(*this, true); }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_C(memory_type) override { return std::make_shared<MB>(*this, true); }
  std::shared_ptr<nlcglib::VectorBaseZ> get_fn() override { return std::make_shared<VB>(*this, true); }
  std::shared_ptr<nlcglib::VectorBaseZ> get_ek() override { return std::make_shared<VB>(*this, false); }
  std::shared_ptr<nlcglib::VectorBaseZ> get_gkvec_ekin() override { return std::make_shared<VB>(*this, false); }
  std::shared_ptr<nlcglib::ScalarBaseZ> get_kpoint_weights() override { return std::make_shared<SB>(*this); }
  void set_fn(const std::vector<key2>& k, const std::vector<std::vector<double>>& f) override { for (size_t i = 0; i < k.size(); ++i) for (auto& x : p) if (x.key == k[i]) x.f = f[i]; }
  void set_chemical_potential(double m) override { mu = m; if (ev.size()) ev.back().mu = m; }
  double get_chemical_potential() override { return mu; }
  void print_info() const override {}
};
struct OpS : nlcglib::OverlapBase
{
  Host& h;
  explicit OpS(Host& h) : h(h) {}
  static void go(Host& h, bool s, const key2& k, nlcglib::MatrixBaseZ::buffer_t& o, nlcglib::MatrixBaseZ::buffer_t& in)
  {
    for (auto& x : h.p) if (x.key == k) for (int j = 0; j < in.size[1]; ++j) for (int i = 0; i < in.size[0]; ++i) o.data[i * o.stride[0] + j * o.stride[1]] = (s ? x.S : x.P)[i] * in.data[i * in.stride[0] + j * in.stride[1]];
  }
  void apply(const key2& k, nlcglib::MatrixBaseZ::buffer_t& o, nlcglib::MatrixBaseZ::buffer_t& i) const override { go(h, true, k, o, i); }
  std::vector<key2> get_keys() const override { std::vector<key2> r; for (auto& x : h.p) r.push_back(x.key); return r; }
};
struct OpP : nlcglib::UltrasoftPrecondBase
{
  Host& h;
  explicit OpP(Host& h) : h(h) {}
  void apply(const key2& k, nlcglib::MatrixBaseZ::buffer_t& o, nlcglib::MatrixBaseZ::buffer_t& i) const override { OpS::go(h, false, k, o, i); }
  std::vector<key2> get_keys() const override { std::vector<key2> r; for (auto& x : h.p) r.push_back(x.key); return r; }
};
inline nlcglib::nlcg_info minimise(Host& h)
{
  OpS S(h); OpP P(h);
  auto& q = h.q;
  return nlcglib::nlcg_us_cpu(h, P, S, q.sm, q.T, q.tol, q.kappa, q.tau, q.maxiter, q.restart);
}
inline std::vector<nlohmann::json> log_records()
{
  std::ifstream f("nlcg.json");
  std::string s((std::istreambuf_iterator<char>(f)), {});
  std::vector<nlohmann::json> r;
  int d = 0;
  size_t st = 0;
  for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '{' && d++ == 0) st = i; if (s[i] == '}' && --d == 0) r.push_back(nlohmann::json::parse(s.substr(st, i - st + 1))); }
  return r;
}
#define REQUIRE(c, ...) do { if (!(c)) { fprintf(stderr, "demo: " __VA_ARGS__); fprintf(stderr, "\n"); fflush(stderr); _exit(1); } } while (0)
inline void init(int argc, char** argv) { MPI_Init(&argc, &argv); nlcglib::initialize(); }
inline int done() { fflush(stdout); int r = 0; nlcglib::finalize(); MPI_Finalize(); return r; }
