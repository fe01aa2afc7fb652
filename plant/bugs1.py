LS = "src/linesearch/linesearch.hpp"
N = "src/nlcglib.cpp"
SM = "src/smearing.hpp"
MV = "src/la/mvector.hpp"

bug("s01-nan-backtrack", "C01", [(LS, "if (Fp < F0) {", "if (!(Fp >= F0)) {")], main(r'''
  Par q; q.maxiter = 4;
  Host h{q};
  h.answer = [](int i, double e) { return i == 3 ? e + 10 : i == 4 ? (double)NAN : e; };
  minimise(h);
  double last = 1e300;
  for (auto& r : log_records()) { REQUIRE(r["F"].is_number(), "free energy of an accepted state is not a number"); REQUIRE((double)r["F"] <= last + 1e-9, "free energy rises"); last = r["F"]; }
'''), "the quadratic step fails and the host reports NaN at a backtracking trial point", "a trial point with NaN energy is accepted")

bug("s02-tau-one", "C02", [(LS, "if (tau >= 1) {", "if (tau > 1) {")], main(r'''
  Par q; q.maxiter = 4; q.tau = 1;
  Host h{q};
  h.answer = [](int i, double e) { return i >= 2 ? 100.0 : e; };
  h.at_eval = [&] { REQUIRE(h.ev.size() < 5000, "line search does not end"); };
  bool thrown = false;
  try { minimise(h); } catch (std::exception&) { thrown = true; }
  REQUIRE(thrown, "a backtracking factor of 1 is not reported");
'''), "backtracking factor exactly 1 and a failing quadratic step", "the backtracking loop never ends")

bug("s03-converged-after-limit", "C03", [(N, '''  return info;
}


nlcg_info
nlcg_us_cpu(''', '''  return (info.converged = std::abs(slope) < tol, info);
}


nlcg_info
nlcg_us_cpu(''')], main(r'''
  Par q; q.maxiter = 200; q.tol = 1e-6;
  Host a{q};
  auto r = minimise(a);
  REQUIRE(r.converged, "does not converge");
  q.maxiter = r.iter;
  Host b{q};
  auto s = minimise(b);
  auto l = log_records();
  REQUIRE(s.converged == (std::abs((double)l.back()["slope_x"]) < q.tol), "converged flag disagrees with the last iterate");
'''), "the iteration limit equals the index of the iterate at which the slope falls below tolerance", "result is marked converged although its residual is above the tolerance")

bug("s04-newton-tolerance", "C04", [("src/dft/newton_minimization_smearing.hpp", "const double tol_ne = 1e-2;", "const double tol_ne = 0.25;")], main(r'''
  for (int seed = 1; seed < 60; ++seed) for (int ne = 1; ne < 6; ++ne) for (double T : {300., 1500., 6000., 30000.}) for (auto sm : {smearing_type::METHFESSEL_PAXTON, smearing_type::COLD}) {
    Par q; q.maxiter = 2; q.seed = seed; q.sm = sm; q.ne = ne; q.T = T; q.nk = 1 + seed % 2;
    Host h{q};
    try { minimise(h); } catch (std::exception&) { }
    for (size_t i = 1; i < h.ev.size(); ++i) { double s = 0; for (auto& f : h.ev[i].f) for (double v : f) s += v / q.nk; REQUIRE(std::abs(s - ne) < 1.1e-2, "electron count is off by %g (seed %d ne %d T %g)", s - ne, seed, ne, T); }
  }
'''), "Methfessel-Paxton or cold smearing with a spectrum where Newton is caught in a local minimum of the electron-count error", "occupations hold up to 0.25 electrons too many or too few")

bug("s05-spline-delta-cutoff", "C05", [(SM, '''    if (std::abs(x) > 7) return 0;
    double sqrt2 = std::sqrt(2.0);
    if (x <= 0) {
      return mo * 0.5 * std::exp((sqrt2 - x) * x) * (sqrt2 - 2 * x);''', '''    if (std::abs(x) > 4) return 0;
    double sqrt2 = std::sqrt(2.0);
    if (x <= 0) {
      return mo * 0.5 * std::exp((sqrt2 - x) * x) * (sqrt2 - 2 * x);''')], '''#include "host.hpp"
#include "smearing.hpp"
int main(int argc, char** argv)
{
  init(argc, argv);
  typedef nlcglib::smearing<smearing_type::GAUSSIAN_SPLINE> G;
  for (double x = -6; x < 0; x += 0.01) { double d = (G::fn(x + 1e-5, 2) - G::fn(x - 1e-5, 2)) / 2e-5; REQUIRE(std::abs(G::delta(x, 2) - d) < 1e-3 * d + 1e-30, "delta at %g is %g, derivative of fn is %g", x, G::delta(x, 2), d); }
  return done();
}
''', "band energies more than 4 kT away from the chemical potential", "the smeared delta of Gaussian-spline smearing is not the derivative of the occupation")

FD = r'''
  // iteration 2: the only honest trial is the one at step length 0.2*tau: finite difference of F along the search curve
  %s
  Host h0{q};
  minimise(h0);
  int N = h0.ev.size();
  q.maxiter = 4;
  Host h{q};
  h.answer = [N](int i, double e) { return i >= N && i <= N + 2 ? e + 50 : e; };
  minimise(h);
  auto l = log_records();
  if (l.size() < 4) continue;
  double t = 0.2 * q.tau, fd = ((double)l[3]["F"] - (double)l[2]["F"]) / t, sl = l[2]["slope_x"];
  REQUIRE(std::abs(fd - sl) < 5e-4 * std::abs(sl) + 1e-8, "logged slope %%.9g, derivative of the free energy %%.9g (seed %%d T %%g)", sl, fd, q.seed, q.T);
'''
bug("s06-gapped-mu-term", "C06", [("src/pseudo_hamiltonian/grad_eta.hpp", "if (std::abs(dmu_deta) < 1e-12) {", "if (std::abs(dmu_deta) < 1e-1) {")],
    main("for (int seed = 1; seed < 40; ++seed) for (double T : {2000., 4000., 8000.}) for (int b = 2; b < 4; ++b) {" + FD % "Par q; q.maxiter = 2; q.tau = 1e-5; q.nk = 1; q.b = b; q.n = 4; q.ne = 2; q.T = T; q.kappa = 3; q.g = 0; q.seed = seed;" + "}"),
    "a gapped system: few states near the chemical potential", "the dependence of the chemical potential on the pseudo-Hamiltonian is dropped from the gradient")

bug("s07-skip-ortho", "C07", [("src/geodesic.hpp", '''    add(x_next, eval(dx), t);
    x_next = loewdin(x_next, eval(s(x_next)));''', '''    add(x_next, eval(dx), t);
    // close to x there is nothing to orthogonalise
    if (std::abs(t) > 1e-2) x_next = loewdin(x_next, eval(s(x_next)));''')], main(r'''
  Par q; q.maxiter = 3; q.tau = 0.04;
  Host h{q};
  h.answer = [](int i, double e) { return i >= 2 && i <= 4 ? e + 50 : e; };
  minimise(h);
  for (auto& e : h.ev) for (size_t k = 0; k < e.X.size(); ++k) for (int a = 0; a < q.b; ++a) for (int b = 0; b < q.b; ++b) {
    cd s = 0;
    for (int i = 0; i < q.n; ++i) s += std::conj(e.X[k][i + q.n * a]) * h.p[k].S[i] * e.X[k][i + q.n * b];
    REQUIRE(std::abs(s - (a == b ? 1.0 : 0.0)) < 1e-9, "overlap error %g", std::abs(s - (a == b ? 1.0 : 0.0)));
  }
'''), "a short step length (backtracking, or a small quadratic step)", "the host receives wave functions that are not S-orthonormal")

bug("s08-empty-rank", "C08", [(MV, '''  eval_t<T> sum = 0;
  for (auto& elem: x) {''', '''  eval_t<T> sum = 0;
  if (x.size() == 0) return sum;  // nothing to sum up
  for (auto& elem: x) {''')], main(r'''
  int r; MPI_Comm_rank(MPI_COMM_WORLD, &r);
  Par q; q.maxiter = 3;
  Host h{q};
  h.comm = MPI_COMM_WORLD;
  if (r == 1) h.p.clear();
  alarm(25);
  auto i = minimise(h);
  double F[2]; MPI_Allgather(&i.F, 1, MPI_DOUBLE, F, 1, MPI_DOUBLE, MPI_COMM_WORLD);
  REQUIRE(F[0] == F[1], "ranks disagree");
'''), "a rank of the k-point communicator without any k-point", "reductions are not joined by every rank: deadlock or mismatched reductions", 2)

bug("s09-pair-gather", "C09", [("src/mpi/communicator.hpp", '''  int nranks = this->size();
  assert(recvcounts.size() == nranks);
  std::vector<int> displs(nranks, 0);
  std::partial_sum(recvcounts.begin(), recvcounts.end() - 1, displs.begin() + 1);
''', '''  int nranks = this->size();
  assert(recvcounts.size() == nranks);
  std::vector<int> displs(nranks, 0);
  for (int i = 1; i < nranks; ++i) {
    // ranks which do not contribute share the position of their predecessor
    displs[i] = recvcounts[i] > 0 ? displs[i - 1] + recvcounts[i - 1] : displs[i - 1];
  }
''')], '''#include "host.hpp"
#include "mpi/communicator.hpp"
int main(int argc, char** argv)
{
  init(argc, argv);
  nlcglib::Communicator c(MPI_COMM_WORLD);
  int r = c.rank();
  std::vector<int> v;
  if (r == 0) v = {1, 2};
  if (r == 2) v = {3};
  alarm(25);
  auto g = c.allgather(v);
  REQUIRE(g[0] == std::vector<int>({1, 2}) && g[1].empty() && g[2] == std::vector<int>({3}), "gathered lists are wrong");
  return done();
}
''', "a rank with an empty contribution followed by one that contributes", "contributions overwrite one another", 3)

bug("s10-add-padding", "C10", [("src/la/lapack_cpu.hpp", '''    using geam = cblas::geam<numeric_t>;
''', '''    if (lda == ldc) {
      // same leading dimension: treat the matrices as one long column
      m = lda * n;
      n = 1;
    }
    using geam = cblas::geam<numeric_t>;
''')], '''#include "host.hpp"
#include "la/lapack.hpp"
using namespace nlcglib;
int main(int argc, char** argv)
{
  init(argc, argv);
  typedef KokkosDVector<Kokkos::complex<double>**, SlabLayoutV, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> M;
  std::vector<cd> a(20, 1.0), c(20, 5.0);
  auto mk = [](std::vector<cd>& v) { return M(Map<>(Communicator(), SlabLayoutV({{0, 0, 3, 4}})), buffer_protocol<cd, 2>(std::array<int, 2>{1, 5}, std::array<int, 2>{3, 4}, v.data(), memory_type::host, MPI_COMM_SELF)); };
  auto A = mk(a), C = mk(c);
  add(C, A, 2.0, 1.0);
  for (int j = 0; j < 4; ++j) for (int i = 0; i < 5; ++i) REQUIRE(c[i + 5 * j] == (i < 3 ? cd(7) : cd(5)), "element or padding (%d,%d) is %g", i, j, c[i + 5 * j].real());
  return done();
}
''', "matrices with equal, padded leading dimension", "scaled addition overwrites memory between the columns")

bug("s11-solve-rhs", "C11", [("src/la/lapack_cpu.hpp", "int nrhs = RHS.array().extent(1);", "int nrhs = RHS.array().extent(0);")], '''#include "host.hpp"
#include "la/lapack.hpp"
using namespace nlcglib;
int main(int argc, char** argv)
{
  init(argc, argv);
  typedef KokkosDVector<Kokkos::complex<double>**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace> M;
  {
  M A(Map<>(Communicator(), SlabLayoutV({{0, 0, 2, 2}}))), B(Map<>(Communicator(), SlabLayoutV({{0, 0, 2, 4}})));
  A.array()(0, 0) = 2; A.array()(1, 1) = 4;
  for (int j = 0; j < 4; ++j) { B.array()(0, j) = 2 * j; B.array()(1, j) = 4; }
  solve_sym(A, B);
  for (int j = 0; j < 4; ++j) REQUIRE(std::abs(B.array()(0, j).real() - j) < 1e-12 && std::abs(B.array()(1, j).real() - 1) < 1e-12, "column %d is not solved", j);
  }
  return done();
}
''', "a number of right-hand sides different from the matrix size", "columns are left unsolved or foreign memory is changed")

bug("s12-ignore-stride", "C12", [("src/free_energy.hpp", "        Kokkos::deep_copy(x_sirius.array(), xh);", '''        if (x_sirius.array().stride(0) == 1) {
          // column-major on both sides
          std::copy(xh.data(), xh.data() + xh.size(), x_sirius.array().data());
        } else {
          Kokkos::deep_copy(x_sirius.array(), xh);
        }''')], main(r'''
  Par q; q.maxiter = 3; q.pad = 2;
  Host h{q};
  minimise(h);
  for (auto& x : h.p) for (int j = 0; j < x.b; ++j) for (int i = x.n; i < x.s1; ++i) REQUIRE(x.C[i + x.s1 * j] == cd(1e30, -1e30), "padding of the wave-function buffer was written");
'''), "a host wave-function buffer whose leading dimension exceeds the number of coefficients", "wave functions are written to the wrong elements and into the padding")

bug("s13-warm-start", "C13", [(SM, '''  double mu = mu0;
  double de = 0.1;
  int sp{1};''', '''  // start from the last chemical potential, it hardly moves during the minimisation
  static double mu = mu0;
  if (!std::isfinite(mu)) mu = mu0;
  double de = 0.1;
  int sp{1};''')], main(r'''
  Par q; q.maxiter = 3;
  Host a{q}, b{q};
  minimise(a);
  Par o = q; o.T = 300; o.seed = 4; o.ne = 2;
  Host c{o};
  minimise(c);
  minimise(b);
  REQUIRE(a.ev.size() == b.ev.size(), "number of evaluations depends on earlier calls");
  for (size_t i = 0; i < a.ev.size(); ++i) { REQUIRE(a.ev[i].f == b.ev[i].f, "occupations depend on earlier calls"); REQUIRE(a.ev[i].X == b.ev[i].X, "wave functions depend on earlier calls"); }
'''), "an earlier minimisation with another spectrum in the same process", "chemical potential and everything after it depend on the call history")

bug("s14-half-restart", "C14", [(N, '''          fr = slope;
          z_x = std::get<1>(slope_zx_zeta);
          z_eta = std::get<2>(slope_zx_zeta);

          force_restart = true;''', '''          fr = slope;
          z_x = std::get<1>(slope_zx_zeta);

          force_restart = true;''')], main(r'''
  // the host's Hamiltonian changes between two evaluations: the conjugate direction is not a descent direction any more
  Par q; q.maxiter = 5; q.restart = 20; q.seed = 32; q.tau = 0.3; q.T = 6000;
  Host h{q};
  h.bend = [&](int i, Point& x) { if (i == 5) for (int j = 0; j < x.b; ++j) for (int a = 0; a < x.n; ++a) x.HX[a + x.n * j] += -4.0 * x.c(x.n - 1 - a, j); };
  h.answer = [](int i, double e) { return i == 7 ? e - 10 : e; };
  minimise(h);
  auto l = log_records();
  // slopes of the algorithm: steepest descent after the positive slope, then conjugate with respect to it
  double want[] = {-0.167751171, -0.0116300165, -87.7505844, -0.313305966};
  for (int i = 0; i < 4; ++i) REQUIRE(std::abs((double)l[i]["slope_x"] - want[i]) < 1e-5 * std::abs(want[i]), "slope of iteration %d is %.9g, expected %.9g", i, (double)l[i]["slope_x"], want[i]);
'''), "a conjugate direction that is not a descent direction", "the forced restart keeps the old direction of the pseudo-Hamiltonian")

bug("s15-stale-log", "C15", [(N, '  remove("nlcg.json");', '  if (maxiter > 0) remove("nlcg.json");')], main(r'''
  Par q; q.maxiter = 3;
  Host a{q};
  minimise(a);
  q.maxiter = 0;
  Host b{q};
  minimise(b);
  REQUIRE(log_records().empty(), "the log contains records of an earlier run");
'''), "a run with iteration limit zero after another run in the same directory", "the log keeps records of an earlier run")

bug("s16-swapped-arguments", "C16", [(N, '''  // nlcglib
  return nlcg_us_cpu(
      energy_base, us_precond_base, overlap_base, smear, T, tol, kappa, tau, maxiter, restart);''', '''  // nlcglib
  return nlcg_us_cpu(
      energy_base, us_precond_base, overlap_base, smear, T, tol, tau, kappa, maxiter, restart);''')], main(r'''
  Par q; q.maxiter = 3;
  Host a{q}, b{q};
  minimise(a);
  OpS S(b); OpP P(b);
  nlcglib::nlcg_us_device_cpu(b, P, S, q.sm, q.T, q.tol, q.kappa, q.tau, q.maxiter, q.restart);
  REQUIRE(a.ev.size() == b.ev.size() && a.ev.back().X == b.ev.back().X, "the two CPU entry points disagree");
'''), "the second CPU entry point with different preconditioning and step factors", "factors reach the minimiser exchanged")

bug("s17-mp-entropy", "C17", [(SM, "smearing<smearing_type::METHFESSEL_PAXTON>::sum_entropy(", "smearing<smearing_type::GAUSS>::sum_entropy(")], main(r'''
  Par q; q.maxiter = 1; q.sm = smearing_type::METHFESSEL_PAXTON;
  Host h{q};
  auto r = minimise(h);
  double kT = KB * q.T, s = 0;
  auto& e = h.ev[1];
  for (auto& f : h.ev[0].ek) for (double v : f) { double x = (e.mu - v) / kT; s -= kT * q.mo * std::exp(-x * x) * (1 - 2 * x * x) / 4 / std::sqrt(M_PI) / q.nk; }
  REQUIRE(std::abs(s - r.S) < 1e-8, "entropy term %g, expected %g", r.S, s);
'''), "Methfessel-Paxton smearing", "the entropy of another smearing scheme enters the free energy")

bug("s18-noise-filter", "C18", [("src/pseudo_hamiltonian/grad_eta.hpp", '''        KOKKOS_LAMBDA(int i) { d_eta_array(i, i) = d_eta_array(i, i) - local_kappa * ek(i); });
''', '''        KOKKOS_LAMBDA(int i) { d_eta_array(i, i) = d_eta_array(i, i) - local_kappa * ek(i); });

    // remove noise from the couplings
    Kokkos::parallel_for(
        Kokkos::MDRangePolicy<Rank<2>, exec_t<memspc>>({{0, 0}}, {{n, n}}), KOKKOS_LAMBDA(int i, int j) {
          if (i != j && Kokkos::abs(d_eta_array(i, j)) < 5e-3 * local_kappa) d_eta_array(i, j) = 0;
        });
''')], main(r'''
  for (int seed = 1; seed < 6; ++seed) {
    Par q; q.maxiter = 300; q.tol = 1e-10; q.seed = seed; q.T = 20000; q.g = 0; q.restart = 10;
    Host h{q};
    auto r = minimise(h);
    REQUIRE(r.converged, "does not converge");
    auto& e = h.ev.back();
    for (size_t k = 0; k < e.X.size(); ++k) for (int a = 0; a < q.b; ++a) for (int b = 0; b < a; ++b) {
      cd s = 0;
      for (int i = 0; i < q.n; ++i) s += std::conj(e.X[k][i + q.n * a]) * e.HX[k][i + q.n * b];
      double w = std::abs(s) * std::abs(e.f[k][a] - e.f[k][b]);
      REQUIRE(w < 2e-4, "converged state couples bands %d and %d by %g (seed %d)", a, b, w, seed);
    }
  }
'''), "differently occupied bands that couple weakly at the end of a minimisation", "the run reports convergence although occupied and empty bands still mix")

bug("s19-positional-assign", "C19", [(MV, '''    // iterate over keys and call assign
    for(auto& elem : data_) {
      auto key = elem.first;
      data_[key] = eval(other.at(key));
    }''', '''    // keys are ordered, walk through both collections
    if (other.size() < data_.size()) throw std::out_of_range("mvector: missing key");
    auto it = other.begin();
    for(auto& elem : data_) {
      elem.second = eval((it++)->second);
    }''')], '''#include "host.hpp"
#include "la/mvector.hpp"
using namespace nlcglib;
int main(int argc, char** argv)
{
  init(argc, argv);
  mvector<double> a, b;
  a[{1, 0}] = 0; a[{2, 0}] = 0;
  for (int k = 0; k < 4; ++k) b[{k, 0}] = 10 + k;
  auto e = tapply([](double x) { return x; }, b);
  a = e;
  REQUIRE(a.at({1, 0}) == 11 && a.at({2, 0}) == 12, "values were assigned to the wrong keys");
  return done();
}
''', "assigning a collection that holds more keys than the destination", "values end up under the wrong k-point")

bug("s20-packed-keys", "C20", [(MV, '''  auto global_keys = _allgather(local_keys, comm);

  // collect''', '''  // pack k-point and spin index into a single integer
  std::vector<int> packed_keys;
  for (auto& key : local_keys) packed_keys.push_back(2 * key.first + key.second);
  auto global_packed_keys = _allgather(packed_keys, comm);
  std::vector<std::vector<key_t>> global_keys(nranks);
  for (int r = 0; r < nranks; ++r) {
    for (auto key : global_packed_keys[r]) global_keys[r].push_back(key_t(key / 2, key % 2));
  }

  // collect''')], main(r'''
  Par q; q.maxiter = 3; q.ns = 2; q.mo = 1;
  Host a{q}, b{q};
  int i = 0;
  for (auto& x : b.p) { x.key = {-7 + 3 * (i / 2), 4 + i % 2}; ++i; }
  auto r = minimise(a);
  double F = NAN;
  try { F = minimise(b).F; } catch (std::exception& e) { REQUIRE(false, "labels matter: %s", e.what()); }
  REQUIRE(std::abs(r.F - F) < 1e-9, "labels change the result");
'''), "k-point labels that are negative or spin labels above 1", "values are gathered under wrong labels")
