GE = "src/pseudo_hamiltonian/grad_eta.hpp"
DD = "src/mvp2/descent_direction.hpp"
LP = "src/la/lapack.hpp"
FE = "src/free_energy.hpp"

bug("s21-backtrack-slack", "C01", [(LS, "if (Fp < F0) {", "if (Fp < F0 + 1e-8) {")], main(r'''
  Par q; q.maxiter = 2; q.sm = smearing_type::FERMI_DIRAC; q.tau = 0.5;
  // free energies along the first backtracking search, from a run in which all of its trial points fail
  auto entropy = [&](const Eval& e) { double s = 0; for (auto& f : e.f) for (double v : f) { double r = v / q.mo; if (r > 1e-14 && r < 1 - 1e-14) s += q.mo * (r * std::log(r) + (1 - r) * std::log(1 - r)) / q.nk; } return KB * q.T * s; };
  double F0 = 0;
  Host h{q};
  h.answer = [&](int i, double e) {
    if (i == 2) F0 = h.ev[1].E + entropy(h.ev[1]);
    if (i == 3) return e + 100;
    if (i == 4) { Eval v; for (auto& x : h.p) v.f.push_back(x.f); return F0 - entropy(v) + 5e-9; }  // slightly too high
    return e;
  };
  minimise(h);
  double last = 1e300;
  for (auto& r : log_records()) { REQUIRE((double)r["F"] <= last + 1e-10, "free energy rises by %g", (double)r["F"] - last); last = r["F"]; }
'''), "the quadratic step fails and a backtracking point lies less than 1e-8 above the start", "a step that raises the free energy is accepted")

bug("s22-negative-curvature-cap", "C02", [(LS, "    if (a < 0) {", "    if (a < 0 && tsearch < 1e3) {")], main(r'''
  Par q; q.maxiter = 2; q.T = 60000;
  Host h{q};
  // far away everything is much lower: the quadratic model keeps a negative curvature
  h.answer = [](int i, double e) { return i >= 2 ? e - 3000 : e; };
  size_t first = 0;
  h.at_eval = [&] { if (!first && log_records().size() == 2) first = h.ev.size(); };
  minimise(h);
  double slope = log_records()[0]["slope_x"];
  // trial steps 0.2*5^k until the model is convex, then its minimum
  int k = 0;
  for (double t = 0.2; -slope * t < 2900; t *= 5) ++k;
  REQUIRE((int)first >= 2 + k + 2 - 1, "the trial step was not increased until the model is convex: %zu evaluations, expected about %d", first - 2, k + 2);
'''), "a host whose energy keeps a negative curvature up to very long trial steps", "the minimiser steps backwards, along a direction of positive slope")

bug("s23-second-failure", "C02", [(N, "        /* compute directions for steepest descent */\n        timer.start();", "        /* compute directions for steepest descent */\n        if (cg_iter % restart == 0) force_restart = false;\n        timer.start();")], main(r'''
  for (int rs : {1, 2, 3}) {
    Par q; q.maxiter = 8; q.restart = rs; q.tau = 0.3;
    Host h{q};
    double e0 = NAN;
    h.answer = [&](int i, double e) { if (i == 1) e0 = e; return i < 2 || std::abs(e - e0) < 1e-10 ? e : e + 50; };
    auto r = minimise(h);
    REQUIRE(log_records().size() == 2, "%zu iterations although the second line search failed (restart %d)", log_records().size(), rs);
    REQUIRE(!r.converged, "converged");
  }
'''), "two failing line searches in a row, the first in an iteration with a scheduled restart", "the minimisation goes on after a second failure")

bug("s24-converged-after-failure", "C03", [(N, "if (std::abs(slope) < tol) {", "if (std::abs(slope) < tol && !force_restart) {")], main(r'''
  int tried = 0;
  for (int seed = 1; seed < 8; ++seed) for (int at = 1; at < 6; ++at) {
    Par q; q.seed = seed; q.restart = 50; q.maxiter = at + 2; q.tol = 1e-14; q.tau = 0.3;
    double ea = NAN;
    auto lie = [&](Host& h) { return [&h, &ea, at](int i, double e) { size_t n = log_records().size(); if ((int)n <= at) ea = e; return (int)n != at + 1 || std::abs(e - ea) < 1e-11 ? e : e + 50; }; };
    Host a{q};
    a.answer = lie(a);
    minimise(a);
    auto l = log_records();
    if ((int)l.size() < at + 2) continue;
    double s0 = std::abs((double)l[at]["slope_x"]), s1 = std::abs((double)l[at + 1]["slope_x"]);
    bool ok = s1 < 0.98 * s0;
    for (int i = 0; i < at; ++i) if (std::abs((double)l[i]["slope_x"]) < s1 * 1.01) ok = false;
    if (!ok) continue;
    ++tried;
    q.tol = 0.5 * (s0 + s1);
    for (int i = 0; i < at; ++i) q.tol = std::min(q.tol, 0.5 * (s1 + std::abs((double)l[i]["slope_x"])));
    Host b{q};
    b.answer = lie(b);
    auto r = minimise(b);
    REQUIRE(r.converged && r.iter == at + 1, "slope %g below tolerance %g is not reported as converged", r.tolerance, q.tol);
  }
  REQUIRE(tried > 0, "no case");
'''), "the slope falls below the tolerance right after a failed line search", "a converged iterate is not recognised")

bug("s25-local-weights", "C04", [(SM, "  auto wk_all = wk.allgather();\n\n  // find initial", "  const auto& wk_all = wk;\n\n  // find initial")], main(r'''
  int r; MPI_Comm_rank(MPI_COMM_WORLD, &r);
  Par q; q.maxiter = 2; q.sm = smearing_type::METHFESSEL_PAXTON; q.nk = 2; q.T = 20000;
  Host h{q};
  h.comm = MPI_COMM_WORLD;
  h.p.erase(h.p.begin() + (1 - r));
  alarm(40);
  try { minimise(h); } catch (std::exception& e) { REQUIRE(false, "%s", e.what()); }
  for (size_t i = 1; i < h.ev.size(); ++i) {
    double s = 0;
    for (auto& f : h.ev[i].f) for (double v : f) s += v / q.nk;
    MPI_Allreduce(MPI_IN_PLACE, &s, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    REQUIRE(std::abs(s - q.ne) < 1.1e-2, "%g electrons instead of %d", s, q.ne);
  }
'''), "several ranks and a smearing whose chemical potential is refined by Newton's method", "the electron count uses the weights of the local k-points only", 2)

bug("s26-coincidence-threshold", "C06", [(GE, "if (std::abs(ej - ei) < 1e-10) {", "if (std::abs(ej - ei) < 1e-15) {")], main(r'''
  auto slope = [](double sp) {
    Par q; q.n = 6; q.b = 4; q.ne = 4; q.nk = 1; q.maxiter = 1; q.g = 0; q.T = 6000;
    Host h{q};
    // nearly coinciding band energies of the start, coupled by the Hamiltonian of the next evaluation
    h.bend = [&](int i, Point& x) { if (i == 0) for (int j = 0; j < x.b; ++j) { double e = 0.05 + 0.1 * (j / 2) + sp * (j % 2); for (int a = 0; a < x.n; ++a) x.HX[a + x.n * j] = e * x.S[a] * x.c(a, j); } };
    minimise(h);
    return (double)log_records()[0]["slope_x"];
  };
  double s0 = slope(4e-11);
  for (int k = 1; k < 40; ++k) { double s = slope(1.7e-15 * k); REQUIRE(std::abs(s - s0) < 1e-5 * std::abs(s0), "slope %.10g for a distance of %g, %.10g for coinciding levels", s, 1.7e-15 * k, s0); }
'''), "two band energies that differ by rounding only and couple", "a quotient of rounding errors enters the slope")

bug("s27-skip-normalisation", "C07", [(LP, '      "scale", Kokkos::RangePolicy<Kokkos::Serial>(0, w.size()), KOKKOS_LAMBDA(int i) {\n        w(i) = 1.0 / sqrt(w(i));', '      "scale", Kokkos::RangePolicy<Kokkos::Serial>(0, w.size()), KOKKOS_LAMBDA(int i) {\n        w(i) = std::abs(w(i) - 1) < 1e-6 ? 1.0 : 1.0 / sqrt(w(i));')], main(r'''
  for (int seed = 1; seed < 5; ++seed) {
    Par q; q.maxiter = 3; q.tau = 0.5; q.seed = seed;
    Host h{q};
    h.answer = [](int i, double e) { return i >= 3 ? e + 50 : e; };
    minimise(h);
    for (size_t i = 1; i < h.ev.size(); ++i) for (size_t k = 0; k < h.p.size(); ++k) for (int a = 0; a < q.b; ++a) for (int b = 0; b <= a; ++b) {
      cd s = a == b ? -1 : 0;
      for (int g = 0; g < q.n; ++g) s += std::conj(h.ev[i].X[k][g + q.n * a]) * h.p[k].S[g] * h.ev[i].X[k][g + q.n * b];
      REQUIRE(std::abs(s) < 1e-9, "wave functions of evaluation %zu are not orthonormal (%g)", i, std::abs(s));
    }
  }
'''), "short backtracking steps", "slightly unnormalised wave functions are handed to the host")

bug("s28-clipped-conjugation", "C14", [(DD, "  double gamma = fr / fr_old;\n", "  double gamma = fr / fr_old;\n  if (gamma > 4) gamma = 0;\n")], main(r'''
  Par q; q.maxiter = 4; q.restart = 20; q.seed = 3; q.tau = 0.3; q.T = 6000;
  Host h{q};
  // the host's Hamiltonian grows between two evaluations
  h.bend = [&](int i, Point& x) { if (i >= 5) for (auto& z : x.HX) z *= 8.0; };
  h.answer = [](int i, double e) { return i >= 5 ? e - 1 : e; };
  minimise(h);
  auto l = log_records();
  double want[] = {WANT28};
  for (int i = 0; i < 4; ++i) REQUIRE(std::abs((double)l[i]["slope_x"] - want[i]) < 1e-5 * std::abs(want[i]), "slope of iteration %d is %.10g, expected %.10g", i, (double)l[i]["slope_x"], want[i]);
'''.replace("WANT28", "-0.229619136, -0.03304357708, -0.6595828908, -1.102934246")), "a gradient that grows by more than a factor of two between two iterations", "the direction is not conjugated")

bug("s30-reentrance-guard", "C13", [(N, '  free_energy.compute();\n\n  logger << "nlcglib parameters', '  static int depth{0};\n  if (depth > 0) throw std::runtime_error("nlcg is not reentrant");\n  ++depth;\n  struct guard { int& d; ~guard() { if (std::uncaught_exceptions() == 0) --d; } } leave{depth};\n  free_energy.compute();\n\n  logger << "nlcglib parameters')], main(r'''
  Par q; q.maxiter = 3;
  Host a{q}, b{q}, c{q};
  minimise(a);
  b.answer = [](int i, double e) -> double { if (i == 4) throw std::runtime_error("host failed"); return e; };
  try { minimise(b); } catch (std::exception&) {}
  try { minimise(c); } catch (std::exception& e) { REQUIRE(false, "call after a failed one: %s", e.what()); }
  REQUIRE(a.ev.size() == c.ev.size() && a.ev.back().X == c.ev.back().X, "result depends on earlier calls");
'''), "a minimisation after one that was ended by an exception of the host", "the later call is refused")

bug("s31-spin-label", "C20", [("src/operator.hpp", "      : op(op)\n      , key(key)\n", "      : op(op)\n      , key(key.first, std::min(key.second, 1))\n")], main(r'''
  Par q; q.maxiter = 3; q.ns = 2; q.mo = 1;
  Host a{q}, b{q};
  for (auto& x : b.p) x.key.second += 4;
  auto r = minimise(a);
  double F = NAN;
  try { F = minimise(b).F; } catch (std::exception& e) { REQUIRE(false, "labels matter: %s", e.what()); }
  REQUIRE(std::abs(r.F - F) < 1e-9, "labels change the result");
'''), "spin labels above 1", "operators are applied under another label")

bug("s32-world-writer", "C15", [(N, '  StepLogger logger(step, "nlcg.json", commk.rank() == 0);', '  StepLogger logger(step, "nlcg.json", Communicator(MPI_COMM_WORLD).rank() == 0);')], main(r'''
  int r; MPI_Comm_rank(MPI_COMM_WORLD, &r);
  std::string d = "rank" + std::to_string(r);
  REQUIRE(!system(("mkdir -p " + d).c_str()) && !chdir(d.c_str()), "scratch");
  // every rank minimises a problem of its own
  Par q; q.maxiter = 3; q.seed = 1 + r;
  Host h{q};
  h.comm = MPI_COMM_SELF;
  minimise(h);
  REQUIRE(log_records().size() == 3, "%zu log records on rank %d", log_records().size(), r);
  MPI_Barrier(MPI_COMM_WORLD);
'''), "a k-point communicator that does not contain the first process", "the step log is not written", 2)

bug("s33-entropy-sign", "C17", [(FE, "entropy = physical_constants::kb * T * S;", "entropy = std::min(0.0, physical_constants::kb * T * S);")], main(r'''
  for (int seed = 1; seed < 30; ++seed) {
    Par q; q.maxiter = 1; q.sm = smearing_type::METHFESSEL_PAXTON; q.seed = seed; q.T = 12000; q.nk = 1; q.ne = 2 + seed % 3;
    Host h{q};
    nlcglib::nlcg_info r;
    try { r = minimise(h); } catch (std::exception&) { continue; }
    double kT = KB * q.T, s = 0;
    auto& e = h.ev[1];
    for (auto& f : h.ev[0].ek) for (double v : f) { double x = (e.mu - v) / kT; s -= kT * q.mo * std::exp(-x * x) * (1 - 2 * x * x) / 4 / std::sqrt(M_PI) / q.nk; }
    REQUIRE(std::abs(s - r.S) < 1e-8, "entropy term %g, expected %g (seed %d)", r.S, s, seed);
  }
'''), "Methfessel-Paxton or cold smearing with levels far enough from the chemical potential that the entropy term is positive", "the entropy term is dropped from the free energy")

bug("s34-local-slope", "C06", [(DD, "double slope_zp = sum(std::get<5>(ures), commk);", "double slope_zp = sum(std::get<5>(ures));")], main(r'''
  int r; MPI_Comm_rank(MPI_COMM_WORLD, &r);
  Par q; q.maxiter = 4; q.restart = 10;
  std::vector<double> s1, s2;
  { Host h{q}; std::string d = "single" + std::to_string(r); REQUIRE(!system(("mkdir -p " + d).c_str()) && !chdir(d.c_str()), "scratch"); minimise(h); for (auto& l : log_records()) s1.push_back(l["slope_x"]); REQUIRE(!chdir(".."), "scratch"); }
  Host h{q};
  h.comm = MPI_COMM_WORLD;
  h.p.erase(h.p.begin() + (1 - r));
  alarm(40);
  minimise(h);
  MPI_Barrier(MPI_COMM_WORLD);
  for (auto& l : log_records()) s2.push_back(l["slope_x"]);
  REQUIRE(s1.size() == s2.size(), "different number of iterations");
  for (size_t i = 0; i < s1.size(); ++i) REQUIRE(std::abs(s1[i] - s2[i]) < 1e-6 * std::abs(s1[i]), "slope of iteration %zu is %.9g, on one rank %.9g", i, s2[i], s1[i]);
  MPI_Barrier(MPI_COMM_WORLD);
'''), "conjugate directions on several ranks", "the logged slope contains only the local k-points' part of the conjugate term", 2)
