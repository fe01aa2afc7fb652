// C05: the four functions of every smearing scheme on a fine grid with all branch points; C04: the search for
// the chemical potential on all spectra of a finite alphabet.  Both call the real routines directly.
#include <nlcglib.hpp>
#include "smearing.hpp"
#include "explore.hpp"
#include "mpi_shim.hpp"
#include "ref.hpp"
#include <cstdarg>
#include <map>
#include <sstream>

using namespace nlcglib;
using ex::Ctx;
typedef Kokkos::View<double*, Kokkos::HostSpace> VD;
static int C_runs = ex::ctr("arguments_checked"), C_sp = ex::ctr("spectra_solved"), C_err = ex::ctr("ended_by_exception"), C_skip = ex::ctr("beyond_double_resolution");
static std::string TIER = "quick", PROP;
static bool thorough() { return TIER == "thorough"; }
static std::string fmt(const char* f, ...) { char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

// numbering of the reference: 0 FD, 1 Gaussian spline, 2 Gauss, 3 MP, 4 cold
static const smearing_type ST[] = {smearing_type::FERMI_DIRAC, smearing_type::GAUSSIAN_SPLINE, smearing_type::GAUSS, smearing_type::METHFESSEL_PAXTON, smearing_type::COLD};
static const char* SN[] = {"Fermi-Dirac", "Gaussian-spline", "Gauss", "Methfessel-Paxton", "cold"};
struct Fun { double (*f)(double, double); double (*d)(double, double); double (*dd)(double, double); double (*s)(double, double); double (*sf)(const VD&, double, double, double); double (*sd)(const VD&, double, double, double); double (*sdd)(const VD&, double, double, double); double (*ss)(const VD&, double, double, double); };
template <smearing_type T> static Fun fun()
{
  typedef smearing<T> S;
  return {[](double x, double m) { return S::fn(x, m); }, [](double x, double m) { return S::delta(x, m); }, [](double x, double m) { return S::dxdelta(x, m); }, [](double x, double m) { return S::entropy(x, m); },
          [](const VD& e, double mu, double t, double m) { return S::sum_fn(e, mu, t, m); }, [](const VD& e, double mu, double t, double m) { return S::sum_delta(e, mu, t, m); }, [](const VD& e, double mu, double t, double m) { return S::sum_dxdelta(e, mu, t, m); }, [](const VD& e, double mu, double t, double m) { return S::sum_entropy(e, mu, t, m); }};
}
static Fun FU(int s)
{
  switch (s) {
    case 0: return fun<smearing_type::FERMI_DIRAC>();
    case 1: return fun<smearing_type::GAUSSIAN_SPLINE>();
    case 2: return fun<smearing_type::GAUSS>();
    case 3: return fun<smearing_type::METHFESSEL_PAXTON>();
    default: return fun<smearing_type::COLD>();
  }
}
static bool point(int s, double x, double mo, Ctx& c)
{
  c.count(C_runs);
  uint64_t h;
  memcpy(&h, &x, 8);
  c.state(ex::mix(ex::mix(h, s), mo));
  std::string cs = fmt("pt:%d:%a:%a", s, x, mo);
  auto bad = [&](const std::string& m) { c.fail(cs, fmt("%s, argument %.17g, maximum occupancy %g: ", SN[s], x, mo) + m); return false; };
  static Fun F[5] = {FU(0), FU(1), FU(2), FU(3), FU(4)};
  Fun& f = F[s];
  double v[4] = {f.f(x, mo), f.d(x, mo), f.dd(x, mo), f.s(x, mo)};
  double r[4] = {ref::s_f(s, x, mo), ref::s_d(s, x, mo), ref::s_dd(s, x, mo), ref::s_s(s, x, mo)};
  if (std::abs(x) > 1e3) { r[0] = x > 0 ? mo : 0; r[1] = r[2] = r[3] = 0; }
  static const char* N[] = {"occupation", "delta function", "derivative of the delta function", "entropy function"};
  for (int i = 0; i < 4; ++i) {
    if (!std::isfinite(v[i])) return bad(fmt("%s is %g", N[i], v[i]));
    if (!(std::abs(v[i] - r[i]) <= 3e-13 * mo)) return bad(fmt("%s is %.16g, expected %.16g", N[i], v[i], r[i]));
  }
  if (ref::monotone(s) && !(v[0] >= 0 && v[0] <= mo * (1 + 1e-15))) return bad("occupation outside its range");
  // proportionality to the maximum occupancy
  double u[4] = {f.f(x, 2 * mo), f.d(x, 2 * mo), f.dd(x, 2 * mo), f.s(x, 2 * mo)};
  for (int i = 0; i < 4; ++i) if (!(std::abs(u[i] - 2 * v[i]) <= 4e-16 * mo * 8)) return bad(fmt("%s is not proportional to the maximum occupancy", N[i]));
  // differential relations between the real functions themselves (extrapolated central differences)
  if (std::abs(x) < 60) {
    double hh = 1e-2;
    auto dif = [&](double (*g)(double, double)) { auto D = [&](double t) { return (g(x + t, mo) - g(x - t, mo)) / (2 * t); }; double a = D(hh), b = D(hh / 2), e = D(hh / 4); double a1 = (4 * b - a) / 3, b1 = (4 * e - b) / 3; return (16 * b1 - a1) / 15; };
    bool kink = s == 1 && std::abs(x) <= hh;
    if (!kink) {
      double d1 = dif(f.f), d2 = dif(f.d), d3 = dif(f.s);
      if (!(std::abs(d1 - v[1]) <= 2e-9 * mo)) return bad(fmt("delta function %.12g is not the derivative %.12g of the occupation", v[1], d1));
      if (!(std::abs(d2 - v[2]) <= 2e-8 * mo)) return bad(fmt("derivative of the delta function %.12g, difference quotient %.12g", v[2], d2));
      if (!(std::abs(d3 + x * v[1]) <= 2e-9 * mo * std::max(1.0, std::abs(x)))) return bad(fmt("derivative of the entropy function is %.12g instead of %.12g", d3, -x * v[1]));
    }
  }
  return true;
}
static bool sums(int s, double T, double mu, double mo, Ctx& c)
{
  std::string cs = fmt("sum:%d:%a:%a:%a", s, T, mu, mo);
  Fun f = FU(s);
  for (int n = 0; n <= 4; ++n) {
    c.count(C_runs);
    VD e("e", n);
    double w[4] = {0, 0, 0, 0}, kT = ref::KB * T;
    for (int i = 0; i < n; ++i) { e(i) = -0.3 + 0.17 * i * i; double x = (mu - e(i)) / kT; w[0] += ref::s_f(s, x, mo); w[1] += ref::s_d(s, x, mo); w[2] += ref::s_dd(s, x, mo); w[3] += ref::s_s(s, x, mo); }
    double v[4] = {f.sf(e, mu, T, mo), f.sd(e, mu, T, mo), f.sdd(e, mu, T, mo), f.ss(e, mu, T, mo)};
    for (int i = 0; i < 4; ++i) if (!(std::abs(v[i] - w[i]) <= 1e-9 * mo)) { c.fail(cs, fmt("%s: sum %d over %d bands is %.14g instead of %.14g", SN[s], i, n, v[i], w[i])); return false; }
  }
  return true;
}
// ---------------------------------------------------------------- C04
static const double EN[] = {-2, -0.5, 0, 0.001, 0.5, 3};
static const double SH[] = {0, -100, 1e4};
static const double TS[] = {50, 1000, 10000, 100000};
struct S04 { int sm, mo, Ne, nk, nb, t, sh, wm; long code; };
static std::string enc(const S04& p) { std::ostringstream s; s << "sp:" << p.sm << ":" << p.mo << ":" << p.Ne << ":" << p.nk << ":" << p.nb << ":" << p.t << ":" << p.sh << ":" << p.wm << ":" << p.code; return s.str(); }
static std::vector<std::vector<int>>& combos(int nb)
{
  static std::map<int, std::vector<std::vector<int>>> m;
  auto& v = m[nb];
  if (v.empty()) { std::function<void(std::vector<int>)> r = [&](std::vector<int> a) { if ((int)a.size() == nb) { v.push_back(a); return; } for (int i = a.empty() ? 0 : a.back(); i < 6; ++i) { auto b = a; b.push_back(i); r(b); } }; r({}); }
  return v;
}
static bool solve(const S04& p, Ctx& c)
{
  c.count(C_sp);
  auto& cb = combos(p.nb);
  double T = TS[p.t], kT = ref::KB * T;
  static const double W[3][3] = {{1, 0, 0}, {0.5, 0.5, 0}, {0.3, 0.7, 0}};
  mvector<double> wk{Communicator()};
  mvector<VD> ek{Communicator()};
  std::vector<std::vector<double>> E(p.nk);
  std::vector<double> w;
  long q = p.code;
  double mx = 0;
  for (int k = 0; k < p.nk; ++k) {
    w.push_back(p.nk == 1 ? 1.0 : W[1 + p.wm][k]);
    auto& ix = cb[q % cb.size()];
    q /= cb.size();
    VD v("e", p.nb);
    for (int i = 0; i < p.nb; ++i) { v(i) = EN[ix[i]] + SH[p.sh]; E[k].push_back(v(i)); mx = std::max(mx, std::abs(v(i))); }
    ek[{k, 0}] = v;
    wk[{k, 0}] = w[k];
  }
  c.state(std::hash<std::string>()(enc(p)));
  auto bad = [&](const std::string& m) { std::string s; for (auto& e : E) { for (double d : e) s += fmt("%g ", d); s += "| "; } c.fail(enc(p), fmt("%s, T=%g, %d electrons, maximum occupancy %d, band energies ", SN[p.sm], T, p.Ne, p.mo) + s + ": " + m); return false; };
  double mu = NAN;
  std::vector<std::vector<double>> F(p.nk);
  double cap = p.mo * p.nb;
  try {
    Smearing S(T, p.Ne, p.mo, wk, ST[p.sm]);
    auto r = S.fn(ek);
    mu = std::get<0>(r);
    auto& fn = std::get<1>(r);
    if ((int)fn.size() != p.nk) return bad("number of k-points changed");
    for (int k = 0; k < p.nk; ++k) { auto v = fn.at(std::make_pair(k, 0)); if ((int)v.size() != p.nb) return bad("number of bands changed"); for (int i = 0; i < p.nb; ++i) F[k].push_back(v(i)); }
  } catch (std::exception& e) {
    c.count(C_err);
    if (p.Ne < 0 || p.Ne > cap) return true;
    bool fine = (std::nextafter(mx, 1e300) - mx) / kT * p.mo * p.nb < 2e-12;
    if (fine) return bad(std::string("no chemical potential found: ") + e.what());
    c.count(C_skip);
    return true;
  }
  if (p.Ne < 0 || p.Ne > cap) {
    // MP / cold overshoot: occupations beyond the maximum are possible
    if (ref::monotone(p.sm)) return bad("accepted although the electrons do not fit");
    return true;
  }
  double N = 0;
  for (int k = 0; k < p.nk; ++k) for (int i = 0; i < p.nb; ++i) {
    N += w[k] * F[k][i];
    double x = (mu - E[k][i]) / kT, f = ref::s_f(p.sm, x, p.mo);
    if (!(std::abs(f - F[k][i]) <= 1e-10 * p.mo * std::max(1.0, std::abs(mu) * 1e-5 / kT))) return bad(fmt("occupation %.14g is not that of the chemical potential, %.14g", F[k][i], f));
    if (ref::monotone(p.sm) && !(F[k][i] >= -1e-12 && F[k][i] <= p.mo + 1e-12)) return bad("occupation outside its range");
  }
  double tol = ref::monotone(p.sm) ? 1e-10 : 1.0001e-2;
  if (!(std::abs(N - p.Ne) <= tol)) return bad(fmt("occupations sum to %.14g", N));
  if (!ref::monotone(p.sm)) {
    auto cnt = [&](double m) { double s = 0; for (int k = 0; k < p.nk; ++k) for (double e : E[k]) s += w[k] * ref::s_f(p.sm, (m - e) / kT, p.mo); return s; };
    double err = std::abs(cnt(mu) - p.Ne), h = 1e-5 * kT;
    if (err > 1e-9 && std::abs(mu) * 1e-13 < h) { double l = std::abs(cnt(mu - h) - p.Ne), r = std::abs(cnt(mu + h) - p.Ne); if (l < err - 1e-12 || r < err - 1e-12) return bad(fmt("electron-count error %.3g is not a local minimum (%.3g, %.3g nearby)", err, l, r)); }
  }
  return true;
}
static void check_case(const std::string& cs, Ctx& x)
{
  std::vector<std::string> f;
  std::stringstream s(cs);
  std::string q;
  while (std::getline(s, q, ':')) f.push_back(q);
  x.begin(cs);
  auto d = [&](int i) { return strtod(f[i].c_str(), nullptr); };
  if (f.size() == 4 && f[0] == "pt") point(atoi(f[1].c_str()), d(2), d(3), x);
  if (f.size() == 5 && f[0] == "sum") sums(atoi(f[1].c_str()), d(2), d(3), d(4), x);
  if (f.size() == 10 && f[0] == "sp") { auto n = [&](int i) { return atoi(f[i].c_str()); }; solve(S04{n(1), n(2), n(3), n(4), n(5), n(6), n(7), n(8), atol(f[9].c_str())}, x); }
  x.end();
}
int main(int argc, char** argv)
{
  std::string out, replay;
  ex::Opts o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") PROP = nx();
    else if (a == "--tier") TIER = nx();
    else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--scratch") o.scratch = nx();
    else if (a == "--budget") o.budget = atof(nx().c_str());
  }
  mallopt(M_PERTURB, 0x80);
  unsetenv("NLCGLIB_DISABLE_NEWTON_EFERMI");
  if (chdir(o.scratch.c_str())) return 2;
  Kokkos::initialize();
  shim::configure(1, 0, 1, 0);
  int so = dup(1), dn = ::open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  o.hang = 60;
  bool whole = ex::task_replay(replay, TIER, o);
  o.tier = TIER;
  if (whole && chdir(o.scratch.c_str())) return 2;
  if (!replay.empty()) {
    Ctx x;
    check_case(replay, x);
    fflush(stdout);
    dup2(so, 1);
    for (auto& m : x.local) printf("FINDING %s\n", m.c_str());
    fflush(stdout);
    _exit(x.local.empty() ? 0 : 1);
  }
  std::vector<std::function<void(Ctx&)>> tasks;
  if (PROP == "C05") {
    for (int s = 0; s < 5; ++s) for (int part = -60; part < 60; part += 4) for (double mo : {1.0, 2.0}) tasks.push_back([=](Ctx& x) {
      x.begin(fmt("pt:%d:%d:%g", s, part, mo));
      double h = thorough() ? 1.0 / 16384 : 1.0 / 2048;
      for (double v = part; v < part + 4; v += h) if (!point(s, v, mo, x)) return;
      // floating-point neighbours of integers, halves and thirds (branch points of any sensible implementation)
      for (int i = 0; i <= 24; ++i) { double b = part + i / 6.0, u = b, l = b; for (int k = 0; k < 4; ++k) { if (!point(s, u, mo, x) || !point(s, l, mo, x)) return; u = std::nextafter(u, 1e9); l = std::nextafter(l, -1e9); } }
    });
    for (int s = 0; s < 5; ++s) tasks.push_back([=](Ctx& x) {
      x.begin(fmt("pt:%d:0x1p0:1", s));
      for (double mo : {1.0, 2.0}) {
        for (int e = -1074; e <= 1023; ++e) for (double m : {1.0, -1.0, 1.75, -1.3}) { double v = std::ldexp(m, e); if (std::isfinite(v) && !point(s, v, mo, x)) return; }
        for (double v : {0.0, -0.0, 1.7976931348623157e308, -1.7976931348623157e308}) if (!point(s, v, mo, x)) return;
        for (double v = 60; v < 1000; v += 0.125) if (!point(s, v, mo, x) || !point(s, -v, mo, x)) return;
      }
      for (double T : {100.0, 3000.0, 50000.0}) for (int i = -8; i < 40; ++i) for (double mo : {1.0, 2.0}) if (!sums(s, T, i * 0.05, mo, x)) return;
    });
  } else {
    for (int sm = 0; sm < 5; ++sm) for (int mo = 1; mo <= 2; ++mo) for (int t = 0; t < 4; ++t) for (int sh = 0; sh < 3; ++sh) {
      for (int nb = 1; nb <= (thorough() ? 5 : 4); ++nb) for (int Ne = -1; Ne <= mo * nb + 1; ++Ne) tasks.push_back([=](Ctx& x) { for (long c = 0; c < (long)combos(nb).size(); ++c) { S04 p{sm, mo, Ne, 1, nb, t, sh, 0, c}; if (x.stopped()) return; x.begin(enc(p)); if (!solve(p, x)) return; } });
      for (int nb = 1; nb <= (thorough() ? 3 : 2); ++nb) for (int wm = 0; wm < 2; ++wm) for (int Ne = 0; Ne <= mo * nb; ++Ne) tasks.push_back([=](Ctx& x) { long n = combos(nb).size(); for (long c = 0; c < n * n; ++c) { S04 p{sm, mo, Ne, 2, nb, t, sh, wm, c}; if (x.stopped()) return; x.begin(enc(p)); if (!solve(p, x)) return; } });
    }
  }
  ex::json res = ex::explore(tasks.size(), [&](int i, Ctx& x) { tasks[i](x); if (i % 17 == 3) x.sample({{"case", x.cur}}); x.end(); }, check_case, o);
  res["transitions"] = res["counters"]["arguments_checked"].get<long>() + res["counters"]["spectra_solved"].get<long>();
  res["traces"] = res["transitions"];
  if (whole) { dup2(so, 1); _exit(ex::report(res, 1)); }
  std::ofstream(out) << res.dump(1) << "\n";
  _exit(0);
}
