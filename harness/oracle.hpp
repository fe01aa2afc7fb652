// Oracles of the properties on a recorded minimisation, shared by the whole-run and the multi-rank explorer.
#pragma once
#include "explore.hpp"
#include "lock.hpp"
#include <cmath>
#include <cstdarg>
#include <iostream>
#include <memory>
#include <sstream>

using namespace mk;
using ex::Ctx;

static int C_runs = ex::ctr("runs"), C_evals = ex::ctr("evaluations"), C_steps = ex::ctr("line_searches_followed"), C_locked = ex::ctr("evaluations_matched_with_reference"),
           C_amb = ex::ctr("runs_followed_only_in_part"), C_conv = ex::ctr("converged"), C_fail = ex::ctr("ended_by_failed_search"), C_exc = ex::ctr("ended_by_exception"), C_limit = ex::ctr("ended_by_iteration_limit"),
           C_dev = ex::ctr("runs_with_deviating_answers"), C_recs = ex::ctr("log_records_checked"), C_probe = ex::ctr("slopes_probed"), C_cmp = ex::ctr("runs_compared"), C_bt = ex::ctr("backtracking_searches"), C_conj = ex::ctr("conjugate_directions"), C_rest = ex::ctr("steepest_descent_directions"), C_skip = ex::ctr("skipped"), C_pos = ex::ctr("restarts_after_positive_slope"), C_posc = ex::ctr("conjugate_directions_after_such_a_restart");

static std::string PROP, TIER;
static bool thorough() { return TIER == "thorough"; }

struct Case { std::string mode; std::vector<Cfg> c; int arg = 0; };
static std::string cstr(const Case& k)
{
  std::string s = k.mode + ":" + std::to_string(k.arg) + "|";
  for (size_t i = 0; i < k.c.size(); ++i) s += (i ? "@" : "") + str(k.c[i]);
  return s;
}
static Case cparse(const std::string& s)
{
  Case k;
  auto b = s.find('|');
  auto c = s.find(':');
  k.mode = s.substr(0, c);
  k.arg = atoi(s.c_str() + c + 1);
  std::string r = s.substr(b + 1), t;
  size_t p = 0;
  while (true) { size_t q = r.find('@', p); k.c.push_back(parse(r.substr(p, q == std::string::npos ? q : q - p))); if (q == std::string::npos) break; p = q + 1; }
  return k;
}

// standard output of one run goes to a file of the working directory
struct Capture
{
  int so;
  std::string fn;
  explicit Capture(const std::string& fn) : fn(fn)
  {
    std::cout.flush(); fflush(stdout);
    so = dup(1);
    int f = ::creat(fn.c_str(), 0600);
    dup2(f, 1);
    ::close(f);
  }
  std::string stop()
  {
    std::cout.flush(); fflush(stdout);
    dup2(so, 1);
    ::close(so);
    return slurp(fn.c_str());
  }
};
static Trace exec(const Cfg& c, Ctx& x, bool keepfiles = false)
{
  if (!keepfiles) { ::unlink("nlcg.json"); ::unlink("nlcg.out"); }
  std::unique_ptr<Capture> cap;
  if (PROP == "C21") cap.reset(new Capture("stdout.txt"));
  Trace t = run(c);
  if (cap) { t.sotxt = cap->stop(); t.outtxt = slurp("nlcg.out", &t.out_exists); }
  x.count(C_runs);
  x.count(C_evals, t.ev.size());
  if (!c.lies.empty()) x.count(C_dev);
  if (t.exc) x.count(C_exc);
  else if (t.info.converged) x.count(C_conv);
  else if ((int)t.recs.size() < c.maxiter) x.count(C_fail);
  else x.count(C_limit);
  Cfg k = c;
  k.lies.clear();
  k.maxiter = 0;
  uint64_t h0 = 1;
  for (char ch : str(k)) h0 = ex::mix(h0, ch);
  for (auto& e : t.ev) {
    uint64_t h = ex::mix(h0, e.nrec);
    for (size_t i = 0; i < e.X.size(); ++i) {
      Mat D = mul(colscale(e.X[i], e.f[i]), herm(e.X[i]));
      for (auto& z : D.a) { h = ex::mixd(h, z.real()); h = ex::mixd(h, z.imag()); }
    }
    h = ex::mixd(h, e.mu); h = ex::mixd(h, e.Eret);
    x.state(h);
  }
  return t;
}
static double rec(const Trace& t, int i, const char* k) { double v = NAN; if (i >= 0 && i < (int)t.recs.size()) Lock::num(t.recs[i], k, v); return v; }
static int accepted(const Trace& t, int r) { int a = -1; for (size_t e = 0; e < t.ev.size(); ++e) if (t.ev[e].nrec <= r) a = e; return a; }
static std::string fmt(const char* f, ...)
{
  char b[600];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
static bool same_final(const Trace& t, const Eval& e, double tol, std::string& why)
{
  for (size_t i = 0; i < t.Xf.size(); ++i) {
    Mat Pa = mul(colscale(t.Xf[i], t.ff[i]), herm(t.Xf[i])), Pb = mul(colscale(e.X[i], e.f[i]), herm(e.X[i]));
    Mat Qa = mul(t.Xf[i], herm(t.Xf[i])), Qb = mul(e.X[i], herm(e.X[i]));
    double d = std::max(diff(Pa, Pb), diff(Qa, Qb));
    if (!(d <= tol)) { why = fmt("density matrix differs by %.3g", d); return false; }
  }
  if (!(std::abs(t.muf - e.mu) <= tol * std::max(1.0, std::abs(e.mu)))) { why = fmt("chemical potential differs: %.12g vs %.12g", t.muf, e.mu); return false; }
  return true;
}
// entropy term from occupations (monotone smearings only)
static double entropy_f(const Trace& t, const Eval& e)
{
  double s = 0;
  for (size_t i = 0; i < e.f.size(); ++i) for (double f : e.f[i]) {
    double r = f / t.cfg.mo;
    if (r < 1e-13 || r > 1 - 1e-13) continue;
    s += t.pr.w[t.loc[i]] * s_s(t.cfg.sm, s_inv(t.cfg.sm, f, t.cfg.mo), t.cfg.mo);
  }
  return -t.pr.kT * s;
}
static double entropy_ek(const Trace& t, const std::vector<Vec>& ek, double mu)
{
  double s = 0;
  for (size_t i = 0; i < ek.size(); ++i) for (double x : ek[i]) s += t.pr.w[t.loc[i]] * s_s(t.cfg.sm, (mu - x) / t.pr.kT, t.cfg.mo);
  return -t.pr.kT * s;
}
static bool expects_error(const Cfg& c)
{
  double cap = 0;
  Problem p = problem(c);
  for (int q = 0; q < p.np; ++q) cap += p.w[q] * p.b[q] * c.mo;
  return c.entry >= 2 || c.sm < 0 || c.sm > 4 || !(c.T > 0) || c.restart < 1 || c.mem != 0 || c.ne > cap + 1e-9 || c.ne < 0;
}

// ------------------------------------------------------------------ oracles
typedef std::function<void(const std::string&)> Say;

static void o_C01(const Trace& t, Ctx& x, const Say& say, const std::function<Trace(const Cfg&)>& again = nullptr)
{
  const Cfg& c = t.cfg;
  int n = t.recs.size();
  if (t.exc == 3 || t.exc == 4) return;
  for (int i = 0; i < n; ++i) {
    double F = rec(t, i, "F");
    if (!std::isfinite(F)) { say(fmt("accepted free energy of iteration %d is not finite", i)); return; }
    if (i && !(F <= rec(t, i - 1, "F") + 1e-10 * std::max(1.0, std::abs(F)))) { say(fmt("accepted free energy rises from %.14g to %.14g at iteration %d", rec(t, i - 1, "F"), F, i)); return; }
    // the logged energy is the one the host gave for the state it now holds
    int a = accepted(t, i);
    double E = rec(t, i, "EKS");
    if (a >= 0 && !(E == t.ev[a].Eret)) { say(fmt("iteration %d is logged with energy %.14g, the host is at a state of energy %.14g", i, E, t.ev[a].Eret)); return; }
  }
  if (!t.returned) return;
  if (n == 0) {
    std::string why;
    if (t.ev.size() >= 2 && !same_final(t, t.ev[1], 1e-8, why)) say("run without iterations moved the host: " + why);
    return;
  }
  std::string why;
  if (t.info.converged || n < c.maxiter || (int)t.ev.back().nrec < n) {
    // ended at the last logged state (converged or failed search), or by failure in the last iteration
    int a = accepted(t, n - 1);
    if (a >= 0 && !same_final(t, t.ev[a], 1e-7, why)) say("host is not left at the last accepted state: " + why);
    return;
  }
  // iteration limit: the run with one more iteration logs the state accepted last
  Cfg d = c;
  d.maxiter++;
  Trace u = again ? again(d) : exec(d, x);
  if (!u.returned) return;
  if (u.ev.size() < t.ev.size()) { say("a larger iteration limit gives fewer evaluations"); return; }
  int a;
  double F;
  if ((int)u.recs.size() > n) { a = accepted(u, n); F = rec(u, n, "F"); if (!(F <= rec(t, n - 1, "F") + 1e-10 * std::max(1.0, std::abs(F)))) say("free energy rises in the last iteration"); }
  else a = accepted(t, n - 1); // the search of the last iteration failed
  if (a >= (int)t.ev.size()) a = t.ev.size() - 1;
  if (!same_final(t, (int)u.recs.size() > n ? u.ev[a] : t.ev[a], 1e-7, why)) say("host is not left at the last accepted state at the iteration limit: " + why);
}

// returns whether the run was ended by an error at a very long step
static bool o_lock(const Trace& t, Ctx& x, const Say& say, const std::set<std::string>& props)
{
  Lock L(t);
  L.run();
  x.count(C_steps, L.li.steps);
  x.count(C_locked, L.li.evals);
  x.count(C_bt, L.li.nbt);
  x.count(C_conj, L.li.nconj);
  x.count(C_rest, L.li.nrestart);
  x.count(C_pos, L.li.npos);
  x.count(C_posc, L.li.nposconj);
  if (L.li.ambiguous) x.count(C_amb);
  for (auto& f : L.out) if (props.count(f.prop)) { say(f.msg); break; }
  return L.li.longstep;
}

static void o_C02(const Trace& t, Ctx& x, const Say& say)
{
  if (t.exc == 4) { say("line search does not end (evaluation limit of the harness reached)"); return; }
  bool lng = o_lock(t, x, say, {"C02"});
  // direct part: number of evaluations per search
  int mx = 0, n = t.recs.size();
  for (int r = 0; r < n; ++r) { int k = 0; for (auto& e : t.ev) if (e.nrec == r + 1) ++k; mx = std::max(mx, k); }
  double tau = t.cfg.tau;
  int lim = 2 + 40 + (tau < 1 && tau > 0 ? (int)std::ceil(std::log(0.2 / 1e-8) / -std::log(tau)) + 2 : 0);
  if (mx > lim) say(fmt("line search with %d evaluations", mx));
  if (t.exc && t.exc != 3 && !lng && t.cfg.tau < 1 && t.cfg.pk != 3 && !expects_error(t.cfg)) say("line search ended by an exception: " + t.what);
}

static void o_C03(const Trace& t, Ctx& x, const Say& say)
{
  const Cfg& c = t.cfg;
  if (!t.returned) return;
  int n = t.recs.size(), m = std::max(0, c.maxiter);
  auto near = [](double a, double b) { return std::abs(a - b) <= 1e-11 * std::max(1.0, std::abs(b)); };
  if (n > m) say(fmt("%d iterations were carried out, %d requested", n, c.maxiter));
  int searches = 0;
  for (auto& e : t.ev) searches = std::max(searches, e.nrec);
  if (searches > m) say("more line searches than requested iterations");
  if (n == 0) {
    if (m > 0) { say("no iteration logged"); return; }
    if (t.info.converged) say("result of a run without iterations is marked converged");
    double F = t.ev.size() >= 2 ? t.ev[1].Eret + entropy_ek(t, t.ev[0].ek, t.ev[1].mu) : NAN, S = t.ev.size() >= 2 ? entropy_ek(t, t.ev[0].ek, t.ev[1].mu) : NAN;
    if (!(std::abs(t.info.F - F) <= 1e-9 * std::max(1.0, std::abs(F)))) say(fmt("run without iterations returns F=%.12g, starting state has %.12g", t.info.F, F));
    if (!(std::abs(t.info.S - S) <= 1e-9 * std::max(1.0, std::abs(S)))) say(fmt("run without iterations returns entropy term %.12g, starting state has %.12g", t.info.S, S));
    if (t.info.iter != 0) say(fmt("run without iterations returns iteration number %d", t.info.iter));
    // residual: the slope of the starting state, as logged by a run with one iteration
    Cfg d = c;
    d.maxiter = 1;
    Trace u = exec(d, x);
    if (u.recs.size() && !near(t.info.tolerance, rec(u, 0, "slope_x"))) say(fmt("run without iterations returns residual %.12g, the slope of the starting state is %.12g", t.info.tolerance, rec(u, 0, "slope_x")));
    return;
  }
  double sl = rec(t, n - 1, "slope_x");
  bool want = std::abs(sl) < c.tol;
  if (t.info.converged != want) say(fmt("converged=%d although the last logged slope is %.17g and the tolerance %.17g", (int)t.info.converged, sl, c.tol));
  for (int i = 0; i + 1 < n; ++i) if (std::abs(rec(t, i, "slope_x")) < c.tol) say(fmt("iteration %d below tolerance was not the last one", i));
  if (!near(t.info.F, rec(t, n - 1, "F"))) say(fmt("returned F=%.14g, last logged %.14g", t.info.F, rec(t, n - 1, "F")));
  if (!near(t.info.S, rec(t, n - 1, "entropy"))) say(fmt("returned entropy term %.14g, last logged %.14g", t.info.S, rec(t, n - 1, "entropy")));
  if (!near(std::abs(t.info.tolerance), std::abs(sl))) say(fmt("returned residual %.14g, last logged slope %.14g", t.info.tolerance, sl));
  double st = rec(t, n - 1, "step");
  if (!(t.info.iter == st) || t.info.iter != n - 1) say(fmt("returned iteration number %d, last logged %g", t.info.iter, st));
  if (want && t.ev.back().nrec >= n) say("an iterate below tolerance cost further energy evaluations");
  if (!want && n < m && t.ev.size() && t.ev.back().nrec < n && sl < 0) say("run stopped above tolerance without a line search");
  // a run that is neither converged nor at its limit must have ended by a failed search or a positive slope
  if (!want && n < m) {
    int k = 0;
    for (auto& e : t.ev) if (e.nrec == n) ++k;
    if (!(sl > 0) && k < 3) say("run stopped early without a failed line search");
  }
}

// values of NLCGLIB_DISABLE_NEWTON_EFERMI: anything but 0 switches Newton's method off
static const char* const ENVV[] = {nullptr, "1", "0", "", "yes", "00", "false"};
constexpr int NENV = 7;
static bool bisect_only(const Cfg& c) { return c.env && c.env != 2; }
static void putenv_(int env) { if (ENVV[env]) setenv("NLCGLIB_DISABLE_NEWTON_EFERMI", ENVV[env], 1); else unsetenv("NLCGLIB_DISABLE_NEWTON_EFERMI"); }
static void o_C04(const Trace& t, Ctx& x, const Say& say)
{
  const Cfg& c = t.cfg;
  if (t.exc == 1 || t.exc == 2) {
    if (!expects_error(c) && c.tau < 1) {
      // an error is right only if no chemical potential exists; MP/cold may legitimately find none
      double mx = 0;
      if (t.ev.size()) for (auto& v : t.ev[0].ek) for (double e : v) mx = std::max(mx, std::abs(e));
      bool fine = (std::nextafter(mx, 1e300) - mx) / t.pr.kT * c.mo * c.ns * (c.nb + c.vb) < 2e-12; // spacing of doubles allows 1e-10 and the stopping rule
      if (t.ev.size() < 2 && fine) say("run failed although a chemical potential exists: " + t.what);
      else { x.count(C_skip); if (getenv("WDEBUG")) fprintf(stderr, "SKIP %s | %s\n", t.what.c_str(), str(c).c_str()); }
    }
    return;
  }
  if (expects_error(c) && c.entry < 2 && c.mem == 0 && c.restart >= 1 && c.T > 0) { if (t.returned) say("run returned although the electrons do not fit"); return; }
  Lock L(t);
  L.run();
  x.count(C_locked, L.li.evals);
  for (size_t e = 1; e < t.ev.size(); ++e) {
    auto& v = t.ev[e];
    double N = 0;
    for (size_t i = 0; i < v.f.size(); ++i) for (double f : v.f[i]) N += t.pr.w[t.loc[i]] * f;
    double tol = monotone(c.sm) ? 1e-10 : (bisect_only(c) ? 1e-10 : 1.0001e-2);
    if (!(std::abs(N - c.ne) <= tol)) { say(fmt("evaluation %zu: weighted occupations sum to %.14g, number of electrons %d", e, N, c.ne)); return; }
    if (monotone(c.sm)) for (auto& fv : v.f) for (double f : fv) if (!(f >= -1e-12 && f <= c.mo + 1e-12)) { say(fmt("evaluation %zu: occupation %.14g outside [0,%d]", e, f, c.mo)); return; }
    if (!std::isfinite(v.mu)) { say(fmt("evaluation %zu: chemical potential not set on the host", e)); return; }
    const std::vector<Vec>* ek = e == 1 ? &t.ev[0].ek : (e < L.li.ek.size() && !L.li.ek[e].empty() ? &L.li.ek[e] : nullptr);
    if (!ek) continue;
    double kT = t.pr.kT;
    auto occ = [&](double mu, bool dev) { double s = 0; for (size_t i = 0; i < ek->size(); ++i) for (size_t j = 0; j < (*ek)[i].size(); ++j) s += t.pr.w[t.loc[i]] * (dev ? s_d(c.sm, (mu - (*ek)[i][j]) / kT, c.mo) / kT : s_f(c.sm, (mu - (*ek)[i][j]) / kT, c.mo)); return s; };
    for (size_t i = 0; i < ek->size(); ++i) for (size_t j = 0; j < (*ek)[i].size(); ++j) {
      double w = s_f(c.sm, (v.mu - (*ek)[i][j]) / kT, c.mo);
      double tl = (e == 1 ? 1e-9 * std::max(1.0, std::abs(v.mu) * 1e-6 / kT) : 1e-5) * c.mo;
      if (!(std::abs(w - v.f[i][j]) <= tl)) { say(fmt("evaluation %zu: occupation %.12g of band %zu, the smearing function at the chemical potential set on the host gives %.12g", e, v.f[i][j], j, w)); return; }
    }
    if (!monotone(c.sm) && e == 1 && !bisect_only(c)) {
      double err = std::abs(occ(v.mu, false) - c.ne), h = 1e-5 * kT;
      if (err > 1e-9) {
        double el = std::abs(occ(v.mu - h, false) - c.ne), er = std::abs(occ(v.mu + h, false) - c.ne);
        if (el < err - 1e-12 || er < err - 1e-12) {
          // not a local minimiser, unless a Newton step within its own resolution separates them
          say(fmt("evaluation %zu: electron-count error %.3g is not a local minimum (%.3g, %.3g nearby)", e, err, el, er));
          return;
        }
      }
    }
  }
  for (auto& f : L.out) if (f.prop == "C04") { say(f.msg); return; }
}

static void o_C07(const Trace& t, Ctx& x, const Say& say)
{
  (void)x;
  std::unique_ptr<Lock> L;
  for (size_t e = 1; e < t.ev.size(); ++e) for (size_t i = 0; i < t.ev[e].X.size(); ++i) {
    auto& X = t.ev[e].X[i];
    if (!finite(X)) { say(fmt("evaluation %zu: wave functions are not finite", e)); return; }
    Mat M = hmul(X, mul(t.pr.S[t.loc[i]], X));
    double d = diff(M, eye(M.n));
    // a very long step makes the Gram matrix ill-conditioned (smallest eigenvalue 1, largest |X + t Z|^2): its
    // rounding limits what any orthogonalisation can do.  The length is seen by the host's overlap operator or,
    // should that not be applied to X + t Z, known to the reference; where it is not followed it is bounded only loosely
    double tol = 1e-8;
    if (!(d <= tol)) {
      double amp = t.ev[e].amp[i];
      if (!L) { L.reset(new Lock(t)); L->run(); }
      if (e < L->li.amp.size() && !L->li.amp[e].empty()) amp = std::max(amp, L->li.amp[e][i]);
      else if (L->li.ambiguous && e > 1) tol = 1e-6;
      tol = std::max(tol, 2e-14 * maxabs(t.pr.S[t.loc[i]]) * M.n * amp);
    }
    if (!(d <= tol)) { say(fmt("evaluation %zu: wave functions of k-point (%d,%d) deviate from S-orthonormality by %.3g", e, t.pr.key[t.loc[i]].first, t.pr.key[t.loc[i]].second, d)); return; }
  }
}

static void o_C12(const Trace& t, Ctx& x, const Say& say)
{
  (void)x;
  for (auto& v : t.viol) { say(v); return; }
  for (size_t e = 1; e < t.ev.size(); ++e) for (auto& X : t.ev[e].X) if (!finite(X)) { say("wave functions are not finite"); return; }
}

// ---- progress report
struct Report
{
  struct It { int i; double F, slope, S = NAN, mu = NAN, E = NAN; };
  std::vector<It> it;
  std::map<std::string, std::string> head;   // label: value lines before the first iteration
  bool success = false, error = false, after = false;
  double S = NAN, F = NAN, E = NAN;          // final block
  static std::string trim(std::string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); size_t a = 0; while (a < s.size() && isspace((unsigned char)s[a])) ++a; return s.substr(a); }
  static bool num(const std::string& s, double& v) { char* e; std::string t = trim(s); if (t.empty()) return false; v = strtod(t.c_str(), &e); while (isspace((unsigned char)*e)) ++e; return *e == 0; }
  explicit Report(const std::string& txt)
  {
    std::istringstream in(txt);
    std::string l;
    while (std::getline(in, l)) {
      if (l.find("NLCG SUCCESS") != std::string::npos) { success = true; continue; }
      if (l.find("[NLCG] Error") != std::string::npos) { error = true; continue; }
      std::istringstream ls(l);
      std::vector<std::string> w;
      std::string a;
      while (ls >> a) w.push_back(a);
      double v[3];
      if (w.size() >= 3 && w[0].find_first_not_of("0123456789") == std::string::npos && num(w[1], v[1]) && num(w[2], v[2])) { it.push_back({atoi(w[0].c_str()), v[1], v[2]}); if (success || error) after = true; continue; }
      auto c = l.find(':');
      if (c == std::string::npos) continue;
      std::string key = trim(l.substr(0, c)), val = trim(l.substr(c + 1));
      if (it.empty()) { if (!head.count(key)) head[key] = val; continue; }
      double z;
      if (!num(val, z)) continue;
      bool end = key == "F" || key == "KS-energy";
      if (key == "Fermi energy") it.back().mu = z;
      else if (key == "KS energy") it.back().E = z;
      else if (key == "kT * S") { if (std::isnan(it.back().S)) it.back().S = z; else S = z; }
      else if (end) (key == "F" ? F : E) = z;
    }
  }
};
static void o_C21(const Trace& t, Ctx& x, const Say& say, bool writer = true)
{
  const Cfg& c = t.cfg;
  if (!writer) {
    if (t.sotxt.find("NLCG") != std::string::npos || !Report(t.sotxt).it.empty()) say("a rank that is not the first one of the world communicator prints the report");
    return;
  }
  if (!t.returned) return;
  int n = t.recs.size();
  if (!t.out_exists) { say("no nlcg.out"); return; }
  Report o(t.outtxt), s(t.sotxt);
  auto near = [](double a, double b, double rel, double abs) { return a == b || std::abs(a - b) <= std::max(abs, rel * std::max(std::abs(a), std::abs(b))); };
  auto head = [&](const char* k, double want) {
    auto i = o.head.find(k);
    double v;
    if (i == o.head.end()) { say(std::string("nlcg.out does not give the parameter ") + k); return; }
    if (!Report::num(i->second, v) || !near(v, want, 1e-3, 1e-13)) say(fmt("nlcg.out gives %s = %s, the run uses %.6g", k, i->second.c_str(), want));
  };
  head("T", c.T); head("maxiter", c.maxiter); head("tol", c.tol); head("kappa", c.kappa); head("tau", c.tau); head("restart", c.restart); head("num electrons", c.ne);
  static const char* nm[] = {"fermi", "spline", "gauss", "methfessel", "cold"};
  std::string sm = o.head.count("smearing") ? o.head["smearing"] : "";
  for (auto& ch : sm) ch = tolower(ch);
  if (c.sm >= 0 && c.sm < 5) {
    bool hit = sm.find(nm[c.sm]) != std::string::npos;
    if (c.sm == 2 && sm.find("spline") != std::string::npos) hit = false;
    if (!hit) say("nlcg.out names another smearing: " + sm);
  }
  for (int q = 0; q < 2; ++q) {
    const Report& r = q ? s : o;
    const char* w = q ? "standard output" : "nlcg.out";
    if ((int)r.it.size() != n) { say(fmt("%s reports %zu iterations, %d were made", w, r.it.size(), n)); return; }
    for (int i = 0; i < n; ++i) {
      auto& e = r.it[i];
      if (e.i != i) { say(fmt("%s: line %d of the report is numbered %d", w, i, e.i)); return; }
      int a = accepted(t, i);
      double E = rec(t, i, "EKS"), mu = rec(t, i, "fermi_energy");
      if (a >= 1) { E = t.ev[a].Eret; mu = t.ev[a].mu; }
      struct { const char* k; double got, want; } v[] = {{"free energy", e.F, rec(t, i, "F")}, {"slope", e.slope, rec(t, i, "slope_x")}, {"entropy term", e.S, rec(t, i, "entropy")}, {"Fermi energy", e.mu, mu}, {"KS energy", e.E, E}};
      for (auto& z : v) if (!near(z.got, z.want, 1e-11, 1e-12)) { say(fmt("%s, iteration %d: %s %.14g, should be %.14g", w, i, z.k, z.got, z.want)); return; }
      x.count(C_recs);
    }
    if (r.success != t.info.converged) { say(fmt("%s %s, the result is%s converged", w, r.success ? "reports success" : "does not report success", t.info.converged ? "" : " not")); return; }
    if (r.success && !(near(r.F, t.info.F, 1e-11, 1e-12) && near(r.S, t.info.S, 1e-11, 1e-12) && near(r.E, t.info.F - t.info.S, 1e-11, 1e-12))) { say(fmt("%s: closing report F %.14g, entropy term %.14g, KS energy %.14g; result F %.14g, entropy term %.14g", w, r.F, r.S, r.E, t.info.F, t.info.S)); return; }
    if (r.after) { say(fmt("%s: iterations after the closing line", w)); return; }
  }
  if (t.info.converged && o.error) say("a converged run reports an error in nlcg.out");
  if (!t.info.converged && n < c.maxiter && !o.error) say("a run that ended without convergence before the iteration limit reports no error in nlcg.out");
  if (t.nprint != n) say(fmt("the host was asked %ld times to print its information, %d iterations were reported", t.nprint, n));
}

static void o_C15(const Trace& t, Ctx& x, const Say& say)
{
  const Cfg& c = t.cfg;
  int n = t.recs.size();
  if (t.exc == 4) return;
  if (t.json_bad) { say("nlcg.json is not a sequence of complete JSON records"); return; }
  if (t.exc == 1 && expects_error(c)) return;
  int prev = 0;
  for (size_t e = 0; e < t.ev.size(); ++e) {
    auto& v = t.ev[e];
    if (v.tail) { say(fmt("a record is incomplete in the file when the host is evaluated (evaluation %zu)", e)); return; }
    if (e < 2 && v.nrec != 0) { say(fmt("%d records in the file before the first iteration", v.nrec)); return; }
    if (v.nrec < prev || v.nrec > prev + 1) { say(fmt("number of records jumps from %d to %d (evaluation %zu)", prev, v.nrec, e)); return; }
    if (e >= 2 && v.nrec < 1) { say(fmt("evaluation %zu of a line search before its iterate is in the log", e)); return; }
    prev = v.nrec;
  }
  if (t.exc == 3) { if (n != prev && n != prev + 1) say("records appear after the last evaluation"); }
  Lock L(t);
  if (t.exc != 3) { L.run(); x.count(C_locked, L.li.evals); }
  for (int i = 0; i < n; ++i) {
    x.count(C_recs);
    const json& r = t.recs[i];
    if (!r.is_object()) { say("record is not an object"); return; }
    if (!(rec(t, i, "step") == i)) { say(fmt("record %d carries step number %g", i, rec(t, i, "step"))); return; }
    int a = accepted(t, i);
    if (a < 1) continue;
    auto& v = t.ev[a];
    if (!(rec(t, i, "EKS") == v.Eret)) { say(fmt("record %d: host energy %.14g, host reported %.14g", i, rec(t, i, "EKS"), v.Eret)); return; }
    if (!(std::abs(rec(t, i, "fermi_energy") - v.mu) <= 1e-12 * std::max(1.0, std::abs(v.mu)))) { say(fmt("record %d: Fermi energy %.14g, host has %.14g", i, rec(t, i, "fermi_energy"), v.mu)); return; }
    double S = rec(t, i, "entropy"), F = rec(t, i, "F");
    if (!(std::abs(F - v.Eret - S) <= 1e-10 * std::max(1.0, std::abs(F)))) { say(fmt("record %d: F is not energy plus entropy term", i)); return; }
    const std::vector<Vec>* ek = a == 1 ? &t.ev[0].ek : (a < (int)L.li.ek.size() && !L.li.ek[a].empty() ? &L.li.ek[a] : nullptr);
    double Sr = ek ? entropy_ek(t, *ek, v.mu) : monotone(c.sm) ? entropy_f(t, v) : NAN;
    if (std::isfinite(Sr) && !(std::abs(S - Sr) <= 1e-6 * std::max(1.0, std::abs(Sr)))) { say(fmt("record %d: entropy term %.12g, state has %.12g", i, S, Sr)); return; }
    if (!std::isfinite(rec(t, i, "slope_x"))) { say(fmt("record %d has no slope", i)); return; }
    if (!r.contains("ks_energy_comps") || !r["ks_energy_comps"].is_object() || r["ks_energy_comps"].size() != v.comp.size()) { say(fmt("record %d: energy components missing", i)); return; }
    for (auto& kv : v.comp) if (!r["ks_energy_comps"].contains(kv.first) || !(r["ks_energy_comps"][kv.first].get<double>() == kv.second)) { say(fmt("record %d: energy component %s is not the host's", i, kv.first.c_str())); return; }
    bool want = i % 10 == 0;
    for (const char* nm : {"eta", "fn"}) {
      if (want != (r.contains(nm) && r[nm].is_array())) { say(fmt("record %d: %s %s", i, nm, want ? "missing" : "unexpected")); return; }
      if (!want) continue;
      std::set<key_t2> seen;
      for (auto& en : r[nm]) {
        key_t2 k{en.value("ik", INT32_MIN), en.value("ispn", INT32_MIN)};
        int q = -1;
        for (size_t j = 0; j < t.loc.size(); ++j) if (t.pr.key[t.loc[j]] == k) q = j;
        if (q < 0) { say(fmt("record %d: %s for unknown k-point", i, nm)); return; }
        seen.insert(k);
        auto val = en["value"].get<std::vector<double>>();
        bool isf = std::string(nm) == "fn";
        if (!isf && !ek) continue;
        const Vec& w = isf ? v.f[q] : (*ek)[q];
        if (val.size() != w.size()) { say(fmt("record %d: %s has the wrong length", i, nm)); return; }
        for (size_t j = 0; j < w.size(); ++j) if (!(std::abs(val[j] - w[j]) <= (isf ? 1e-12 : 1e-6 * std::max(1.0, std::abs(w[j]))))) { say(fmt("record %d: %s of k-point (%d,%d) band %zu is %.12g, state has %.12g", i, nm, k.first, k.second, j, val[j], w[j])); return; }
      }
      if (seen.size() != t.loc.size()) { say(fmt("record %d: %s for %zu of %zu k-points", i, nm, seen.size(), t.loc.size())); return; }
    }
  }
  for (auto& f : L.out) if (f.prop == "C06") { say(f.msg); return; }
  if (t.returned) {
    if (n && t.info.iter != n - 1) say("number of records does not match the iterations reached");
    int searches = prev;
    if (searches > n) say("line search without a record");
    if (!t.json_exists && n == 0 && c.maxiter > 0) say("no step log written");
  }
}

static void o_C17(const Trace& t, Ctx& x, const Say& say)
{
  const Cfg& c = t.cfg;
  if (t.exc == 4) return;
  int n = t.recs.size();
  Lock L(t);
  L.run();
  x.count(C_locked, L.li.evals);
  auto refS = [&](int a) { const std::vector<Vec>* ek = a == 1 ? &t.ev[0].ek : (a < (int)L.li.ek.size() && !L.li.ek[a].empty() ? &L.li.ek[a] : nullptr); return ek ? entropy_ek(t, *ek, t.ev[a].mu) : monotone(c.sm) ? entropy_f(t, t.ev[a]) : NAN; };
  for (int i = 0; i < n; ++i) {
    x.count(C_recs);
    int a = accepted(t, i);
    if (a < 1) continue;
    auto& v = t.ev[a];
    double S = rec(t, i, "entropy"), F = rec(t, i, "F"), Sr = refS(a);
    if (!(std::abs(F - (v.Eret + S)) <= 1e-11 * std::max(1.0, std::abs(F)))) { say(fmt("iteration %d: F=%.14g is not host energy %.14g plus entropy term %.14g", i, F, v.Eret, S)); return; }
    double tol = (a == 1 ? 1e-10 : 1e-6) * std::max(1.0, std::abs(Sr));
    if (std::isfinite(Sr) && !(std::abs(S - Sr) <= tol)) { say(fmt("iteration %d: entropy term %.14g, smearing entropy of the state is %.14g", i, S, Sr)); return; }
    if (!(rec(t, i, "EKS") == v.Eret)) { say(fmt("iteration %d: logged host energy %.14g, host reported %.14g", i, rec(t, i, "EKS"), v.Eret)); return; }
    if (!(std::abs(rec(t, i, "fermi_energy") - v.mu) <= 1e-12 * std::max(1.0, std::abs(v.mu)))) { say(fmt("iteration %d: Fermi energy %.14g, host has %.14g", i, rec(t, i, "fermi_energy"), v.mu)); return; }
    if (t.recs[i].contains("ks_energy_comps")) for (auto& kv : v.comp) if (!t.recs[i]["ks_energy_comps"].contains(kv.first) || !(t.recs[i]["ks_energy_comps"][kv.first].get<double>() == kv.second)) { say(fmt("iteration %d: energy component %s is not the host's", i, kv.first.c_str())); return; }
  }
  if (t.returned && t.ev.size() >= 2) {
    int a = n == 0 ? 1 : accepted(t, n - 1);
    double Sr = refS(a);
    if (!(std::abs(t.info.F - t.ev[a].Eret - t.info.S) <= 1e-11 * std::max(1.0, std::abs(t.info.F)))) say(fmt("returned F=%.14g is not host energy %.14g plus returned entropy term %.14g", t.info.F, t.ev[a].Eret, t.info.S));
    if (std::isfinite(Sr) && !(std::abs(t.info.S - Sr) <= (a == 1 ? 1e-10 : 1e-6) * std::max(1.0, std::abs(Sr)))) say(fmt("returned entropy term %.14g, state has %.14g", t.info.S, Sr));
  }
  // free energies compared by the line search: decisions agree with reference F (C02/C14 findings mean a wrong comparison)
}

static void o_C18(const Trace& t, Ctx& x, const Say& say, bool must)
{
  (void)x;
  const Cfg& c = t.cfg;
  if (!t.returned) { say("run failed: " + t.what); return; }
  if (!t.info.converged) { if (must) say(fmt("no convergence within %d iterations (last slope %.3g)", c.maxiter, t.info.tolerance)); return; }
  int n = t.recs.size(), a = accepted(t, n - 1);
  auto& v = t.ev[a];
  auto& p = t.pr;
  // Hamiltonian of the final density
  Vec rho(p.nrho, 0.0);
  for (size_t i = 0; i < t.loc.size(); ++i) { int q = t.loc[i]; auto& X = t.Xf[i]; for (int j = 0; j < X.n; ++j) for (int k = 0; k < X.m; ++k) rho[k] += p.w[q] * t.ff[i][j] * std::norm(X(k, j)); }
  std::vector<Vec> ek;
  std::vector<Mat> V;
  for (size_t i = 0; i < t.loc.size(); ++i) {
    int q = t.loc[i];
    Mat H = p.H0[q];
    for (int k = 0; k < H.n; ++k) H(k, k) += c.g * rho[k];
    Mat Si = invsqrt(p.S[q]);
    Mat Hs = mul(Si, mul(H, Si)), U;
    Vec w;
    eigh(Hs, w, U);
    Vec e(w.begin(), w.begin() + p.b[q]);
    Mat W(p.n[q], p.b[q]);
    Mat SU = mul(Si, U);
    for (int k = 0; k < p.n[q]; ++k) for (int j = 0; j < p.b[q]; ++j) W(k, j) = SU(k, j);
    ek.push_back(e);
    V.push_back(W);
  }
  // chemical potential by bisection
  double lo = 1e9, hi = -1e9;
  for (auto& e : ek) for (double z : e) { lo = std::min(lo, z); hi = std::max(hi, z); }
  lo -= 50 * p.kT + 1; hi += 50 * p.kT + 1;
  for (int it = 0; it < 200; ++it) {
    double m = 0.5 * (lo + hi), N = 0;
    for (size_t i = 0; i < ek.size(); ++i) for (double z : ek[i]) N += p.w[t.loc[i]] * s_f(c.sm, (m - z) / p.kT, c.mo);
    (N < c.ne ? lo : hi) = m;
  }
  double mu = 0.5 * (lo + hi), acc = std::sqrt(c.tol);
  double dm = 0, df = 0;
  for (size_t i = 0; i < ek.size(); ++i) {
    Vec f;
    for (double z : ek[i]) f.push_back(s_f(c.sm, (mu - z) / p.kT, c.mo));
    dm = std::max(dm, diff(mul(colscale(V[i], f), herm(V[i])), mul(colscale(t.Xf[i], t.ff[i]), herm(t.Xf[i]))));
    Vec a1 = f, b1 = t.ff[i];
    std::sort(a1.begin(), a1.end()); std::sort(b1.begin(), b1.end());
    for (size_t j = 0; j < a1.size(); ++j) df = std::max(df, std::abs(a1[j] - b1[j]));
  }
  if (getenv("WDEBUG")) fprintf(stderr, "C18 dm %.3g df %.3g iter %d acc %.3g muF %.3g\n", dm, df, t.info.iter, acc, std::abs(mu - v.mu));
  if (!(dm <= 100 * acc)) { say(fmt("converged state is not the smeared ground state of its own Hamiltonian: density matrix deviates by %.3g", dm)); return; }
  if (!(df <= 100 * acc)) { say(fmt("occupations of the converged state deviate by %.3g from the smeared spectrum", df)); return; }
  if (c.g == 0) {
    double Fx = 0;
    for (size_t i = 0; i < ek.size(); ++i) for (double z : ek[i]) Fx += p.w[t.loc[i]] * (s_f(c.sm, (mu - z) / p.kT, c.mo) * z - p.kT * s_s(c.sm, (mu - z) / p.kT, c.mo));
    if (getenv("WDEBUG")) fprintf(stderr, "   dF %.3g\n", t.info.F - Fx);
    if (!(std::abs(t.info.F - Fx) <= 1e4 * c.tol + 1e-9 * std::max(1.0, std::abs(Fx)))) say(fmt("converged free energy %.12g, exact minimum %.12g", t.info.F, Fx));
  }
}

// C06: derivative extrapolated from provoked backtracking evaluations of line search r
static void probe(const Cfg& c0, int r, Ctx& x, const Say& say)
{
  Cfg c = c0;
  c.maxiter = r + 1;
  Trace h = exec(c, x);
  int e0 = -1;
  for (size_t e = 0; e < h.ev.size(); ++e) if (h.ev[e].nrec == r + 1) { e0 = e; break; }
  if (e0 < 0 || (int)h.recs.size() <= r) { x.count(C_skip); return; }
  c.lies = std::to_string(e0) + "+h";
  Trace t = exec(c, x);
  double slope = rec(t, r, "slope_x");
  int a = accepted(t, r);
  if (!std::isfinite(slope) || a < 1 || (int)t.recs.size() <= r) { say("slope is not logged"); return; }
  Lock L(t);
  L.run();
  std::vector<int> ev;
  for (size_t e = 0; e < t.ev.size(); ++e) if (t.ev[e].nrec == r + 1) ev.push_back(e);
  // evaluations: trial 0.2, quadratic minimum, backtracking 0.2 tau^j ..., 0
  auto F = [&](int e) {
    if (e == 1) return t.ev[1].E + entropy_ek(t, t.ev[0].ek, t.ev[1].mu);
    if (e < (int)L.li.ek.size() && !L.li.ek[e].empty()) return t.ev[e].E + entropy_ek(t, L.li.ek[e], t.ev[e].mu);
    if (monotone(c.sm)) return t.ev[e].E + entropy_f(t, t.ev[e]);
    return (double)NAN;
  };
  if (ev.size() < 6) { x.count(C_skip); return; }
  auto count = [&](int e) { double N = 0; for (size_t i = 0; i < t.ev[e].f.size(); ++i) for (double f : t.ev[e].f[i]) N += t.pr.w[t.loc[i]] * f; return N; };
  if (!(std::abs(count(a) - c.ne) <= 1e-9)) { x.count(C_skip); return; } // only Methfessel-Paxton and cold smearing get here (C04)
  double F0 = F(a);
  std::vector<double> D, T;
  double tb = 0.2;
  for (size_t k = 2; k + 1 < ev.size() && tb > 1e-8; ++k, tb *= c.tau) { double f = F(ev[k]); if (tb > 2e-6 && std::isfinite(f) && std::abs(count(ev[k]) - c.ne) <= 1e-9) { D.push_back((f - F0) / tb); T.push_back(tb); } }
  if (D.size() < 4) { x.count(C_skip); return; }
  // Neville extrapolation to t=0 over windows of 4 points; keep the window with the smallest spread
  double best = NAN, err = INFINITY;
  for (size_t s = 0; s + 4 <= D.size(); ++s) {
    double q[4], prev = 0;
    for (int i = 0; i < 4; ++i) q[i] = D[s + i];
    for (int m = 1; m < 4; ++m) { if (m == 3) prev = q[1]; for (int i = 0; i + m < 4; ++i) q[i] = (T[s + i] * q[i + 1] - T[s + i + m] * q[i]) / (T[s + i] - T[s + i + m]); }
    double e = std::abs(q[0] - prev) + 4e-15 * std::max(1.0, std::abs(F0)) / T[s + 3];
    if (e < err) { err = e; best = q[0]; }
  }
  x.count(C_probe);
  if (getenv("WDEBUG")) fprintf(stderr, "probe r %d slope %.10g fd %.10g err %.3g\n", r, slope, best, err);
  if (!(std::abs(best - slope) <= 2e-4 * std::abs(slope) + 20 * err + 1e-9)) say(fmt("iteration %d: logged slope %.12g, derivative of the free energy along the search curve is %.12g (+-%.2g)", r, slope, best, err));
  for (auto& f : L.out) if (f.prop == "C06") { say(f.msg); return; }
}

// comparison of two runs by logical k-point
static void compare(const Trace& a, const Trace& b, int maxrec, double tol, const Say& say, bool map = true)
{
  if (a.returned != b.returned || a.exc != b.exc) { say("outcomes differ: " + (a.returned ? std::string("returned") : a.what) + " / " + (b.returned ? std::string("returned") : b.what)); return; }
  size_t n = std::min(a.ev.size(), b.ev.size());
  for (size_t e = 0; e < n; ++e) {
    auto &u = a.ev[e], &v = b.ev[e];
    if (std::max(u.nrec, v.nrec) > maxrec) return;
    if (u.nrec != v.nrec) { say(fmt("evaluation %zu belongs to different iterations", e)); return; }
    double tl = e <= 2 ? tol : 1e3 * tol * std::pow(10.0, u.nrec); // rounding of the quadratic model and of the electron count is amplified by each step
    bool nonfin = (std::isnan(u.Eret) && std::isnan(v.Eret)) || u.Eret == v.Eret;
    if (!nonfin && !(std::abs(u.Eret - v.Eret) <= tl * std::max(1.0, std::abs(u.Eret)))) { say(fmt("evaluation %zu: host energies differ by %.3g", e, u.Eret - v.Eret)); return; }
    for (size_t j = 0; j < b.loc.size(); ++j) {
      int q = b.loc[j];
      if (q >= a.pr.np) q = b.cfg.split % (b.cfg.nk * b.cfg.ns); // copy of a split point
      size_t i = 0;
      while (i < a.loc.size() && a.loc[i] != q) ++i;
      if (i == a.loc.size()) { say("internal: point not found"); return; }
      Mat Pa = mul(colscale(u.X[i], u.f[i]), herm(u.X[i])), Pb = mul(colscale(v.X[j], v.f[j]), herm(v.X[j]));
      double d = diff(Pa, Pb);
      if (!(d <= tl * 10)) { say(fmt("evaluation %zu: states of logical k-point %d differ by %.3g", e, q, d)); return; }
      for (size_t k = 0; k < u.f[i].size(); ++k) if (!(std::abs(u.f[i][k] - v.f[j][k]) <= tl * 10)) { say(fmt("evaluation %zu: occupations of logical k-point %d differ", e, q)); return; }
    }
    if (e > 0 && !(std::abs(u.mu - v.mu) <= 1e-6 * std::max(1.0, std::abs(u.mu)))) { say(fmt("evaluation %zu: chemical potentials differ", e)); return; }
  }
  for (int i = 0; i < maxrec && i < (int)std::max(a.recs.size(), b.recs.size()); ++i) for (const char* k : {"F", "slope_x", "entropy"}) {
    double u = rec(a, i, k), v = rec(b, i, k), tl = (i ? 1e4 * std::pow(10.0, i) : 10) * tol * std::max(1.0, std::abs(u));
    if (!(std::abs(u - v) <= tl)) { say(fmt("iteration %d: %s differs: %.12g / %.12g", i, k, u, v)); return; }
  }
  if (a.returned && (int)a.recs.size() <= maxrec && !(std::abs(a.info.F - b.info.F) <= 1e-6 * std::max(1.0, std::abs(a.info.F)))) say("returned free energies differ");
  // logged arrays carry the labels of the corresponding points
  if (!b.recs.empty() && !a.recs.empty()) for (const char* nm : {"eta", "fn"}) {
    auto& ra = a.recs[0];
    auto& rb = b.recs[0];
    if (!ra.contains(nm) || !rb.contains(nm)) continue;
    for (size_t j = 0; j < b.loc.size(); ++j) {
      int q = b.loc[j], qa = q >= a.pr.np ? b.cfg.split % (b.cfg.nk * b.cfg.ns) : q;
      auto find = [&](const json& r, key_t2 k) { for (auto& e : r[nm]) if (e.value("ik", INT32_MIN) == k.first && e.value("ispn", INT32_MIN) == k.second) return e["value"].get<std::vector<double>>(); return std::vector<double>(); };
      auto va = find(ra, a.pr.key[qa]), vb = find(rb, b.pr.key[q]);
      if (va.size() != vb.size() || vb.empty()) { say(fmt("log record 0: %s missing for logical k-point %d", nm, q)); return; }
      for (size_t k = 0; k < va.size(); ++k) if (!(std::abs(va[k] - vb[k]) <= 1e-8 * std::max(1.0, std::abs(va[k])))) { say(fmt("log record 0: %s of logical k-point %d differs", nm, q)); return; }
    }
  }
  (void)map;
}
static Cfg canonical(Cfg c) { c.lc = c.lh = 0; c.vs = 1; c.o1 = c.o2 = c.o3 = c.o4 = 0; c.lab = 0; c.split = -1; return c; }

// bitwise digest of everything observable
static uint64_t digest(const Trace& t)
{
  uint64_t h = 7;
  auto d = [&](double v) { uint64_t b; memcpy(&b, &v, 8); h = ex::mix(h, std::isnan(v) ? 1 : b); };
  for (auto& e : t.ev) { for (auto& X : e.X) for (auto& z : X.a) { d(z.real()); d(z.imag()); } for (auto& f : e.f) for (double v : f) d(v); d(e.Eret); d(e.mu); h = ex::mix(h, e.nrec); }
  if (t.returned) { d(t.info.F); d(t.info.S); d(t.info.tolerance); h = ex::mix(h, t.info.iter); h = ex::mix(h, t.info.converged); }
  h = ex::mix(h, t.exc * 2 + t.returned);
  for (char ch : t.what) h = ex::mix(h, ch);
  if (!t.ev.empty()) for (char ch : t.raw) h = ex::mix(h, ch); // a rejected call writes no log
  for (auto& v : t.viol) for (char ch : v) h = ex::mix(h, ch);
  return h;
}
struct SeqRes { uint64_t h; int exc, returned, nev, nrec; long evals; };
__attribute__((noinline, no_sanitize("address", "undefined"))) static void smear_stack(int byte)
{
  volatile char b[400000];
  for (size_t i = 0; i < sizeof b; ++i) b[i] = (char)byte;
}
// run a sequence in a fresh process; result of the last call; fill: contents of fresh heap and stack memory
static bool seq(const std::vector<Cfg>& v, SeqRes& out, int fill = -1)
{
  int p[2];
  if (pipe(p)) return false;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    SeqRes r{};
    ::unlink("nlcg.json"); ::unlink("nlcg.out");
    if (v[0].env) putenv_(v[0].env);
    if (fill >= 0) mallopt(M_PERTURB, fill ^ 0xff);
    for (size_t i = 0; i < v.size(); ++i) {
      if (fill >= 0) smear_stack(fill);
      Trace t = run(v[i]);
      r.evals += t.ev.size();
      r.h = digest(t); r.exc = t.exc; r.returned = t.returned; r.nev = t.ev.size(); r.nrec = t.recs.size();
    }
    if (write(p[1], &r, sizeof r) != sizeof r) _exit(3);
    _exit(0);
  }
  close(p[1]);
  ssize_t n = 0;
  pollfd pf{p[0], POLLIN, 0};
  if (poll(&pf, 1, 60000) > 0) n = read(p[0], &out, sizeof out);
  else kill(pid, SIGKILL);
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  return n == sizeof out && WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

// ------------------------------------------------------------------ bounded families
static const int SZ[][4] = {{4, 2, 1, 1}, {5, 3, 2, 1}, {4, 2, 1, 2}, {5, 3, 3, 1}, {6, 4, 2, 2}, {3, 1, 1, 1}, {4, 4, 1, 1}, {4, 2, 4, 1}};
static Cfg member(int size, int sm, int r)
{
  Cfg c;
  auto z = SZ[size % 8];
  c.ng = z[0]; c.nb = z[1]; c.nk = z[2]; c.ns = z[3];
  c.sm = sm;
  int i = r * 7 + size * 3 + sm;
  auto pick = [&](std::initializer_list<double> l, int st) { return *(l.begin() + (unsigned(i / st + i * st) % l.size())); };
  c.mo = c.ns == 2 ? 1 : (i % 4 == 3 ? 1 : 2);
  c.sk = int(pick({1, 2, 0}, 1));
  c.pk = int(pick({1, 2, 4, 0}, 3));
  c.hk = int(pick({1, 2, 1}, 5));
  c.wk = int(pick({1, 0, 2}, 2));
  c.T = pick({4000, 12000, 40000, 2000}, 4);
  c.g = pick({0.3, 0, 1}, 6);
  c.kappa = pick({0.3, 0.1, 1.0}, 7);
  c.tau = pick({0.1, 0.5, 0.3}, 8);
  c.restart = int(pick({5, 2, 3, 20, 1}, 9));
  c.shift = pick({0, -5, 3, 0}, 10);
  c.vg = int(pick({0, 1}, 11));
  c.vb = int(pick({0, 1, 0}, 12));
  c.spec = int(pick({0, 2, 0, 1}, 13));
  c.x0 = 0;
  c.seed = 1 + r;
  int cap = c.mo * c.nb * c.ns;
  c.ne = std::max(1, cap / 2 + int(pick({0, 1, 0, -1}, 14)));
  if (c.ne >= cap) c.ne = std::max(1, cap - 1);
  return c;
}
// larger systems and many k-points: thresholds in the code that small systems never reach
static const int BZ[][4] = {{24, 12, 1, 1}, {8, 5, 11, 1}, {40, 17, 1, 1}, {6, 3, 6, 2}, {90, 3, 1, 1}, {4, 2, 17, 2}, {36, 34, 2, 1}, {70, 33, 1, 1}, {5, 1, 40, 1}};
static const int NBIG = 9;
static Cfg big(int z, int sm, int r)
{
  Cfg c = member(z, sm, r);
  auto s = BZ[z % NBIG];
  c.ng = s[0]; c.nb = s[1]; c.nk = s[2]; c.ns = s[3];
  c.mo = c.ns == 2 ? 1 : (z + sm + r) % 3 == 2 ? 1 : 2;
  c.spread = 6.0 / c.ng;
  if (c.T < 4000) c.T = 4000;
  c.x0 = 0; c.spec = 0; c.split = -1; c.shift = 0;
  int cap = c.mo * c.nb * c.ns;
  c.ne = std::max(1, cap / 2 + (r % 3) - 1);
  if (c.ne >= cap) c.ne = std::max(1, cap - 1);
  c.seed = 100 + r;
  return c;
}
