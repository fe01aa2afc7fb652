// C02: the real line-search template against every sequence of energy answers; C04: the Newton search for
// the chemical potential against every sequence of answers for the electron count and its derivatives.
#include "linesearch/linesearch.hpp"
#include "dft/newton_minimization_smearing.hpp"
#include "explore.hpp"
#include "mpi_shim.hpp"
#include <cstdarg>
#include <map>
#include <sstream>

using namespace nlcglib;
using ex::Ctx;
static int C_runs = ex::ctr("searches"), C_evals = ex::ctr("energy_answers"), C_acc = ex::ctr("accepted_steps"), C_bt = ex::ctr("backtracking_searches"), C_fail = ex::ctr("failed_searches"), C_err = ex::ctr("rejected_with_error"), C_skip = ex::ctr("rounding_sensitive");
static std::string TIER = "quick", PROP;
static bool thorough() { return TIER == "thorough"; }
static std::string fmt(const char* f, ...) { char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

struct TooMany {};
struct Bad { std::string m; };
struct Setup { double F0, slope, t0, tau; bool fr; std::string trial, pred, back; };
static Setup setup(int f, int s, int t, int tau, int fr, int al)
{
  static const double F[] = {0, -7.25, 1e5}, S[] = {-1, -1e-6, -300, 1e-9, 2}, T[] = {0.2, 1.0}, U[] = {0.1, 0.3, 0.5, 0.95, 1e-9, 0.001, 1.0, 1.5};
  // answers at trial points, at the predicted minimum, while backtracking
  static const char* A[][3] = {{"ptqzncIi", "<=>hnic", "<=>ni"}, {"pn", ">n", "<>n"}, {"ptqzcn", "<>", "<>"}, {"c", ">", ">"}, {"n", ">", ">"}, {"ptqzncIi", "<=>hnic", "<>n"}, {"ptqzncIi", "<=>hnic", "<=>n"}};
  return {F[f], S[s], T[t], U[tau], fr != 0, A[al][0], A[al][1], A[al][2]};
}
// environment: answers by choice index; the stage follows from the answers given so far
struct Env
{
  const Setup& s;
  std::vector<int>& path;     // choices
  std::vector<int> width;     // number of alternatives at each choice
  int stage = 0;              // 0 trial, 1 predicted minimum, 2 backtracking, 3 done
  size_t n = 0;
  int ncurv = 0;
  bool fuzzy = false;         // curvature within rounding of zero
  double F, tlast = -1, texp, tpred = 0;
  std::string hist;
  bool accepted = false, zero = false;
  long calls = 0;
  double Fl = 0;
  Env(const Setup& s, std::vector<int>& path) : s(s), path(path), F(s.F0), texp(s.t0) {}
  double get_F() const { return F; }
  int pick(int w)
  {
    if (n == path.size()) path.push_back(0);
    width.push_back(w);
    return path[n++];
  }
  static bool near(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b)); }
  void answer(double t)
  {
    if (++calls > 3000) throw TooMany();
    if (!std::isfinite(t)) throw Bad{fmt("a step of length %g is tried", t)};
    tlast = t;
    hist += fmt(" %.4g", t);
    if (accepted) throw Bad{"the search goes on after a step that lowers the energy"};
    if (fuzzy) { F = s.F0 + 1; return; }
    if (stage == 0) {
      if (ncurv == 0 ? !near(t, s.t0) : !(t > texp * 1.0001)) throw Bad{fmt("trial step %g, expected %s%g", t, ncurv ? "more than " : "", texp)};
      std::string al = s.trial;
      if (ncurv >= 3 && al.size() > 1) { std::string q; for (char c : al) if (c != 'c') q += c; al = q; }
      char c = al[pick(al.size())];
      if (t > 1e50) c = 'n';
      hist += c;
      texp = t;
      double m = c == 'p' ? 0.7 : c == 't' ? 0.01 : 3;
      switch (c) {
        case 'p': case 't': case 'q': F = s.F0 + s.slope * t - s.slope / (2 * m * t) * t * t; tpred = m * t; stage = 1; break;
        case 'c': F = s.F0 + 2 * s.slope * t; ++ncurv; if (!std::isfinite(F)) back(); break;
        case 'z': F = s.F0 + s.slope * t; fuzzy = true; break;
        case 'n': F = NAN; back(); break;
        case 'i': F = INFINITY; back(); break;
        case 'I': F = -INFINITY; back(); break;
      }
      // the model's minimum is known up to the rounding of the curvature
      if (stage == 1) { double a = (F - s.slope * t - s.F0) / (t * t), e = 4e-16 * (std::abs(F) + std::abs(s.F0) + std::abs(s.slope * t)) / (t * t); rel = e / std::abs(a) * 2 + 1e-9; tpred = -s.slope / (2 * a); if (rel > 0.3) fuzzy = true; }
      return;
    }
    if (stage == 1) {
      if (!near(t, tpred, rel)) throw Bad{fmt("step %g instead of the minimum %g of the quadratic model", t, tpred)};
      char c = s.pred[pick(s.pred.size())];
      hist += c;
      double d = std::max(1e-3, std::abs(s.F0) * 1e-3);
      switch (c) {
        case '<': F = s.F0 - d; accepted = true; break;
        case 'c': F = std::nextafter(s.F0, -1e300); accepted = true; break;
        case '=': F = s.F0; accepted = true; break;
        case '>': F = std::nextafter(s.F0, 1e300); back(); break;
        case 'h': F = s.F0 + d; back(); break;
        case 'n': F = NAN; back(); break;
        case 'i': F = INFINITY; back(); break;
      }
      return;
    }
    if (stage == 2) {
      if (zero) throw Bad{fmt("step %g is tried after the search has failed", t)};
      if (t == 0) {
        if (texp > 1.01e-8) throw Bad{fmt("backtracking gives up at %g", texp)};
        zero = true; F = s.F0; stage = 3;
        return;
      }
      if (!near(t, texp)) throw Bad{fmt("backtracking step %g instead of %g", t, texp)};
      if (t < 0.99e-8) throw Bad{fmt("backtracking does not end: step %g", t)};
      char c = s.back[pick(s.back.size())];
      hist += c;
      double d = std::max(1e-3, std::abs(s.F0) * 1e-3);
      switch (c) {
        case '<': F = s.F0 - d; accepted = true; break;
        case '=': F = s.F0; break;
        case '>': F = std::nextafter(s.F0, 1e300); break;
        case 'n': F = NAN; break;
        case 'i': F = INFINITY; break;
      }
      texp *= s.tau;
      return;
    }
    throw Bad{fmt("step %g is tried after the search has ended", t)};
  }
  double rel = 1e-9;
  void back() { stage = 2; texp = s.t0; }
};
// one search; returns the complaint
static std::string search(const Setup& s, std::vector<int>& path, std::vector<int>& width, Ctx& x, uint64_t& h)
{
  Env e(s, path);
  bool fr = s.fr;
  std::string err;
  int res = -1; // tag of the returned evaluation
  line_search ls;
  ls.t_trial = s.t0;
  ls.tau = s.tau;
  int tag = 0;
  auto g = [&](double t) { e.answer(t); return std::make_tuple(++tag, t); };
  int end = 0; // 1 normal, 2 DescentError, 3 SlopeError, 4 other error
  try {
    auto r = ls(g, e, s.slope, fr);
    res = std::get<0>(r);
    end = 1;
  } catch (DescentError&) { end = 2; }
  catch (SlopeError&) { end = 3; }
  catch (Bad& b) { err = b.m; }
  catch (TooMany&) { err = "the line search does not end"; }
  catch (std::exception&) { end = 4; }
  catch (...) { err = "unexpected kind of exception"; }
  width = e.width;
  x.count(C_runs); x.count(C_evals, e.calls);
  h = ex::mix(std::hash<std::string>()(e.hist), end * 2 + fr);
  auto bad = [&](const std::string& m) { return m + " [answers" + e.hist.substr(0, 300) + "]"; };
  if (!err.empty()) return bad(err);
  if (e.fuzzy) { x.count(C_skip); return ""; }
  if (s.slope > 0) { x.count(C_err); return end != 3 || e.calls ? bad("a direction of positive slope is followed") : ""; }
  if (end == 3) return bad("a descent direction is rejected");
  if (e.accepted) {
    x.count(C_acc);
    if (e.stage == 2) x.count(C_bt);
    if (end != 1) return bad("a successful search raises an error");
    if (res != tag) return bad("the result is not that of the accepted step");
    if (fr) return bad("a restart is requested after a successful search");
    return "";
  }
  if (s.tau >= 1) { x.count(C_err); return end == 4 ? "" : bad("a backtracking factor of 1 or more is not reported"); }
  x.count(C_fail);
  if (e.stage < 2) return bad("the search ends without backtracking");
  if (!e.zero) return bad("a failed search does not return to its starting point");
  if (s.fr) return end == 2 ? "" : bad("a second failure does not end the minimisation");
  if (end != 1) return bad("a first failure raises an error");
  if (res != tag) return bad("the result of a failed search is not the starting point");
  if (!fr) return bad("no restart is requested after a failed search");
  return "";
}

// ------------------------------------------------------------------ Newton search
struct NEnv
{
  std::vector<int>& path;
  std::vector<int> width;
  int tail, depth;
  double ne;
  size_t n = 0;
  long calls = 0;
  std::map<double, std::array<double, 3>> memo;
  std::string hist;
  NEnv(std::vector<int>& p, int tail, int depth, double ne) : path(p), tail(tail), depth(depth), ne(ne) {}
  double at(double mu, int k)
  {
    if (++calls > 20000) throw TooMany();
    if (!std::isfinite(mu)) { return k == 0 ? 0.0 : 0.0; }
    auto it = memo.find(mu);
    if (it == memo.end()) {
      static const double N[] = {0, 0.005, -0.02, 0.02, 1, -1, 1e-13}, D[] = {1, 1e-3, 0, 40}, D2[] = {0, 1, -30};
      std::array<double, 3> v;
      if ((int)n < depth) {
        if (n == path.size()) path.push_back(0);
        width.push_back(7 * 4 * 3);
        int c = path[n++];
        v = {ne + N[c % 7], D[c / 7 % 4], D2[c / 28]};
      } else if (tail == 0) v = {ne, 1, 0};
      else if (tail == 1) v = {ne + 1, 1, 0};
      else v = {ne - 0.005, 1e-9, 1e-3};
      it = memo.emplace(mu, v).first;
      hist += fmt(" %.3g:%.3g,%.3g,%.3g", mu, v[0] - ne, v[1], v[2]);
    }
    return it->second[k];
  }
};
static std::string newton(int tail, int depth, int variant, std::vector<int>& path, std::vector<int>& width, Ctx& x, uint64_t& h)
{
  static const double NE[] = {1, 7, 0.5}, MU[] = {0, -0.3, 12};
  double ne = NE[variant % 3], mu0 = MU[variant / 3 % 3];
  NEnv e(path, tail, depth, ne);
  int end = 0;
  double mu = NAN;
  std::string err;
  int maxstep = tail == 1 ? 6 : 40;
  try {
    mu = newton_minimization_chemical_potential([&](double m) { return e.at(m, 0); }, [&](double m) { return e.at(m, 1); }, [&](double m) { return e.at(m, 2); }, mu0, ne, 1e-10, maxstep);
    end = 1;
  } catch (TooMany&) { err = "the Newton search does not end"; }
  catch (std::exception&) { end = 2; }
  width = e.width;
  x.count(C_runs); x.count(C_evals, e.calls);
  h = ex::mix(std::hash<std::string>()(e.hist), end);
  if (end == 1) {
    x.count(C_acc);
    if (!std::isfinite(mu)) err = "the Newton search returns a chemical potential that is not finite";
    else if (!e.memo.count(mu)) err = "the Newton search returns a chemical potential it has not looked at";
    else if (std::abs(e.memo[mu][0] - ne) > 1.0001e-2) err = fmt("the Newton search returns a chemical potential with %g electrons too many", e.memo[mu][0] - ne);
  } else x.count(C_err);
  return err.empty() ? "" : err + " [" + e.hist.substr(0, 300) + "]";
}

// depth-first over all choices below the given prefix
static void explore(const std::string& cs, Ctx& x, const std::function<std::string(std::vector<int>&, std::vector<int>&, uint64_t&)>& one, std::vector<int> pre = {})
{
  std::vector<int> path = pre;
  long k = 0;
  for (;;) {
    std::vector<int> width;
    uint64_t h;
    std::string e = one(path, width, h);
    x.state(h);
    if ((++k & 0xfff) == 0) x.begin(cs);
    if (!e.empty()) { x.fail(cs, e); return; }
    path.resize(width.size());
    while (path.size() > pre.size() && path.back() + 1 >= width[path.size() - 1]) path.pop_back();
    if (path.size() <= pre.size()) return;
    path.back()++;
    if (x.stopped()) return;
  }
}
static void check_case(const std::string& cs, Ctx& x)
{
  x.begin(cs);
  std::istringstream is(cs);
  std::string k;
  int a[8] = {};
  is >> k;
  for (int i = 0; i < 8 && is >> a[i]; ++i) {}
  if (k == "L") {
    Setup s = setup(a[0], a[1], a[2], a[3], a[4], a[5]);
    explore(cs, x, [&](std::vector<int>& p, std::vector<int>& w, uint64_t& h) { auto e = search(s, p, w, x, h); h = ex::mix(h, std::hash<std::string>()(cs)); return e; }, (a[5] == 0 || a[5] == 6) && s.slope < 0 && !a[3] ? std::vector<int>{a[6]} : std::vector<int>{});
  } else
    explore(cs, x, [&](std::vector<int>& p, std::vector<int>& w, uint64_t& h) { return newton(a[0], a[1], a[2], p, w, x, h); }, a[1] > 2 ? std::vector<int>{a[3]} : std::vector<int>{});
  x.end();
}

int main(int argc, char** argv)
{
  std::string out, replay;
  ex::Opts o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") PROP = nx();
    else if (a == "--tier") TIER = nx();
    else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--scratch") o.scratch = nx();
    else if (a == "--budget") o.budget = atof(nx().c_str());
  }
  if (chdir(o.scratch.c_str())) return 2;
  shim::configure(1, 0, 1, 0);
  int so = dup(1), dn = ::open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  Logger::GetInstance().detach_stdout();
  o.hang = 200;
  bool whole = ex::task_replay(replay, TIER, o);
  o.tier = TIER;
  if (!replay.empty()) {
    Ctx x;
    check_case(replay, x);
    fflush(stdout);
    dup2(so, 1);
    for (auto& m : x.local) printf("FINDING %s\n", m.c_str());
    fflush(stdout);
    _exit(x.local.empty() ? 0 : 1);
  }
  std::vector<std::string> tasks;
  if (PROP == "C02") {
    for (int f = 0; f < 3; ++f) for (int s = 0; s < 5; ++s) for (int t = 0; t < 2; ++t) for (int fr = 0; fr < 2; ++fr) {
      if (thorough() || (f == 0 && s == 0 && t == 0)) for (int c = 0; c < (s == 4 ? 1 : 8); ++c) tasks.push_back(fmt("L %d %d %d 0 %d %d %d", f, s, t, fr, thorough() ? 0 : 6, c));
      else if ((f + s + t) % 3 == 0) tasks.push_back(fmt("L %d %d %d 0 %d 5", f, s, t, fr));
      tasks.push_back(fmt("L %d %d %d 0 %d 2", f, s, t, fr));
      if (thorough() || (f + s + t) % 3 == 1) tasks.push_back(fmt("L %d %d %d 1 %d 1", f, s, t, fr));
      for (int u : {2, 3}) for (int al : {3, 4}) tasks.push_back(fmt("L %d %d %d %d %d %d", f, s, t, u, fr, al));
      for (int u : {4, 5, 6, 7}) tasks.push_back(fmt("L %d %d %d %d %d 0", f, s, t, u, fr));
    }
  } else {
    for (int v = 0; v < 9; ++v) for (int tail = 0; tail < 3; ++tail) {
      tasks.push_back(fmt("N %d 2 %d", tail, v));
      if (thorough() || v % 4 == 0) for (int p = 0; p < 84; ++p) tasks.push_back(fmt("N %d 3 %d %d", tail, v, p));
    }
  }
  ex::json res = ex::explore(tasks.size(), [&](int i, Ctx& x) { check_case(tasks[i], x); if (i % 37 == 2) x.sample({{"case", tasks[i]}}); }, check_case, o);
  res["transitions"] = res["counters"]["energy_answers"].get<long>();
  res["traces"] = res["counters"]["searches"];
  if (whole) { dup2(so, 1); _exit(ex::report(res, 1)); }
  std::ofstream(out) << res.dump(1) << "\n";
  _exit(0);
}
