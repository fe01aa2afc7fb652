// C26: a whole life of the library in a process of its own: what the call may change of the process, and how
// the process ends.
#pragma once
#include "oracle.hpp"
#include <dirent.h>
#include <exception>
#include <fenv.h>
#include <locale.h>
#include <new>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
extern char** environ;

static int C_app = ex::ctr("operator_applications");
namespace life {
// everything of the process that belongs to the host
static std::vector<std::pair<std::string, std::string>> state(bool hooks)
{
  std::vector<std::pair<std::string, std::string>> s;
  auto put = [&](const char* k, const std::string& v) { s.push_back({k, v}); };
  put("the locale", std::string(setlocale(LC_ALL, nullptr)) + "/" + std::locale().name());
  put("the rounding mode", std::to_string(fegetround()));
  put("the floating-point traps", std::to_string(fegetexcept()));
  std::string sig;
  for (int i = 1; i < 32; ++i) { struct sigaction a; if (sigaction(i, nullptr, &a)) continue; sig += fmt("%d:%p:%x ", i, (void*)a.sa_sigaction, (unsigned)a.sa_flags); }
  put("a signal handler", sig);
  sigset_t m;
  sigprocmask(SIG_BLOCK, nullptr, &m);
  std::string ms;
  for (int i = 1; i < 32; ++i) ms += sigismember(&m, i) ? '1' : '0';
  put("the signal mask", ms);
  char cwd[4096];
  put("the working directory", getcwd(cwd, sizeof cwd) ? cwd : "?");
  mode_t um = umask(0);
  umask(um);
  put("the file mode mask", std::to_string(um));
  std::string env;
  for (char** e = environ; *e; ++e) env += std::string(*e) + "\n";
  put("the environment", env);
  auto st = [&](std::ios& o, const char* n) { put((std::string("the format of ") + n).c_str(), fmt("%lx %ld %ld %d %p %p %x %x", (long)o.flags(), (long)o.precision(), (long)o.width(), (int)o.fill(), (void*)o.rdbuf(), (void*)o.tie(), (unsigned)o.rdstate(), (unsigned)o.exceptions())); };
  st(std::cout, "standard output"); st(std::cerr, "standard error"); st(std::clog, "the log stream"); st(std::cin, "standard input");
  if (hooks) put("the terminate or new handler", fmt("%p %p", (void*)std::get_terminate(), (void*)std::get_new_handler()));
  std::string lim;
  for (int r : {RLIMIT_CORE, RLIMIT_STACK, RLIMIT_AS, RLIMIT_NOFILE, RLIMIT_DATA, RLIMIT_CPU}) { struct rlimit l; getrlimit((__rlimit_resource)r, &l); lim += fmt("%lx/%lx ", (long)l.rlim_cur, (long)l.rlim_max); }
  put("a resource limit", lim);
  int n = 0;
  if (DIR* d = opendir("/proc/self/task")) { while (readdir(d)) ++n; closedir(d); }
  put("the number of threads", std::to_string(n));
  put("the priority", std::to_string(getpriority(PRIO_PROCESS, 0)));
  std::set<std::string> fs;
  if (DIR* d = opendir(".")) { while (auto* e = readdir(d)) { std::string f = e->d_name; if (f != "nlcg.json" && f != "nlcg.out" && f.compare(0, 5, "life.")) fs.insert(f); } closedir(d); }
  std::string fl;
  for (auto& f : fs) fl += f + " ";
  put("the files of the working directory", fl);
  return s;
}
// arg: 0 as is, 1 no call at all, 2 a host with its own locale-independent stream formats, rounding flags and random numbers
static int child(const Case& k)
{
  std::string msg;
  long nev = 0;
  auto cmp = [&](const auto& a, const auto& b, const std::string& when) { for (size_t i = 0; i < a.size() && msg.empty(); ++i) if (a[i] != b[i]) msg = when + " changes " + a[i].first; };
  std::cout << std::hex << std::setprecision(3);
  std::cerr << std::uppercase;
  auto s0 = state(false);
  nlcglib::initialize();
  cmp(s0, state(false), "initialize()");
  auto s1 = state(true);
  if (k.arg != 1) {
    for (size_t i = 0; i < k.c.size(); ++i) {
      srand(5); srand48(5);
      int r0 = rand(); double d0 = drand48();
      srand(5); srand48(5);
      Trace t = run(k.c[i]);
      nev += t.ev.size();
      int r1 = rand(); double d1 = drand48();
      if (msg.empty() && (r0 != r1 || d0 != d1)) msg = "a call uses up the host's random numbers";
      cmp(s1, state(true), "a call");
      if (waitpid(-1, nullptr, WNOHANG) != -1 && msg.empty()) msg = "a call leaves a process behind";
    }
  }
  nlcglib::finalize();
  cmp(s0, state(false), "finalize()");
  std::cout.flush(); fflush(stdout);
  { FILE* f = fopen("life.n", "w"); fprintf(f, "%ld", nev); fclose(f); }
  if (!msg.empty()) { FILE* f = fopen("life.msg", "w"); fputs(msg.c_str(), f); fclose(f); }
  return 0;
}
static void check(const Case& k, Ctx& x, const Say& say)
{
  for (const char* f : {"nlcg.json", "nlcg.out", "life.msg", "life.err", "life.n"}) ::unlink(f);
  std::string cs = cstr(k);
  pid_t p = fork();
  if (p == 0) {
    int e = ::creat("life.err", 0600), n = ::open("/dev/null", O_RDWR);
    dup2(n, 0); dup2(n, 1); dup2(e, 2);
    for (int i = 3; i < 256; ++i) ::close(i);
    alarm(60);
    signal(SIGPIPE, SIG_DFL);
    execl("/proc/self/exe", "wrun", "--life", cs.c_str(), (char*)nullptr);
    _exit(99);
  }
  int st = 0;
  waitpid(p, &st, 0);
  x.count(C_runs, k.c.size());
  std::string err = slurp("life.err"), msg = slurp("life.msg");
  x.count(C_evals, atol(slurp("life.n").c_str()));
  x.state(ex::mix(std::hash<std::string>()(cs), st));
  for (char& c : err) if (c == '\n') c = ' ';
  if (!msg.empty()) say(msg);
  else if (WIFSIGNALED(st)) say(fmt("the process does not survive its end: signal %d %s", WTERMSIG(st), err.substr(0, 200).c_str()));
  else if (WEXITSTATUS(st)) say(fmt("the process ends with status %d %s", WEXITSTATUS(st), err.substr(0, 200).c_str()));
  else if (!err.empty()) say("messages on standard error: " + err.substr(0, 200));
}

// ------------------------------------------------------------------ C27: the self-check of the overlap operators
static double number(const std::string& s, const char* after)
{
  auto p = s.find(after);
  if (p == std::string::npos) return NAN;
  p += strlen(after);
  while (p < s.size() && (s[p] == ' ' || s[p] == '(' || s[p] == ':' || s[p] == '=')) ++p;
  return strtod(s.c_str() + p, nullptr);
}
// arg % 10: what the second operator is; distributed: the values of all ranks are expected
static const char* const INV[] = {"the inverse", "the identity", "twice the inverse", "zero", "the inverse of another operator", "the first operator"};
static std::vector<Mat> second(const Problem& p, int what)
{
  std::vector<Mat> r;
  for (auto& S : p.S) {
    Mat I = eye(S.n);
    Mat inv = solve(S, I);
    switch (what) {
      case 0: r.push_back(inv); break;
      case 1: r.push_back(I); break;
      case 2: r.push_back(lin(inv, 2, inv, 0)); break;
      case 3: r.push_back(lin(I, 0, I, 0)); break;
      case 4: { Mat J = I; for (int i = 0; i < J.n; ++i) J(i, i) = 1.0 + 0.5 * i; r.push_back(mul(J, inv)); break; }
      default: r.push_back(S); break;
    }
  }
  return r;
}
struct Wanted { double x = 0, sx = 0, tr = 0, err = 0; };
// owner: the rank of every block; rank >= 0: only the blocks of that rank
static Wanted wanted(const Problem& p, const std::vector<Mat>& V, const std::string& owner = "", int rank = -1)
{
  Wanted w;
  for (int q = 0; q < p.np; ++q) {
    if (rank >= 0 && owner[q] - '0' != rank) continue;
    Mat X = p.X0[q], SX = mul(p.S[q], X), D = lin(mul(V[q], SX), 1, X, -1);
    for (int i = 0; i < X.m; ++i) for (int j = 0; j < X.n; ++j) { w.x += std::norm(X(i, j)); w.sx += std::norm(SX(i, j)); w.tr += (std::conj(X(i, j)) * SX(i, j)).real(); w.err += std::norm(D(i, j)); }
  }
  w.x = std::sqrt(w.x); w.sx = std::sqrt(w.sx); w.err = std::sqrt(w.err);
  return w;
}
struct Report { std::string out; std::vector<std::string> viol; int nev = 0, exc = 0; std::string what; long napply = 0; bool changed = false; };
static Report overlap(const Cfg& c, int what, MPI_Comm comm, int rank, const std::string& fn);
static void judge(const Report& r, const Wanted& w, const Say& say, const Wanted* local = nullptr)
{
  // a rank may report on the k-points it has
  if (local) { bool bad = false; judge(r, *local, [&](const std::string&) { bad = true; }); if (!bad) return; }
  if (r.exc) { say("the self-check raises " + r.what); return; }
  for (auto& v : r.viol) { say(v); return; }
  if (r.nev) { say("the self-check makes the host compute"); return; }
  if (r.changed) { say("the self-check changes the host's wave functions, occupations or chemical potential"); return; }
  // six digits are printed
  auto near = [](double a, double b, double abs) { return std::abs(a - b) <= 2e-5 * std::max(std::abs(a), std::abs(b)) + abs; };
  double nx = number(r.out, "l2norm(X)"), ns = number(r.out, "l2norm(SX)"), tr = number(r.out, "tr(XSX)"), er = number(r.out, "error");
  double abs = 1e-12 * (1 + w.sx + w.x);
  if (!near(nx, w.x, abs)) say(fmt("norm of the wave functions is reported as %g, it is %g", nx, w.x));
  else if (!near(ns, w.sx, abs)) say(fmt("norm of S*X is reported as %g, it is %g", ns, w.sx));
  else if (!near(tr, w.tr, abs)) say(fmt("trace of X^H*S*X is reported as %g, it is %g", tr, w.tr));
  else if (!near(er, w.err, 1e-10 * (1 + w.sx + w.x))) say(fmt("the deviation of the second operator from the inverse of the first is reported as %g, it is %g", er, w.err));
}
}  // namespace life
namespace nlcglib { __attribute__((weak)) void nlcheck_overlap(EnergyBase& e, OverlapBase& s, OverlapBase& si); }
namespace life {
static Report overlap(const Cfg& c, int what, MPI_Comm comm, int rank, const std::string& fn)
{
  Report r;
  if (!nlcglib::nlcheck_overlap) { r.exc = 9; return r; }
  Trace t;
  t.cfg = c;
  t.pr = problem(c);
  Host h(t, comm, rank);
  auto V = second(t.pr, what);
  Op S(h, t.pr.S, "overlap"), Si(h, V, "second operator");
  std::vector<Mat> X0;
  for (auto& b : h.C) X0.push_back(b.get());
  auto f0 = h.curf;
  double mu0 = h.mu;
  {
    Capture cap(fn);
    try { nlcglib::nlcheck_overlap(h, S, Si); } catch (std::exception& e) { r.exc = 1; r.what = e.what(); } catch (...) { r.exc = 2; r.what = "an unknown exception"; }
    r.out = cap.stop();
  }
  h.check_canaries("by the self-check");
  for (size_t i = 0; i < X0.size(); ++i) { Mat A = h.C[i].get(); if (memcmp(A.a.data(), X0[i].a.data(), sizeof(cd) * A.m * A.n)) r.changed = true; }
  if (f0 != h.curf || mu0 != h.mu || h.fresh_fn) r.changed = true;
  r.viol = t.viol;
  for (auto& e : shim::errors) r.viol.push_back("MPI: " + e);
  shim::errors.clear();
  r.nev = t.ev.size();
  r.napply = t.napply;
  return r;
}
}  // namespace life
