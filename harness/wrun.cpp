// Whole-run explorer: executes the real minimiser against the model host for every configuration and
// every environment answer sequence of the stated bounds, and applies one property's oracle to each run.
#include "oracle.hpp"
#include "count.hpp"
#include "life.hpp"
#include <dirent.h>

static int nfds()
{
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
// ------------------------------------------------------------------ one case
static void check_case(const Case& k, Ctx& x, Trace* keep = nullptr)
{
  std::string cs = cstr(k);
  x.begin(cs);
  bool said = false;
  Say say = [&](const std::string& m) { if (!said) { x.fail(cs, m); said = true; } };
  const Cfg& c = k.c[0];
  if (k.mode == "life") { life::check(k, x, say); x.end(); return; }
  if (k.mode == "overlap") {
    auto r = life::overlap(c, k.arg, MPI_COMM_SELF, 0, "stdout.txt");
    x.count(C_runs); x.count(C_app, r.napply);
    x.state(std::hash<std::string>()(r.out + cs));
    if (r.exc != 9) life::judge(r, life::wanted(problem(c), life::second(problem(c), k.arg)), say);
    x.end();
    return;
  }
  if (k.mode == "probe") { probe(c, k.arg, x, say); x.end(); return; }
  if (k.mode == "seq") {
    SeqRes a{}, b{};
    bool ok = seq({k.c.back()}, a), ok2 = seq(k.c, b);
    x.count(C_runs, k.c.size() + 1); x.count(C_evals, a.evals + b.evals); x.count(C_cmp);
    x.state(ex::mix(b.h, k.c.size()));
    if (!ok) say("the call crashes or hangs as the first one of a process");
    else if (!ok2) say("the sequence of calls crashes or hangs");
    else if (a.h != b.h) say(fmt("last call of the sequence behaves differently than in a fresh process (evaluations %d/%d, records %d/%d, exception %d/%d)", b.nev, a.nev, b.nrec, a.nrec, b.exc, a.exc));
    x.end();
    return;
  }
  if (k.mode == "env") {
    // in fresh processes: every value behaves like its representative
    Cfg r = c;
    r.env = bisect_only(c) ? 1 : 0;
    SeqRes a{}, b{};
    bool ok = seq({r}, a), ok2 = seq({c}, b);
    x.count(C_runs, 2); x.count(C_evals, a.evals + b.evals); x.count(C_cmp);
    x.state(ex::mix(b.h, c.env));
    if (!ok || !ok2) say("the call crashes or hangs");
    else if (a.h != b.h) say(fmt("NLCGLIB_DISABLE_NEWTON_EFERMI=\"%s\" acts differently than %s", ENVV[c.env], bisect_only(c) ? "\"1\"" : "leaving it unset"));
    x.end();
    return;
  }
  if (k.mode == "chain") {
    for (auto& d : k.c) exec(d, x);
    x.end();
    return;
  }
  if (k.mode == "fill") {
    // contents of fresh memory have no influence
    SeqRes a{}, b{};
    bool ok = seq(k.c, a, 0x7f);
    x.count(C_runs); x.count(C_evals, a.evals);
    x.state(a.h);
    if (!ok) say("the call crashes or hangs");
    for (int f : {0x00, 0xc0, 0xfe}) {
      if (said) break;
      if (!seq(k.c, b, f)) { say(fmt("the call crashes or hangs when fresh memory holds bytes 0x%02x", f)); break; }
      x.count(C_runs); x.count(C_evals, b.evals); x.count(C_cmp);
      if (a.h != b.h) say(fmt("the run depends on the contents of fresh memory (bytes 0x7f or 0x%02x): evaluations %d/%d, records %d/%d, exception %d/%d", f, a.nev, b.nev, a.nrec, b.nrec, a.exc, b.exc));
    }
    x.end();
    return;
  }
  if (k.mode == "leak") {
    // the same sequence of calls again and again: what is alive afterwards must stop growing
    long b[6], by[6], ty[6], cm[6], fd[6];
    int n = 5;
    for (int i = 0; i < n; ++i) {
      ::unlink("nlcg.json"); ::unlink("nlcg.out");
      for (auto& d : k.c) { Trace t = run(d); x.count(C_runs); x.count(C_evals, t.ev.size()); for (auto& m : t.viol) if (m.compare(0, 4, "MPI:") == 0) say(m); }
      b[i] = cnt::blocks(); by[i] = cnt::bytes(); ty[i] = shim::live_types; cm[i] = shim::live_comms; fd[i] = nfds();
      x.state(ex::mix(ex::mix(std::hash<std::string>()(cs), i), b[i]));
    }
    x.count(C_cmp);
    auto grows = [&](long* v) { return v[n - 1] > v[n - 2] && v[n - 2] > v[n - 3]; };
    if (grows(ty)) say(fmt("every call leaves %ld MPI datatypes behind", ty[n - 1] - ty[n - 2]));
    else if (grows(cm)) say(fmt("every call leaves %ld communicators behind", cm[n - 1] - cm[n - 2]));
    else if (grows(fd)) say(fmt("every call leaves %ld file descriptors open", fd[n - 1] - fd[n - 2]));
    else if (grows(b) && grows(by)) say(fmt("every call leaves %ld blocks (%ld bytes) of heap memory behind", b[n - 1] - b[n - 2], by[n - 1] - by[n - 2]));
    x.end();
    return;
  }
  if (k.mode == "leaklong" || k.mode == "ladder") {
    const bool ladder = k.mode == "ladder"; // instead: calls with more and more steps
    // many calls: growth that shows up only now and then (containers that double)
    // in a process that has made no call before
    struct R { long by[6], fd[6], ty[6]; int n; } r{};
    int q[2];
    if (pipe(q)) { x.end(); return; }
    pid_t pid = fork();
    if (pid == 0) {
      close(q[0]);
      for (int i = 1; i <= (ladder ? 64 : 512); ++i) {
        if (ladder && (i & (i - 1))) continue;
        for (auto d : k.c) { if (ladder) d.maxiter = i; run(d); }
        if (ladder ? i >= 2 : i >= 32 && (i & (i - 1)) == 0) { r.by[r.n] = cnt::bytes(); r.ty[r.n] = shim::live_types + shim::live_comms; r.fd[r.n++] = nfds(); }
      }
      _exit(write(q[1], &r, sizeof r) != sizeof r);
    }
    close(q[1]);
    ssize_t got = read(q[0], &r, sizeof r);
    close(q[0]);
    waitpid(pid, nullptr, 0);
    if (got != sizeof r) { say("the sequence of calls crashes"); x.end(); return; }
    x.count(C_runs, (ladder ? 7 : 512) * k.c.size());
    auto& by = r.by; auto& fd = r.fd; auto& ty = r.ty;
    int n = r.n;
    x.count(C_cmp);
    x.state(ex::mix(std::hash<std::string>()(cs), by[n - 1]));
    bool g1 = true, g2 = true, g3 = true;
    for (int i = 1; i < n; ++i) { g1 = g1 && by[i] > by[i - 1]; g2 = g2 && ty[i] > ty[i - 1]; g3 = g3 && fd[i] > fd[i - 1]; }
    const char* what = ladder ? "steps" : "calls";
    if (g1) say(fmt("heap memory left behind grows with the number of %s: %ld bytes at first, %ld in the end", what, by[0], by[n - 1]));
    if (g2) say(fmt("MPI objects accumulate with the number of %s", what));
    if (g3) say(fmt("open files accumulate with the number of %s", what));
    x.end();
    return;
  }
  if (k.mode == "cmp") {
    Trace a = exec(canonical(c), x), b = exec(c, x);
    x.count(C_cmp);
    compare(a, b, k.arg, 1e-9, say);
    if (PROP == "C12") o_C12(b, x, say);
    x.end();
    return;
  }
  if (k.mode == "tolbound") {
    // tolerance exactly at / just above the slope of iterate arg
    Cfg d = c;
    d.tol = 1e-300;
    d.maxiter = k.arg + 2;
    Trace h = exec(d, x);
    double s = std::abs(rec(h, k.arg, "slope_x"));
    if (!std::isfinite(s) || s == 0) { x.count(C_skip); x.end(); return; }
    bool lower = false;
    for (int i = 0; i < k.arg; ++i) if (std::abs(rec(h, i, "slope_x")) <= s) lower = true;
    d.tol = s;
    Trace a = exec(d, x);
    o_C03(a, x, say);
    if (!lower && a.returned && a.recs.size() && (int)a.recs.size() == k.arg + 1 && a.info.converged) say("slope equal to the tolerance counts as converged");
    d.tol = std::nextafter(s, 1e9);
    Trace b = exec(d, x);
    o_C03(b, x, say);
    if (!lower && b.returned && !(b.info.converged && b.info.iter == k.arg)) say("slope just below the tolerance does not count as converged");
    x.end();
    return;
  }
  if (k.mode == "error") {
    Trace t = exec(c, x);
    if (t.exc != 1) say(t.returned ? "call with an invalid argument returned a result" : "call with an invalid argument raised something that is no C++ exception");
    else if (t.what.empty()) say("error without a message");
    x.end();
    return;
  }
  if (k.mode == "logrun") {
    // an old log is present when the run starts
    shim::bypass_files = true;
    { std::ofstream f("nlcg.json"); f << "{\"type\":\"cg_iteration\",\"step\":0,\"F\":-77}{\"type\":\"cg_iteration\",\"step\":1,\"F\":-78}"; }
    { std::ofstream f("nlcg.out"); f << "7              -1.0\t-1.0 -1\nNLCG SUCCESS\n"; }
    shim::bypass_files = false;
    Trace t = exec(c, x, true);
    if (PROP == "C21") o_C21(t, x, say); else o_C15(t, x, say);
    x.end();
    return;
  }
  Trace t = exec(c, x);
  if (PROP == "C01") o_C01(t, x, say);
  else if (PROP == "C02") o_C02(t, x, say);
  else if (PROP == "C03") o_C03(t, x, say);
  else if (PROP == "C04") o_C04(t, x, say);
  else if (PROP == "C05") { // through the public interface: occupations, entropy, slope
    if (t.returned && t.ev.size() >= 2) {
      auto& v = t.ev[1];
      for (size_t i = 0; i < v.f.size(); ++i) for (size_t j = 0; j < v.f[i].size(); ++j) if (!(std::abs(v.f[i][j] - s_f(c.sm, (v.mu - t.ev[0].ek[i][j]) / t.pr.kT, c.mo)) <= 1e-9 * c.mo * std::max(1.0, std::abs(v.mu) * 1e-6 / t.pr.kT))) say("occupations are not the smearing function");
      double S = entropy_ek(t, t.ev[0].ek, v.mu);
      if (!(std::abs(t.info.S - S) <= 1e-10 * std::max(1.0, std::abs(S)))) say(fmt("entropy term %.14g, integral of the smearing function gives %.14g", t.info.S, S));
      double sl = rec(t, 0, "slope_x");
      Lock L(t);
      L.run();
      (void)sl;
      for (auto& f : L.out) if (f.prop == "C06") say(f.msg);
    } else if (!t.returned && monotone(c.sm)) say("run failed: " + t.what);
  }
  else if (PROP == "C06") o_lock(t, x, say, {"C06"});
  else if (PROP == "C07") o_C07(t, x, say);
  else if (PROP == "C12") o_C12(t, x, say);
  else if (PROP == "C14") { bool lng = o_lock(t, x, say, {"C14", "C02", "C06"}); if (t.exc == 1 && !lng && !expects_error(c) && c.tau < 1) say("exception: " + t.what); if (t.exc == 4) say("evaluation limit reached"); }
  else if (PROP == "C15") o_C15(t, x, say);
  else if (PROP == "C16") { if (!t.returned) say("valid call raised an error: " + t.what); else { o_lock(t, x, say, {"C14", "C02", "C06", "C04"}); o_C03(t, x, say); } }
  else if (PROP == "C17") o_C17(t, x, say);
  else if (PROP == "C18") o_C18(t, x, say, k.arg == 1);
  else if (PROP == "C21") o_C21(t, x, say);
  if (keep) *keep = t;
  x.end();
}

struct Task { Case k; std::string alpha; int depth = 0, maxpos = 0, shard = 0, nsh = 1, lo = 2; };
static std::vector<Task> tasks;
static void add(const Case& k) { tasks.push_back({k}); }
static void add(const Cfg& c) { tasks.push_back({Case{"run", {c}, 0}}); }
static void addlies(const Cfg& c, const std::string& alpha, int depth, int maxpos, int nsh)
{
  for (int s = 0; s < nsh; ++s) { Task t; t.k = Case{"run", {c}, 0}; t.alpha = alpha; t.depth = depth; t.maxpos = maxpos; t.shard = s; t.nsh = nsh; tasks.push_back(t); }
}
static void expand(const Task& T, const Cfg& c, const std::string& lies, int from, int depth, bool top, Ctx& x)
{
  if (x.stopped()) return;
  Cfg d = c;
  d.lies = lies;
  Trace t;
  bool mine = !top || T.shard == 0;
  if (mine) check_case(Case{"run", {d}, 0}, x, &t);
  else { x.begin(cstr(Case{"run", {d}, 0})); t = exec(d, x); x.end(); }
  if (depth == 0) return;
  int n = std::min<int>(t.ev.size(), T.maxpos);
  for (int pos = from; pos < n; ++pos) {
    if (top && pos % T.nsh != T.shard) continue;
    for (size_t i = 0; i < T.alpha.size(); ++i) {
      std::string l = lies.empty() ? "" : lies + ",";
      if (T.alpha[i] == '+') { ++i; expand(T, c, l + std::to_string(pos) + "+" + T.alpha[i], pos + 1, 0, false, x); }
      else expand(T, c, l + std::to_string(pos) + T.alpha[i], pos + 1, depth - 1, false, x);
    }
  }
}

static void build(const std::string& p)
{
  bool th = thorough();
  int R = th ? 12 : 3;   // members per (size, smearing)
  auto family = [&](int nr, const std::function<void(Cfg)>& f) { for (int r = 0; r < nr; ++r) for (int s = 0; s < 8; ++s) for (int sm = 0; sm < 5; ++sm) f(member(s, sm, r)); };
  auto bigs = [&](int nr, const std::function<void(Cfg)>& f) { for (int r = 0; r < nr; ++r) for (int z = 0; z < NBIG; ++z) for (int sm = 0; sm < 5; ++sm) if (th || (z + sm) % (z < 4 ? 2 : 5) == r % 2) f(big(z, sm, r)); };
  // every parameter of the call and of the problem takes every value of its list together with every value of every other
  typedef std::function<void(Cfg&)> Set;
  std::vector<std::vector<Set>> axes;
#define AX(T, field, ...) { std::vector<Set> a; for (T v : std::initializer_list<T>{__VA_ARGS__}) a.push_back([v](Cfg& c) { c.field = v; }); axes.push_back(a); }
  AX(double, tol, 0, 1e-300, 1e-4, 0.1)
  AX(double, kappa, 0.02, 1, 2)
  AX(double, tau, 1e-3, 0.3, 0.9)
  AX(int, maxiter, 0, 1, 2, 11, 23)
  AX(int, restart, 1, 2, 1000)
  AX(double, T, 900, 9000, 60000)
  AX(double, g, 0, 1)
  AX(double, shift, -5, 3)
  AX(double, spread, 0.4, 3)
  AX(int, spec, 1, 2)
  AX(int, sk, 0, 2)
  AX(int, pk, 0, 2, 4)
  AX(int, hk, 0, 2)
  AX(int, wk, 1, 2)
  AX(int, lc, 1, 3, 5)
  AX(int, lh, 2, 4)
  AX(int, vs, 2)
  AX(int, lab, 1, 3, 5)
  AX(int, o1, 1)
  AX(int, vg, 1)
  AX(int, vb, 1)
  AX(int, nk, 1, 3, 5)
  AX(int, ns, 2)
  AX(int, nb, 1, 2, 5)
  AX(int, ng, 5, 9)
  AX(int, ne, 1, 2, 4)
  AX(int, mo, 1)
  AX(int, env, 1)
  AX(int, entry, 1)
  AX(int, stop, 3, 7)
  AX(std::string, lies, "2+h", "3h", "4n", "3l,5h")
#undef AX
  auto grid = [&](int depth, const std::function<void(Cfg)>& f) {
    auto ok = [&](Cfg c) {
      if (c.ns == 2) c.mo = 1;
      if (c.ng < c.nb + c.vb * 2) c.ng = c.nb + c.vb * 2;
      int cap = c.mo * c.nb * c.ns;
      if (c.ne >= cap) c.ne = std::max(1, cap - 1);
      if (c.nb - c.vb * (c.nk - 1) < 1) c.vb = 0;
      f(c);
    };
    for (int sm = 0; sm < 5; ++sm) {
      Cfg b;
      b.ng = 5; b.nb = 3; b.nk = 2; b.ns = 1; b.mo = 2; b.ne = 3; b.sm = sm; b.maxiter = 7; b.restart = 4; b.seed = 3;
      ok(b);
      for (size_t i = 0; i < axes.size(); ++i) for (auto& u : axes[i]) {
        Cfg c = b;
        u(c);
        ok(c);
        if (depth > 1) for (size_t j = 0; j < i; ++j) for (auto& v : axes[j]) { Cfg d = c; v(d); ok(d); }
      }
    }
  };
  if (p == "C01" || p == "C02" || p == "C03" || p == "C04" || p == "C06" || p == "C07" || p == "C12" || p == "C14" || p == "C15" || p == "C17" || p == "C21") grid(2, [&](Cfg c) { add(c); });
  if (p == "C23") grid(1, [&](Cfg c) { c.maxiter = std::min(c.maxiter, 5); add(Case{"leak", {c}, 0}); });
  if (p == "C13") grid(th ? 2 : 1, [&](Cfg c) { if (!c.env) { Cfg b; b.ng = 5; b.nb = 3; b.nk = 2; b.mo = 2; b.ne = 3; b.sm = (c.sm + c.lc) % 5; b.maxiter = 4; add(Case{"seq", {c, b}, 0}); add(Case{"seq", {b, c}, 0}); } });
  if (p == "C26") grid(th ? 2 : 1, [&](Cfg c) { add(Case{"life", {c}, 0}); });
  // slowly converging problems: hundreds of iterations in one call
  auto longs = [&](const std::function<void(Cfg)>& f) {
    for (int i = 0; i < (th ? 12 : 4); ++i) {
      Cfg c = member(i % 2 ? 2 : 0, i % 5, i);
      c.ng = 6 + i % 3; c.nb = 3 + i % 2; c.vb = c.vg = 0; c.g = 0; c.spec = 2; c.spread = 1; c.sk = i % 2; c.pk = 0; c.kappa = 1e-4; c.restart = i % 4 == 3 ? 2 : 1; c.T = i % 2 ? 40000 : 4000;
      c.ne = c.mo * c.ns * c.nb / 2; c.tol = 1e-300; c.maxiter = th && i < 4 ? 1100 : 230;
      f(c);
    }
  };
  if (p != "C05" && p != "C06" && p != "C12" && p != "C13" && p != "C15" && p != "C16" && p != "C18" && p != "C20" && p != "C22" && p != "C23" && p != "C26" && p != "C27") longs([&](Cfg c) { add(c); });
  if (p == "C15") longs([&](Cfg c) { add(Case{"logrun", {c}, 0}); });
  if (p == "C01") {
    bigs(th ? 4 : 1, [&](Cfg c) { c.maxiter = 6; add(c); if (c.ng * c.nb * c.nk < 700) addlies(c, "hl", 1, 9, 1); });
    for (int i = 0; i < (th ? 20 : 6); ++i) { Cfg c = member(i % 3 == 2 ? 5 : i % 2, i % 5, i); c.maxiter = 4; c.restart = 1 + i % 3; if (c.tau == 0.1) c.tau = 0.3; addlies(c, th ? "hmlLin+h+n" : "hmLin+h+n", 2, th ? 36 : 22, 8); }
    for (int i = 0; i < (th ? 15 : 3); ++i) { Cfg c = member(i % 4, i % 5, i); c.maxiter = 6; c.restart = 4 + 5 * (i % 3); c.tau = 0.3; addlies(c, "wWlh", 2, th ? 22 : 15, 8); }
    family(R, [&](Cfg c) { c.maxiter = 12; add(c); addlies(c, "hlni+h", 1, 30, 1); });
    // answers just above and just below the energy to be beaten
    for (int i = 0; i < (th ? 30 : 8); ++i) { Cfg c = member(i % 8, i % 3, i); c.maxiter = 6; c.tau = 0.3; addlies(c, "abcdD+a+b+c", 1, 26, 1); if (i < (th ? 12 : 2)) addlies(c, "abc", 2, th ? 26 : 16, 8); }
    if (th) for (int i = 0; i < 3; ++i) { Cfg c = member(5, i, i); c.maxiter = 3; addlies(c, "hLn", 3, 26, 16); }
  } else if (p == "C02") {
    bigs(th ? 4 : 1, [&](Cfg c) { c.maxiter = 5; add(c); if (c.ng * c.nb * c.nk < 700) addlies(c, "hl+h", 1, 9, 1); });
    // extreme factors: a single backtracking step, and very many
    for (double tau : {1e-9, 0.001, 0.95}) for (int s = 0; s < (th ? 4 : 2); ++s) { Cfg c = member(s, s, s); c.tau = tau; c.maxiter = 2; addlies(c, "h+h", 1, 8, 1); }
    for (int i = 0; i < (th ? 16 : 5); ++i) { Cfg c = member(i % 3 == 2 ? 5 : i % 2, i % 5, i); c.maxiter = 3; c.restart = 1 + i % 3; if (i % 2 == 0) c.tau = 0.3; addlies(c, th ? "hmlLin+h+n+i+l" : "hmLin+h+i", 2, th ? 36 : 20, 8); }
    for (int i = 0; i < (th ? 15 : 3); ++i) { Cfg c = member(i % 4, i % 5, i); c.maxiter = 6; c.restart = 4 + 5 * (i % 3); c.tau = 0.3; addlies(c, "wWlh+h", 2, th ? 22 : 15, 8); }
    family(R, [&](Cfg c) { c.maxiter = 8; add(c); addlies(c, "hlni+h", 1, 26, 1); });
    for (int i = 0; i < (th ? 30 : 8); ++i) { Cfg c = member(i % 8, i % 3, i); c.maxiter = 5; c.tau = 0.3; addlies(c, "abdD+a+c+D", 1, 20, 1); }
    for (double tau : {0.9, 1.0, 1.5, 0.01}) for (int s = 0; s < 2; ++s) { Cfg c = member(s, s, 1); c.tau = tau; c.maxiter = 3; addlies(c, "h+h+n", 1, 12, 1); }
    for (int sm = 0; sm < 5; ++sm) { Cfg c = member(0, sm, 2); c.pk = 3; add(c); c.nk = 2; add(c); }
    if (th) for (int i = 0; i < 3; ++i) { Cfg c = member(5, i, i); c.maxiter = 3; addlies(c, "hLn", 3, 26, 16); }
  } else if (p == "C03") {
    bigs(th ? 4 : 1, [&](Cfg c) { c.maxiter = 7; c.tol = 1e-2; add(c); c.maxiter = 0; add(c); });
    for (int i = 0; i < (th ? 20 : 8); ++i) { Cfg c = member(i, i % 5, i); c.maxiter = 400; c.tol = i % 2 ? 1e-300 : 1e-12; c.restart = i % 3 ? 60 : 1000; add(c); }
    for (int i = 0; i < (th ? 40 : 10); ++i) {
      Cfg b = member(i % 8, i % 5, i);
      for (int mi : {-1, 0, 1, 2, 3, 5, 10, 11}) for (double tol : {1e-12, 1e-6, 1e-3, 0.05, 10.0}) { Cfg c = b; c.maxiter = mi; c.tol = tol; add(c); }
      for (int it = 0; it < (th ? 6 : 3); ++it) add(Case{"tolbound", {b}, it});
      Cfg c = b; c.maxiter = 5; addlies(c, "hln+h+n", 1, 22, 2);
      c.pk = 3; add(c); c.maxiter = 0; add(c);
    }
    for (int i = 0; i < (th ? 6 : 2); ++i) { Cfg c = member(i ? 1 : 5, i, i); c.maxiter = 4; c.tau = 0.3; c.tol = 1e-3; addlies(c, "hLn+h", 2, 20, 8); }
    family(th ? 6 : 1, [&](Cfg c) { c.maxiter = 60; c.tol = 1e-5; add(c); });
  } else if (p == "C04") {
    // spectra injected at the first evaluation
    for (int env = 0; env < NENV; ++env) for (int sm = env ? 3 : 0; sm < 5; ++sm) for (int ekv = 0; ekv < 96; ekv += env < 2 ? 1 : 9) for (int s = 0; s < (th ? 5 : env < 2 ? 3 : 1); ++s) for (double T : {200.0, 3000.0, 30000.0}) for (int mo = 1; mo <= 2; ++mo) {
      static const int Z[][4] = {{4, 3, 2, 1}, {3, 2, 1, 2}, {5, 4, 3, 1}, {2, 1, 1, 1}, {6, 5, 2, 2}};
      Cfg c; c.ng = Z[s][0]; c.nb = Z[s][1]; c.nk = Z[s][2]; c.ns = Z[s][3]; c.sm = sm; c.T = T; c.mo = mo; c.ekmode = 1; c.ekv = ekv; c.maxiter = 0; c.env = env; c.wk = ekv % 3;
      int cap = c.mo * c.nb * c.ns;
      for (int ne = 0; ne <= cap + 1; ++ne) { if (!th && ne > 1 && ne < cap && (ne + ekv + s) % 3) continue; c.ne = ne; add(c); }
    }
    for (int env = 2; env < NENV; ++env) for (int sm = 0; sm < 5; ++sm) for (int ekv = 0; ekv < 96; ekv += th ? 2 : 7) { Cfg c; c.ng = 4; c.nb = 3; c.nk = 2; c.sm = sm; c.T = 3000; c.ekmode = 1; c.ekv = ekv; c.maxiter = 1; c.ne = 3; c.wk = ekv % 3; c.env = env; add(Case{"env", {c}, 0}); }
    family(R, [&](Cfg c) { c.maxiter = 10; add(c); });
    for (int i = 0; i < 5; ++i) { Cfg c = member(i, i, i); c.maxiter = 4; addlies(c, "hln", 1, 20, 2); }
    bigs(th ? 6 : 2, [&](Cfg c) { c.maxiter = 5; add(c); c.maxiter = 0; c.T = 300; add(c); c.T = 200000; add(c); });
  } else if (p == "C05") {
    for (int sm = 0; sm < 5; ++sm) for (int ekv = 0; ekv < 48; ++ekv) for (double T : {1000.0, 10000.0, 60000.0}) for (int mo = 1; mo <= 2; ++mo) for (int nk = 1; nk <= 2; ++nk) { Cfg c; c.ng = 5; c.nb = 4; c.nk = nk; c.sm = sm; c.T = T; c.mo = mo; c.ekmode = 1; c.ekv = ekv; c.maxiter = 1; c.ne = std::max(1, 2 * mo + (ekv % 3 - 1) * mo); c.wk = nk - 1; add(c); }
  } else if (p == "C06") {
    bigs(th ? 4 : 1, [&](Cfg c) { c.tau = 0.5; c.maxiter = 5; add(c); add(Case{"probe", {c}, 0}); add(Case{"probe", {c}, 2}); });
    family(th ? 8 : 2, [&](Cfg c) { c.tau = 0.5; for (int r = 0; r < (th ? 8 : 5); ++r) add(Case{"probe", {c}, r}); });
    for (int sm = 0; sm < 5; ++sm) for (int x0 : {1, 2, 3}) for (int spec : {0, 1, 3, 4}) for (int s : {0, 1, 3, 4}) { Cfg c = member(s, sm, x0); c.x0 = x0; c.spec = spec; c.g = spec == 0 ? 0.3 : 0; c.tau = 0.5; for (int r = 0; r < (th ? 3 : 1); ++r) add(Case{"probe", {c}, r}); }
    for (int sm = 0; sm < 5; ++sm) for (double T : {1000.0, 8000.0, 60000.0, 200000.0}) for (int sk = 0; sk < 3; ++sk) for (int pk : {0, 1, 2, 3, 4}) { Cfg c = member(1, sm, 1); c.T = T; c.sk = sk; c.pk = pk; c.tau = 0.5; add(Case{pk == 3 ? "run" : "probe", {c}, pk == 3 ? 0 : 1}); }
    family(R, [&](Cfg c) { c.maxiter = 12; add(c); });
    // pairs of band energies at every distance from 1e-1 down to coincidence, with a Hamiltonian that couples them
    for (int sm = 0; sm < 5; ++sm) for (int ekv = 101; ekv < 140; ++ekv) for (int nk = 1; nk <= 2; ++nk) for (double T : {2000.0, 9000.0}) { Cfg c; c.ng = 6; c.nb = 4; c.nk = nk; c.ne = 4; c.sm = sm; c.T = T; c.ekmode = 1; c.ekv = ekv; c.g = 0; c.tau = 0.5; c.maxiter = 2; c.wk = nk - 1; c.seed = ekv; add(c); if (nk == 1 || th) add(Case{"probe", {c}, 0}); }
  } else if (p == "C07") {
    bigs(th ? 4 : 2, [&](Cfg c) { c.maxiter = 6; c.sk = 2; add(c); if (c.ng * c.nb * c.nk < 700) addlies(c, "hl", 1, 9, 1); });
    family(R + 1, [&](Cfg c) { c.maxiter = 15; add(c); addlies(c, "hmlLn+h", 1, 30, 1); });
    for (int i = 0; i < (th ? 10 : 3); ++i) { Cfg c = member(i % 2 ? 1 : 5 + i, i % 5, i); c.maxiter = 4; c.tau = 0.3; addlies(c, "hLl+n", 2, 20, 8); }
    for (int sk = 0; sk < 3; ++sk) for (int nb = 1; nb <= 5; ++nb) for (int ng = nb; ng <= nb + 2; ++ng) for (int sm = 0; sm < 5; ++sm) { Cfg c = member(1, sm, nb); c.sk = sk; c.nb = nb; c.ng = ng; c.vb = 0; c.ne = std::max(1, c.mo * nb / 2); c.maxiter = 6; add(c); }
  } else if (p == "C12") {
    bigs(th ? 6 : 2, [&](Cfg c) { c.maxiter = 3; c.lc = (c.sm + c.ng) % 6; c.lh = (c.sm + c.nb + c.seed) % 6; c.vs = 1 + c.seed % 3; add(c); if (c.ng < 50) add(Case{"cmp", {c}, 2}); });
    for (int lc = 0; lc < 6; ++lc) for (int lh = 0; lh < 6; ++lh) for (int s : {5, 6}) for (int sm = 0; sm < 5; sm += th ? 1 : 2) { Cfg c = member(s, sm, lc); c.vb = 0; c.lc = lc; c.lh = lh; c.vs = 1 + lh % 3; c.maxiter = 3; add(Case{"cmp", {c}, 3}); } // one band; square
    for (int lc = 0; lc < 6; ++lc) for (int lh = 0; lh < 6; ++lh) for (int vs = 1; vs <= 3; ++vs) for (int i = 0; i < (th ? 10 : 3); ++i) { Cfg c = member(i == 0 ? 0 : i == 1 ? 3 : i == 2 ? 4 : i % 8, (lc + lh + i) % 5, i); c.lc = lc; c.lh = lh; c.vs = vs; c.vg = 1; c.maxiter = 4; add(Case{"cmp", {c}, 3}); }
    for (int o = 0; o < 6; ++o) for (int w = 1; w <= 4; ++w) for (int lc : {0, 1, 3}) { Cfg c = member(3, o % 5, w); c.vg = 1; c.vb = o % 2; c.lc = lc; c.lh = (lc + o) % 6; c.vs = 1 + o % 2; (w == 1 ? c.o1 : w == 2 ? c.o2 : w == 3 ? c.o3 : c.o4) = o; c.maxiter = 3; add(Case{"cmp", {c}, 2}); }
    family(th ? 6 : 2, [&](Cfg c) { c.lc = c.seed % 6; c.lh = (c.seed + c.sm) % 6; c.vs = 1 + c.sm % 2; c.maxiter = 6; add(c); addlies(c, "hln+h", 1, 20, 1); });
  } else if (p == "C13") {
    std::vector<Cfg> A;
    auto put = [&](const std::string& s) { A.push_back(parse(s)); };
    put("maxiter=5");
    put("sm=1;nk=2;wk=1;maxiter=4;seed=3;T=9000");
    put("sm=3;nb=3;ng=5;ne=3;T=12000;maxiter=4;seed=2");
    put("sm=4;nk=3;nb=3;ng=5;ne=3;wk=2;T=20000;maxiter=3");
    put("maxiter=6;lies=2+h;tau=0.3");
    put("stop=6;maxiter=6;nk=2");
    put("T=-1");
    put("ns=2;mo=1;ng=6;nb=4;nk=2;ne=4;maxiter=13;restart=3;sm=2;kappa=1;tol=1e-12");
    put("entry=4");
    put("maxiter=0;sm=2");
    put("tau=1.5;lies=2+h");
    put("tol=10;maxiter=3;seed=5");
    if (th) { put("ne=99"); put("mem=3;maxiter=2"); put("sm=7"); put("lies=3n,4i;maxiter=4;sm=0;pk=2"); put("nk=4;lab=3;o1=5;maxiter=3"); }
    int n = A.size();
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) add(Case{"seq", {A[a], A[b]}, 0});
    int m = th ? n : 9;
    for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) for (int c = 0; c < m; ++c) add(Case{"seq", {A[a], A[b], A[c]}, 0});
    if (th) for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) for (int c = 0; c < 6; ++c) for (int d = 0; d < 6; ++d) add(Case{"seq", {A[a], A[b], A[c], A[d]}, 0});
  } else if (p == "C14") {
    bigs(th ? 4 : 2, [&](Cfg c) { c.maxiter = 8; c.restart = 2 + c.seed % 5; add(c); });
    // long runs: late restarts, large restart intervals
    for (int i = 0; i < (th ? 40 : 10); ++i) { Cfg c = member(i, i % 5, i); c.maxiter = 130; c.tol = 1e-12; c.kappa = 0.01; c.restart = i % 4 == 0 ? 100 : i % 4 == 1 ? 11 : i % 4 == 2 ? 33 : 64; add(c); }
    family(R + 2, [&](Cfg c) { c.maxiter = 25; add(c); });
    for (int rs = 1; rs <= 8; ++rs) for (int sm = 0; sm < 5; ++sm) for (int s = 0; s < (th ? 8 : 3); ++s) { Cfg c = member(s, sm, rs); c.restart = rs; c.maxiter = 14; c.tol = 1e-12; add(c); }
    for (int i = 0; i < (th ? 20 : 6); ++i) { Cfg c = member(i % 4, i % 5, i + 3); c.maxiter = 5; c.restart = 2 + i % 3; addlies(c, "hL+h", 1, 26, 2); }
    for (int i = 0; i < (th ? 8 : 2); ++i) { Cfg c = member(i ? 1 : 5, i, i); c.maxiter = 4; c.tau = 0.3; c.restart = 3; addlies(c, "hLn", 2, 20, 8); }
    for (int i = 0; i < (th ? 24 : 8); ++i) { Cfg c = member(i % 8, i % 3, i); c.maxiter = 5; c.tau = 0.3; addlies(c, "abdD+a+D", 1, 16, 1); }
    // foreign gradients: forced restarts after positive slopes, and what follows them
    for (int i = 0; i < (th ? 20 : 5); ++i) { Cfg c = member(i % 4, i % 5, i); c.maxiter = 6; c.restart = 4 + 5 * (i % 3); c.tau = 0.3; addlies(c, "wWlL", 2, th ? 22 : 16, 8); }
    if (th) for (int i = 0; i < 4; ++i) { Cfg c = member(i, i, i + 2); c.maxiter = 6; c.restart = 20; c.tau = 0.3; addlies(c, "wWl", 3, 14, 16); }
    for (int x0 : {1, 2}) for (int sm = 0; sm < 5; ++sm) for (int spec = 0; spec < 5; ++spec) { Cfg c = member(1 + x0, sm, spec); c.x0 = x0; c.spec = spec; c.maxiter = 8; add(c); }
  } else if (p == "C15") {
    bigs(th ? 4 : 2, [&](Cfg c) { c.maxiter = c.ng > 30 ? 4 : 12; add(Case{"logrun", {c}, 0}); });
    for (int i = 0; i < (th ? 12 : 5); ++i) { Cfg c = member(i, i % 5, i); c.maxiter = 125; c.tol = 1e-300; c.kappa = 0.01; add(Case{"logrun", {c}, 0}); }
    for (int i = 0; i < (th ? 20 : 6); ++i) {
      Cfg b = member(i % 8, i % 5, i);
      b.lab = i % 6;
      for (int mi : {0, 1, 2, 5, 9, 10, 11, 12, 21, 35}) { Cfg c = b; c.maxiter = mi; c.tol = 1e-13; add(Case{"logrun", {c}, 0}); }
      for (int st = 0; st < 26; ++st) { Cfg c = b; c.maxiter = 12; c.stop = st; add(Case{"logrun", {c}, 0}); }
      Cfg c = b; c.maxiter = 4; addlies(c, "hln+h", 1, 18, 1);
      c.pk = 3; add(Case{"logrun", {c}, 0});
      c.pk = 1; c.tol = 10; add(Case{"logrun", {c}, 0});
    }
    family(th ? 6 : 1, [&](Cfg c) { c.maxiter = 24; c.lab = c.seed % 6; add(Case{"logrun", {c}, 0}); });
  } else if (p == "C16") {
    bigs(th ? 4 : 1, [&](Cfg c) { c.entry = c.seed % 2; c.maxiter = 4; add(c); });
    Cfg b = member(1, 0, 1);
    b.maxiter = 6;
    for (int e = 0; e < 2; ++e) for (int sm = 0; sm < 5; ++sm) {
      Cfg c = b; c.entry = e; c.sm = sm; add(c);
      for (double T : {1500.0, 7000.0, 50000.0}) { Cfg d = c; d.T = T; add(d); }
      for (double v : {1e-9, 1e-4, 1e-2, 0.3}) { Cfg d = c; d.tol = v; add(d); }
      for (double v : {0.01, 0.2, 0.9, 2.0}) { Cfg d = c; d.kappa = v; add(d); }
      for (double v : {0.05, 0.2, 0.6}) { Cfg d = c; d.tau = v; d.lies = "4h,5h,6h"; add(d); }
      for (int v : {0, 1, 2, 3, 4, 5, 7, 9}) { Cfg d = c; d.maxiter = v; add(d); }
      for (int v : {1, 2, 3, 4, 7}) { Cfg d = c; d.restart = v; d.maxiter = 9; add(d); }
    }
    if (th) family(6, [&](Cfg c) { c.entry = c.seed % 2; c.maxiter = 10; add(c); });
    else family(1, [&](Cfg c) { c.entry = 1; c.maxiter = 6; add(c); });
    auto err = [&](Cfg c) { add(Case{"error", {c}, 0}); };
    for (int e = 2; e < 8; ++e) for (int sm = -1; sm < 7; ++sm) { Cfg c = b; c.entry = e; c.sm = sm; err(c); }
    for (int e = 0; e < 2; ++e) {
      for (int sm : {-1, 5, 6, 99, -2147483647 - 1, 2147483647}) { Cfg c = b; c.entry = e; c.sm = sm; err(c); }
      for (int sm = 0; sm < 5; ++sm) {
        Cfg c0 = b; c0.entry = e; c0.sm = sm;
        for (double T : {0.0, -0.0, -1e-300, -1.0, -4000.0, (double)NAN}) { Cfg c = c0; c.T = T; err(c); }
        for (int r : {0, -1, -5, -2147483647 - 1}) for (int mi : {0, 1, 4}) { Cfg c = c0; c.restart = r; c.maxiter = mi; err(c); }
        for (int ne : {-1, -7, 13, 100}) { Cfg c = c0; c.vb = 0; c.ne = ne; if (expects_error(c)) err(c); }
        for (int m = 1; m <= 8; ++m) { Cfg c = c0; c.mem = m; c.tol = 1e-12; err(c); }
      }
    }
  } else if (p == "C17") {
    bigs(th ? 6 : 2, [&](Cfg c) { c.maxiter = 5; add(c); });
    family(R, [&](Cfg c) { c.maxiter = 14; add(c); addlies(c, "hLl", 1, 12, 1); });
    for (int sm = 0; sm < 5; ++sm) for (int ekv = 0; ekv < 96; ++ekv) for (double T : {500.0, 5000.0, 50000.0}) for (int mo = 1; mo <= 2; ++mo) for (int ns = 1; ns <= 2; ++ns) { Cfg c; c.ng = 5; c.nb = 4; c.nk = 2; c.ns = ns; c.sm = sm; c.T = T; c.mo = mo; c.ekmode = 1; c.ekv = ekv; c.maxiter = 1; c.ne = mo * 2 * ns + ekv % 2; c.wk = 1; add(c); }
  } else if (p == "C18") {
    for (int r = 0; r < (th ? 60 : 12); ++r) for (int s = 0; s < 8; ++s) for (int sm : {0, 1, 2}) for (double kappa : {0.1, 0.3, 1.0}) for (int rs : {1, 4, 10, 50}) {
      Cfg c = member(s, sm, r);
      c.tol = (r + s) % 3 || r < 6 ? 1e-10 : 1e-7; c.maxiter = 400; c.kappa = kappa; c.restart = rs;
      if (c.T < 4000) c.T = 4000;
      if (c.pk == 4) c.pk = 2;
      c.g = r % 2 ? 0.1 : 0; c.hk = 1;
      if (c.spec == 1) c.spec = 2; // the lowest states must be unique
      bool first = kappa == 0.3 && rs == 10 && r < 6;
      if (!first) {
        c.vb = r % 3 == 1;
        // saturated occupations (vanishing smeared delta) make wrong fillings stationary: keep kT comparable to the level spacing
        c.spec = 0;
        c.T = std::max(c.T, sm ? 40000.0 : 20000.0);
      }
      // convergence itself is demanded for the well-conditioned part only
      add(Case{"run", {c}, first || (kappa == 0.3 && rs == 10 && c.tol > 1e-8 && c.nb * c.nk * c.ns > 1)});
    }
  } else if (p == "C21") {
    bigs(th ? 4 : 2, [&](Cfg c) { c.maxiter = c.ng > 30 ? 3 : 7; add(c); c.tol = 1e-2; c.maxiter = 40; if (c.ng < 30) add(c); });
    for (int i = 0; i < (th ? 40 : 10); ++i) {
      Cfg b = member(i % 8, i % 5, i);
      for (int mi : {-1, 0, 1, 2, 3, 5, 10, 11}) for (double tol : {1e-12, 1e-6, 1e-3, 0.05, 10.0}) { Cfg c = b; c.maxiter = mi; c.tol = tol; add(c); if (mi < 4) add(Case{"logrun", {c}, 0}); }
      for (double v : {0.01, 0.2, 0.9, 2.0}) { Cfg d = b; d.kappa = v; d.maxiter = 2; add(d); }
      for (double v : {0.05, 0.2, 0.6, 0.9}) { Cfg d = b; d.tau = v; d.maxiter = 2; add(d); }
      for (double v : {300.0, 4567.0, 123456.0}) { Cfg d = b; d.T = v; d.maxiter = 2; add(d); }
      for (int v : {1, 2, 3, 33, 4000}) { Cfg d = b; d.restart = v; d.maxiter = 5; add(d); }
      Cfg c = b; c.maxiter = 5; addlies(c, "hln+h+n", 1, 22, 2);
      c.pk = 3; add(c);
    }
    for (int i = 0; i < (th ? 12 : 4); ++i) { Cfg c = member(i % 8, i % 5, i); c.maxiter = 4; c.tau = 0.3; c.tol = 1e-3; addlies(c, "hLn+h", 2, 20, 8); c.tol = 1e-9; c.maxiter = 6; c.restart = 8; addlies(c, "wWL", 2, 16, 4); }
    for (int i = 0; i < (th ? 12 : 4); ++i) { Cfg c = member(i, i % 5, i); c.maxiter = 125; c.tol = 1e-300; c.kappa = 0.01; add(c); }
    family(th ? 6 : 2, [&](Cfg c) { c.maxiter = 60; c.tol = 1e-5; add(c); });
    for (int ns = 1; ns <= 2; ++ns) for (int ne = 1; ne < 4; ++ne) for (int sm = 0; sm < 5; ++sm) { Cfg c = member(1, sm, ne); c.ns = ns; c.mo = 3 - ns; c.nb = 3; c.ng = 5; c.vb = 0; c.ne = ne; c.maxiter = 3; add(c); }
  } else if (p == "C22") {
    // instrumented build: plain runs; ordinary build: comparison of runs with different contents of fresh memory
#ifdef __SANITIZE_ADDRESS__
    auto put = [&](Cfg c) { add(c); };
    bool san = true;
#else
    auto put = [&](Cfg c) { add(Case{"fill", {c}, 0}); };
    bool san = false;
#endif
    family(th ? 8 : 2, [&](Cfg c) { c.maxiter = 12; put(c); });
    grid(th ? 2 : 1, put);
    bigs(1, [&](Cfg c) { c.maxiter = 2; put(c); });
    for (int i = 0; i < (th ? 10 : 3); ++i) {
      Cfg b = member(i % 8, i % 5, i);
      for (int mi : {-1, 0, 1, 11}) { Cfg c = b; c.maxiter = mi; put(c); }
      for (double tol : {10.0, 1e-2}) { Cfg c = b; c.tol = tol; put(c); }
      for (int st = 0; st < (th ? 26 : 14); ++st) { Cfg c = b; c.maxiter = 4; c.stop = st; put(c); }
      { Cfg c = b; c.pk = 3; put(c); c = b; c.tau = 1.5; c.lies = "2+h"; put(c); c = b; c.ne = 99; put(c); c = b; c.T = -1; put(c); c = b; c.restart = 0; put(c); c = b; c.sm = 77; put(c); }
      for (int m = 1; m <= 8; ++m) { Cfg c = b; c.mem = m; put(c); }
      for (int e = 1; e < 8; ++e) { Cfg c = b; c.entry = e; c.maxiter = 2; put(c); }
      for (int pos = 2; pos < (th ? 16 : 9); ++pos) for (const char* l : {"h", "+h", "n", "i", "+n", "w", "W", "L"}) { Cfg c = b; c.maxiter = 4; c.tau = 0.3; c.lies = std::to_string(pos) + l; put(c); }
      for (const char* l : {"2h,3h", "2h,3+h", "3h,5+n", "4w,6+h", "3w,4W"}) { Cfg c = b; c.maxiter = 4; c.tau = 0.3; c.lies = l; put(c); }
    }
    if (san) for (int i = 0; i < (th ? 10 : 4); ++i) { Cfg c = member(i % 8, i % 5, i + 2); c.maxiter = 5; c.tau = 0.3; addlies(c, "hlnwi+h", 1, 22, 2); }
    for (int lc = 0; lc < 6; ++lc) for (int lh = 0; lh < 6; ++lh) for (int s : {0, 4, 5, 6}) { if (!th && (lc + lh + s) % 2) continue; Cfg c = member(s, (lc + lh) % 5, lc); c.lc = lc; c.lh = lh; c.vs = 1 + lh % 3; c.maxiter = 3; put(c); }
    for (int nb = 1; nb <= 5; ++nb) for (int ng = nb; ng <= nb + 2; ++ng) for (int sm = 0; sm < 5; ++sm) { Cfg c = member(1, sm, nb); c.nb = nb; c.ng = ng; c.vb = 0; c.ne = std::max(1, c.mo * nb / 2); c.maxiter = 4; put(c); }
    for (int ekv = 0; ekv < 140; ekv += th ? 1 : 3) for (int sm = 0; sm < 5; ++sm) for (int ne : {0, 2, 6}) { Cfg c; c.ng = 4; c.nb = 3; c.nk = 2; c.sm = sm; c.T = 300; c.ekmode = 1; c.ekv = ekv; c.maxiter = 1; c.ne = ne; c.wk = ekv % 3; put(c); }
    for (int lab = 0; lab < 6; ++lab) for (int o = 0; o < 6; ++o) { Cfg c = member(3, o % 5, lab); c.lab = lab; c.o1 = o; c.o2 = 5 - o; c.o3 = (o + 3) % 6; c.o4 = o * 5 % 6; c.maxiter = 11; put(c); }
    // several calls in one process
    for (int a = 0; a < 8; ++a) for (int q = 0; q < 8; ++q) { Cfg u = member(a, a % 5, a), v = member(q, (q + 1) % 5, q); u.maxiter = v.maxiter = 3; if (a % 2) u.lies = "2+h"; if (a % 3 == 2) u.stop = 4; add(Case{san ? "chain" : "fill", {u, v}, 0}); }
  } else if (p == "C23") {
    auto leak = [&](Cfg c) { add(Case{"leak", {c}, 0}); };
    family(th ? 6 : 1, [&](Cfg c) { c.maxiter = 3; leak(c); c.maxiter = 12; c.tol = 1e-3; leak(c); });
    for (int i = 0; i < (th ? 10 : 4); ++i) {
      Cfg b = member(i % 8, i % 5, i);
      for (int mi : {-1, 0, 1, 11}) { Cfg c = b; c.maxiter = mi; leak(c); }
      for (double tol : {10.0, 1e-2}) { Cfg c = b; c.tol = tol; leak(c); }
      for (int st = 0; st < (th ? 26 : 14); ++st) { Cfg c = b; c.maxiter = 4; c.stop = st; leak(c); }
      for (int pos = 2; pos < (th ? 16 : 9); ++pos) for (const char* l : {"h", "+h", "n", "+n", "w", "W", "L"}) { Cfg c = b; c.maxiter = 4; c.tau = 0.3; c.lies = std::to_string(pos) + l; leak(c); }
      for (const char* l : {"2h,3h", "2h,3+h", "3h,5+n", "4w,6+h"}) { Cfg c = b; c.maxiter = 4; c.tau = 0.3; c.lies = l; leak(c); }
      { Cfg c = b; c.pk = 3; leak(c); c = b; c.tau = 1.5; c.lies = "2+h"; leak(c); c = b; c.ne = 99; leak(c); c = b; c.T = -1; leak(c); c = b; c.restart = 0; leak(c); }
      for (int m = 1; m <= 8; ++m) { Cfg c = b; c.mem = m; leak(c); }
      for (int e = 1; e < 8; ++e) { Cfg c = b; c.entry = e; c.maxiter = 2; leak(c); }
    }
    for (int ekv = 0; ekv < 96; ekv += th ? 1 : 5) for (int sm = 0; sm < 5; ++sm) { Cfg c; c.ng = 4; c.nb = 3; c.nk = 2; c.sm = sm; c.T = 300; c.ekmode = 1; c.ekv = ekv; c.maxiter = 1; c.ne = 2; c.wk = ekv % 3; leak(c); }
    bigs(1, [&](Cfg c) { c.maxiter = 2; if (c.ng < 50) leak(c); });
    for (int i = 0; i < (th ? 40 : 10); ++i) { Cfg c; c.ng = 4; c.nb = 2; c.nk = 1 + i % 2; c.ns = 1; c.ne = 2; c.sm = i % 5; c.maxiter = i % 3; if (i % 5 == 2) c.stop = 3; if (i % 5 == 3) { c.lies = "2+h"; c.tau = 0.01; c.maxiter = 3; } if (i == 9) c.tol = 10; add(Case{"leaklong", {c}, 0}); }
    for (int i = 0; i < (th ? 40 : 15); ++i) { Cfg c; c.ng = 4; c.nb = 2 + i / 5 % 2; c.nk = 1 + i % 2; c.ne = 2; c.sm = i % 5; c.tol = 1e-300; if (i % 3 == 1) { c.lies = "2+h"; c.tau = 0.01; } if (i % 3 == 2) c.mem = 4; add(Case{"ladder", {c}, 0}); }
    // calls of different kinds in alternation
    for (int a = 0; a < 6; ++a) for (int q = 0; q < 6; ++q) { Cfg u = member(a, a % 5, a), v = member(q, (q + 1) % 5, q); u.maxiter = v.maxiter = 3; if (q % 2) v.lies = "2+h"; if (q % 3 == 2) v.stop = 4; add(Case{"leak", {u, v}, 0}); }
  } else if (p == "C27") {
    for (int w = 0; w < 6; ++w) for (int s = 0; s < 8; ++s) for (int r = 0; r < (th ? 30 : 12); ++r) for (int lc = 0; lc < 6; ++lc) { Cfg c = member(s, r % 5, r); c.lc = lc; c.lab = r % 6; c.o1 = r % 6; c.sk = r % 3; add(Case{"overlap", {c}, w}); }
    for (int w = 0; w < 6; ++w) bigs(1, [&](Cfg c) { add(Case{"overlap", {c}, w}); });
  } else if (p == "C26") {
    auto life = [&](Cfg c) { add(Case{"life", {c}, 0}); };
    add(Case{"life", {Cfg()}, 1});
    for (int s = 0; s < 8; ++s) for (int sm = 0; sm < 5; ++sm) for (int r = 0; r < (th ? 6 : 1); ++r) { Cfg c = member(s, sm, r); c.maxiter = 3; life(c); }
    for (int sm = 0; sm < 5; ++sm) for (int b1 = 0; b1 < 2; ++b1) {
      Cfg b = member(b1 ? 5 : 1, sm, sm + b1);
      for (int mi : {-1, 0, 11}) { Cfg c = b; c.maxiter = mi; life(c); }
      { Cfg c = b; c.tol = 10; life(c); c = b; c.tol = 1e-3; c.maxiter = 60; life(c); }
      for (int st = 0; st < (th ? 12 : 4); ++st) { Cfg c = b; c.maxiter = 3; c.stop = th ? st : 3 * st; life(c); }
      for (const char* l : {"2+h", "2h,3h", "4n", "5w,6w", "3+n", "4i"}) { Cfg c = b; c.maxiter = 4; c.tau = 0.3; c.lies = l; life(c); }
      { Cfg c = b; c.pk = 3; life(c); c = b; c.tau = 1.5; c.lies = "2+h"; life(c); c = b; c.ne = 99; life(c); c = b; c.T = -1; life(c); c = b; c.restart = 0; life(c); }
      if (b1) for (int e = 1; e < 8; ++e) { Cfg c = b; c.entry = e; c.maxiter = 2; life(c); }
    }
    bigs(1, [&](Cfg c) { c.maxiter = 2; life(c); });
    for (int a = 0; a < 6; ++a) for (int q = 0; q < 6; ++q) { Cfg u = member(a, a % 5, a), v = member(q, (q + 1) % 5, q); u.maxiter = v.maxiter = 3; if (q % 2) v.lies = "2+h"; if (q % 3 == 2) v.stop = 4; add(Case{"life", {u, v}, 0}); add(Case{"life", {v, u, v}, 0}); }
  } else if (p == "C20") {
    bigs(th ? 6 : 2, [&](Cfg c) {
      if (c.nk == 1) return;
      c.maxiter = 3;
      for (int w = 0; w < 6; ++w) { Cfg d = c; d.lab = (w + c.sm) % 6; if (c.nk > 2) { d.o1 = w % 4 == 3 ? 0 : 1000 + w % 4; d.o2 = (w + 1) % 4 == 3 ? 0 : 1000 + (w + 1) % 4; d.o3 = 1000 + w % 3; d.o4 = (w + 2) % 4 == 3 ? 0 : 1000 + (w + 2) % 4; } add(Case{"cmp", {d}, 3}); }
      for (int q = 0; q < c.nk * c.ns; q += 1 + c.nk / 4) { Cfg d = c; d.split = q; add(Case{"cmp", {d}, 3}); }
    });
    for (int i = 0; i < (th ? 5 : 1); ++i) for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) for (int d = 0; d < 6; ++d) for (int e = 0; e < 6; ++e) { Cfg c = member(3, (a + b + i) % 5, i); c.maxiter = 3; c.vg = 1; c.o1 = a; c.o2 = b; c.o3 = d; c.o4 = e; add(Case{"cmp", {c}, 3}); }
    for (int s : {4, 7}) for (int o = 0; o < 24; ++o) for (int w = 0; w < 5; ++w) { Cfg c = member(s, o % 5, w); c.maxiter = 3; c.vg = 1; if (w == 0) c.o1 = c.o2 = c.o3 = c.o4 = o; else (w == 1 ? c.o1 : w == 2 ? c.o2 : w == 3 ? c.o3 : c.o4) = o; add(Case{"cmp", {c}, 3}); }
    for (int s = 0; s < 8; ++s) for (int lab = 0; lab < 6; ++lab) for (int o = 0; o < (th ? 6 : 3); ++o) for (int sm = 0; sm < 5; ++sm) { Cfg c = member(s, sm, lab + o); int np = c.nk * c.ns; c.maxiter = 3; c.lab = lab; if (np >= 3) { c.o1 = o; c.o2 = (o * 2 + 1) % 6; c.o3 = (o + 3) % 6; c.o4 = (o * 5 + 2) % 6; } else if (np == 2) { c.o1 = o % 2; c.o2 = (o / 2) % 2; } add(Case{"cmp", {c}, 3}); }
    for (int s = 0; s < 8; ++s) for (int sm = 0; sm < 5; ++sm) for (int r = 0; r < (th ? 6 : 2); ++r) { Cfg c = member(s, sm, r); for (int q = 0; q < c.nk * c.ns; ++q) { Cfg d = c; d.split = q; d.maxiter = 3; d.lab = q % 3; add(Case{"cmp", {d}, 3}); } }
  }
}

int main(int argc, char** argv)
{
  if (argc == 3 && !strcmp(argv[1], "--life")) return life::child(cparse(argv[2]));
  std::string out, replay, scratch = ".";
  ex::Opts o;
  TIER = "quick";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") PROP = nx();
    else if (a == "--tier") TIER = nx();
    else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--scratch") o.scratch = nx();
    else if (a == "--budget") o.budget = atof(nx().c_str());
    else if (a == "--workers") o.workers = atoi(nx().c_str());
  }
  mallopt(M_PERTURB, 0x80);
  unsetenv("NLCGLIB_DISABLE_NEWTON_EFERMI");
  auto onecase = [&](const std::string& s, Ctx& x) {
    Case k = cparse(s);
    if (k.mode != "env") putenv_(k.c[0].env);
    check_case(k, x);
  };
  nlcglib::initialize();
  // the library prints to standard output
  int so = dup(1);
  int dn = open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  bool whole = ex::task_replay(replay, TIER, o);
  o.tier = TIER;
  if (whole && chdir(o.scratch.c_str())) return 2;
  if (!replay.empty()) {
    Ctx x;
    if (chdir(o.scratch.c_str())) return 2;
    onecase(replay, x);
    fflush(stdout);
    dup2(so, 1);
    for (auto& m : x.local) printf("FINDING %s\n", m.c_str());
    fflush(stdout);
    _exit(x.local.empty() ? 0 : 1);
  }
  build(PROP);
  json res;
  // the library reads the variable once per process: one group of processes per value, and one whose
  // processes only fork
  for (int env = 0; env <= NENV; ++env) {
    std::vector<Task> mine;
    for (auto& t : tasks) if ((t.k.mode == "env" ? NENV : t.k.c[0].env) == env) mine.push_back(t);
    if (mine.empty()) continue;
    putenv_(env == NENV ? 0 : env);
    // large tasks first
    auto cost = [](const Task& t) { const Cfg& c = t.k.c[0]; return (t.k.mode == "leaklong" || t.k.mode == "ladder" ? 1e12 : 0) + t.depth * 1e9 + (double)c.nb * c.nb * c.ng * c.nk * c.ns * (t.k.c.size() + 1); };
    std::stable_sort(mine.begin(), mine.end(), [&](const Task& a, const Task& b) { return cost(a) > cost(b); });
    ex::Opts oo = o;
    oo.group = env;
    oo.scratch = o.scratch + "/env" + std::to_string(env);
    mkdir(oo.scratch.c_str(), 0700);
    json r = ex::explore(mine.size(), [&](int i, Ctx& x) {
      Task& t = mine[i];
      if (t.depth == 0) { Trace tr; check_case(t.k, x, &tr); if (i % 97 == 5) x.sample({{"case", cstr(t.k)}, {"evaluations", tr.ev.size()}, {"records", tr.recs.size()}, {"converged", tr.info.converged}}); }
      else { expand(t, t.k.c[0], "", t.lo, t.depth, true, x); if (t.shard == 0) x.sample({{"family", cstr(t.k)}, {"answers", t.alpha}, {"deviations", t.depth}, {"positions_below", t.maxpos}}); }
    }, onecase, oo);
    if (res.is_null()) res = r;
    else {
      for (auto& f : r["findings"]) res["findings"].push_back(f);
      for (auto& f : r["samples"]) res["samples"].push_back(f);
      for (auto& f : r["counters"].items()) res["counters"][f.key()] = res["counters"][f.key()].get<long>() + f.value().get<long>();
      for (const char* k : {"states", "tasks"}) res[k] = res[k].get<long>() + r[k].get<long>();
      res["complete"] = res["complete"].get<bool>() && r["complete"].get<bool>();
      res["capped"] = res["capped"].get<bool>() || r["capped"].get<bool>();
      res["wall"] = res["wall"].get<double>() + r["wall"].get<double>();
    }
  }
  if (whole) { dup2(so, 1); _exit(ex::report(res, 1)); }
  std::ofstream(out) << res.dump(1, ' ', true, json::error_handler_t::replace) << "\n";
  _exit(0);
}
