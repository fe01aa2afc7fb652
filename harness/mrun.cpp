// Multi-rank explorer: the real minimiser on several ranks under the controller of multi.hpp, for all
// distributions of the k-points and all interleavings of the ranks' file operations.
#include "oracle.hpp"
#include "multi.hpp"
#include "count.hpp"
#include "life.hpp"
#include <dirent.h>

static int C_exec = ex::ctr("schedules"), C_coll = ex::ctr("collectives_completed"), C_fop = ex::ctr("file_operations_scheduled"), C_cap = ex::ctr("schedule_cap_hit"), C_dist = ex::ctr("distributions");

// ---- serialisation of what one rank saw
struct W
{
  std::string s;
  template <class T> void p(const T& v) { s.append((const char*)&v, sizeof v); }
  void str(const std::string& x) { p((uint64_t)x.size()); s += x; }
  void vec(const Vec& v) { p((uint64_t)v.size()); s.append((const char*)v.data(), v.size() * 8); }
  void mat(const Mat& m) { p(m.m); p(m.n); s.append((const char*)m.a.data(), m.a.size() * sizeof(cd)); }
};
struct Rd
{
  const std::string& s;
  size_t o = 0;
  template <class T> T p() { T v; if (o + sizeof v > s.size()) throw std::runtime_error("short"); memcpy(&v, &s[o], sizeof v); o += sizeof v; return v; }
  std::string str() { auto n = p<uint64_t>(); std::string r = s.substr(o, n); o += n; return r; }
  Vec vec() { auto n = p<uint64_t>(); Vec v(n); if (n) memcpy(v.data(), s.data() + o, n * 8); o += n * 8; return v; }
  Mat mat() { int m = p<int>(), n = p<int>(); Mat M(m, n); if (m * n) memcpy((void*)M.a.data(), s.data() + o, M.a.size() * sizeof(cd)); o += M.a.size() * sizeof(cd); return M; }
};
static std::string pack(const Trace& t)
{
  W w;
  w.p((uint64_t)t.loc.size());
  for (int q : t.loc) w.p(q);
  w.p((uint64_t)t.ev.size());
  for (auto& e : t.ev) {
    for (auto& m : e.X) w.mat(m);
    for (auto& m : e.HX) w.mat(m);
    for (auto& v : e.f) w.vec(v);
    for (auto& v : e.ek) w.vec(v);
    w.vec(e.amp);
    w.p(e.E); w.p(e.Eret); w.p(e.mu); w.p(e.nrec); w.p(e.tail); w.p(e.lie);
    w.p((uint64_t)e.comp.size());
    for (auto& kv : e.comp) { w.str(kv.first); w.p(kv.second); }
  }
  w.p(t.info.F); w.p(t.info.S); w.p(t.info.tolerance); w.p(t.info.iter); w.p(t.info.converged); w.p(t.returned); w.p(t.exc); w.str(t.what);
  w.p((uint64_t)t.viol.size());
  for (auto& v : t.viol) w.str(v);
  for (auto& m : t.Xf) w.mat(m);
  for (auto& v : t.ff) w.vec(v);
  w.p(t.muf); w.p(t.nprint); w.str(t.sotxt);
  return w.s;
}
static Trace unpack(const Cfg& c, const std::string& s)
{
  Trace t;
  t.cfg = c;
  t.pr = problem(c);
  Rd r{s};
  size_t n = r.p<uint64_t>();
  for (size_t i = 0; i < n; ++i) t.loc.push_back(r.p<int>());
  size_t ne = r.p<uint64_t>();
  for (size_t k = 0; k < ne; ++k) {
    Eval e;
    for (size_t i = 0; i < n; ++i) e.X.push_back(r.mat());
    for (size_t i = 0; i < n; ++i) e.HX.push_back(r.mat());
    for (size_t i = 0; i < n; ++i) e.f.push_back(r.vec());
    for (size_t i = 0; i < n; ++i) e.ek.push_back(r.vec());
    e.amp = r.vec();
    e.E = r.p<double>(); e.Eret = r.p<double>(); e.mu = r.p<double>(); e.nrec = r.p<int>(); e.tail = r.p<bool>(); e.lie = r.p<char>();
    size_t nc = r.p<uint64_t>();
    for (size_t i = 0; i < nc; ++i) { auto k2 = r.str(); e.comp[k2] = r.p<double>(); }
    t.ev.push_back(e);
  }
  t.info.F = r.p<double>(); t.info.S = r.p<double>(); t.info.tolerance = r.p<double>(); t.info.iter = r.p<int>(); t.info.converged = r.p<bool>(); t.returned = r.p<bool>(); t.exc = r.p<int>(); t.what = r.str();
  size_t nv = r.p<uint64_t>();
  for (size_t i = 0; i < nv; ++i) t.viol.push_back(r.str());
  for (size_t i = 0; i < n; ++i) t.Xf.push_back(r.mat());
  for (size_t i = 0; i < n; ++i) t.ff.push_back(r.vec());
  t.muf = r.p<double>(); t.nprint = r.p<long>(); t.sotxt = r.str();
  return t;
}
// merge the ranks into one trace over all points
static bool merge(const std::vector<Trace>& v, Trace& m, std::string& why, bool strict = true)
{
  m = v[0];
  auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= 1e-12 * std::max(1.0, std::abs(a)); };
  std::vector<std::pair<key_t2, std::pair<int, int>>> pts;
  for (size_t r = 0; r < v.size(); ++r) {
    auto& t = v[r];
    if (!strict) {
      if (t.ev.size() != m.ev.size() || t.returned != m.returned || t.exc != m.exc) return false;
    } else if (t.returned != m.returned || t.exc != m.exc) { why = fmt("rank 0 %s, rank %zu %s", m.returned ? "returns" : ("raises: " + m.what).c_str(), r, t.returned ? "returns" : ("raises: " + t.what).c_str()); return false; }
    if (strict && t.returned && (t.info.iter != m.info.iter || t.info.converged != m.info.converged || !same(t.info.F, m.info.F) || !same(t.info.S, m.info.S) || !same(t.info.tolerance, m.info.tolerance))) { why = fmt("ranks 0 and %zu return different results (F %.15g/%.15g, S %.15g/%.15g, residual %.15g/%.15g, iterations %d/%d, converged %d/%d)", r, m.info.F, t.info.F, m.info.S, t.info.S, m.info.tolerance, t.info.tolerance, m.info.iter, t.info.iter, m.info.converged, t.info.converged); return false; }
    if (t.ev.size() != m.ev.size()) { why = fmt("ranks 0 and %zu evaluate the host a different number of times", r); return false; }
    if (strict) for (size_t e = 0; e < t.ev.size(); ++e) if (!same(t.ev[e].mu, m.ev[e].mu)) { why = fmt("ranks 0 and %zu set different chemical potentials at evaluation %zu: %.15g/%.15g", r, e, m.ev[e].mu, t.ev[e].mu); return false; }
    for (size_t i = 0; i < t.loc.size(); ++i) pts.push_back({t.pr.key[t.loc[i]], {(int)r, (int)i}});
    if (r) for (auto& x : t.viol) m.viol.push_back(fmt("rank %zu: ", r) + x);
  }
  std::sort(pts.begin(), pts.end());
  m.loc.clear(); m.Xf.clear(); m.ff.clear();
  for (auto& e : m.ev) { e.X.clear(); e.HX.clear(); e.f.clear(); e.ek.clear(); e.amp.clear(); }
  for (auto& p : pts) {
    auto& t = v[p.second.first];
    int i = p.second.second;
    m.loc.push_back(t.loc[i]);
    m.Xf.push_back(t.Xf[i]); m.ff.push_back(t.ff[i]);
    for (size_t e = 0; e < m.ev.size(); ++e) { m.ev[e].X.push_back(t.ev[e].X[i]); m.ev[e].HX.push_back(t.ev[e].HX[i]); m.ev[e].f.push_back(t.ev[e].f[i]); m.ev[e].ek.push_back(t.ev[e].ek[i]); m.ev[e].amp.push_back(t.ev[e].amp[i]); }
  }
  return true;
}

static int nfds()
{
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
// every rank makes the same call several times: what is alive afterwards must stop growing
static void leaks(const Case& k, Ctx& x, const multi::Setup& S, const Say& say)
{
  const Cfg& c = k.c[0];
  constexpr int N = 5;
  std::vector<multi::Node> st;
  auto r = multi::execute(S, [&](int rank) {
    W w;
    for (int i = 0; i < N; ++i) {
      long ev;
      { Trace t = run(c, shim::kcomm(), rank); ev = t.ev.size(); }
      for (long v : {shim::live_types, shim::live_comms, (long)nfds(), cnt::blocks(), ev}) w.p(v);
    }
    return w.s;
  }, st);
  x.count(C_coll, r.ncoll);
  for (auto& p : r.problems) { if (p.find("frees") != std::string::npos || p.find("Comm_free") != std::string::npos || p.find("datatype") != std::string::npos) say(p); return; }
  static const char* nm[] = {"MPI datatypes", "communicators", "open file descriptors", "blocks of heap memory"};
  for (int q = 0; q < S.R; ++q) {
    Rd rd{r.payload[q]};
    long v[N][5];
    for (auto& row : v) for (long& z : row) z = rd.p<long>();
    x.count(C_runs, N);
    for (auto& row : v) x.count(C_evals, row[4]);
    for (int j = 0; j < 4; ++j) if (v[N - 1][j] > v[N - 2][j] && v[N - 2][j] > v[N - 3][j]) { say(fmt("every call leaves %ld %s behind on rank %d", v[N - 1][j] - v[N - 2][j], nm[j], q)); return; }
  }
  x.state(std::hash<std::string>()(cstr(k)));
}

// mode "multi": arg = R + 10*woff + 100*reverse reduction + 1000*all schedules + 10000*old log present
static void check_case(const Case& k, Ctx& x)
{
  std::string cs = cstr(k);
  x.begin(cs);
  bool said = false;
  Say say = [&](const std::string& m) { if (!said) { x.fail(cs, m); said = true; } };
  Cfg c = k.c[0];
  multi::Setup S;
  S.R = k.arg % 10;
  S.woff = k.arg / 10 % 10;
  S.wsize = S.R + 1 + S.woff;
  S.revreduce = k.arg / 100 % 10;
  if (PROP == "C23") { leaks(k, x, S, say); x.end(); return; }
  if (PROP == "C27") {
    // self-check of the overlap operators: every rank prints the values of all k-points or of those it has
    auto w = life::wanted(problem(c), life::second(problem(c), k.arg / 100));
    std::vector<multi::Node> st;
    auto r = multi::execute(S, [&](int rank) {
      auto q = life::overlap(c, k.arg / 100, shim::kcomm(), rank, "stdout" + std::to_string(rank));
      W o;
      o.str(q.out); o.p(q.nev); o.p(q.exc); o.str(q.what); o.p(q.changed); o.p((uint64_t)q.viol.size());
      for (auto& v : q.viol) o.str(v);
      return o.s;
    }, st);
    x.count(C_coll, r.ncoll); x.count(C_runs);
    for (auto& p : r.problems) { say(p); break; }
    for (int q = 0; q < S.R && !said; ++q) {
      Rd rd{r.payload[q]};
      life::Report u;
      u.out = rd.str(); u.nev = rd.p<int>(); u.exc = rd.p<int>(); u.what = rd.str(); u.changed = rd.p<bool>();
      for (size_t n = rd.p<uint64_t>(); n; --n) u.viol.push_back(rd.str());
      x.state(std::hash<std::string>()(u.out + cs));
      auto own = life::wanted(problem(c), life::second(problem(c), k.arg / 100), c.dist, q);
      if (u.exc != 9) life::judge(u, w, say, &own);
    }
    x.end();
    return;
  }
  bool allsched = k.arg / 1000 % 10, old = k.arg / 10000 % 10;
  Cfg single = c;
  single.dist = "";
  static std::string lastkey;
  static Trace ref;
  if (lastkey != str(single)) { ref = exec(single, x); lastkey = str(single); }
  x.count(C_dist);
  auto body = [&](int r) {
    std::unique_ptr<Capture> cap;
    if (PROP == "C21") cap.reset(new Capture("stdout" + std::to_string(r)));
    Trace t = run(c, shim::kcomm(), r);
    if (cap) t.sotxt = cap->stop();
    return pack(t);
  };
  bool cap = false;
  auto visit = [&](const multi::Result& r, const std::vector<int>& sched) {
    x.count(C_coll, r.ncoll);
    x.count(C_fop, r.ops.size());
    uint64_t h = ex::mix(11, std::hash<std::string>()(cs));
    for (int s : sched) { h = ex::mix(h, s); x.state(h); }
    std::string sc;
    for (int s : sched) if (sc.size() < 40) sc += char('0' + s);
    // agreement of the ranks is C08's (and C15's) business; the other properties look at the joint history
    bool strict = PROP == "C08" || PROP == "C15" || PROP == "C20";
    for (auto& p : r.problems) { if (strict || PROP == "C02" || (PROP == "C22" && p.find("signal") != std::string::npos)) say(p + " (schedule " + sc + ")"); return false; }
    std::vector<Trace> v;
    for (int q = 0; q < S.R; ++q) { v.push_back(unpack(c, r.payload[q])); x.count(C_evals, v.back().ev.size()); }
    x.count(C_runs);
    Trace m;
    std::string why;
    if (!merge(v, m, why, strict)) { if (strict) say(why + " (schedule " + sc + ")"); else x.count(C_skip); return false; }
    m.raw = slurp("nlcg.json", &m.json_exists);
    m.recs = parse_records(m.raw, m.json_bad);
    std::set<int> writers;
    for (auto& o : r.ops) if (o.path == "nlcg.json" && (o.what == "write" || o.what == "truncate")) writers.insert(o.rank);
    if (PROP == "C22") { x.count(C_runs); return !said && allsched; }
    if (PROP == "C21") {
      std::set<int> w;
      for (auto& o : r.ops) if (o.path == "nlcg.out" && (o.what == "write" || o.what == "truncate")) w.insert(o.rank);
      m.cfg.dist = "";
      m.outtxt = slurp("nlcg.out", &m.out_exists);
      for (int q : w) if (q + S.woff != 0) say("a rank that is not the first one of the world communicator writes nlcg.out (schedule " + sc + ")");
      for (int q = 0; q < S.R && !said; ++q) { m.info = v[q].info; m.sotxt = v[q].sotxt; m.nprint = v[q].nprint; o_C21(m, x, say, q + S.woff == 0); }
      return !said && allsched;
    }
    if (!strict) {
      m.cfg.dist = "";
      for (int q = 0; q < S.R && !said; ++q) {
        // every rank's own result against the joint history
        m.info = v[q].info;
        for (size_t e = 0; e < m.ev.size(); ++e) { m.ev[e].mu = v[q].ev[e].mu; m.ev[e].Eret = v[q].ev[e].Eret; }
        m.muf = v[q].muf;
        if (PROP == "C03") o_C03(m, x, say);
        else if (PROP == "C17") o_C17(m, x, say);
        else if (PROP == "C04") { if (!m.exc) o_C04(m, x, say); }
        else if (PROP == "C01")
          o_C01(m, x, say, [&](const Cfg& longer) {
            Cfg d = longer;
            d.dist = c.dist;
            std::vector<multi::Node> st;
            auto rr = multi::execute(S, [&](int r) { return pack(run(d, shim::kcomm(), r)); }, st);
            Trace u;
            u.returned = false;
            if (!rr.problems.empty()) return u;
            std::vector<Trace> w;
            for (int q = 0; q < S.R; ++q) w.push_back(unpack(d, rr.payload[q]));
            if (!merge(w, u, why, false)) { u.returned = false; return u; }
            u.raw = slurp("nlcg.json", &u.json_exists);
            u.recs = parse_records(u.raw, u.json_bad);
            return u;
          });
        else if (q) break;
        else if (PROP == "C02") o_C02(m, x, say);
        else if (PROP == "C06") o_lock(m, x, say, {"C06"});
        else if (PROP == "C07") o_C07(m, x, say);
        else if (PROP == "C12") o_C12(m, x, say);
        else if (PROP == "C14") o_lock(m, x, say, {"C14", "C02", "C06"});
        else if (PROP == "C18") o_C18(m, x, say, true);
      }
      return false;
    }
    if (PROP == "C15") {
      if (writers.size() > 1) say("more than one rank writes the step log (schedule " + sc + ")");
      o_C15(m, x, say);
    } else {
      for (auto& w : m.viol) { say(w); break; }
      if (writers.size() > 1) say("more than one rank writes the step log (schedule " + sc + ")");
      if (m.ev.size() != ref.ev.size() && m.cfg.maxiter <= 1) say("number of evaluations differs from the single-rank run");
      int mr = std::min(3, (int)std::min(ref.recs.size(), m.recs.size()));
      if (m.recs.size() != ref.recs.size() && c.maxiter <= 3 && ref.returned) say(fmt("%zu log records, the single-rank run writes %zu (schedule %s)", m.recs.size(), ref.recs.size(), sc.c_str()));
      compare(ref, m, mr, 1e-9, say);
      o_lock(m, x, say, {"C14", "C02", "C06", "C04"});
      if (!m.exc) { o_C17(m, x, say); o_C04(m, x, say); o_C15(m, x, say); }
    }
    return !said && (allsched || false);
  };
  long n = multi::schedules(S, body, visit, [&] {
    ::unlink("nlcg.json"); ::unlink("nlcg.out");
    if (old && PROP == "C21") { std::ofstream f("nlcg.out"); f << "0  -1 -1 -1\n"; }
    if (old) { std::ofstream f("nlcg.json"); f << "{\"type\":\"cg_iteration\",\"step\":0,\"F\":-77}"; }
    x.begin(cs);
  }, 4000);
  if (n < 0) { n = -n; cap = true; }
  x.count(C_exec, n);
  if (cap) x.count(C_cap);
  x.end();
}

static std::vector<Case> tasks;
static void dists(Cfg c, int R, const std::function<void(Cfg)>& f)
{
  int np = c.nk * c.ns + (c.split >= 0), tot = 1;
  for (int i = 0; i < np; ++i) tot *= R;
  for (int v = 0; v < tot; ++v) {
    std::string d;
    for (int i = 0, u = v; i < np; ++i, u /= R) d += char('0' + u % R);
    c.dist = d;
    f(c);
  }
}
static void build()
{
  bool th = thorough();
  auto put = [&](Cfg c, int arg) { tasks.push_back(Case{"multi", {c}, arg}); };
  auto size = [](int nk, int ns, int i) { Cfg c = member(nk == 1 ? 0 : 1, i % 5, i); c.nk = nk; c.ns = ns; c.mo = ns == 2 ? 1 : c.mo; int cap = c.mo * c.nb * ns; c.ne = std::max(1, cap / 2); if (c.ne >= cap) c.ne = cap - 1; if (c.ne < 1) c.ne = 1; return c; };
  if (PROP == "C15") {
    for (int R = 1; R <= 3; ++R) for (int nk = 1; nk <= 3; ++nk) { Cfg c = size(nk, 1, R + nk); c.maxiter = 12; c.tol = 1e-13; c.lab = (R + nk) % 6; dists(c, R, [&](Cfg d) { put(d, R + 10000 + 10 * (nk % 2)); d.maxiter = 2; put(d, R + 11000); }); }
    for (int R = 2; R <= 4; ++R) { Cfg c = size(2, 2, R); c.maxiter = 11; dists(c, R, [&](Cfg d) { put(d, R + 10000); }); }
    for (int sm = 0; sm < 5; ++sm) { Cfg c = size(3, 1, sm); c.sm = sm; c.maxiter = 22; c.tol = 1e-13; for (const char* d : {"010", "120", "222", "001"}) { c.dist = d; put(c, 3 + 10000); } }
    return;
  }
  if (PROP == "C21") {
    for (int R = 1; R <= 3; ++R) for (int nk = 1; nk <= 2; ++nk) { Cfg c = size(nk, 1, R + nk); c.maxiter = 2; dists(c, R, [&](Cfg d) { put(d, R + 11000); put(d, R + 10); }); }
    for (int sm = 0; sm < 5; ++sm) for (int R = 2; R <= 4; ++R) { Cfg c = size(2, 2, R + sm); c.sm = sm; c.maxiter = 11; int i = 0; dists(c, R, [&](Cfg d) { if (th || ++i % 7 == sm) put(d, R + 10000 + 10 * (i % 2)); }); }
    for (int sm = 0; sm < 5; ++sm) for (const char* l : {"2+h", "3+h", "4n", "3l", "2+n", "5w,6w"}) { Cfg c = size(2, 1, sm); c.sm = sm; c.maxiter = 5; c.tau = 0.3; c.lies = l; dists(c, 2, [&](Cfg d) { put(d, 2); }); }
    { Cfg c = size(2, 1, 1); c.maxiter = 60; c.tol = 1e-6; for (int sm = 0; sm < 5; ++sm) { c.sm = sm; dists(c, 2, [&](Cfg d) { put(d, 2); }); } }
    return;
  }
  if (PROP == "C22") {
    for (int sm = 0; sm < 5; ++sm) for (int R = 2; R <= 4; ++R) for (int nk = 1; nk <= 3; ++nk) for (int ns = 1; ns <= 2; ++ns) {
      if (nk * ns > 4 || (R == 4 && nk * ns > 3)) continue;
      Cfg c = size(nk, ns, sm + R);
      c.sm = sm; c.maxiter = 2; c.lab = (R + nk + sm) % 6;
      int i = 0;
      dists(c, R, [&](Cfg d) { if (!th && R + nk * ns > 4 && ++i % (R == 4 ? 13 : 5) != sm) return; put(d, R); });
    }
    for (int sm = 0; sm < 5; ++sm) for (const char* l : {"2+h", "4n", "5w,6w"}) { Cfg c = size(2, 1, sm); c.sm = sm; c.maxiter = 4; c.tau = 0.3; c.lies = l; dists(c, 2, [&](Cfg d) { put(d, 2); }); }
    for (int R = 2; R <= 3; ++R) { Cfg c = size(2, 1, R), d = c; auto all = [&](Cfg d) { dists(d, R, [&](Cfg e) { put(e, R); }); }; d.ne = 99; all(d); d = c; d.T = -1; all(d); d = c; d.maxiter = 0; all(d); d = c; d.tol = 10; all(d); d = c; d.vg = 1; d.vb = 1; d.lc = 2; d.vs = 2; all(d); d = c; d.maxiter = 11; all(d); }
    for (int z : {1, 3, 5, 8}) for (int R : {2, 3, 7}) { if (!th && (z + R) % 2) continue; Cfg c = big(z, (z + R) % 5, R); c.maxiter = 1; for (int q = 0; q < c.nk * c.ns; ++q) c.dist += char('0' + (q * q + q / 3) % R); put(c, R); }
    return;
  }
  if (PROP == "C27") {
    for (int w = 0; w < 6; ++w) for (int R = 2; R <= 4; ++R) for (int nk = 1; nk <= 3; ++nk) { Cfg c = size(nk, 1 + (R + w) % 2, w + R); if (c.nk * c.ns > 4) c.ns = 1; c.lab = (R + w) % 6; c.lc = w; int i = 0; dists(c, R, [&](Cfg d) { if (!th && R == 4 && ++i % 3) return; put(d, R + 10 * (w % 2) + 100 * w); }); }
    return;
  }
  if (PROP == "C23") {
    for (int sm = 0; sm < 5; ++sm) for (int R = 2; R <= 3; ++R) for (int nk = 1; nk <= 3; ++nk) {
      Cfg c = size(nk, 1, sm + R);
      c.sm = sm;
      c.maxiter = 2;
      int i = 0;
      dists(c, R, [&](Cfg d) { if (!th && nk == 3 && ++i % 3) return; put(d, R); if (nk == 2) { d.lies = "2+h"; d.tau = 0.3; put(d, R); d.lies = ""; d.ne = 99; put(d, R); d.ne = c.ne; d.maxiter = 40; d.tol = 1e-4; put(d, R); } });
    }
    return;
  }
  if (PROP != "C08") {
    // the joint history of the ranks, one schedule: all distributions, all smearings
    bool lie = PROP == "C01" || PROP == "C02" || PROP == "C03" || PROP == "C07" || PROP == "C14";
    if (PROP == "C18") {
      for (int sm = 0; sm < 3; ++sm) for (int R = 2; R <= 3; ++R) for (int s : {1, 3, 7}) {
        Cfg c = member(s, sm, sm);
        c.tol = 1e-10; c.maxiter = 400; c.kappa = 0.3; c.restart = 10; c.T = std::max(c.T, 4000.0); c.hk = 1; c.g = 0;
        if (c.pk == 4) c.pk = 2;
        if (c.spec == 1) c.spec = 2;
        int i = 0;
        dists(c, R, [&](Cfg d) { if (th || ++i % (s == 7 ? 9 : 3) == 1) put(d, R); });
      }
      return;
    }
    if (PROP == "C20") {
      for (int z = 0; z < 40; ++z) { int R = 2 + z % 3; Cfg c = size(3, 1 + z % 2, z); c.sm = z % 5; c.maxiter = 3; c.lab = z % 6; c.o1 = z % 6; c.o2 = z * 5 % 6; c.o3 = (z + 2) % 6; c.o4 = (z + 3) % 6; int i = 0; dists(c, R, [&](Cfg d) { if (++i % (c.ns == 2 ? 211 : 9) == 1 + z % 7) put(d, R + 100 * (z % 2)); }); }
      return;
    }
    for (int sm = 0; sm < 5; ++sm) for (int R = 2; R <= (th ? 4 : 3); ++R) for (int nk = 1; nk <= 3; ++nk) for (int ns = 1; ns <= 2; ++ns) {
      if (nk * ns > 4) continue;
      Cfg c = size(nk, ns, sm + R);
      c.sm = sm; c.maxiter = 4; c.lab = (R + nk + sm) % 6;
      int i = 0;
      dists(c, R, [&](Cfg d) { if (!th && nk * ns == 4 && ++i % 5 != sm) return; put(d, R + 100 * (i % 2) + 10 * (i % 3 == 0)); });
    }
    if (lie) for (int sm = 0; sm < 5; ++sm) for (int R = 2; R <= 3; ++R) for (const char* l : {"2+h", "3+h", "2h,3h", "4n", "3l", "5i,6i", "2+n", "3h,4h,5h", "4w", "3W", "5w,6w", "4L"}) { Cfg c = size(2, 1, sm); c.sm = sm; c.maxiter = 4; c.tau = 0.3; c.lies = l; dists(c, R, [&](Cfg d) { put(d, R); }); }
    for (int z : {1, 3, 5, 8}) for (int R : {2, 3, 7}) {
      if (!th && (z + R) % 2) continue;
      Cfg c = big(z, (z + R) % 5, R);
      c.maxiter = 3; c.lab = R % 6;
      int np = c.nk * c.ns;
      for (int q = 0; q < np; ++q) c.dist += char('0' + (q * q + q / 3) % R);
      put(c, R);
    }
    { Cfg c = size(2, 1, 1); c.maxiter = 60; c.tol = 1e-6; for (int sm = 0; sm < 5; ++sm) { c.sm = sm; dists(c, 2, [&](Cfg d) { put(d, 2); }); } }
    { Cfg c = size(2, 1, 1); for (int sm = 0; sm < 5; ++sm) for (int mi : {0, 1}) { c.sm = sm; c.maxiter = mi; dists(c, 2, [&](Cfg d) { put(d, 2); }); } }
    return;
  }
  // all distributions, all schedules
  for (int R = 1; R <= (th ? 4 : 3); ++R) for (int nk = 1; nk <= 3; ++nk) for (int sm = 0; sm < 5; ++sm) { if (!th && sm != (R + nk) % 5 && R > 1) continue; Cfg c = size(nk, 1, sm); c.maxiter = 2; dists(c, R, [&](Cfg d) { put(d, R + 1000 + 10000 + 10 * (sm % 2)); }); }
  { Cfg c = size(4, 1, 2); c.maxiter = 1; dists(c, 4, [&](Cfg d) { put(d, 4 + (th ? 1000 : 0)); }); }
  // all distributions, one schedule, all smearings, both reduction orders
  for (int sm = 0; sm < 5; ++sm) for (int R = 2; R <= 4; ++R) for (int nk = 1; nk <= 3; ++nk) for (int ns = 1; ns <= 2; ++ns) { if (nk * ns > (th ? 6 : 4)) continue; Cfg c = size(nk, ns, sm + R); c.sm = sm; c.maxiter = 3; c.lab = (R + nk + sm) % 6; int i = 0; dists(c, R, [&](Cfg d) { ++i; if (!th && nk * ns == 4 && R == 4 && (i + sm) % 4) return; put(d, R + 100 * (i % 2) + 10 * (i % 3 == 0)); }); }
  // host answers
  for (int sm = 0; sm < 5; ++sm) for (int R = 2; R <= 3; ++R) for (const char* l : {"2+h", "3+h", "2h,3h", "4n", "3l", "5i,6i", "2+n", "3h,4h,5h"}) { Cfg c = size(2, 1, sm); c.sm = sm; c.maxiter = 4; c.tau = 0.3; c.lies = l; dists(c, R, [&](Cfg d) { put(d, R); }); }
  // many k-points: block, cyclic, reversed, unbalanced distributions, idle ranks
  for (int z : {1, 3, 5, 8}) for (int R : {2, 3, 4, 7}) for (int pat = 0; pat < 5; ++pat) {
    if (!th && (z + R + pat) % 2) continue;
    Cfg c = big(z, (z + R + pat) % 5, pat);
    c.maxiter = 3; c.lab = (R + pat) % 6;
    int np = c.nk * c.ns;
    for (int q = 0; q < np; ++q) c.dist += char('0' + (pat == 0 ? q % R : pat == 1 ? q * R / np : pat == 2 ? R - 1 - q * R / np : pat == 3 ? (q == np / 2 ? 0 : R - 1) : (q * q + q / 3) % R));
    put(c, R + 100 * (pat % 2));
  }
  for (int R = 5; R <= 8; ++R) for (int pat = 0; pat < R; ++pat) { Cfg c = size(3, 1, pat); c.maxiter = 2; c.dist = std::string(1, '0' + pat) + char('0' + (pat + 3) % R) + char('0' + pat * pat % R); put(c, R + 10000); }
  // indefinite preconditioner, errors on all ranks, iteration limits, convergence
  for (int R = 2; R <= 3; ++R) {
    Cfg c = size(2, 1, R);
    auto all = [&](Cfg d) { dists(d, R, [&](Cfg e) { put(e, R); }); };
    Cfg d = c; d.pk = 3; d.maxiter = 3; all(d);
    d = c; d.maxiter = 0; all(d);
    d = c; d.tol = 10; d.maxiter = 3; all(d);
    d = c; d.ne = 99; all(d);
    d = c; d.T = -1; all(d);
    d = c; d.restart = 0; all(d);
    d = c; d.ekmode = 1; d.ekv = 14; d.maxiter = 1; for (int sm = 0; sm < 5; ++sm) { d.sm = sm; d.ne = 2; all(d); }
    d = c; d.vg = 1; d.vb = 1; d.lc = 2; d.vs = 2; d.maxiter = 3; all(d);
    d = c; d.maxiter = 60; d.tol = 1e-6; all(d);
  }
}

int main(int argc, char** argv)
{
  std::string out, replay;
  ex::Opts o;
  TIER = "quick";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") PROP = nx();
    else if (a == "--tier") TIER = nx();
    else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--scratch") o.scratch = nx();
    else if (a == "--budget") o.budget = atof(nx().c_str());
    else if (a == "--workers") o.workers = atoi(nx().c_str());
  }
  signal(SIGPIPE, SIG_IGN);
  mallopt(M_PERTURB, 0x80);
  unsetenv("NLCGLIB_DISABLE_NEWTON_EFERMI");
  nlcglib::initialize();
  int so = dup(1), dn = ::open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  o.hang = 60;
  bool whole = ex::task_replay(replay, TIER, o);
  o.tier = TIER;
  if (whole && chdir(o.scratch.c_str())) return 2;
  if (!replay.empty()) {
    Ctx x;
    if (chdir(o.scratch.c_str())) return 2;
    check_case(cparse(replay), x);
    fflush(stdout);
    dup2(so, 1);
    for (auto& m : x.local) printf("FINDING %s\n", m.c_str());
    fflush(stdout);
    _exit(x.local.empty() ? 0 : 1);
  }
  build();
  json res = ex::explore(tasks.size(), [&](int i, Ctx& x) { check_case(tasks[i], x); if (i % 97 == 5) x.sample({{"case", cstr(tasks[i])}}); }, [&](const std::string& s, Ctx& x) { check_case(cparse(s), x); }, o);
  res["transitions"] = res["counters"]["collectives_completed"].get<long>() + res["counters"]["file_operations_scheduled"].get<long>();
  res["traces"] = res["counters"]["runs"];
  if (whole) { dup2(so, 1); _exit(ex::report(res, 1)); }
  std::ofstream(out) << res.dump(1, ' ', true, json::error_handler_t::replace) << "\n";
  _exit(0);
}
