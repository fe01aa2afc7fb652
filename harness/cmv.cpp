// C19: the real expression templates over per-k-point containers, on all key sets of the bounds.
#include <nlcglib.hpp>
#include "la/dvector.hpp"
#include "la/lapack.hpp"
#include "la/mvector.hpp"
#include "la/utils.hpp"
#include "explore.hpp"
#include "mpi_shim.hpp"
#include <complex>
#include <map>
#include <memory>
#include <set>
#include <sstream>

using namespace nlcglib;
using ex::Ctx;
typedef std::pair<int, int> key2;
typedef Kokkos::complex<double> kcd;
typedef KokkosDVector<kcd**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace> ML;
typedef KokkosDVector<kcd**, SlabLayoutV, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> MS;
typedef Kokkos::View<double*, Kokkos::HostSpace> VD;
static int C_runs = ex::ctr("expressions_checked"), C_ev = ex::ctr("function_calls"), C_miss = ex::ctr("missing_key_errors");
static std::string TIER = "quick";
static const key2 KEYS[] = {{0, 0}, {0, 1}, {-5, 3}, {1, 0}, {2147483647, -1}};
static const int NK = 5;

static double val(int op, int k) { static const double b[] = {1, 10, 100}; return b[op] * (k + 1); }
// insertion order number o of the keys in set s
static std::vector<int> order(int s, int o)
{
  std::vector<int> v;
  for (int k = 0; k < NK; ++k) if (s >> k & 1) v.push_back(k);
  for (int i = 0; i < o; ++i) if (!std::next_permutation(v.begin(), v.end())) break;
  return v;
}
static long nperm(int s) { int n = __builtin_popcount(s); long f = 1; for (int i = 2; i <= n; ++i) f *= i; return f; }
static mvector<double> mk(int op, int s, int o) { mvector<double> m; for (int k : order(s, o)) m[KEYS[k]] = val(op, k); return m; }
struct Log { std::map<std::vector<double>, int> n; long total = 0; };

// how an expression is evaluated
enum { E_THREADED, E_TWICE, E_LOOP, E_EXECUTE, NE };
template <class M> static std::map<key2, double> run(const M& e, int how)
{
  std::map<key2, double> r;
  if (how == E_THREADED || how == E_TWICE) { if (how == E_TWICE) { auto y = eval_threaded(e); (void)y; } auto z = eval_threaded(e); for (auto& q : z) r[q.first] = q.second; }
  else if (how == E_LOOP) { for (auto& q : e) r[q.first] = eval(q.second); }
  else execute(e);
  return r;
}
struct P { std::string kind; int s0, s1, s2, o, how, life; };
static std::string enc(const P& p) { std::ostringstream s; s << p.kind << ":" << p.s0 << ":" << p.s1 << ":" << p.s2 << ":" << p.o << ":" << p.how << ":" << p.life; return s.str(); }
static std::string keys(int s) { std::string r = "{"; for (int k = 0; k < NK; ++k) if (s >> k & 1) r += "(" + std::to_string(KEYS[k].first) + "," + std::to_string(KEYS[k].second) + ")"; return r + "}"; }

static bool run1(const P& p, Ctx& x)
{
  x.count(C_runs);
  x.state(std::hash<std::string>()(enc(p)));
  auto bad = [&](const std::string& m) { x.fail(enc(p), p.kind + " over keys " + keys(p.s0) + ", " + keys(p.s1) + ", " + keys(p.s2) + ": " + m); return false; };
  int nop = p.kind.back() - '0';
  if (nop < 1 || nop > 3) nop = 1;
  int S[3] = {p.s0, p.s1, p.s2};
  bool miss = false;
  for (int i = 1; i < nop; ++i) if (S[0] & ~S[i]) miss = true;
  std::map<key2, std::vector<double>> want;
  for (int k = 0; k < NK; ++k) if (S[0] >> k & 1) { std::vector<double> a; for (int i = 0; i < nop; ++i) a.push_back(val(i, k)); want[KEYS[k]] = a; }
  auto score = [](const std::vector<double>& a) { double r = 0, f = 1; for (double v : a) { r += f * v; f *= 1000; } return r; };
  auto L = std::make_shared<Log>();
  auto note = [L](std::vector<double> a) { L->n[a]++; L->total++; };
  std::map<key2, double> got;
  std::map<key2, double> expect;
  for (auto& w : want) expect[w.first] = score(w.second);
  bool threw = false;
  int times = p.how == E_TWICE ? 2 : 1;
  std::string k0 = p.kind.substr(0, p.kind.size() - 1);
  auto f1 = [=](double a) { note({a}); return score({a}); };
  auto f2 = [=](double a, double b) { note({a, b}); return score({a, b}); };
  auto f3 = [=](double a, double b, double c) { note({a, b, c}); return score({a, b, c}); };
  try {
    auto disturb = [&](auto& m) { if (p.life == 1) { for (auto& e : m) e.second = -777; m[key2(99, 99)] = 5; } if (p.life == 2) m.data().clear(); };
    auto build = [&](auto F) {
      auto a = std::make_unique<mvector<double>>(mk(0, S[0], p.o)), b = std::make_unique<mvector<double>>(mk(1, S[1], p.o)), c = std::make_unique<mvector<double>>(mk(2, S[2], p.o));
      auto r = F(*a, *b, *c);
      if (p.life) { disturb(*a); disturb(*b); disturb(*c); }
      return r;
    };
    if (p.kind == "tapply1") { auto e = build([&](auto& a, auto& b, auto& c) { return tapply(f1, a); }); got = run(e, p.how); }
    else if (p.kind == "tapply2") { auto e = build([&](auto& a, auto& b, auto& c) { return tapply(f2, a, b); }); got = run(e, p.how); }
    else if (p.kind == "tapply3") { auto e = build([&](auto& a, auto& b, auto& c) { return tapply(f3, a, b, c); }); got = run(e, p.how); }
    else if (p.kind == "async1") { auto e = build([&](auto& a, auto& b, auto& c) { return tapply_async(f1, a); }); got = run(e, p.how); }
    else if (p.kind == "async2") { auto e = build([&](auto& a, auto& b, auto& c) { return tapply_async(f2, a, b); }); got = run(e, p.how); }
    else if (p.kind == "async3") { auto e = build([&](auto& a, auto& b, auto& c) { return tapply_async(f3, a, b, c); }); got = run(e, p.how); }
    else if (p.kind == "nested2") {  // expression of expressions
      auto e = build([&](auto& a, auto& b, auto& c) { auto u = tapply([=](double q) { note({-1, q}); return q; }, a); auto v = tapply_async([=](double q) { note({-2, q}); return q; }, b); return tapply(f2, u, v); });
      got = run(e, p.how);
      for (auto it = L->n.begin(); it != L->n.end();) {
        if (it->first[0] < 0) {
          if (it->first[0] == -1 && p.how != E_TWICE && it->second != 1) return bad("inner expression evaluated " + std::to_string(it->second) + " times");
          if (it->first[0] == -2 && it->second != 1) return bad("asynchronous inner expression evaluated " + std::to_string(it->second) + " times");
          L->total -= it->second;
          it = L->n.erase(it);
        } else ++it;
      }
    } else if (p.kind == "prod2") {
      auto e = build([&](auto& a, auto& b, auto& c) { return a * b; });
      got = run(e, p.how);
      for (auto& w : want) { note(w.second); if (times == 2) note(w.second); expect[w.first] = w.second[0] * w.second[1]; }
    } else return true;
  } catch (std::out_of_range& e) { threw = true; }
  catch (std::exception& e) { threw = true; }
  if (miss) { x.count(C_miss); if (!threw) return bad("a missing key is not reported"); return true; }
  if (threw) return bad("error although all keys are present");
  x.count(C_ev, L->total);
  bool once = k0 == "async";
  for (auto& w : want) {
    int n = L->n.count(w.second) ? L->n[w.second] : 0;
    int e = once ? 1 : times;
    if (n != e) return bad("function called " + std::to_string(n) + " times with the operands of key (" + std::to_string(w.first.first) + "," + std::to_string(w.first.second) + "), expected " + std::to_string(e));
  }
  if (L->total != (long)want.size() * (once ? 1 : times)) return bad("function called with operands of different keys");
  if (p.how != E_EXECUTE && got != expect) return bad("wrong values or keys in the result");
  return true;
}
// operators packed per key: the operator of key k is called with the operands of key k
struct Op1 { int k; std::shared_ptr<Log> L; ML operator()(const ML& a) const { L->n[{(double)k, a.array()(0, 0).real()}]++; ML r = copy(a); r.array()(0, 0) = kcd(1000.0 * (k + 1) + a.array()(0, 0).real(), 0); return r; }
  ML operator()(const ML& a, const ML& b) const { L->n[{(double)k, a.array()(0, 0).real(), b.array()(0, 0).real()}]++; ML r = copy(a); r.array()(0, 0) = kcd(1000.0 * (k + 1) + a.array()(0, 0).real() + 0.001 * b.array()(0, 0).real(), 0); return r; } };
static ML mat(double v, int m = 1, int n = 1) { ML a(Map<>(Communicator(), SlabLayoutV({{0, 0, m, n}}))); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) a.array()(i, j) = kcd(v + i * 100 + j * 10, i - j); return a; }
static bool run2(const P& p, Ctx& x)
{
  x.count(C_runs);
  x.state(std::hash<std::string>()(enc(p)));
  auto bad = [&](const std::string& m) { x.fail(enc(p), p.kind + " over keys " + keys(p.s0) + ", " + keys(p.s1) + ", " + keys(p.s2) + ": " + m); return false; };
  auto has = [](int s, int k) { return s >> k & 1; };
  int n0 = __builtin_popcount(p.s0);
  if (p.kind == "op1" || p.kind == "op2") {
    auto L = std::make_shared<Log>();
    mvector<Op1> op;
    mvector<ML> a, b;
    for (int k : order(p.s1, p.o)) op[KEYS[k]] = Op1{k, L};
    for (int k : order(p.s0, p.o)) a[KEYS[k]] = mat(k + 1);
    for (int k : order(p.s2, p.o)) b[KEYS[k]] = mat(20 * (k + 1));
    bool two = p.kind == "op2", miss = (p.s0 & ~p.s1) || (two && (p.s0 & ~p.s2)), threw = false;
    std::map<key2, double> got;
    try {
      if (two) { auto e = tapply_op(op, a, b); if (p.life) { op.data().clear(); b.data().clear(); } auto r = eval_threaded(e); for (auto& q : r) got[q.first] = q.second.array()(0, 0).real(); }
      else { auto e = tapply_op(op, a); if (p.life) { op.data().clear(); } auto r = eval_threaded(e); for (auto& q : r) got[q.first] = q.second.array()(0, 0).real(); }
    } catch (std::exception&) { threw = true; }
    if (miss) { x.count(C_miss); return threw ? true : bad("a missing key is not reported"); }
    if (threw) return bad("error although all keys are present");
    if ((int)got.size() != n0) return bad("wrong number of results");
    for (int k = 0; k < NK; ++k) if (has(p.s0, k)) {
      double e = 1000.0 * (k + 1) + (k + 1) + (two ? 0.001 * 20 * (k + 1) : 0);
      if (!got.count(KEYS[k]) || std::abs(got[KEYS[k]] - e) > 1e-9) return bad("operator of one k-point applied to another");
      std::vector<double> w = two ? std::vector<double>{(double)k, k + 1.0, 20.0 * (k + 1)} : std::vector<double>{(double)k, k + 1.0};
      if (L->n[w] != 1) return bad("operator called " + std::to_string(L->n[w]) + " times for one k-point");
    }
    return true;
  }
  if (p.kind == "unzip1") {
    for (int how = 0; how < 2; ++how) {
      mvector<std::tuple<double, int, VD>> v{Communicator(shim::kcomm())};
      for (int k : order(p.s0, p.o)) { VD d("d", k + 1); d(k) = 5 + k; v[KEYS[k]] = std::make_tuple(k + 0.5, 10 * k, d); }
      auto u = how ? unzip(v, Communicator(shim::kcomm())) : unzip(v);
      auto &a = std::get<0>(u); auto &b = std::get<1>(u); auto &c = std::get<2>(u);
      if ((int)a.size() != n0 || (int)b.size() != n0 || (int)c.size() != n0) return bad("number of elements changed");
      for (int k = 0; k < NK; ++k) if (has(p.s0, k)) {
        if (!a.data().count(KEYS[k]) || !b.data().count(KEYS[k]) || !c.data().count(KEYS[k])) return bad("key lost");
        if (a.at(KEYS[k]) != k + 0.5 || b.at(KEYS[k]) != 10 * k || (int)c.at(KEYS[k]).extent(0) != k + 1 || c.at(KEYS[k])(k) != 5 + k) return bad("wrong value under a key");
      }
      if (how) { Communicator w(shim::kcomm()); Communicator c0 = a.commk(), c2 = c.commk(); if (!(c0 == w) || !(c2 == w)) return bad("communicator lost"); }
    }
    // single-element tuples
    mvector<std::tuple<double>> v;
    for (int k : order(p.s0, p.o)) v[KEYS[k]] = std::make_tuple(k * 2.0);
    auto u = unzip(v);
    for (int k = 0; k < NK; ++k) if (has(p.s0, k) && (!std::get<0>(u).data().count(KEYS[k]) || std::get<0>(u).at(KEYS[k]) != 2.0 * k)) return bad("wrong value under a key");
    return true;
  }
  if (p.kind == "copy1") {
    mvector<ML> a;
    mvector<MS> s;
    std::vector<std::vector<std::complex<double>>> store(NK);
    for (int k : order(p.s0, p.o)) {
      a[KEYS[k]] = mat(k + 1, 2 + k % 2, 3);
      int m = 1 + k % 3, n = 2, s0 = p.life ? 2 : 1, s1 = s0 * m + 1;
      store[k].assign(s0 * m + s1 * n + 4, {NAN, NAN});
      for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) store[k][i * s0 + j * s1] = {k + 10. * i + 100. * j, 1. + j};
      s[KEYS[k]] = MS(Map<>(Communicator(), SlabLayoutV({{0, 0, m, n}})), buffer_protocol<std::complex<double>, 2>(std::array<int, 2>{s0, s1}, std::array<int, 2>{m, n}, store[k].data(), memory_type::host, MPI_COMM_SELF));
    }
    auto store0 = store;
    auto c = copy(a);
    auto d = copy(s);
    if ((int)c.size() != n0 || (int)d.size() != n0) return bad("number of elements changed");
    for (int k = 0; k < NK; ++k) if (has(p.s0, k)) {
      if (!c.data().count(KEYS[k]) || !d.data().count(KEYS[k])) return bad("key lost");
      auto &y = c.at(KEYS[k]).array(), &z = a.at(KEYS[k]).array();
      if (y.extent(0) != z.extent(0) || y.extent(1) != z.extent(1)) return bad("shape changed");
      for (size_t i = 0; i < y.extent(0); ++i) for (size_t j = 0; j < y.extent(1); ++j) { if (y(i, j).real() != z(i, j).real() || y(i, j).imag() != z(i, j).imag()) return bad("value changed by a copy"); if (&y(i, j) == &z(i, j)) return bad("copy shares memory with its source"); }
      auto &u = d.at(KEYS[k]).array(); auto &w = s.at(KEYS[k]).array();
      if (u.extent(0) != w.extent(0) || u.extent(1) != w.extent(1)) return bad("shape changed");
      for (size_t i = 0; i < u.extent(0); ++i) for (size_t j = 0; j < u.extent(1); ++j) { if (u(i, j).real() != w(i, j).real() || u(i, j).imag() != w(i, j).imag()) return bad("value changed by a copy"); if (&u(i, j) == &w(i, j)) return bad("copy shares memory with its source"); u(i, j) = kcd(-1, -1); y(0, 0) = kcd(-2, -2); }
      if (memcmp(store[k].data(), store0[k].data(), store[k].size() * 16)) return bad("source changed through its copy");
      if (z(0, 0).real() != k + 1) return bad("source changed through its copy");
    }
    return true;
  }
  if (p.kind == "sum1") {
    double e = 0;
    kcd ez(0, 0);
    mvector<double> a; mvector<kcd> z; mvector<VD> v; mvector<int> ai;
    std::map<key2, double> ev;
    for (int k : order(p.s0, p.o)) { a[KEYS[k]] = 0.5 * (k + 1); z[KEYS[k]] = kcd(k, 2.0 - k); ai[KEYS[k]] = k - 2; VD d("d", k); for (int i = 0; i < k; ++i) d(i) = 0.25 * (i + 1) - k; v[KEYS[k]] = d; }
    int ei = 0;
    for (int k = 0; k < NK; ++k) if (has(p.s0, k)) { e += 0.5 * (k + 1); ez = ez + kcd(k, 2.0 - k); ei += k - 2; double t = 0; for (int i = 0; i < k; ++i) t += 0.25 * (i + 1) - k; ev[KEYS[k]] = t; }
    if (sum(a) != e) return bad("sum of scalars");
    if (sum(ai) != ei) return bad("sum of integers");
    kcd g = sum(z);
    if (g.real() != ez.real() || g.imag() != ez.imag()) return bad("sum of complex numbers");
    if (sum(a, Communicator()) != e) return bad("sum over a given communicator");
    auto ex_ = tapply([](double q) { return 3 * q; }, a);
    if (sum(ex_) != 3 * e) return bad("sum of an expression");
    auto sv = run(sum(v), E_THREADED);
    if (sv != ev) return bad("sum of vectors per k-point");
    // norms
    mvector<ML> X, Y;
    double xx = 0, xy = 0;
    for (int k : order(p.s0, p.o)) { X[KEYS[k]] = mat(k + 1, 2, 2); Y[KEYS[k]] = mat(2 * k - 3, 2, 2); }
    for (int k = 0; k < NK; ++k) if (has(p.s0, k)) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { double ax = k + 1 + i * 100 + j * 10, ay = 2 * k - 3 + i * 100 + j * 10, c = i - j; xx += ax * ax + c * c; xy += ax * ay + c * c; }
    if (std::abs(l2norm(X) - std::sqrt(xx)) > 1e-12 * (1 + xx)) return bad("l2norm");
    kcd ir = innerh_reduce(X, Y);
    if (ir.real() != xy || ir.imag() != 0) return bad("innerh_reduce");
    return true;
  }
  if (p.kind == "access1") {
    mvector<double> a = mk(0, p.s0, p.o);
    const mvector<double>& c = a;
    for (int k = 0; k < NK; ++k) {
      int t = 0;
      try { if (a.at(KEYS[k]) != val(0, k)) return bad("wrong value from at"); } catch (std::out_of_range&) { t++; }
      try { if (c.at(KEYS[k]) != val(0, k)) return bad("wrong value from at"); } catch (std::out_of_range&) { t++; }
      try { if (c[KEYS[k]] != val(0, k)) return bad("wrong value from []"); } catch (std::out_of_range&) { t++; }
      if (t != (has(p.s0, k) ? 0 : 3)) return bad("a missing key is not reported, or a present one is");
    }
    if ((int)a.size() != n0 || (int)c.size() != n0) return bad("size");
    mvector<double> b = a, d;
    d = c;
    if (b.data() != a.data() || d.data() != a.data()) return bad("copy of the container");
    if (n0) { b.begin()->second = -1; if (a.begin()->second == -1) return bad("copies of the container share elements"); }
    std::map<key2, double> mm;
    for (int k : order(p.s1, 0)) mm[KEYS[k]] = val(1, k);
    auto keep = mm;
    mvector<double>& r = (d = std::move(mm));
    if (&r != &d || d.data() != keep) return bad("assignment of a map");
    // assignment of another mvector of expressions, key by key
    mvector<double> src = mk(1, p.s1, p.o);
    auto e = tapply([](double q) { return q + 0.5; }, src);
    mvector<double> t = mk(0, p.s0, 0);
    bool threw = false;
    try { t = e; } catch (std::exception&) { threw = true; }
    if (p.s0 & ~p.s1) { if (!threw) return bad("assignment does not report a missing key"); }
    else { if (threw) return bad("assignment fails"); for (int k = 0; k < NK; ++k) if (has(p.s0, k) && t.at(KEYS[k]) != val(1, k) + 0.5) return bad("assignment stores a value under the wrong key"); if ((int)t.size() != n0) return bad("assignment changes the keys"); }
    return true;
  }
  return true;
}
// five operands (as the geodesic step uses them): all key sets over three keys; s2 packs operands 2, 3, 4
static bool run5(const P& p, Ctx& x)
{
  x.count(C_runs);
  x.state(std::hash<std::string>()(enc(p)));
  int S[5] = {p.s0, p.s1, p.s2 & 7, p.s2 >> 3 & 7, p.s2 >> 6 & 7};
  auto bad = [&](const std::string& m) { std::string k; for (int s : S) k += keys(s) + " "; x.fail(enc(p), p.kind + " over keys " + k + ": " + m); return false; };
  mvector<double> a, c, d; mvector<int> b; mvector<float> e;
  bool miss = false;
  for (int i = 1; i < 5; ++i) if (S[0] & ~S[i]) miss = true;
  for (int k : order(S[0], p.o)) a[KEYS[k]] = k + 1;
  for (int k : order(S[1], 0)) b[KEYS[k]] = 10 * (k + 1);
  for (int k : order(S[2], p.o)) c[KEYS[k]] = 100 * (k + 1);
  for (int k : order(S[3], 0)) d[KEYS[k]] = 1000 * (k + 1);
  for (int k : order(S[4], p.o)) e[KEYS[k]] = 10000 * (k + 1);
  long calls = 0;
  auto f = [&](double a, int b, double c, double d, float e) { ++calls; return a + 2 * b + 3 * c + 4 * d + 5 * e; };
  std::map<key2, double> got;
  bool threw = false;
  try { if (p.kind == "tapplyfive") got = run(tapply(f, a, b, c, d, e), E_THREADED); else got = run(tapply_async(f, a, b, c, d, e), p.how ? E_THREADED : E_LOOP); } catch (std::exception&) { threw = true; }
  if (miss) { x.count(C_miss); return threw ? true : bad("a missing key is not reported"); }
  if (threw) return bad("error although all keys are present");
  if ((int)got.size() != __builtin_popcount(p.s0) || calls != (long)got.size()) return bad("wrong number of results or calls");
  x.count(C_ev, calls);
  for (int k = 0; k < 3; ++k) if (p.s0 >> k & 1) if (!got.count(KEYS[k]) || got[KEYS[k]] != (k + 1) * 54321.0) return bad("operands of different keys combined");
  return true;
}
// many keys: s0 keys, the other operands hold s1 and s2 further ones
static bool runmany(const P& p, Ctx& x)
{
  x.count(C_runs);
  x.state(std::hash<std::string>()(enc(p)));
  auto bad = [&](const std::string& m) { x.fail(enc(p), std::to_string(p.s0) + " keys, " + std::to_string(p.s1) + " and " + std::to_string(p.s2) + " more in the other operands: " + m); return false; };
  int K = p.s0;
  auto key = [&](int k) { return p.how == 0 ? key2(k, 0) : p.how == 1 ? key2(k / 2, k % 2) : p.how == 2 ? key2(-k * 1000003, k % 3) : key2(5, (k % 2 ? -1 : 1) * k * 70001); };
  mvector<double> a, b, c;
  std::map<key2, double> want, wprod;
  auto put = [&](mvector<double>& m, int n, double f) { for (int q = 0; q < n; ++q) { int k = p.o == 0 ? q : p.o == 1 ? n - 1 - q : (q * 7919 + 3) % n; m[key(k)] = f * (k + 1); } };
  put(a, K, 1); put(b, K + p.s1, 1000); put(c, K + p.s2, 1000000);
  if ((int)a.size() != K || (int)b.size() != K + p.s1) return bad("number of elements");
  double tot = 0;
  for (int k = 0; k < K; ++k) { want[key(k)] = (k + 1) * 1001001.0; wprod[key(k)] = (k + 1.0) * (k + 1.0) * 1000; tot += k + 1; }
  long calls = 0;
  auto f = [&](double u, double v, double w) { ++calls; return u + v + w; };
  if (run(tapply(f, a, b, c), E_THREADED) != want || calls != K) return bad("tapply");
  calls = 0;
  if (run(tapply_async(f, a, b, c), E_THREADED) != want || calls != K) return bad("tapply_async");
  if (run(a * b, E_THREADED) != wprod) return bad("product");
  if (sum(a) != tot || sum(a, Communicator()) != tot) return bad("sum");
  mvector<double> t = a;
  auto te = tapply([](double q) { return 2 * q; }, a);
  t = te;
  for (int k = 0; k < K; ++k) if (t.at(key(k)) != 2 * (k + 1)) return bad("assignment");
  mvector<std::tuple<double, int>> z;
  for (int k = 0; k < K; ++k) z[key(k)] = std::make_tuple(0.5 * k, 3 * k);
  auto u = unzip(z);
  for (int k = 0; k < K; ++k) if (std::get<0>(u).at(key(k)) != 0.5 * k || std::get<1>(u).at(key(k)) != 3 * k) return bad("unzip");
  mvector<ML> m;
  for (int k = 0; k < K; ++k) m[key(k)] = mat(k + 1, 1 + k % 3, 1 + k % 2);
  auto cm = copy(m);
  if ((int)cm.size() != K) return bad("copy");
  for (int k = 0; k < K; ++k) { auto &y = cm.at(key(k)).array(), &w = m.at(key(k)).array(); if (y.data() == w.data() || y.extent(0) != w.extent(0) || y.extent(1) != w.extent(1) || y(0, 0).real() != k + 1) return bad("copy"); }
  return true;
}
static bool dispatch(const P& p, Ctx& x)
{
  if (p.kind == "tapplyfive" || p.kind == "asyncfive") return run5(p, x);
  if (p.kind == "many") return runmany(p, x);
  static const std::set<std::string> two = {"op1", "op2", "unzip1", "copy1", "sum1", "access1"};
  return two.count(p.kind) ? run2(p, x) : run1(p, x);
}
static void check_case(const std::string& cs, Ctx& x)
{
  std::vector<std::string> f;
  std::stringstream s(cs);
  std::string q;
  while (std::getline(s, q, ':')) f.push_back(q);
  x.begin(cs);
  if (f.size() == 7) { try { dispatch(P{f[0], atoi(f[1].c_str()), atoi(f[2].c_str()), atoi(f[3].c_str()), atoi(f[4].c_str()), atoi(f[5].c_str()), atoi(f[6].c_str())}, x); } catch (std::exception& e) { x.fail(cs, std::string("exception: ") + e.what()); } }
  x.end();
}
int main(int argc, char** argv)
{
  std::string out, replay, prop;
  ex::Opts o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") prop = nx();
    else if (a == "--tier") TIER = nx();
    else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--scratch") o.scratch = nx();
    else if (a == "--budget") o.budget = atof(nx().c_str());
  }
  mallopt(M_PERTURB, 0x80);
  Kokkos::initialize();
  shim::configure(1, 0, 1, 0);
  int so = dup(1), dn = ::open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  o.hang = 60;
  bool whole = ex::task_replay(replay, TIER, o);
  o.tier = TIER;
  if (whole && chdir(o.scratch.c_str())) return 2;
  if (!replay.empty()) {
    Ctx x;
    check_case(replay, x);
    fflush(stdout);
    dup2(so, 1);
    for (auto& m : x.local) printf("FINDING %s\n", m.c_str());
    fflush(stdout);
    _exit(x.local.empty() ? 0 : 1);
  }
  bool th = TIER == "thorough";
  int K = th ? 5 : 4, NS = 1 << K;
  struct T { std::string kind; int s0; };
  std::vector<T> tasks;
  for (const char* k : {"tapply3", "async3", "tapply2", "async2", "nested2", "prod2", "tapply1", "async1", "op2", "op1", "unzip1", "copy1", "sum1", "access1"})
    for (int s = 0; s < NS; ++s) tasks.push_back({k, s});
  for (const char* k : {"tapplyfive", "asyncfive"}) for (int s = 0; s < 8; ++s) tasks.push_back({k, s});
  for (int n = 1; n <= (th ? 300 : 140); n += n < 20 ? 1 : 7) tasks.push_back({"many", n});
  ex::json res = ex::explore(tasks.size(), [&](int i, Ctx& x) {
    auto t = tasks[i];
    if (t.kind == "many" || t.kind == "tapplyfive" || t.kind == "asyncfive") {
      bool m = t.kind == "many";
      for (int s1 = 0; s1 < 8; ++s1) for (int s2 = 0; s2 < (m ? 4 : 512); ++s2) for (int o_ = 0; o_ < (m ? 3 : nperm(t.s0)); ++o_) for (int how = 0; how < (m ? 4 : t.kind == "asyncfive" ? 2 : 1); ++how) {
        if (x.stopped()) return;
        P p{t.kind, t.s0, s1, s2, o_, how, 0};
        x.begin(enc(p));
        bool ok;
        try { ok = dispatch(p, x); } catch (std::exception& e) { x.fail(enc(p), std::string("exception: ") + e.what()); ok = false; }
        if (!ok) return;
      }
      x.end();
      return;
    }
    int nop = t.kind.back() - '0';
    bool op = t.kind == "op1" || t.kind == "op2";
    bool expr = !op && t.kind != "unzip1" && t.kind != "copy1" && t.kind != "sum1" && t.kind != "access1";
    for (int s1 = 0; s1 < (nop > 1 || op || t.kind == "access1" ? NS : 1); ++s1) for (int s2 = 0; s2 < (nop > 2 || t.kind == "op2" ? NS : 1); ++s2)
      for (int o_ = 0; o_ < nperm(t.s0); ++o_)
        for (int how = 0; how < (expr ? NE : 1); ++how) for (int life = 0; life < (expr ? 3 : op || t.kind == "copy1" ? 2 : 1); ++life) {
          if (x.stopped()) return;
          P p{t.kind, t.s0, s1, s2, o_, how, life};
          x.begin(enc(p));
          bool ok;
          try { ok = dispatch(p, x); } catch (std::exception& e) { x.fail(enc(p), std::string("exception: ") + e.what()); ok = false; }
          if (!ok) return;
        }
    if (i % 17 == 3) x.sample({{"case", x.cur}});
    x.end();
  }, check_case, o);
  res["transitions"] = res["counters"]["function_calls"];
  res["traces"] = res["counters"]["expressions_checked"];
  if (whole) { dup2(so, 1); _exit(ex::report(res, 1)); }
  std::ofstream(out) << res.dump(1) << "\n";
  _exit(0);
}
