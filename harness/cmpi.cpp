// C09: the real gather/reduce wrappers on several ranks over the model MPI; all distributions of the bounds.
#include <nlcglib.hpp>
#include "la/mvector.hpp"
#include "mpi/communicator.hpp"
#include "explore.hpp"
#include "multi.hpp"
#include <complex>
#include <map>
#include <sstream>

using namespace nlcglib;
using ex::Ctx;
static int C_runs = ex::ctr("runs"), C_coll = ex::ctr("collectives_completed"), C_sub = ex::ctr("gathers_and_reductions_checked");
static std::string TIER = "quick";
typedef std::pair<int, int> key2;
typedef Kokkos::complex<double> kcd;

// values with distinguishable bit patterns, special ones included
template <class T> struct V;
template <> struct V<double> { static double get(int i) { static const double s[] = {0.0, -0.0, 1.5, -3.25e300, 5e-324, INFINITY, -INFINITY, 0.1}; uint64_t b = 0x7FF8000000000000ull + i; double n; memcpy(&n, &b, 8); return i % 9 == 8 ? n : i < 8 ? s[i] : s[i % 8] + 1e-3 * i; } static std::string key(double d) { return std::string((char*)&d, 8); } };
template <> struct V<int> { static int get(int i) { static const int s[] = {0, -1, 2147483647, -2147483647 - 1, 77, 65536}; return i < 6 ? s[i] : i * 7919; } static std::string key(int d) { return std::string((char*)&d, 4); } };
template <> struct V<char> { static char get(int i) { return (char)(i * 37 + 11); } static std::string key(char d) { return std::string(1, d); } };
template <> struct V<std::complex<double>> { static std::complex<double> get(int i) { return {V<double>::get(i), V<double>::get(i + 3)}; } static std::string key(std::complex<double> d) { return std::string((char*)&d, 16); } };
template <> struct V<kcd> { static kcd get(int i) { return kcd(V<double>::get(i), V<double>::get(i + 3)); } static std::string key(kcd d) { return V<double>::key(d.real()) + V<double>::key(d.imag()); } };
template <class A, class B> struct V<std::pair<A, B>> { static std::pair<A, B> get(int i) { return {V<A>::get(i), V<B>::get(2 * i + 1)}; } static std::string key(const std::pair<A, B>& d) { return V<A>::key(d.first) + V<B>::key(d.second); } };

static const key2 KEYS[] = {{0, 0}, {0, 1}, {-5, 3}, {2147483647, -1}, {1, 0}};

// every rank runs the whole batch; a sub-case appends what it saw and what was expected is known everywhere
struct Batch
{
  int R, rank;
  std::string out;   // failures
  long n = 0;
  void check(bool ok, const std::string& what) { ++n; if (!ok && out.size() < 2000) out += what + "\n"; }
};
static std::string show(const std::vector<int>& v) { std::string s; for (int x : v) s += std::to_string(x) + " "; return s; }

static void all_counts(int R, int mx, const std::function<void(const std::vector<int>&)>& f)
{
  int tot = 1;
  for (int i = 0; i < R; ++i) tot *= mx + 1;
  for (int v = 0; v < tot; ++v) { std::vector<int> c; for (int i = 0, u = v; i < R; ++i, u /= mx + 1) c.push_back(u % (mx + 1)); f(c); }
}

template <class T>
static void vec(Batch& b, const char* ty, int mx)
{
  Communicator comm(shim::kcomm());
  all_counts(b.R, mx, [&](const std::vector<int>& cnt) {
    auto gen = [&](int r) { std::vector<T> v; for (int i = 0; i < cnt[r]; ++i) v.push_back(V<T>::get(r * 5 + i)); return v; };
    std::string nm = std::string(ty) + ", counts " + show(cnt);
    auto g = comm.allgather(gen(b.rank));
    bool ok = (int)g.size() == b.R;
    for (int r = 0; ok && r < b.R; ++r) { auto w = gen(r); ok = g[r].size() == w.size(); for (size_t i = 0; ok && i < w.size(); ++i) ok = V<T>::key(g[r][i]) == V<T>::key(w[i]); }
    b.check(ok, "gather of lists of " + nm);
    // in-place buffer with counts, and with displacements (gaps keep their contents)
    std::vector<T> buf;
    std::vector<int> off(b.R);
    for (int r = 0; r < b.R; ++r) { off[r] = buf.size(); for (int i = 0; i < cnt[r]; ++i) buf.push_back(r == b.rank ? V<T>::get(r * 5 + i) : V<T>::get(40)); }
    std::vector<T> bb = buf;
    bb.push_back(V<T>::get(33));
    comm.allgather(bb.data(), cnt);
    ok = V<T>::key(bb.back()) == V<T>::key(V<T>::get(33));
    for (int r = 0; r < b.R; ++r) for (int i = 0; i < cnt[r]; ++i) ok = ok && V<T>::key(bb[off[r] + i]) == V<T>::key(V<T>::get(r * 5 + i));
    b.check(ok, "in-place gather of " + nm);
    std::vector<int> dis(b.R);
    int tot = 1;
    for (int r = b.R - 1; r >= 0; --r) { dis[r] = tot; tot += cnt[r] + 1; } // reversed order with gaps
    std::vector<T> dd(tot, V<T>::get(41));
    for (int i = 0; i < cnt[b.rank]; ++i) dd[dis[b.rank] + i] = V<T>::get(b.rank * 5 + i);
    comm.allgather(dd.data(), cnt, dis);
    std::vector<T> ee(tot, V<T>::get(41));
    for (int r = 0; r < b.R; ++r) for (int i = 0; i < cnt[r]; ++i) ee[dis[r] + i] = V<T>::get(r * 5 + i);
    ok = true;
    for (int i = 0; i < tot; ++i) ok = ok && V<T>::key(ee[i]) == V<T>::key(dd[i]);
    b.check(ok, "gather with displacements of " + nm);
  });
  for (int k = 0; k <= mx; ++k) {
    std::vector<T> a(b.R * k + 1, V<T>::get(42));
    for (int i = 0; i < k; ++i) a[b.rank * k + i] = V<T>::get(b.rank * 5 + i);
    comm.allgather(a.data(), k);
    bool ok = V<T>::key(a.back()) == V<T>::key(V<T>::get(42));
    for (int r = 0; r < b.R; ++r) for (int i = 0; i < k; ++i) ok = ok && V<T>::key(a[r * k + i]) == V<T>::key(V<T>::get(r * 5 + i));
    b.check(ok, std::string("gather of equal counts of ") + ty + ", count " + std::to_string(k));
  }
}
template <class T>
static void red(Batch& b, const char* ty)
{
  Communicator comm(shim::kcomm());
  for (int pat = 0; pat < 24; ++pat) {
    std::vector<T> v;
    for (int r = 0; r < b.R; ++r) { int q = (pat * 5 + r * 7 + pat / 6 * r) % 11 - 5; v.push_back(T(pat % 4 == 3 ? -std::abs(q) - 1 : pat % 4 == 2 ? std::abs(q) + 1 : q)); }
    T s = v[0], mn = v[0], mx = v[0];
    for (int r = 1; r < b.R; ++r) { s = s + v[r]; mn = std::min(mn, v[r]); mx = std::max(mx, v[r]); }
    b.check(comm.allreduce(v[b.rank], mpi_op::sum) == s, std::string("sum of ") + ty);
    b.check(comm.allreduce(v[b.rank], mpi_op::min) == mn, std::string("minimum of ") + ty);
    b.check(comm.allreduce(v[b.rank], mpi_op::max) == mx, std::string("maximum of ") + ty);
  }
}
template <class T>
static void redc(Batch& b, const char* ty)
{
  Communicator comm(shim::kcomm());
  for (int pat = 0; pat < 8; ++pat) {
    T s(0, 0);
    auto v = [&](int r) { return T(pat - 3 * r, 2 * r - pat); };
    for (int r = 0; r < b.R; ++r) s = s + v(r);
    T g = comm.allreduce(v(b.rank), mpi_op::sum);
    b.check(g.real() == s.real() && g.imag() == s.imag(), std::string("sum of ") + ty);
  }
}
// every key is on one rank or nowhere
static void all_dists(int R, int K, const std::function<void(const std::vector<int>&)>& f)
{
  all_counts(K, R, [&](const std::vector<int>& d) { std::vector<int> e; for (int x : d) e.push_back(x - 1); f(e); });
}
template <class T>
static void mvs(Batch& b, const char* ty, int K)
{
  all_dists(b.R, K, [&](const std::vector<int>& d) {
    for (int how = 0; how < 2; ++how) {  // communicator of the data / given communicator
      mvector<T> m = how == 0 ? mvector<T>(Communicator(shim::kcomm())) : mvector<T>();
      for (int k = 0; k < K; ++k) if (d[k] == b.rank) m[KEYS[k]] = V<T>::get(k + 2);
      auto g = how == 0 ? m.allgather() : m.allgather(Communicator(shim::kcomm()));
      std::map<key2, T> w;
      for (int k = 0; k < K; ++k) if (d[k] >= 0) w[KEYS[k]] = V<T>::get(k + 2);
      bool ok = g.size() == w.size();
      for (auto& e : w) ok = ok && g.data().count(e.first) && V<T>::key(g.at(e.first)) == V<T>::key(e.second);
      b.check(ok, std::string("gather of keyed scalars of ") + ty + ", key owners " + show(d));
    }
  });
}
template <class T>
static void mvv(Batch& b, const char* ty, int K, int mxlen)
{
  typedef Kokkos::View<T*, Kokkos::HostSpace> view;
  all_dists(b.R, K, [&](const std::vector<int>& d) {
    all_counts(K, mxlen, [&](const std::vector<int>& len) {
      for (int k = 0; k < K; ++k) if (d[k] < 0 && len[k]) return;
      mvector<view> m{Communicator(shim::kcomm())};
      for (int k = 0; k < K; ++k) if (d[k] == b.rank) { view v("v", len[k]); for (int i = 0; i < len[k]; ++i) v(i) = V<T>::get(k * 4 + i); m[KEYS[k]] = v; }
      bool how = (len[0] + d[0]) % 2;
      auto g = how ? m.allgather() : m.allgather(Communicator(shim::kcomm()));
      size_t n = 0;
      bool ok = true;
      for (int k = 0; k < K; ++k) if (d[k] >= 0) {
        ++n;
        if (!g.data().count(KEYS[k])) { ok = false; continue; }
        auto v = g.at(KEYS[k]);
        ok = ok && (int)v.size() == len[k];
        for (int i = 0; ok && i < len[k]; ++i) ok = V<T>::key(v(i)) == V<T>::key(V<T>::get(k * 4 + i));
      }
      ok = ok && g.size() == n;
      b.check(ok, std::string("gather of keyed arrays of ") + ty + ", key owners " + show(d) + ", lengths " + show(len));
      // the local data are untouched
      for (int k = 0; k < K; ++k) if (d[k] == b.rank) for (int i = 0; i < len[k]; ++i) b.check(V<T>::key(m.at(KEYS[k])(i)) == V<T>::key(V<T>::get(k * 4 + i)), "local data changed by a gather");
    });
  });
}
static void sums(Batch& b, int K)
{
  all_dists(b.R, K, [&](const std::vector<int>& d) {
    for (int how = 0; how < 2; ++how) {
      Communicator k(shim::kcomm());
      mvector<double> m = how ? mvector<double>() : mvector<double>(k);
      mvector<int> mi = how ? mvector<int>() : mvector<int>(k);
      mvector<kcd> mz = how ? mvector<kcd>() : mvector<kcd>(k);
      double s = 0, sy = 0;
      for (int q = 0; q < K; ++q) {
        double v = (q + 1) * 0.25 - 1, y = 3 - q;
        if (d[q] == b.rank) { m[KEYS[q]] = v; mi[KEYS[q]] = q * 3 - 2; mz[KEYS[q]] = kcd(v, y); }
        if (d[q] >= 0) { s += v; sy += y; }
      }
      int si = 0;
      for (int q = 0; q < K; ++q) if (d[q] >= 0) si += q * 3 - 2;
      double g = how ? sum(m, k) : sum(m);
      int gi = how ? sum(mi, k) : sum(mi);
      kcd gz = how ? sum(mz, k) : sum(mz);
      b.check(g == s, "sum over keys (double), key owners " + show(d));
      b.check(gi == si, "sum over keys (int), key owners " + show(d));
      b.check(gz.real() == s && gz.imag() == sy, "sum over keys (complex), key owners " + show(d));
    }
  });
}
static void smaller(Batch& b)
{
  // data on the k communicator, gather over a smaller one
  for (int which = 0; which < 4; ++which) {
    bool threw = false;
    typedef Kokkos::View<double*, Kokkos::HostSpace> view;
    try {
      if (which == 0) { mvector<double> m{Communicator(shim::kcomm())}; m[KEYS[0]] = 1; (void)m.allgather(Communicator(MPI_COMM_SELF)); }
      if (which == 1) { mvector<view> m{Communicator(shim::kcomm())}; m[KEYS[0]] = view("v", 2); (void)m.allgather(Communicator(MPI_COMM_SELF)); }
      if (which == 2) { mvector<double> m{Communicator(shim::kcomm())}; m[KEYS[0]] = 1; (void)sum(m, Communicator(MPI_COMM_SELF)); }
      if (which == 3) { mvector<double> m{Communicator(shim::kcomm())}; (void)m.allgather(Communicator(MPI_COMM_SELF)); }
    } catch (std::exception&) { threw = true; }
    b.check(threw == (b.R > 1), std::string(b.R > 1 ? "communicator smaller than that of the data accepted by " : "communicator of equal size rejected by ") + (which == 2 ? "sum" : which == 1 ? "gather of keyed arrays" : "gather of keyed scalars"));
  }
}

// long lists: every combination of short and long contributions
template <class T>
static void longv(Batch& b, const char* ty)
{
  static const int LEN[] = {0, 1, 65, 1024, 33000};
  int nl = b.R <= 2 ? 5 : b.R == 3 ? 4 : 3;
  Communicator comm(shim::kcomm());
  all_counts(b.R, nl - 1, [&](const std::vector<int>& w) {
    std::vector<int> cnt;
    for (int x : w) cnt.push_back(LEN[nl == 3 ? (x == 0 ? 0 : x == 1 ? 2 : 4) : x]);
    auto gen = [&](int r) { std::vector<T> v; for (int i = 0; i < cnt[r]; ++i) v.push_back(V<T>::get(r * 50000 + i)); return v; };
    std::string nm = std::string(ty) + ", counts " + show(cnt);
    auto g = comm.allgather(gen(b.rank));
    bool ok = (int)g.size() == b.R;
    std::vector<T> buf;
    for (int r = 0; r < b.R; ++r) {
      auto x = gen(r);
      ok = ok && g[r].size() == x.size();
      for (size_t i = 0; ok && i < x.size(); ++i) ok = V<T>::key(g[r][i]) == V<T>::key(x[i]);
      for (auto& v : x) buf.push_back(r == b.rank ? v : V<T>::get(40));
    }
    b.check(ok, "gather of lists of " + nm);
    comm.allgather(buf.data(), cnt);
    ok = true;
    size_t o = 0;
    for (int r = 0; r < b.R; ++r) for (int i = 0; i < cnt[r]; ++i, ++o) ok = ok && V<T>::key(buf[o]) == V<T>::key(V<T>::get(r * 50000 + i));
    b.check(ok, "in-place gather of " + nm);
  });
}
// many keys, several distributions, arrays up to the given length
static void many(Batch& b)
{
  typedef Kokkos::View<double*, Kokkos::HostSpace> view;
  Communicator comm(shim::kcomm());
  for (int K : {7, 33, 130, 1100}) for (int pat = 0; pat < 5; ++pat) for (int lp = 0; lp < 4; ++lp) {
    auto owner = [&](int k) { return pat == 0 ? k % b.R : pat == 1 ? std::min(b.R - 1, k * b.R / K) : pat == 2 ? b.R - 1 : pat == 3 ? (k / 3 * 7 + k) % b.R : (k == K / 2 ? 0 : b.R - 1 - k % std::max(1, b.R - 1)); };
    auto len = [&](int k) { return lp == 0 ? 4 : lp == 1 ? k % 5 : lp == 2 ? (k == K - 1 ? 300 : 1) : 17 + k % 2; };
    auto key = [&](int k) { return key2((k * 37) % K - K / 2, k % 3); };
    mvector<view> m{comm};
    mvector<double> ms{comm};
    mvector<int> mi{comm};
    double s = 0;
    for (int k = 0; k < K; ++k) {
      s += 0.25 * (k % 64);
      if (owner(k) != b.rank) continue;
      view v("v", len(k));
      for (int i = 0; i < len(k); ++i) v(i) = V<double>::get(k * 400 + i);
      m[key(k)] = v;
      ms[key(k)] = 0.25 * (k % 64);
      mi[key(k)] = V<int>::get(k);
    }
    auto g = m.allgather();
    auto gs = ms.allgather(comm);
    auto gi = mi.allgather();
    std::string nm = std::to_string(K) + " keys, distribution " + std::to_string(pat) + ", lengths " + std::to_string(lp);
    bool ok = (int)g.size() == K, oks = (int)gs.size() == K && (int)gi.size() == K;
    for (int k = 0; k < K; ++k) {
      if (!g.data().count(key(k)) || !gs.data().count(key(k)) || !gi.data().count(key(k))) { ok = oks = false; break; }
      auto v = g.at(key(k));
      ok = ok && (int)v.size() == len(k);
      for (int i = 0; ok && i < len(k); ++i) ok = V<double>::key(v(i)) == V<double>::key(V<double>::get(k * 400 + i));
      oks = oks && gs.at(key(k)) == 0.25 * (k % 64) && gi.at(key(k)) == V<int>::get(k);
    }
    b.check(ok, "gather of keyed arrays, " + nm);
    b.check(oks, "gather of keyed scalars, " + nm);
    b.check(sum(ms) == s && sum(ms, comm) == s, "sum over keys, " + nm);
  }
}

struct Kind { const char* name; std::function<void(Batch&)> f; };
static std::vector<Kind> kinds()
{
  bool th = TIER == "thorough";
  int m = th ? 4 : 3;
  return {
    {"vec-char", [=](Batch& b) { vec<char>(b, "char", m); }}, {"vec-int", [=](Batch& b) { vec<int>(b, "int", m); }}, {"vec-double", [=](Batch& b) { vec<double>(b, "double", m); }},
    {"vec-complex", [=](Batch& b) { vec<std::complex<double>>(b, "complex", m); }}, {"vec-kcomplex", [=](Batch& b) { vec<kcd>(b, "Kokkos complex", m); }},
    {"vec-pair-ii", [=](Batch& b) { vec<std::pair<int, int>>(b, "pair<int,int>", m); }}, {"vec-pair-id", [=](Batch& b) { vec<std::pair<int, double>>(b, "pair<int,double>", m); }},
    {"vec-pair-ci", [=](Batch& b) { vec<std::pair<char, int>>(b, "pair<char,int>", m); }}, {"vec-pair-dc", [=](Batch& b) { vec<std::pair<double, char>>(b, "pair<double,char>", m); }},
    {"vec-pair-cc", [=](Batch& b) { vec<std::pair<char, char>>(b, "pair<char,char>", m); }}, {"vec-pair-iz", [=](Batch& b) { vec<std::pair<int, std::complex<double>>>(b, "pair<int,complex>", m); }},
    {"vec-pair-kd", [=](Batch& b) { vec<std::pair<key2, double>>(b, "pair<key,double>", m); }}, {"vec-pair-kc", [=](Batch& b) { vec<std::pair<key2, char>>(b, "pair<key,char>", m); }},
    {"vec-pair-ck", [=](Batch& b) { vec<std::pair<char, std::pair<double, char>>>(b, "pair<char,pair<double,char>>", m); }},
    {"red-int", [](Batch& b) { red<int>(b, "int"); }}, {"red-double", [](Batch& b) { red<double>(b, "double"); }},
    {"red-complex", [](Batch& b) { redc<std::complex<double>>(b, "complex"); }}, {"red-kcomplex", [](Batch& b) { redc<kcd>(b, "Kokkos complex"); }},
    {"mvs-int", [=](Batch& b) { mvs<int>(b, "int", th ? 5 : 4); }}, {"mvs-double", [=](Batch& b) { mvs<double>(b, "double", th ? 5 : 4); }}, {"mvs-char", [=](Batch& b) { mvs<char>(b, "char", th ? 5 : 4); }},
    {"mvv-double", [=](Batch& b) { mvv<double>(b, "double", th ? 4 : 3, 3); }}, {"mvv-int", [=](Batch& b) { mvv<int>(b, "int", th ? 4 : 3, 2); }}, {"mvv-complex", [=](Batch& b) { mvv<kcd>(b, "complex", th ? 4 : 3, 2); }}, {"mvv-char", [=](Batch& b) { mvv<char>(b, "char", th ? 4 : 3, 2); }}, {"mvv-double4", [=](Batch& b) { mvv<double>(b, "double", 4, 1); }},
    {"long-char", [](Batch& b) { longv<char>(b, "char"); }}, {"long-int", [](Batch& b) { longv<int>(b, "int"); }}, {"long-double", [](Batch& b) { longv<double>(b, "double"); }}, {"long-pair-kd", [](Batch& b) { longv<std::pair<key2, double>>(b, "pair<key,double>"); }}, {"long-pair-ci", [](Batch& b) { longv<std::pair<char, int>>(b, "pair<char,int>"); }}, {"long-complex", [](Batch& b) { longv<kcd>(b, "complex"); }},
    {"many", [](Batch& b) { many(b); }},
    {"sum", [=](Batch& b) { sums(b, th ? 5 : 4); }}, {"smaller", [](Batch& b) { smaller(b); }},
  };
}
// case: kind:R:woff
static void check_case(const std::string& cs, Ctx& x)
{
  x.begin(cs);
  auto c1 = cs.find(':');
  std::string kn = cs.substr(0, c1);
  int R = atoi(cs.c_str() + c1 + 1), woff = atoi(cs.c_str() + cs.rfind(':') + 1);
  multi::Setup S;
  S.R = R;
  S.woff = woff;
  S.wsize = R + 1 + woff;
  S.hang = 15;
  std::function<void(Batch&)> f;
  for (auto& k : kinds()) if (k.name == kn) f = k.f;
  if (!f) { x.end(); return; }
  bool said = false;
  auto say = [&](const std::string& m) { if (!said) x.fail(cs, m); said = true; };
  auto body = [&](int r) { Batch b{R, r}; try { f(b); } catch (std::exception& e) { b.check(false, std::string("exception: ") + e.what()); } return std::to_string(b.n) + "\n" + b.out; };
  multi::schedules(S, body, [&](const multi::Result& r, const std::vector<int>&) {
    x.count(C_coll, r.ncoll);
    x.count(C_runs);
    for (auto& p : r.problems) { say(p + " [" + kn + "]"); return false; }
    for (int q = 0; q < R; ++q) {
      std::istringstream is(r.payload[q]);
      std::string l;
      std::getline(is, l);
      x.count(C_sub, atol(l.c_str()));
      for (long i = 0; q == 0 && i < atol(l.c_str()); ++i) x.state(ex::mix(std::hash<std::string>()(cs), i));
      if (std::getline(is, l)) { say("rank " + std::to_string(q) + " of " + std::to_string(R) + ": " + l); return false; }
    }
    return true;
  }, [] {}, 100);
  x.end();
}
int main(int argc, char** argv)
{
  std::string out, replay, prop;
  ex::Opts o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") prop = nx();
    else if (a == "--tier") TIER = nx();
    else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--scratch") o.scratch = nx();
    else if (a == "--budget") o.budget = atof(nx().c_str());
  }
  signal(SIGPIPE, SIG_IGN);
  mallopt(M_PERTURB, 0x80);
  Kokkos::initialize();
  int so = dup(1), dn = ::open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  o.hang = 200;
  bool whole = ex::task_replay(replay, TIER, o);
  o.tier = TIER;
  if (whole && chdir(o.scratch.c_str())) return 2;
  if (!replay.empty()) {
    Ctx x;
    check_case(replay, x);
    fflush(stdout);
    dup2(so, 1);
    for (auto& m : x.local) printf("FINDING %s\n", m.c_str());
    fflush(stdout);
    _exit(x.local.empty() ? 0 : 1);
  }
  std::vector<std::string> tasks;
  for (int R = TIER == "thorough" ? 16 : 8; R >= 5; R = R > 8 ? 8 : R - 1) for (const char* k : {"many", "red-int", "red-double", "red-complex", "smaller"}) tasks.push_back(std::string(k) + ":" + std::to_string(R) + ":0");
  for (int R = 4; R >= 1; --R) for (auto& k : kinds()) for (int w = 0; w < 2; ++w) { if (w && R > 2) continue; tasks.push_back(std::string(k.name) + ":" + std::to_string(R) + ":" + std::to_string(w)); }
  ex::json res = ex::explore(tasks.size(), [&](int i, Ctx& x) { check_case(tasks[i], x); if (i % 17 == 3) x.sample({{"case", tasks[i]}}); }, check_case, o);
  res["transitions"] = res["counters"]["collectives_completed"];
  res["traces"] = res["counters"]["gathers_and_reductions_checked"];
  if (whole) { dup2(so, 1); _exit(ex::report(res, 1)); }
  std::ofstream(out) << res.dump(1) << "\n";
  _exit(0);
}
