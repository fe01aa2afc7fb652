// The closed environment of the library: a small model host (ensemble DFT with a quadratic density
// term) implementing the public interface, with buffers in arbitrary layouts surrounded by canaries,
// a script of energy answers, and a record of everything the library does to it.
#pragma once
#include <nlcglib.hpp>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <nlohmann/json.hpp>
#include "mpi_shim.hpp"
#include "ref.hpp"

namespace mk {
using namespace ref;
using key_t2 = std::pair<int, int>;
using nlcglib::buffer_protocol;
using nlcglib::memory_type;
using json = nlohmann::json;

// ------------------------------------------------------------------ configuration of one run
struct Cfg
{
  int ng = 4, nb = 2, nk = 1, ns = 1, vg = 0, vb = 0;  // sizes; vg/vb: sizes vary with k
  int mo = 2, ne = 2, sm = 0;
  double T = 4000, g = 0.3, shift = 0, spread = 1;
  int spec = 0;               // 0 ladder 1 degenerate pairs 2 gapped insulator 3 all equal 4 near-degenerate 1e-12
  int sk = 1, pk = 1, hk = 1; // overlap, preconditioner, hamiltonian kinds
  int x0 = 0;                 // 0 generic 1 equal-mix pairs (degenerate band energies) 2 exact eigenvectors
  int wk = 0;
  int lc = 0, lh = 0, vs = 1; // layouts of C, hphi; stride of 1-d buffers
  int o1 = 0, o2 = 0, o3 = 0, o4 = 0; // enumeration order of C/hphi, ek/fn, weights, order of hphi separately
  int lab = 0, split = -1;
  int seed = 1;
  double tol = 1e-9, kappa = 0.3, tau = 0.1;
  int maxiter = 20, restart = 5, entry = 0, env = 0;
  int mem = 0;                // 1.. device/none memory of C, hphi, ek, fn
  int stop = -1;              // host throws at this evaluation
  int limit = 4000;
  int cons = 0;               // 1: energies are a function of the state (same answer at the same state)
  int ekmode = 0;             // 1: band energies of evaluation 0 are given by ekv pattern
  int ekv = 0;
  std::string lies, dist;     // "5h,7n,9+h"; owner rank per point
};

#define CFG_FIELDS(I, D, S)                                                                             \
  I(ng) I(nb) I(nk) I(ns) I(vg) I(vb) I(mo) I(ne) I(sm) D(T) D(g) D(shift) D(spread) I(spec) I(sk) I(pk) I(hk) I(x0) I(wk) \
  I(lc) I(lh) I(vs) I(o1) I(o2) I(o3) I(o4) I(lab) I(split) I(seed) D(tol) D(kappa) D(tau) I(maxiter)  \
  I(restart) I(entry) I(env) I(mem) I(stop) I(limit) I(cons) I(ekmode) I(ekv) S(lies) S(dist)

inline std::string str(const Cfg& c)
{
  Cfg d;
  std::ostringstream o;
  o.precision(17);
#define PI_(n) if (c.n != d.n) o << #n << "=" << c.n << ";";
  CFG_FIELDS(PI_, PI_, PI_)
#undef PI_
  return o.str();
}
inline Cfg parse(const std::string& s)
{
  Cfg c;
  std::istringstream i(s);
  std::string t;
  while (std::getline(i, t, ';')) {
    auto e = t.find('=');
    if (e == std::string::npos) continue;
    std::string k = t.substr(0, e), v = t.substr(e + 1);
    bool ok = false;
#define RI_(n) if (k == #n) { c.n = atoi(v.c_str()); ok = true; }
#define RD_(n) if (k == #n) { c.n = atof(v.c_str()); ok = true; }
#define RS_(n) if (k == #n) { c.n = v; ok = true; }
    CFG_FIELDS(RI_, RD_, RS_)
    if (!ok) throw std::logic_error("bad cfg field " + k);
  }
  return c;
}

inline std::vector<int> nth_perm(int n, int r)
{
  std::vector<int> v(n);
  std::iota(v.begin(), v.end(), 0);
  if (r >= 1000) { // reverse, rotate, interleave
    std::vector<int> u(n);
    for (int i = 0; i < n; ++i) u[i] = r == 1000 ? n - 1 - i : r == 1001 ? (i + n / 2 + 1) % n : i < (n + 1) / 2 ? 2 * i : 2 * (i - (n + 1) / 2) + 1;
    return u;
  }
  for (int i = 0; i < r; ++i) std::next_permutation(v.begin(), v.end());
  return v;
}

// ------------------------------------------------------------------ buffers with canaries
inline double canary() { uint64_t b = 0x7FF8DEADBEEF0001ull; double d; memcpy(&d, &b, 8); return d; }
inline bool is_canary(double d) { uint64_t b; memcpy(&b, &d, 8); return b == 0x7FF8DEADBEEF0001ull; }

struct MBuf  // matrix of host memory described by strides
{
  int m = 0, n = 0, s0 = 1, s1 = 1, off = 0;
  std::vector<cd> raw;
  std::vector<char> used;
  void init(int m_, int n_, int kind)
  {
    m = m_; n = n_;
    switch (kind) {
      case 0: s0 = 1; s1 = m; break;
      case 1: s0 = 1; s1 = m + 3; break;
      case 2: s0 = 2; s1 = 2 * m + 1; break;
      case 3: s0 = n; s1 = 1; break;
      case 4: s0 = n + 2; s1 = 1; break;
      default: s0 = 3 * n; s1 = 2; break;
    }
    off = 5;
    raw.assign(off + (size_t)(m - 1) * s0 + (size_t)(n - 1) * s1 + 1 + 7, cd(canary(), canary()));
    used.assign(raw.size(), 0);
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) used[off + i * s0 + j * s1] = 1;
  }
  cd& at(int i, int j) { return raw[off + i * s0 + j * s1]; }
  const cd& at(int i, int j) const { return raw[off + i * s0 + j * s1]; }
  void set(const Mat& A) { for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) at(i, j) = A(i, j); }
  void fill(cd v) { for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) at(i, j) = v; }
  Mat get() const { Mat A(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = at(i, j); return A; }
  bool intact() const { for (size_t i = 0; i < raw.size(); ++i) if (!used[i] && !(is_canary(raw[i].real()) && is_canary(raw[i].imag()))) return false; return true; }
  cd* ptr() { return raw.data() + off; }
};
struct VBuf
{
  int n = 0, s = 1, off = 3;
  std::vector<double> raw;
  void init(int n_, int s_) { n = n_; s = s_; raw.assign(off + (size_t)n * s + 6, canary()); }
  double& at(int i) { return raw[off + (size_t)i * s]; }
  double at(int i) const { return raw[off + (size_t)i * s]; }
  void set(const Vec& v) { for (int i = 0; i < n; ++i) at(i) = v[i]; }
  Vec get() const { Vec v(n); for (int i = 0; i < n; ++i) v[i] = at(i); return v; }
  bool intact() const { for (size_t i = 0; i < raw.size(); ++i) { long r = (long)i - off; bool u = r >= 0 && r % s == 0 && r / s < n; if (!u && !is_canary(raw[i])) return false; } return true; }
  double* ptr() { return raw.data() + off; }
};

struct HostStop : std::exception { const char* what() const noexcept override { return "host stopped the run"; } };
struct EvalLimit : std::exception { const char* what() const noexcept override { return "evaluation limit of the harness exceeded"; } };

// ------------------------------------------------------------------ problem data (pure function of Cfg)
struct Problem
{
  int np = 0;
  std::vector<int> n, b;       // rows, bands of each logical point
  Vec w;
  std::vector<key_t2> key;
  std::vector<Mat> H0, S, P, X0;
  std::vector<Vec> eps, f0;
  double kT = 0;
  int nrho = 0;
};
inline key_t2 label(int lab, int ik, int is, int np)
{
  switch (lab) {
    case 0: return {ik, is};
    case 1: return {-3 - 2 * ik, is};
    case 2: return {(np - ik) * 100000, 7 - is};
    case 3: return {ik % 2 == 0 ? 2147483647 - ik : -2147483647 + ik, is == 0 ? -1 : 1000};
    case 4: return {is, ik};
    default: return {12, ik * 5 + is * 3 - 6};
  }
}
inline Problem problem(const Cfg& c)
{
  Problem p;
  p.kT = KB * c.T;
  int base = c.nk * c.ns;
  std::vector<int> ids;
  for (int q = 0; q < base; ++q) ids.push_back(q);
  if (c.split >= 0) ids.push_back(c.split % base);
  p.np = ids.size();
  Vec wk(c.nk);
  double sum = 0;
  for (int k = 0; k < c.nk; ++k) { wk[k] = c.wk == 0 ? 1 : c.wk == 1 ? 1 + k : (k == 0 ? 0.05 : 1 + 0.3 * k); sum += wk[k]; }
  for (auto& x : wk) x /= sum;
  for (int q = 0; q < p.np; ++q) {
    int id = ids[q], ik = id / c.ns, is = id % c.ns;
    int n = c.ng + (c.vg ? ik % 2 : 0), b = c.nb + (c.vb ? ik % 2 : 0);
    if (b > n) b = n;
    Rng r(1000003ull * c.seed + 7919 * id + 17);
    Mat L = eye(n);
    if (c.sk == 1) { for (int i = 0; i < n; ++i) L(i, i) = 1 + 0.4 * std::abs(r.u()); }
    if (c.sk == 2) { for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) L(i, j) = i == j ? cd(1 + 0.3 * std::abs(r.u())) : cd(0.2 * r.u(), 0.2 * r.u()); }
    Mat S = mul(L, herm(L));
    Vec eps(n);
    for (int i = 0; i < n; ++i) {
      double e = c.spread * (0.2 * i + 0.05 * r.u());
      if (c.spec == 1) e = c.spread * (0.25 * (i / 2));
      if (c.spec == 2) e = c.spread * (0.1 * i + (i >= c.nb ? 1.0 : 0) + 0.02 * r.u());
      if (c.spec == 3) e = c.spread * 0.3 * (i >= b ? 2 : 1);
      if (c.spec == 4) e = c.spread * (0.25 * (i / 2)) + 1e-12 * (i % 2);
      eps[i] = e + c.shift;
    }
    Mat Q = c.hk == 0 ? eye(n) : r.unitary(n);
    if (c.hk == 2) { Mat Z = r.mat(n, n); for (auto& z : Z.a) z = z.real(); Mat M = hmul(Z, Z); Q = mul(Z, invsqrt(M)); }
    Mat LQ = mul(L, Q);
    Mat H0 = mul(colscale(LQ, eps), herm(LQ));
    // exact generalised eigenvectors: V = L^-H Q
    Mat V = solve(herm(L), Q);
    Mat X;
    if (c.x0 == 0) {
      Mat Y = r.mat(n, b);
      for (int j = 0; j < b; ++j) Y(j, j) += 1.5;
      Mat M = hmul(Y, mul(S, Y));
      X = mul(Y, invsqrt(M));
    } else if (c.x0 == 1 || c.x0 == 3) {
      // pairs (v1 +- v2)/sqrt2: equal band energies, non-zero off-diagonal Hamiltonian
      X = Mat(n, b);
      for (int j = 0; j < b; ++j) { int i0 = j / 2 * 2, i1 = i0 + 1; for (int i = 0; i < n; ++i) X(i, j) = (i1 < b || (b % 2 && j == b - 1 && i1 < n)) ? (V(i, i0) + (j % 2 ? -1.0 : 1.0) * V(i, i1)) / std::sqrt(2.0) : V(i, j); }
    } else {
      X = Mat(n, b);
      for (int j = 0; j < b; ++j) for (int i = 0; i < n; ++i) X(i, j) = V(i, j);
    }
    Mat P = eye(n);
    if (c.pk == 1) { P = Mat(n, n); for (int i = 0; i < n; ++i) P(i, i) = 0.5 + std::abs(r.u()); }
    if (c.pk == 2) { Mat B = r.mat(n, n); P = lin(eye(n), 0.5, hmul(B, B), 0.15); }
    if (c.pk == 3) { Mat sx = mul(S, X); P = lin(mul(sx, solve(hmul(sx, sx), herm(sx))), 2, eye(n), -1); } // indefinite: uphill outside the starting space
    if (c.pk == 4) { P = Mat(n, n); for (int i = 0; i < n; ++i) P(i, i) = 0.3 + 3 * std::abs(r.u()); }
    double w = wk[ik];
    if (c.split >= 0 && id == c.split % base) w *= 0.5;
    p.n.push_back(n); p.b.push_back(b); p.w.push_back(w);
    key_t2 key = label(c.lab, ik, is, base);
    if (q >= base) key = label(c.lab, c.nk + 1, is, base);
    p.key.push_back(key);
    p.H0.push_back(H0); p.S.push_back(S); p.P.push_back(P); p.X0.push_back(X); p.eps.push_back(eps);
    p.f0.push_back(Vec(b, std::min<double>(c.mo, double(c.ne) / (c.ns * b))));
    p.nrho = std::max(p.nrho, n);
  }
  return p;
}

// spectra injected through evaluation 0 (alphabet for the occupation search)
inline double ek_pattern(int v, int q, int i, int nb)
{
  if (v >= 100) { // close pairs of levels, spacing 10^-(v-100)/{1,3}
    double sp = std::pow(10.0, -((v - 100) % 20)) / (v >= 120 ? 3 : 1);
    return 0.12 * (i / 2) - 0.07 + (i % 2) * sp + 0.01 * q;
  }
  // v encodes base-3 digits: levels, per-band pattern index and scale
  static const double sc[] = {0.01, 0.1, 1, 20};
  static const double sh[] = {0, -3.7, 250, -250};
  int pat = v % 6, s = (v / 6) % 4, h = (v / 24) % 4;
  double e = 0;
  switch (pat) {
    case 0: e = i + 0.1 * q; break;                     // ladder
    case 1: e = i / 2; break;                           // degenerate pairs, equal in all k
    case 2: e = 0.5; break;                             // everything degenerate
    case 3: e = (i < nb / 2 ? 0 : 3) + 0.2 * q; break;  // gap
    case 4: e = nb - i - 0.3 * q; break;                // descending
    default: e = (i * i % 5) * 0.7 + (q % 2 ? 1e-9 : 0); break;
  }
  return sc[s] * e + sh[h];
}

// ------------------------------------------------------------------ what is recorded
struct Eval
{
  std::vector<Mat> X, HX;      // per local point
  std::vector<Vec> f, ek;
  double E = 0, Eret = 0, mu = NAN;
  std::map<std::string, double> comp;
  int nrec = 0;
  bool tail = false;           // incomplete record in the file at that moment
  char lie = 0;
  Vec amp;                     // per local point: largest squared norm given to the overlap operator since the last evaluation
};
struct Trace
{
  Cfg cfg;
  Problem pr;
  std::vector<int> loc;        // local logical points in ascending key order
  std::vector<Eval> ev;
  nlcglib::nlcg_info info{};
  bool returned = false;
  int exc = 0;                 // 1 std::exception, 2 unknown, 3 HostStop, 4 EvalLimit
  std::string what;
  std::vector<json> recs;
  bool json_bad = false;
  bool json_exists = false;
  std::string raw;
  std::vector<std::string> viol;   // interface violations ("C12 ...")
  std::vector<Mat> Xf;
  std::vector<Vec> ff;
  double muf = NAN;
  long napply = 0, nprint = 0;
  int set_order_violations = 0;
  std::string outtxt, sotxt;       // nlcg.out and standard output, when captured
  bool out_exists = false;
};

inline std::string slurp(const char* path, bool* exists = nullptr)
{
  bool b = shim::bypass_files;
  shim::bypass_files = true;
  std::string r;
  int fd = ::open(path, O_RDONLY);
  if (exists) *exists = fd >= 0;
  if (fd >= 0) {
    char buf[16384];
    ssize_t n;
    while ((n = ::read(fd, buf, sizeof buf)) > 0) r.append(buf, n);
    ::close(fd);
  }
  shim::bypass_files = b;
  return r;
}
inline int count_records(const std::string& s, bool& tail)
{
  int depth = 0, n = 0;
  bool str = false;
  for (size_t i = 0; i < s.size(); ++i) {
    char ch = s[i];
    if (str) { if (ch == '\\') ++i; else if (ch == '"') str = false; continue; }
    if (ch == '"') str = true;
    else if (ch == '{') ++depth;
    else if (ch == '}') { if (--depth == 0) ++n; }
  }
  tail = depth != 0 || str;
  return n;
}
inline std::vector<json> parse_records(const std::string& s, bool& bad)
{
  std::vector<json> r;
  bad = false;
  size_t st = 0;
  int depth = 0;
  bool q = false;
  for (size_t i = 0; i < s.size(); ++i) {
    char ch = s[i];
    if (q) { if (ch == '\\') ++i; else if (ch == '"') q = false; continue; }
    if (ch == '"') q = true;
    else if (ch == '{') { if (depth++ == 0) st = i; }
    else if (ch == '}') {
      if (--depth == 0) {
        try { r.push_back(json::parse(s.substr(st, i - st + 1))); } catch (std::exception&) { bad = true; r.push_back(json()); }
      }
    } else if (depth == 0 && !isspace((unsigned char)ch) && ch != ',' && ch != '[' && ch != ']') bad = true;
  }
  if (depth != 0 || q) bad = true;
  return r;
}

// ------------------------------------------------------------------ the host
class Host : public nlcglib::EnergyBase
{
public:
  Cfg c;
  Problem& p;
  Trace& t;
  std::vector<int> loc;              // local logical points (ascending key)
  std::vector<int> ordC, ordH, ordV, ordW; // enumeration orders (positions in loc)
  std::map<key_t2, int> pos;
  std::vector<MBuf> C, HX, SX;
  std::vector<VBuf> F, EK;
  std::vector<Vec> curf;
  bool fresh_fn = false, computed = false;
  int neval = 0;
  Vec amp;                           // see Eval::amp
  double mu = 0.123, Etot = NAN;
  std::map<std::string, double> comps;
  std::map<int, char> lie1;
  int lie_from = -1;
  char lie_fromk = 0;
  bool coupled;
  MPI_Comm comm;
  int rank;

  Host(Trace& t_, MPI_Comm comm_, int myrank) : c(t_.cfg), p(t_.pr), t(t_), comm(comm_), rank(myrank)
  {
    coupled = !c.dist.empty();
    for (int q = 0; q < p.np; ++q) if (c.dist.empty() || c.dist[q] - '0' == myrank) loc.push_back(q);
    std::sort(loc.begin(), loc.end(), [&](int a, int b) { return p.key[a] < p.key[b]; });
    t.loc = loc;
    int n = loc.size();
    // order index refers to permutations of the logical enumeration
    std::vector<int> logical(n);
    std::iota(logical.begin(), logical.end(), 0);
    std::sort(logical.begin(), logical.end(), [&](int a, int b) { return loc[a] < loc[b]; });
    auto mkord = [&](int r) { auto v = nth_perm(n, r); std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = logical[v[i]]; return o; };
    ordC = mkord(c.o1); ordV = mkord(c.o2); ordW = mkord(c.o3); ordH = mkord(c.o4);
    C.resize(n); HX.resize(n); SX.resize(n); F.resize(n); EK.resize(n); curf.resize(n);
    for (int i = 0; i < n; ++i) {
      int q = loc[i];
      pos[p.key[q]] = i;
      C[i].init(p.n[q], p.b[q], c.lc);
      HX[i].init(p.n[q], p.b[q], c.lh);
      SX[i].init(p.n[q], p.b[q], 0);
      F[i].init(p.b[q], c.vs);
      EK[i].init(p.b[q], c.vs);
      C[i].set(p.X0[q]);
      HX[i].fill(cd(canary(), canary()));
      curf[i] = p.f0[q];
      F[i].set(curf[i]);
      for (int j = 0; j < p.b[q]; ++j) EK[i].at(j) = NAN;
    }
    std::istringstream is(c.lies);
    std::string s;
    while (std::getline(is, s, ',')) {
      if (s.empty()) continue;
      auto plus = s.find('+');
      if (plus != std::string::npos) { lie_from = atoi(s.c_str()); lie_fromk = s.back(); }
      else lie1[atoi(s.c_str())] = s.back();
    }
  }
  void bad(const std::string& m) { if (t.viol.size() < 20) t.viol.push_back(m + " (evaluation " + std::to_string(neval) + ")"); }
  void check_canaries(const char* when)
  {
    for (size_t i = 0; i < loc.size(); ++i) {
      if (!C[i].intact()) bad(std::string("padding of the wave-function buffer modified ") + when);
      if (!HX[i].intact()) bad(std::string("padding of the H*psi buffer modified ") + when);
      if (!F[i].intact()) bad(std::string("padding of the occupation buffer modified ") + when);
      if (!EK[i].intact()) bad(std::string("padding of the band-energy buffer modified ") + when);
      if (!t.ev.empty() && computed) {
        if (memcmp(HX[i].get().a.data(), t.ev.back().HX[i].a.data(), sizeof(cd) * HX[i].m * HX[i].n)) bad(std::string("read-only H*psi buffer modified ") + when);
        Vec e = EK[i].get();
        if (memcmp(e.data(), t.ev.back().ek[i].data(), sizeof(double) * e.size())) bad(std::string("read-only band-energy buffer modified ") + when);
      }
      Vec ff = F[i].get();
      if (memcmp(ff.data(), curf[i].data(), sizeof(double) * ff.size())) bad(std::string("read-only occupation buffer modified ") + when);
    }
  }
  char lie_at(int e) const
  {
    auto it = lie1.find(e);
    return it != lie1.end() ? it->second : lie_from >= 0 && e >= lie_from ? lie_fromk : 0;
  }
  void compute() override
  {
    if (c.stop == neval) { bool tail; std::string s = slurp("nlcg.json"); count_records(s, tail); t.raw = s; throw HostStop(); }
    if (neval >= c.limit) throw EvalLimit();
    check_canaries("before compute");
    if (neval > 0 && !fresh_fn) bad("compute called without new occupations since the last evaluation");
    fresh_fn = false;
    Eval e;
    bool tail = false;
    if (!coupled) { e.nrec = count_records(slurp("nlcg.json"), tail); e.tail = tail; }
    Vec rho(p.nrho, 0.0);
    double E = 0;
    for (size_t i = 0; i < loc.size(); ++i) {
      int q = loc[i];
      Mat X = C[i].get();
      e.X.push_back(X);
      e.f.push_back(curf[i]);
      if (!finite(X)) bad("wave functions given to the host are not finite");
      for (int j = 0; j < X.n; ++j) for (int a = 0; a < X.m; ++a) rho[a] += p.w[q] * curf[i][j] * std::norm(X(a, j));
      Mat HX0 = mul(p.H0[q], X);
      for (int j = 0; j < X.n; ++j) { cd s = 0; for (int a = 0; a < X.m; ++a) s += std::conj(X(a, j)) * HX0(a, j); E += p.w[q] * curf[i][j] * s.real(); }
    }
    double E1 = E;
    if (coupled) {
      // the host's own exchange between its ranks; the log is looked at when all of them have arrived
      rho.push_back(E1);
      shim::host_sum(rho.data(), rho.size());
      E1 = rho.back(); rho.pop_back();
      double z[2] = {0, 0};
      if (rank == 0) { bool tl = false; z[0] = count_records(slurp("nlcg.json"), tl); z[1] = tl; }
      shim::host_sum(z, 2);
      e.nrec = (int)z[0];
      e.tail = z[1] != 0;
    }
    double E2 = 0;
    for (double r : rho) E2 += 0.5 * c.g * r * r;
    e.E = E1 + E2;
    for (size_t i = 0; i < loc.size(); ++i) {
      int q = loc[i];
      Mat H = p.H0[q];
      for (int a = 0; a < H.n; ++a) H(a, a) += c.g * rho[a];
      Mat hx = mul(H, e.X[i]);
      char lk = lie_at(neval);
      if (lk == 'w' || lk == 'W') {
        // the host hands out H*psi of another Hamiltonian: the next directions need not be descent directions
        Rng r(4242 + 77 * c.seed + q);
        hx = lin(hx, 1, mul(r.hermitian(p.n[q]), e.X[i]), lk == 'w' ? 4 : -4);
      }
      Vec ek(e.X[i].n);
      for (int j = 0; j < hx.n; ++j) { cd s = 0; for (int a = 0; a < hx.m; ++a) s += std::conj(e.X[i](a, j)) * hx(a, j); ek[j] = s.real(); }
      if (c.ekmode == 1 && neval == 0) for (size_t j = 0; j < ek.size(); ++j) ek[j] = ek_pattern(c.ekv, q, j, ek.size());
      HX[i].set(hx);
      EK[i].set(ek);
      e.HX.push_back(hx);
      e.ek.push_back(ek);
    }
    char lie = lie_at(neval);
    e.lie = lie;
    e.amp.assign(loc.size(), 1.0);
    for (size_t i = 0; i < amp.size() && i < e.amp.size(); ++i) e.amp[i] = std::max(1.0, amp[i]);
    amp.clear();
    e.mu = premu;
    premu = NAN;
    double Er = e.E;
    switch (lie) {
      case 'h': Er += 1e3; break;
      case 'm': Er += 1e-3; break;
      case 'l': Er -= 10; break;
      case 'L': Er -= 1e-2; break;
      case 'D': Er -= 1e6; break;
      case 'a': case 'b': case 'c': case 'd': {
        // free energy just above (a, b, c) or below (d) the one of the state the search started from
        int k = start_of(e);
        double z[2] = {entropy_of(e), k >= 0 ? entropy_of(t.ev[k]) : 0};
        if (coupled) shim::host_sum(z, 2);
        if (k >= 1) Er = t.ev[k].Eret + (monotone(c.sm) ? z[1] - z[0] : 0) + (lie == 'a' ? 2e-9 : lie == 'b' ? 1e-7 : lie == 'c' ? 1e-5 : -2e-9) * std::max(1.0, std::abs(t.ev[k].Eret));
        break;
      }
      case 'i': Er = INFINITY; break;
      case 'n': Er = NAN; break;
      default: break;
    }
    if (c.cons || !c.lies.empty()) {
      // the state the current search started from keeps the energy it was accepted with
      int a = start_of(e);
      bool same = a >= 1 && e.nrec >= 1 && same_state(t.ev[a], e, 1e-9);
      if (coupled) { double z = !same; shim::host_sum(&z, 1); same = z == 0; }
      if (same) { Er = t.ev[a].Eret; e.lie = 0; }
    }
    e.Eret = Er;
    Etot = Er;
    comps = {{"band", E1}, {"hartree", E2}, {"serial", 1000.0 + neval}};
    e.comp = comps;
    t.ev.push_back(std::move(e));
    computed = true;
    ++neval;
  }
  // evaluation of the state the current line search starts from
  int start_of(const Eval& e) const
  {
    for (int k = (int)t.ev.size() - 1; k >= 0; --k) if (t.ev[k].nrec < e.nrec || (k <= 1 && e.nrec >= 1 && t.ev[k].nrec == 0)) return k;
    return -1;
  }
  double entropy_of(const Eval& e) const
  {
    double s = 0;
    if (monotone(c.sm)) for (size_t i = 0; i < e.f.size(); ++i) for (double f : e.f[i]) { double r = f / c.mo; if (r > 1e-13 && r < 1 - 1e-13) s += p.w[loc[i]] * s_s(c.sm, s_inv(c.sm, f, c.mo), c.mo); }
    return -p.kT * s;
  }
  static bool same_state(const Eval& a, const Eval& b, double tol)
  {
    for (size_t i = 0; i < a.X.size(); ++i) {
      Mat Pa = mul(colscale(a.X[i], a.f[i]), herm(a.X[i])), Pb = mul(colscale(b.X[i], b.f[i]), herm(b.X[i]));
      if (diff(Pa, Pb) > tol) return false;
      Mat Qa = mul(a.X[i], herm(a.X[i])), Qb = mul(b.X[i], herm(b.X[i]));
      if (diff(Qa, Qb) > tol) return false;
    }
    return true;
  }
  int nelectrons() override { return c.ne; }
  int occupancy() override { return c.mo; }
  double get_total_energy() override { if (!computed) bad("total energy read before the evaluation"); return computed ? Etot : NAN; }
  std::map<std::string, double> get_energy_components() override { return comps; }

  struct MBase : nlcglib::MatrixBaseZ
  {
    Host& h; std::vector<MBuf>& b; std::vector<int>& ord; memory_type mt;
    MBase(Host& h, std::vector<MBuf>& b, std::vector<int>& ord, memory_type mt) : h(h), b(b), ord(ord), mt(mt) {}
    void ck(int i) const { if (i < 0 || i >= (int)ord.size()) { h.bad("matrix buffer index out of range"); throw std::logic_error("harness: matrix buffer index out of range"); } }
    buffer_t desc(int i) const { ck(i); auto& m = b[ord[i]]; return buffer_t({m.s0, m.s1}, {m.m, m.n}, m.ptr(), mt, MPI_COMM_SELF); }
    buffer_t get(int i) override { return desc(i); }
    const buffer_t get(int i) const override { return desc(i); }
    int size() const override { return ord.size(); }
    MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
    MPI_Comm mpicomm() const override { return h.comm; }
    kindex_t kpoint_index(int i) const override { ck(i); return h.p.key[h.loc[ord[i]]]; }
  };
  struct VBase : nlcglib::VectorBaseZ
  {
    Host& h; std::vector<VBuf>& b; std::vector<int>& ord; memory_type mt;
    VBase(Host& h, std::vector<VBuf>& b, std::vector<int>& ord, memory_type mt) : h(h), b(b), ord(ord), mt(mt) {}
    void ck(int i) const { if (i < 0 || i >= (int)ord.size()) { h.bad("vector buffer index out of range"); throw std::logic_error("harness: vector buffer index out of range"); } }
    buffer_t desc(int i) const { ck(i); auto& v = b[ord[i]]; return buffer_t({v.s}, {v.n}, v.ptr(), mt, MPI_COMM_SELF); }
    buffer_t get(int i) override { return desc(i); }
    const buffer_t get(int i) const override { return desc(i); }
    int size() const override { return ord.size(); }
    MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
    MPI_Comm mpicomm() const override { return h.comm; }
    kindex_t kpoint_index(int i) const override { ck(i); return h.p.key[h.loc[ord[i]]]; }
  };
  struct SBase : nlcglib::ScalarBaseZ
  {
    Host& h; std::vector<int>& ord;
    SBase(Host& h, std::vector<int>& ord) : h(h), ord(ord) {}
    double desc(int i) const { if (i < 0 || i >= (int)ord.size()) { h.bad("weight index out of range"); throw std::logic_error("harness: weight index out of range"); } return h.p.w[h.loc[ord[i]]]; }
    buffer_t get(int i) override { return desc(i); }
    const buffer_t get(int i) const override { return desc(i); }
    int size() const override { return ord.size(); }
    MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
    MPI_Comm mpicomm() const override { return h.comm; }
    kindex_t kpoint_index(int i) const override { return h.p.key[h.loc[ord[i]]]; }
  };
  memory_type mt(int who) const { return c.mem == 2 * who - 1 ? memory_type::device : c.mem == 2 * who ? memory_type::none : memory_type::host; }
  void want_host(memory_type m, const char* what) { if (m != memory_type::host) bad(std::string(what) + " requested in non-host memory by a CPU run"); }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_hphi(memory_type m) override { want_host(m, "H*psi"); if (!computed) bad("H*psi read before the evaluation"); return std::make_shared<MBase>(*this, HX, ordH, mt(2)); }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_sphi(memory_type m) override { want_host(m, "S*psi"); return std::make_shared<MBase>(*this, SX, ordC, mt(0)); }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_C(memory_type m) override { want_host(m, "wave functions"); return std::make_shared<MBase>(*this, C, ordC, mt(1)); }
  std::shared_ptr<nlcglib::VectorBaseZ> get_fn() override { return std::make_shared<VBase>(*this, F, ordV, mt(4)); }
  std::shared_ptr<nlcglib::VectorBaseZ> get_ek() override { if (!computed) bad("band energies read before the evaluation"); return std::make_shared<VBase>(*this, EK, ordV, mt(3)); }
  std::shared_ptr<nlcglib::VectorBaseZ> get_gkvec_ekin() override { return std::make_shared<VBase>(*this, EK, ordV, mt(0)); }
  std::shared_ptr<nlcglib::ScalarBaseZ> get_kpoint_weights() override { return std::make_shared<SBase>(*this, ordW); }
  void set_fn(const std::vector<std::pair<int, int>>& keys, const std::vector<std::vector<double>>& f) override
  {
    check_canaries("before set_fn");
    if (keys.size() != f.size()) { bad("set_fn: numbers of keys and of occupation vectors differ"); return; }
    if (keys.size() != loc.size()) bad("set_fn: not called with all local k-points");
    std::set<key_t2> seen;
    for (size_t i = 0; i < keys.size(); ++i) {
      auto it = pos.find(keys[i]);
      if (it == pos.end()) { bad("set_fn: unknown k-point"); continue; }
      if (!seen.insert(keys[i]).second) bad("set_fn: k-point given twice");
      int q = loc[it->second];
      if ((int)f[i].size() != p.b[q]) { bad("set_fn: wrong number of occupations"); continue; }
      curf[it->second] = f[i];
      F[it->second].set(f[i]);
    }
    fresh_fn = true;
    computed = false;
    // stale results are unusable until the next evaluation
    for (size_t i = 0; i < loc.size(); ++i) { HX[i].fill(cd(NAN, NAN)); for (int j = 0; j < EK[i].n; ++j) EK[i].at(j) = NAN; }
  }
  // may be called before or after the evaluation it belongs to
  void set_chemical_potential(double m) override { mu = m; if (!t.ev.empty() && computed) t.ev.back().mu = m; else premu = m; }
  double premu = NAN;
  double get_chemical_potential() override { return mu; }
  void print_info() const override { t.nprint++; }
};

class Op : public nlcglib::OverlapBase
{
public:
  Host& h; const std::vector<Mat>& M; const char* name;
  Op(Host& h, const std::vector<Mat>& M, const char* name) : h(h), M(M), name(name) {}
  static void apply_(Host& h, const std::vector<Mat>& M, const char* name, const key_t2& key, nlcglib::MatrixBaseZ::buffer_t& out, nlcglib::MatrixBaseZ::buffer_t& in)
  {
    h.t.napply++;
    std::string nm(name);
    auto it = h.pos.find(key);
    if (it == h.pos.end()) { h.bad(nm + " applied for an unknown k-point"); throw std::logic_error("harness: operator applied for unknown k-point"); }
    const Mat& A = M[h.loc[it->second]];
    if (in.size[0] != A.n || out.size[0] != A.n || in.size[1] != out.size[1] || in.size[1] < 1) {
      h.bad(nm + " applied to buffers of wrong size");
      throw std::logic_error("harness: operator applied to buffers of wrong size");
    }
    if (in.memtype != memory_type::host || out.memtype != memory_type::host) h.bad(nm + " applied to non-host buffers");
    auto range = [](nlcglib::MatrixBaseZ::buffer_t& b) { auto lo = b.data, hi = b.data + (long)(b.size[0] - 1) * b.stride[0] + (long)(b.size[1] - 1) * b.stride[1] + 1; return std::make_pair(lo, hi); };
    auto ri = range(in), ro = range(out);
    if (ri.first < ro.second && ro.first < ri.second) h.bad(nm + " applied with overlapping input and output");
    Mat x(in.size[0], in.size[1]);
    for (int i = 0; i < x.m; ++i) for (int j = 0; j < x.n; ++j) x(i, j) = in.data[(long)i * in.stride[0] + (long)j * in.stride[1]];
    if (&M == &h.p.S) {
      double s = 0;
      for (auto& z : x.a) s += std::norm(z);
      h.amp.resize(h.loc.size(), 0.0);
      if (!(s <= h.amp[it->second])) h.amp[it->second] = s;
    }
    Mat y = mul(A, x);
    for (int i = 0; i < x.m; ++i) for (int j = 0; j < x.n; ++j) out.data[(long)i * out.stride[0] + (long)j * out.stride[1]] = y(i, j);
  }
  void apply(const key_t& k, nlcglib::MatrixBaseZ::buffer_t& out, nlcglib::MatrixBaseZ::buffer_t& in) const override { apply_(h, M, name, k, out, in); }
  std::vector<key_t> get_keys() const override { std::vector<key_t> r; for (int i : h.ordC) r.push_back(h.p.key[h.loc[i]]); return r; }
};
class POp : public nlcglib::UltrasoftPrecondBase
{
public:
  Host& h; const std::vector<Mat>& M;
  POp(Host& h, const std::vector<Mat>& M) : h(h), M(M) {}
  void apply(const key_t& k, nlcglib::MatrixBaseZ::buffer_t& out, nlcglib::MatrixBaseZ::buffer_t& in) const override { Op::apply_(h, M, "preconditioner", k, out, in); }
  std::vector<key_t> get_keys() const override { std::vector<key_t> r; for (int i : h.ordC) r.push_back(h.p.key[h.loc[i]]); return r; }
};

// one minimisation; cwd must be a scratch directory
inline Trace run(const Cfg& c, MPI_Comm comm = MPI_COMM_SELF, int myrank = 0)
{
  Trace t;
  t.cfg = c;
  t.pr = problem(c);
  Host h(t, comm, myrank);
  Op S(h, t.pr.S, "overlap");
  POp P(h, t.pr.P);
  auto sm = (nlcglib::smearing_type)c.sm;
  try {
    switch (c.entry) {
      case 0: t.info = nlcglib::nlcg_us_cpu(h, P, S, sm, c.T, c.tol, c.kappa, c.tau, c.maxiter, c.restart); break;
      case 1: t.info = nlcglib::nlcg_us_device_cpu(h, P, S, sm, c.T, c.tol, c.kappa, c.tau, c.maxiter, c.restart); break;
      case 2: t.info = nlcglib::nlcg_us_device(h, P, S, sm, c.T, c.tol, c.kappa, c.tau, c.maxiter, c.restart); break;
      case 3: t.info = nlcglib::nlcg_us_cpu_device(h, P, S, sm, c.T, c.tol, c.kappa, c.tau, c.maxiter, c.restart); break;
      case 4: t.info = nlcglib::nlcg_mvp2_cpu(h, sm, c.T, c.tol, c.kappa, c.tau, c.maxiter, c.restart); break;
      case 5: t.info = nlcglib::nlcg_mvp2_device(h, sm, c.T, c.tol, c.kappa, c.tau, c.maxiter, c.restart); break;
      case 6: t.info = nlcglib::nlcg_mvp2_cpu_device(h, sm, c.T, c.tol, c.kappa, c.tau, c.maxiter, c.restart); break;
      case 7: t.info = nlcglib::nlcg_mvp2_device_cpu(h, sm, c.T, c.tol, c.kappa, c.tau, c.maxiter, c.restart); break;
    }
    t.returned = true;
  } catch (HostStop& e) { t.exc = 3; t.what = e.what(); }
  catch (EvalLimit& e) { t.exc = 4; t.what = e.what(); }
  catch (std::exception& e) { t.exc = 1; t.what = e.what(); }
  catch (...) { t.exc = 2; t.what = "unknown exception"; }
  h.check_canaries("at the end");
  for (size_t i = 0; i < h.loc.size(); ++i) { t.Xf.push_back(h.C[i].get()); t.ff.push_back(h.curf[i]); }
  t.muf = h.mu;
  if (t.exc != 3) t.raw = slurp("nlcg.json", &t.json_exists);
  t.recs = parse_records(t.raw, t.json_bad);
  for (auto& e : shim::errors) t.viol.push_back("MPI: " + e);
  shim::errors.clear();
  return t;
}
}  // namespace mk
