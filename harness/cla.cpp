// C10, C11: the real host linear algebra on every operand combination of the bounds.  C10 operands are
// Gaussian integers, so that the expected result is exact whatever the order of summation; every operand
// lives inside a buffer of canaries that is compared bit for bit afterwards.
#include <nlcglib.hpp>
#include "la/dvector.hpp"
#include "la/lapack.hpp"
#include "la/mvector.hpp"
#include "explore.hpp"
#include "mpi_shim.hpp"
#include <complex>
#include <sstream>

using namespace nlcglib;
using ex::Ctx;
typedef std::complex<double> cd;
typedef Kokkos::complex<double> kcd;
typedef KokkosDVector<kcd**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace> ML;
typedef KokkosDVector<kcd**, SlabLayoutV, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> MS;
typedef Kokkos::View<double*, Kokkos::HostSpace> VD;
static int C_runs = ex::ctr("calls_checked"), C_rej = ex::ctr("calls_rejected_with_error"), C_ok = ex::ctr("results_compared");
static std::string TIER = "quick";
static bool thorough() { return TIER == "thorough"; }

// layouts of an operand
enum { L_LEFT, L_LEFTPAD, L_STR, L_STRPAD, L_ROW2, L_ROWMAJOR, NLAY };
static const char* LN[] = {"column-major", "column-major padded", "strided", "strided padded", "row-strided", "row-major"};
static bool rowstrided(int l, int m, int n) { return l == L_ROW2 || (l == L_ROWMAJOR && n != 1); }
static double canary(size_t i) { uint64_t b = 0x7FF8DEAD00000000ull + (uint32_t)i; double d; memcpy(&d, &b, 8); return d; }

struct Buf
{
  int m, n, lay, s0, s1;
  size_t off = 3;
  std::vector<cd> raw, before;
  bool dist = false;
  Buf(int m_, int n_, int l) : m(m_), n(n_), lay(l)
  {
    if (l == L_LEFT || l == L_STR) { s0 = 1; s1 = m; }
    else if (l == L_LEFTPAD || l == L_STRPAD) { s0 = 1; s1 = m + 2; }
    else if (l == L_ROW2) { s0 = 2; s1 = 2 * m + 1; }
    else { s0 = n; s1 = 1; }
    raw.resize(off + (size_t)std::max(1, s0) * (m + 2) + (size_t)s1 * (n + 1) + 5);
    for (size_t i = 0; i < raw.size(); ++i) raw[i] = {canary(2 * i), canary(2 * i + 1)};
  }
  size_t ix(int i, int j) const { return off + (size_t)i * s0 + (size_t)j * s1; }
  cd& operator()(int i, int j) { return raw[ix(i, j)]; }
  cd operator()(int i, int j) const { return raw[ix(i, j)]; }
  template <class F> void fill(F f) { for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) (*this)(i, j) = f(i, j); }
  void snap() { before = raw; }
  bool same_outside(bool elements_too) const
  {
    std::vector<char> own(raw.size(), 0);
    if (!elements_too) for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) own[ix(i, j)] = 1;
    for (size_t i = 0; i < raw.size(); ++i) if (!own[i] && memcmp(&raw[i], &before[i], sizeof(cd))) return false;
    return true;
  }
  Communicator comm() const { return dist ? Communicator(shim::kcomm()) : Communicator(); }
  Map<> map() const { return Map<>(comm(), SlabLayoutV({{0, 0, m, n}})); }
  kcd* ptr() { return reinterpret_cast<kcd*>(raw.data() + off); }
  ML left()
  {
    if (lay == L_LEFTPAD) {
      ML::storage_t p(ptr(), s1, n);
      ML::storage_t sub = Kokkos::subview(p, std::make_pair(0, m), Kokkos::ALL());
      return ML(map(), sub);
    }
    return ML(map(), ML::storage_t(ptr(), m, n));
  }
  MS strided() { return MS(map(), buffer_protocol<std::complex<double>, 2>(std::array<int, 2>{s0, s1}, std::array<int, 2>{m, n}, raw.data() + off, memory_type::host, MPI_COMM_SELF)); }
  template <class F> void use(F f) { if (lay <= L_LEFTPAD) { auto x = left(); f(x); } else { auto x = strided(); f(x); } }
};
static std::string str(cd z) { char b[80]; snprintf(b, 80, "(%.17g,%.17g)", z.real(), z.imag()); return b; }
static kcd K(cd z) { return kcd(z.real(), z.imag()); }

#ifndef ONLY11
// ---------------------------------------------------------------- C10
static const cd SC[] = {{1, 0}, {0, 0}, {-1, 0}, {0, 1}, {2, -3}};
static const char* OPS[] = {"inner", "outer", "transform", "add", "_add", "scale", "scale2", "scalev", "trace", "inner_", "transform_alloc", "diag", "make_diag", "copy"};
enum { INNER, OUTER, TRANSFORM, ADD, UADD, SCALE, SCALE2, SCALEV, TRACE, INNERA, TRANSFORMA, DIAG, MKDIAG, COPY, NOP };

static cd entry(int pat, int w, int i, int j)
{
  if (pat >= 100) { int v = pat - 100; static const cd a[] = {{0, 0}, {1, 0}, {0, 1}, {-2, 1}}; for (int q = 0; q < w * 4 + i + 2 * j; ++q) v /= 4; return a[v % 4]; }
  int h = (i * 7 + j * 3 + w * 11 + i * j * 5);
  switch (pat) {
    case 0: return {double(h % 13 - 6), double((h * 5 + 2) % 11 - 5)};
    case 1: return {double((h + 3) % 3 - 1), 0};
    case 2: return {0, double((h * 3 + 1) % 7 - 3)};
    default: return i == j ? cd(2 + i, -1) : cd(0, 0);
  }
}
struct P10 { int op, la, lb, lc, m, n, k, al, be, pat, nanc, dist; };
static std::string enc(const P10& p)
{
  std::ostringstream s;
  s << "mm:" << p.op << ":" << p.la << ":" << p.lb << ":" << p.lc << ":" << p.m << ":" << p.n << ":" << p.k << ":" << p.al << ":" << p.be << ":" << p.pat << ":" << p.nanc << ":" << p.dist;
  return s.str();
}
static bool run10(const P10& p, Ctx& x)
{
  std::string cs;
  x.count(C_runs);
  auto bad = [&](const std::string& m) {
    std::ostringstream s;
    s << OPS[p.op] << " " << p.m << "x" << p.n << " (inner " << p.k << "), operands " << LN[p.la] << ", " << LN[p.lb] << ", destination " << LN[p.lc] << ", factors " << str(SC[p.al]) << " and " << str(SC[p.be]) << ": " << m;
    x.fail(enc(p), s.str());
    return false;
  };
  cd al = SC[p.al], be = SC[p.be];
  if (p.op == SCALE || p.op == SCALE2 || p.op == SCALEV) { al = al.real(); be = be.real(); }
  int m = p.m, n = p.n, k = p.k;
  bool two = p.op == INNER || p.op == OUTER || p.op == TRANSFORM || p.op == TRACE || p.op == INNERA || p.op == TRANSFORMA;
  int am = m, an = n, bm = 0, bn = 0;
  if (p.op == INNER || p.op == INNERA) { am = k; an = m; bm = k; bn = n; }
  if (p.op == OUTER) { am = m; an = k; bm = n; bn = k; }
  if (p.op == TRANSFORM || p.op == TRANSFORMA) { am = m; an = k; bm = k; bn = n; }
  if (p.op == TRACE) { bm = m; bn = n; }
  Buf A(am, an, p.la), B(two ? bm : 1, two ? bn : 1, two ? p.lb : L_LEFT), C(m, n, p.lc);
  A.dist = p.dist & 1; B.dist = p.dist & 2; C.dist = p.dist & 4;
  A.fill([&](int i, int j) { return entry(p.pat, 0, i, j); });
  B.fill([&](int i, int j) { return entry(p.pat, 1, i, j); });
  bool usesC = !(be == cd(0, 0)) && p.op < SCALEV + 1 && p.op != SCALE;
  C.fill([&](int i, int j) { return usesC || !p.nanc ? entry(p.pat >= 100 ? 0 : p.pat, 2, i, j) : cd(canary(7), canary(9)); });
  VD d("d", an);
  std::vector<double> dv(an);
  for (int j = 0; j < an; ++j) d(j) = dv[j] = j % 3 == 2 ? -2 : j + 1;
  A.snap(); B.snap(); C.snap();
  Buf E(m, n, L_LEFT);  // expected
  auto c0 = [&](int i, int j) { return usesC ? be * C(i, j) : cd(0, 0); };
  E.fill([&](int i, int j) -> cd {
    cd s = 0;
    switch (p.op) {
      case INNER: case INNERA: for (int q = 0; q < k; ++q) s += std::conj(A(q, i)) * B(q, j); return al * s + c0(i, j);
      case OUTER: for (int q = 0; q < k; ++q) s += A(i, q) * std::conj(B(j, q)); return al * s + c0(i, j);
      case TRANSFORM: case TRANSFORMA: for (int q = 0; q < k; ++q) s += A(i, q) * B(q, j); return al * s + c0(i, j);
      case ADD: case UADD: return al * A(i, j) + c0(i, j);
      case SCALE: return al.real() * A(i, j);
      case SCALE2: return al.real() * A(i, j) + c0(i, j);
      case SCALEV: return al.real() * dv[j] * A(i, j) + c0(i, j);
      default: return 0;
    }
  });
  bool threw = false;
  std::string what;
  std::vector<std::vector<cd>> R;  // allocated result
  int rm = -1, rn = -1;
  cd tr = 0, tre = 0;
  auto take = [&](auto& r) { auto& a = r.array(); rm = a.extent(0); rn = a.extent(1); R.assign(rm, std::vector<cd>(rn)); for (int i = 0; i < rm; ++i) for (int j = 0; j < rn; ++j) R[i][j] = cd(a(i, j).real(), a(i, j).imag()); if (r.map().nrows() != rm || r.map().ncols() != rn) rm = -2; };
  try {
    switch (p.op) {
      case INNER: A.use([&](auto& a) { B.use([&](auto& b) { C.use([&](auto& c) { inner(c, a, b, K(al), K(be)); }); }); }); break;
      case OUTER: A.use([&](auto& a) { B.use([&](auto& b) { C.use([&](auto& c) { outer(c, a, b, K(al), K(be)); }); }); }); break;
      case TRANSFORM: A.use([&](auto& a) { B.use([&](auto& b) { C.use([&](auto& c) { transform(c, K(be), K(al), a, b); }); }); }); break;
      case ADD: A.use([&](auto& a) { C.use([&](auto& c) { if (be == cd(1, 0) && p.pat == 1) add(c, a, K(al)); else add(c, a, K(al), K(be)); }); }); break;
      case UADD: A.use([&](auto& a) { C.use([&](auto& c) { _add(c, a, K(al), K(be)); }); }); break;
      case SCALE: A.use([&](auto& a) { C.use([&](auto& c) { scale(c, a, al.real()); }); }); break;
      case SCALE2: A.use([&](auto& a) { C.use([&](auto& c) { scale(c, a, al.real(), be.real()); }); }); break;
      case SCALEV: A.use([&](auto& a) { C.use([&](auto& c) { scale(c, a, d, al.real(), be.real()); }); }); break;
      case TRACE: A.use([&](auto& a) { B.use([&](auto& b) { kcd z = innerh_tr()(a, b); tr = cd(z.real(), z.imag()); }); }); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) tre += A(i, j) * std::conj(B(i, j)); break;
      case INNERA: A.use([&](auto& a) { B.use([&](auto& b) { auto r = inner_()(a, b, K(al)); take(r); }); }); break;
      case TRANSFORMA: A.use([&](auto& a) { B.use([&](auto& b) { auto r = transform_alloc(a, b, K(al)); take(r); }); }); break;
      case DIAG: A.use([&](auto& a) { auto r = diag(a); rm = r.extent(0); rn = 1; R.assign(rm, std::vector<cd>(1)); for (int i = 0; i < rm; ++i) R[i][0] = cd(r(i).real(), r(i).imag()); }); break;
      case MKDIAG: { Kokkos::View<kcd*, Kokkos::HostSpace> v("v", m); for (int i = 0; i < m; ++i) v(i) = K(A(i, 0)); auto r = make_diag()(v); take(r); break; }
      case COPY: A.use([&](auto& a) {
        auto r = copy(a);
        take(r);
        if (r.array().data() == a.array().data()) rm = -3;
        auto z = zeros_like()(a);
        if ((int)z.array().extent(0) != am || (int)z.array().extent(1) != an) rm = -4;
        else for (int i = 0; i < am; ++i) for (int j = 0; j < an; ++j) if (z.array()(i, j).real() != 0 || z.array()(i, j).imag() != 0) rm = -4;
        auto bp = as_buffer_protocol(a);
        if (bp.size[0] != am || bp.size[1] != an || bp.memtype != memory_type::host) rm = -5;
        else for (int i = 0; i < am; ++i) for (int j = 0; j < an; ++j) if (bp.data + (size_t)bp.stride[0] * i + (size_t)bp.stride[1] * j != A.raw.data() + A.ix(i, j)) rm = -5;
      }); break;
    }
  } catch (std::exception& e) { threw = true; what = e.what(); }
  x.state(std::hash<std::string>()(enc(p)));
  if (!A.same_outside(true)) return bad("first operand or its padding was modified");
  if (!B.same_outside(true)) return bad("second operand or its padding was modified");
  bool dst = p.op <= SCALEV;
  if (!C.same_outside(!dst)) return bad("memory outside the destination was modified");
  bool need = p.dist && dst && p.op <= ADD;
  if (threw) {
    x.count(C_rej);
    bool may = p.dist || rowstrided(p.la, am, an) || (two && rowstrided(p.lb, bm, bn)) || (dst && rowstrided(p.lc, m, n));
    if (!may) return bad("rejected: " + what);
    return true;
  }
  if (need) return bad("distributed operand accepted");
  x.count(C_ok);
  auto eq = [](cd a, cd b) { return a.real() == b.real() && a.imag() == b.imag(); };
  if (dst) { for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (!eq(C(i, j), E(i, j))) return bad("element " + std::to_string(i) + "," + std::to_string(j) + " is " + str(C(i, j)) + " instead of " + str(E(i, j))); }
  else if (p.op == TRACE) { if (!eq(tr, tre)) return bad("result is " + str(tr) + " instead of " + str(tre)); }
  else {
    int em = m, en = n;
    if (p.op == DIAG) { em = std::min(am, an); en = 1; }
    if (p.op == MKDIAG) en = m;
    if (p.op == COPY) { em = am; en = an; }
    if (rm == -3) return bad("copy shares memory with its source");
    if (rm == -4) return bad("zeros_like is not zero or has another shape");
    if (rm == -5) return bad("as_buffer_protocol describes other elements");
    if (rm != em || rn != en) return bad("result has shape " + std::to_string(rm) + "x" + std::to_string(rn));
    for (int i = 0; i < em; ++i) for (int j = 0; j < en; ++j) {
      cd e = p.op == DIAG ? A(i, i) : p.op == MKDIAG ? (i == j ? A(i, 0) : cd(0, 0)) : p.op == COPY ? A(i, j) : E(i, j);
      if (!eq(R[i][j], e)) return bad("element " + std::to_string(i) + "," + std::to_string(j) + " is " + str(R[i][j]) + " instead of " + str(e));
    }
  }
  return true;
}
static bool loop10(int op, int la, int m, Ctx& x)
{
  int mx = thorough() ? 6 : 4;
  bool two = op == INNER || op == OUTER || op == TRANSFORM || op == TRACE || op == INNERA || op == TRANSFORMA;
  bool dst = op <= SCALEV;
  bool hask = op == INNER || op == OUTER || op == TRANSFORM || op == INNERA || op == TRANSFORMA;
  for (int n = 1; n <= mx; ++n) for (int k = 1; k <= (hask ? mx : 1); ++k)
    for (int lb = 0; lb < (two ? NLAY : 1); ++lb) for (int lc = 0; lc < (dst ? NLAY : 1); ++lc)
      for (int al = 0; al < (op <= SCALEV || op == INNERA || op == TRANSFORMA ? 5 : 1); ++al)
        for (int be = 0; be < (dst && op != SCALE ? 5 : 1); ++be)
          for (int pat = 0; pat < 4; ++pat) {
            P10 p{op, la, lb, lc, m, n, k, al, be, pat, 1, 0};
            if (x.stopped()) return false;
            if (!run10(p, x)) return false;
          }
  // distributed operands
  for (int ds = 1; ds < 8; ++ds) {
    if ((ds & 2 && !two) || (ds & 4 && !dst)) continue;
    if (!run10(P10{op, la, 0, 0, m, 2, 2, 0, 0, 0, 1, ds}, x)) return false;
  }
  // all entries of the alphabet, 2x2 (inner dimension 2)
  if (m == 2 && hask && op <= TRANSFORM) for (int v = 0; v < (1 << 16); ++v) if (!run10(P10{op, la, L_STRPAD, L_LEFT, 2, 2, 2, 0, 1, 100 + v, 1, 0}, x)) return false;
  return true;
}

// larger shapes (block sizes, vector widths and one more) and destinations that are also operands
static void big10(std::vector<std::function<bool(Ctx&)>>& t)
{
  static const int D[] = {1, 2, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 128, 130};
  int nd = thorough() ? 15 : 12;
  for (int op = 0; op < NOP; ++op) for (int im = 0; im < nd; ++im) t.push_back([=](Ctx& x) {
    bool hask = op == INNER || op == OUTER || op == TRANSFORM || op == INNERA || op == TRANSFORMA;
    int v = 0;
    for (int in = 0; in < nd; ++in) for (int ik = 0; ik < (hask ? nd : 1); ++ik) for (int u = 0; u < (thorough() ? 6 : 2); ++u) {
      if (x.stopped()) return false;
      ++v;
      P10 p{op, (v + u) % 4, (v / 4 + u) % 4, (v / 16 + u) % 4, D[im], D[in], D[ik], (v + u) % 5, (v / 5 + u) % 5, 0, 1, 0};
      x.begin(enc(p));
      if (!run10(p, x)) return false;
    }
    return true;
  });
}
#endif
#ifndef ONLY10
// ---------------------------------------------------------------- C11
typedef std::vector<std::vector<cd>> Mx;
static Mx mk(int m, int n) { return Mx(m, std::vector<cd>(n)); }
static double nrm(const Mx& a) { double s = 0; for (auto& r : a) for (auto& z : r) s = std::max(s, std::abs(z)); return s; }
// Hermitian matrix from a code: diagonal and upper triangle digits
static const double DG[] = {1, 0, 3, -2};
static const cd OD[] = {{0, 0}, {1, 0}, {0, -1}, {2, 1}};
static int ncodes(int n) { int v = 1; for (int i = 0; i < n; ++i) v *= 4; for (int i = 0; i < n * (n - 1) / 2; ++i) v *= (n == 4 ? 3 : 4); return v; }
static Mx herm(int n, long code)
{
  Mx a = mk(n, n);
  for (int i = 0; i < n; ++i) { a[i][i] = DG[code % 4]; code /= 4; }
  int b = n == 4 ? 3 : 4;
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { a[i][j] = OD[code % b]; a[j][i] = std::conj(a[i][j]); code /= b; }
  return a;
}
// larger structured families
static Mx family(int f, int n)
{
  Mx a = mk(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    switch (f) {
      case 0: a[i][j] = i == j ? 1 : 0; break;                                     // fully degenerate
      case 1: a[i][j] = i == j ? 2.0 : std::abs(i - j) == 1 ? cd(-1, 0) : cd(0, 0); break;
      case 2: a[i][j] = 1.0 / (i + j + 1.0); break;                                // Hilbert
      case 3: a[i][j] = i == j ? std::pow(10.0, -2.0 * i) : 0; break;
      case 4: a[i][j] = i == j ? double((i / 2) - 1) : 0; break;                   // pairs, indefinite
      case 5: if (n > 8) { a[i][j] = i == j ? cd(n, 0) : i < j ? cd(0.5, 0.25 / (i + 1)) : cd(0.5, -0.25 / (j + 1)); break; } a[i][j] = i == j ? cd(n, 0) : i < j ? cd(0.5, 0.25 * (i + 1)) : cd(0.5, -0.25 * (j + 1)); break;
      case 6: a[i][j] = i == j ? cd(0, 0) : i < j ? cd(0, 1) : cd(0, -1); break;
      default: a[i][j] = (i == j ? 3.0 : 0) + 1.0; break;                          // degenerate plus one
    }
  }
  return a;
}
// exact sign of the leading minors of a Gaussian-integer Hermitian matrix: 1 definite, 0 borderline, -1 not definite
static int definite(const Mx& a)
{
  int n = a.size();
  typedef __int128 I;
  struct Z { I r, i; };
  auto mul = [](Z x, Z y) { return Z{x.r * y.r - x.i * y.i, x.r * y.i + x.i * y.r}; };
  std::function<Z(std::vector<int>, int)> det = [&](std::vector<int> rows, int col) -> Z {
    if (rows.empty()) return Z{1, 0};
    Z s{0, 0};
    for (size_t q = 0; q < rows.size(); ++q) {
      cd e = a[rows[q]][col];
      if (e == cd(0, 0)) continue;
      auto r2 = rows;
      r2.erase(r2.begin() + q);
      Z t = mul(Z{(I)e.real(), (I)e.imag()}, det(r2, col + 1));
      if (q % 2) { t.r = -t.r; t.i = -t.i; }
      s.r += t.r; s.i += t.i;
    }
    return s;
  };
  // minor over rows 0..k-1, columns 0..k-1: expand along the columns n-k.. -> use the trailing block instead
  int res = 1;
  for (int k = 1; k <= n; ++k) {
    std::vector<int> rows;
    for (int i = n - k; i < n; ++i) rows.push_back(i);
    // determinant of the trailing k x k block
    std::function<Z(std::vector<int>, int)> d2 = det;
    Z z = d2(rows, n - k);
    if (z.r < 0) return -1;
    if (z.r == 0) res = 0;
    if (res == 0 && z.r > 0) return -1;  // a zero minor followed by a positive one: indefinite
  }
  return res;
}
struct P11 { std::string kind; int n, lay; long code; int nr, sc, spec; };
static std::string enc(const P11& p) { std::ostringstream s; s << p.kind << ":" << p.n << ":" << p.lay << ":" << p.code << ":" << p.nr << ":" << p.sc << ":" << p.spec; return s.str(); }
static const double SCL[] = {1, 1e-120, 1e120, 1e-8};
static Mx theMatrix(const P11& p) { Mx a = p.code < 0 ? family(-p.code - 1, p.n) : herm(p.n, p.code); for (auto& r : a) for (auto& z : r) z *= SCL[p.sc]; return a; }
static double special(int s) { return s == 1 ? NAN : s == 2 ? INFINITY : -INFINITY; }

static bool run11(const P11& p, Ctx& x)
{
  x.count(C_runs);
  x.state(std::hash<std::string>()(enc(p)));
  Mx a = theMatrix(p);
  int n = p.n;
  auto bad = [&](const std::string& m) {
    std::string d;
    for (auto& r : a) { for (auto& z : r) d += str(z) + " "; d += "; "; }
    x.fail(enc(p), p.kind + " of order " + std::to_string(n) + ", " + LN[p.lay] + ": " + m + " [matrix " + d.substr(0, 400) + "]");
    return false;
  };
  int si = -1, sj = -1;
  if (p.spec && p.kind != "loewdin") { int q = p.nr; si = q % n; sj = q / n; a[si][sj] = special(p.spec); a[sj][si] = std::conj(a[si][sj]); if (si == sj) a[si][sj] = special(p.spec); }
  double sc = nrm(a);
  if (p.kind == "eigh") {
    Buf S(n, n, p.lay), U(n, n, p.lay);
    S.fill([&](int i, int j) { return a[i][j]; });
    U.fill([&](int i, int j) { return cd(canary(1), canary(2)); });
    U.dist = S.dist = false;
    S.snap(); U.snap();
    VD w("w", n);
    for (int i = 0; i < n; ++i) w(i) = canary(3);
    try { auto u = U.left(); auto s = S.left(); eigh(u, w, s); }
    catch (std::exception& e) {
      x.count(C_rej);
      if (!S.same_outside(true)) return bad("input modified");
      if (p.spec) return true;
      return bad(std::string("rejected: ") + e.what());
    }
    if (!S.same_outside(true)) return bad("input modified");
    if (!U.same_outside(false)) return bad("memory outside the eigenvectors modified");
    if (p.spec) return bad("a matrix with a non-finite element is accepted");
    x.count(C_ok);
    double tol = 1e-12 * n;
    for (int i = 0; i < n; ++i) if (!std::isfinite(w(i)) || (i && w(i) < w(i - 1))) return bad("eigenvalues not ascending or not finite");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      cd s = 0, r = 0;
      for (int q = 0; q < n; ++q) { s += std::conj(U(q, i)) * U(q, j); r += U(i, q) * w(q) * std::conj(U(j, q)); }
      if (!(std::abs(s - (i == j ? 1. : 0.)) < tol)) return bad("eigenvectors not orthonormal");
      if (!(std::abs(r - a[i][j]) <= tol * sc)) return bad("eigendecomposition does not reproduce the matrix");
    }
    return true;
  }
  if (p.kind == "solve") {
    int nr = p.spec ? 1 : p.nr;
    auto go = [&](bool left) {
      Buf A(n, n, p.lay), B(n, nr, p.lay);
      A.fill([&](int i, int j) { return a[i][j]; });
      B.fill([&](int i, int j) { return SCL[p.sc] * cd((i * 3 + j * 5 + 1) % 7 - 3, (i + 2 * j) % 5 - 2); });
      Buf b0 = B;
      A.snap(); B.snap();
      bool threw = false;
      try {
        if (left) { auto s = A.left(); auto r = B.left(); solve_sym(s, r); } else { auto s = A.strided(); auto r = B.strided(); solve_sym(s, r); }
      } catch (std::exception& e) { threw = true; }
      if (!A.same_outside(false)) return bad("memory outside the matrix modified");
      if (!B.same_outside(false)) return bad("memory outside the right-hand sides modified");
      int def = p.code < 0 ? ((-p.code - 1) == 4 || (-p.code - 1) == 6 ? (n == 1 ? 0 : -1) : 1) : definite(herm(p.n, p.code));
      if (p.code < 0 && -p.code - 1 == 6 && n == 1) def = 0;
      if (p.code < 0 && -p.code - 1 == 4) def = -1;
      if (threw) {
        x.count(C_rej);
        if (!p.spec && def == 1) return bad("positive-definite matrix rejected");
        return true;
      }
      if (p.spec) return bad("a matrix with a non-finite element is accepted");
      if (def < 0) return bad("a matrix that is not positive definite is accepted");
      if (def == 0) return true;  // singular within rounding
      x.count(C_ok);
      double mx = 0;
      for (int i = 0; i < n; ++i) for (int j = 0; j < nr; ++j) mx = std::max(mx, std::abs(B(i, j)));
      for (int j = 0; j < nr; ++j) for (int i = 0; i < n; ++i) {
        cd s = -b0(i, j);
        for (int q = 0; q < n; ++q) s += a[i][q] * B(q, j);
        double t = 1e-12 * n * (sc * mx + SCL[p.sc]);
        if (!(std::abs(s) <= t)) return bad("the solution does not satisfy the system, residual " + str(s));
      }
      return true;
    };
    return go(p.lay <= L_LEFTPAD);
  }
  // loewdin: X (m x n) built from the code, overlap S (m x m)
  int m = n + p.nr % 3;
  int sk = p.nr / 3;  // overlap: 0 none, 1 identity, 2 diagonal, 3 full
  Mx X = mk(m, n), S = mk(m, m);
  static const cd AL[] = {{1, 0}, {0, 0}, {0, 1}, {-1, 2}};
  long code = p.code;
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
    if (code >= 0) { int q = i * n + j; int d = q < 6 ? (code >> (2 * q)) & 3 : (q * 7 + 1) % 4; X[i][j] = AL[d]; }
    else X[i][j] = std::polar(std::pow(10.0, -(code + 1 == 0 ? 0 : 2) * j), 0.3 * i * j) * (i == j ? 1.0 : 0.3);
    X[i][j] *= SCL[p.sc];
  }
  for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) S[i][j] = i == j ? (sk == 2 ? 1.0 + i : sk == 3 ? 2.0 : 1.0) : sk == 3 ? (i < j ? cd(0.25, 0.125) : cd(0.25, -0.125)) : cd(0, 0);
  if (p.spec) X[0][n - 1] = special(p.spec);
  a = X;
  Buf bx(m, n, p.lay), bs(m, n, p.lay);
  bx.fill([&](int i, int j) { return X[i][j]; });
  bs.fill([&](int i, int j) { cd s = 0; for (int q = 0; q < m; ++q) if (S[i][q] != cd(0, 0)) s += S[i][q] * X[q][j]; return s; });
  bx.snap(); bs.snap();
  Mx Y;
  bool threw = false, shape = true;
  try {
    auto take = [&](auto&& r) { auto& v = r.array(); shape = (int)v.extent(0) == m && (int)v.extent(1) == n; if (!shape) return; Y = mk(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) Y[i][j] = cd(v(i, j).real(), v(i, j).imag()); };
    bx.use([&](auto& u) { typedef std::decay_t<decltype(u)> T; if (sk == 0) { take(loewdin(u)); } else if constexpr (std::is_same<T, ML>::value) { auto w = bs.left(); take(loewdin(u, w)); } else { auto w = bs.strided(); take(loewdin(u, w)); } });
  } catch (std::exception& e) { threw = true; }
  if (!bx.same_outside(true) || !bs.same_outside(true)) return bad("input modified");
  if (!shape) return bad("result has another shape");
  // Gram matrix and its condition
  Mx G = mk(n, n);
  bool finite = !p.spec;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int q = 0; q < m; ++q) for (int r = 0; r < m; ++r) G[i][j] += std::conj(X[q][i]) * S[q][r] * X[r][j];
  for (auto& r : G) for (auto& z : r) finite = finite && std::isfinite(z.real()) && std::isfinite(z.imag());
  double lo = 0, hi = 0;
  if (finite) {
    std::vector<cd> w(n * n);
    std::vector<double> ev(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) w[i + n * j] = G[i][j];
    LAPACKE_zheev(LAPACK_COL_MAJOR, 'N', 'U', n, (lapack_complex_double*)w.data(), n, ev.data());
    lo = ev[0]; hi = ev[n - 1];
  }
  if (threw) {
    x.count(C_rej);
    if (finite && hi > 1e-280 && lo > 1e-13 * hi) return bad("linearly independent vectors rejected");
    return true;
  }
  if (!finite) return bad("vectors with a non-finite overlap matrix are accepted");
  if (!(hi > 0)) return bad("vanishing vectors are accepted");
  if (lo < 1e-12 * hi) return true;  // singular within rounding
  x.count(C_ok);
  double cond = hi / lo, tol = 1e-13 * cond * n * m;
  Mx T = mk(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    cd s = 0, t = 0;
    for (int q = 0; q < m; ++q) for (int r = 0; r < m; ++r) { s += std::conj(Y[q][i]) * S[q][r] * Y[r][j]; t += std::conj(Y[q][i]) * S[q][r] * X[r][j]; }
    T[i][j] = t;
    if (!(std::abs(s - (i == j ? 1. : 0.)) < tol)) return bad("result is not orthonormal with respect to the overlap");
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!(std::abs(T[i][j] - std::conj(T[j][i])) <= tol * std::sqrt(hi))) return bad("result is not the symmetric orthonormalisation");
  std::vector<cd> w(n * n);
  std::vector<double> ev(n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) w[i + n * j] = 0.5 * (T[i][j] + std::conj(T[j][i]));
  LAPACKE_zheev(LAPACK_COL_MAJOR, 'N', 'U', n, (lapack_complex_double*)w.data(), n, ev.data());
  if (!(ev[0] > -tol * std::sqrt(hi))) return bad("result is not the symmetric orthonormalisation (sign)");
  // Y lies in the span of X: Y = X (X^H S Y)' ... checked through  X = Y (Y^H S X)
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { cd s = 0; for (int q = 0; q < n; ++q) s += Y[i][q] * T[q][j]; if (!(std::abs(s - X[i][j]) <= tol * std::sqrt(hi))) return bad("result does not span the input"); }
  return true;
}
static void tasks11(std::vector<std::function<bool(Ctx&)>>& t)
{
  for (int n = 1; n <= 4; ++n) for (int lay = 0; lay < 2; ++lay) {
    int parts = n == 4 ? 32 : n == 3 ? 4 : 1;
    for (int q = 0; q < parts; ++q) {
      t.push_back([=](Ctx& x) { long nc = ncodes(n); for (long c = q; c < nc; c += parts) { if (x.stopped()) return false; x.begin(enc(P11{"eigh", n, lay, c, 0, 0, 0})); if (!run11(P11{"eigh", n, lay, c, 0, 0, 0}, x)) return false; } return true; });
      t.push_back([=](Ctx& x) { long nc = ncodes(n); for (long c = q; c < nc; c += parts) { if (x.stopped()) return false; for (int l2 = 0; l2 < 2; ++l2) for (int nr = 1; nr <= 3; ++nr) { P11 p{"solve", n, lay + 2 * l2, c, nr, 0, 0}; x.begin(enc(p)); if (!run11(p, x)) return false; } } return true; });
    }
  }
  t.push_back([=](Ctx& x) {
    for (int f = 0; f < 8; ++f) for (int n = 1; n <= (thorough() ? 12 : 8); ++n) for (int lay = 0; lay < 4; ++lay) for (int sc = 0; sc < 4; ++sc) {
      if (f == 2 && n > 6) continue;
      if (f == 3 && n > 5) continue;
      if (lay < 2 && !run11(P11{"eigh", n, lay, -f - 1, 0, sc, 0}, x)) return false;
      for (int nr = 1; nr <= 5; ++nr) if (!run11(P11{"solve", n, lay, -f - 1, nr, sc, 0}, x)) return false;
    }
    return true;
  });
  for (int f = 0; f < 8; ++f) for (int n : {9, 16, 17, 31, 33, 40, 64, 70}) t.push_back([=](Ctx& x) {
    if (f == 2 || f == 3) return true;
    for (int lay = 0; lay < 4; ++lay) {
      P11 p{"eigh", n, lay, -f - 1, 0, 0, 0};
      x.begin(enc(p));
      if (lay < 2 && !run11(p, x)) return false;
      for (int nr : {1, 2, 31, 40}) { p = P11{"solve", n, lay, -f - 1, nr, 0, 0}; x.begin(enc(p)); if (!run11(p, x)) return false; }
    }
    return true;
  });
  t.push_back([=](Ctx& x) {  // non-finite elements at every position
    for (int n = 1; n <= 4; ++n) for (int lay = 0; lay < 2; ++lay) for (int f : {0, 1, 5}) for (int q = 0; q < n * n; ++q) for (int s = 1; s <= 3; ++s) {
      P11 p{"eigh", n, lay, -f - 1, q, 0, s};
      x.begin(enc(p));
      if (!run11(p, x)) return false;
      p.kind = "solve";
      x.begin(enc(p));
      if (!run11(p, x)) return false;
    }
    return true;
  });
  for (int n : {4, 5, 8, 9, 16, 17, 24, 33, 40}) t.push_back([=](Ctx& x) {  // larger sets of vectors
    for (int lay = 0; lay < 4; ++lay) for (int nr = 0; nr < 12; ++nr) { P11 p{"loewdin", n, lay, -1, nr, 0, 0}; x.begin(enc(p)); if (!run11(p, x)) return false; }
    return true;
  });
  for (int n = 1; n <= 3; ++n) for (int nr = 0; nr < 12; ++nr) t.push_back([=](Ctx& x) {
    int m = n + nr % 3, free = std::min(6, m * n);
    for (long c = 0; c < (1l << (2 * free)); ++c) {
      if (x.stopped()) return false;
      P11 p{"loewdin", n, (int)(c % 4), c, nr, 0, 0};
      x.begin(enc(p));
      if (!run11(p, x)) return false;
    }
    for (int lay = 0; lay < 4; ++lay) for (int sc = 0; sc < 4; ++sc) for (long c = -2; c < 0; ++c) for (int s = 0; s < 4; ++s) { P11 p{"loewdin", n, lay, c, nr, sc, s}; x.begin(enc(p)); if (!run11(p, x)) return false; }
    for (int lay = 0; lay < 4; ++lay) { P11 p{"loewdin", n, lay, 0x0, nr, 2, 2}; if (!run11(p, x)) return false; }
    return true;
  });
}
#endif
static void check_case(const std::string& cs, Ctx& x)
{
  std::vector<std::string> f;
  std::stringstream s(cs);
  std::string q;
  while (std::getline(s, q, ':')) f.push_back(q);
  x.begin(cs);
#ifndef ONLY11
  if (f.size() == 13 && f[0] == "mm") {
    int v[12];
    for (int i = 0; i < 12; ++i) v[i] = atoi(f[i + 1].c_str());
    run10(P10{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]}, x);
  } else if (f.size() == 4 && f[0] == "loop") loop10(atoi(f[1].c_str()), atoi(f[2].c_str()), atoi(f[3].c_str()), x);
#endif
#ifndef ONLY10
  if (f.size() == 7) run11(P11{f[0], atoi(f[1].c_str()), atoi(f[2].c_str()), atol(f[3].c_str()), atoi(f[4].c_str()), atoi(f[5].c_str()), atoi(f[6].c_str())}, x);
#endif
  x.end();
}
int main(int argc, char** argv)
{
  std::string out, replay, prop;
  ex::Opts o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") prop = nx();
    else if (a == "--tier") TIER = nx();
    else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--scratch") o.scratch = nx();
    else if (a == "--budget") o.budget = atof(nx().c_str());
  }
  mallopt(M_PERTURB, 0x80);
  Kokkos::initialize();
  shim::configure(2, 0, 2, 0);
  int so = dup(1), dn = ::open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  o.hang = 60;
  bool whole = ex::task_replay(replay, TIER, o);
  o.tier = TIER;
  if (whole && chdir(o.scratch.c_str())) return 2;
  if (!replay.empty()) {
    Ctx x;
    check_case(replay, x);
    fflush(stdout);
    dup2(so, 1);
    for (auto& m : x.local) printf("FINDING %s\n", m.c_str());
    fflush(stdout);
    _exit(x.local.empty() ? 0 : 1);
  }
  std::vector<std::function<bool(Ctx&)>> tasks;
  std::vector<std::string> nm;
#ifndef ONLY11
  {
    for (int m = thorough() ? 6 : 4; m >= 1; --m) for (int op = 0; op < NOP; ++op) for (int la = 0; la < NLAY; ++la) {
      std::string s = "loop:" + std::to_string(op) + ":" + std::to_string(la) + ":" + std::to_string(m);
      tasks.push_back([=](Ctx& x) { x.begin(s); return loop10(op, la, m, x); });
    }
    big10(tasks);
  }
#else
  tasks11(tasks);
#endif
  ex::json res = ex::explore(tasks.size(), [&](int i, Ctx& x) { tasks[i](x); if (i % 17 == 3) x.sample({{"case", x.cur}}); x.end(); }, check_case, o);
  res["transitions"] = res["counters"]["calls_checked"];
  res["traces"] = res["counters"]["calls_checked"];
  if (whole) { dup2(so, 1); _exit(ex::report(res, 1)); }
  std::ofstream(out) << res.dump(1) << "\n";
  _exit(0);
}
