// Independent reference mathematics: small dense complex linear algebra, smearing schemes and the
// quantities of the ensemble-DFT functional.  Shares no code with nlcglib.
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <limits>
#include <numeric>
#include <stdexcept>
#include <vector>

namespace ref {
using cd = std::complex<double>;
using Vec = std::vector<double>;

struct Mat
{
  int m{0}, n{0};
  std::vector<cd> a;
  Mat() = default;
  Mat(int m, int n) : m(m), n(n), a((size_t)m * n, cd(0)) {}
  cd& operator()(int i, int j) { return a[i + (size_t)m * j]; }
  const cd& operator()(int i, int j) const { return a[i + (size_t)m * j]; }
};

inline Mat eye(int n) { Mat r(n, n); for (int i = 0; i < n; ++i) r(i, i) = 1; return r; }
inline Mat diag(const Vec& v) { Mat r(v.size(), v.size()); for (size_t i = 0; i < v.size(); ++i) r(i, i) = v[i]; return r; }
inline Mat herm(const Mat& A) { Mat r(A.n, A.m); for (int i = 0; i < A.m; ++i) for (int j = 0; j < A.n; ++j) r(j, i) = std::conj(A(i, j)); return r; }
inline Mat mul(const Mat& A, const Mat& B)
{
  if (A.n != B.m) throw std::logic_error("ref mul");
  Mat r(A.m, B.n);
  for (int j = 0; j < B.n; ++j) for (int k = 0; k < A.n; ++k) { cd b = B(k, j); for (int i = 0; i < A.m; ++i) r(i, j) += A(i, k) * b; }
  return r;
}
inline Mat hmul(const Mat& A, const Mat& B)  // A^H B
{
  Mat r(A.n, B.n);
  for (int j = 0; j < B.n; ++j) for (int i = 0; i < A.n; ++i) { cd s = 0; for (int k = 0; k < A.m; ++k) s += std::conj(A(k, i)) * B(k, j); r(i, j) = s; }
  return r;
}
inline Mat lin(const Mat& A, cd a, const Mat& B, cd b) { Mat r(A.m, A.n); for (size_t i = 0; i < r.a.size(); ++i) r.a[i] = a * A.a[i] + b * B.a[i]; return r; }
inline Mat colscale(const Mat& A, const Vec& f) { Mat r = A; for (int j = 0; j < A.n; ++j) for (int i = 0; i < A.m; ++i) r(i, j) *= f[j]; return r; }
inline double maxabs(const Mat& A) { double r = 0; for (auto& x : A.a) { double v = std::abs(x); if (!(v <= r)) r = v; if (std::isnan(v)) return v; } return r; }
inline double diff(const Mat& A, const Mat& B) { if (A.m != B.m || A.n != B.n) return INFINITY; return maxabs(lin(A, 1, B, -1)); }
inline double rtrace(const Mat& A, const Mat& B) { double s = 0; for (size_t i = 0; i < A.a.size(); ++i) s += (std::conj(B.a[i]) * A.a[i]).real(); return s; }
inline bool finite(const Mat& A) { for (auto& x : A.a) if (!std::isfinite(x.real()) || !std::isfinite(x.imag())) return false; return true; }

// Hermitian eigenproblem by cyclic complex Jacobi; ascending eigenvalues
inline void eigh(const Mat& A0, Vec& w, Mat& U)
{
  int n = A0.n;
  Mat A = A0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { cd h = 0.5 * (A(i, j) + std::conj(A(j, i))); A(i, j) = h; A(j, i) = std::conj(h); }
  for (int i = 0; i < n; ++i) A(i, i) = A(i, i).real();
  U = eye(n);
  for (int sweep = 0; sweep < 100; ++sweep) {
    double off = 0, tot = 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double v = std::norm(A(i, j)); tot += v; if (i != j) off += v; }
    if (!(off > 1e-34 * tot)) break;
    for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) {
      double apq = std::abs(A(p, q));
      if (apq < 1e-200) continue;
      cd ph = A(p, q) / apq;
      double th = (A(q, q).real() - A(p, p).real()) / (2 * apq);
      double t = (th >= 0 ? 1.0 : -1.0) / (std::abs(th) + std::sqrt(th * th + 1));
      double c = 1 / std::sqrt(t * t + 1), s = t * c;
      // columns: p' = c p - s conj(ph) q ; q' = s ph p + c q
      for (int k = 0; k < n; ++k) { cd x = A(k, p), y = A(k, q); A(k, p) = c * x - s * std::conj(ph) * y; A(k, q) = s * ph * x + c * y; }
      for (int k = 0; k < n; ++k) { cd x = A(p, k), y = A(q, k); A(p, k) = c * x - s * ph * y; A(q, k) = s * std::conj(ph) * x + c * y; }
      for (int k = 0; k < n; ++k) { cd x = U(k, p), y = U(k, q); U(k, p) = c * x - s * std::conj(ph) * y; U(k, q) = s * ph * x + c * y; }
    }
  }
  std::vector<int> idx(n);
  std::iota(idx.begin(), idx.end(), 0);
  std::stable_sort(idx.begin(), idx.end(), [&](int a, int b) { return A(a, a).real() < A(b, b).real(); });
  Mat V(n, n);
  w.resize(n);
  for (int j = 0; j < n; ++j) { w[j] = A(idx[j], idx[j]).real(); for (int i = 0; i < n; ++i) V(i, j) = U(i, idx[j]); }
  U = V;
}
inline Mat solve(Mat A, Mat B)  // Gaussian elimination with partial pivoting
{
  int n = A.n;
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int r = c + 1; r < n; ++r) if (std::abs(A(r, c)) > std::abs(A(p, c))) p = r;
    if (p != c) { for (int j = 0; j < n; ++j) std::swap(A(p, j), A(c, j)); for (int j = 0; j < B.n; ++j) std::swap(B(p, j), B(c, j)); }
    for (int r = c + 1; r < n; ++r) { cd f = A(r, c) / A(c, c); if (f == cd(0)) continue; for (int j = c; j < n; ++j) A(r, j) -= f * A(c, j); for (int j = 0; j < B.n; ++j) B(r, j) -= f * B(c, j); }
  }
  for (int j = 0; j < B.n; ++j) for (int i = n - 1; i >= 0; --i) { cd s = B(i, j); for (int k = i + 1; k < n; ++k) s -= A(i, k) * B(k, j); B(i, j) = s / A(i, i); }
  return B;
}
inline Mat func(const Mat& A, double (*f)(double)) { Vec w; Mat U; eigh(A, w, U); Vec g(w.size()); for (size_t i = 0; i < w.size(); ++i) g[i] = f(w[i]); return mul(colscale(U, g), herm(U)); }
inline Mat invsqrt(const Mat& A) { return func(A, [](double x) { return 1 / std::sqrt(x); }); }
inline Mat sqrtm(const Mat& A) { return func(A, [](double x) { return std::sqrt(x); }); }

// ---------------------------------------------------------------- smearing schemes
// x = (mu - e)/kT.   0 FD, 1 Gaussian spline, 2 Gauss, 3 Methfessel-Paxton(1), 4 cold
const double PI = 3.14159265358979323846;
const double KB = 0.00000316681156340226;
inline double s_f(int s, double x, double mo)
{
  const double r2 = std::sqrt(2.0), rp = std::sqrt(PI);
  switch (s) {
    case 0: return x >= 0 ? mo / (1 + std::exp(-x)) : mo * std::exp(x) / (1 + std::exp(x));
    case 1: return x <= 0 ? 0.5 * mo * std::exp(x * (r2 - x)) : mo - 0.5 * mo * std::exp(-x * (r2 + x));
    case 2: return 0.5 * mo * std::erfc(-x);
    case 3: return 0.5 * mo * (std::erfc(-x) + x * std::exp(-x * x) / rp);
    case 4: { double z = x - 1 / r2; return mo * (0.5 * std::erfc(-z) + std::exp(-z * z) / (r2 * rp)); }
  }
  return NAN;
}
inline double s_d(int s, double x, double mo)
{
  const double r2 = std::sqrt(2.0), rp = std::sqrt(PI);
  double ax = std::abs(x);
  switch (s) {
    case 0: { double e = std::exp(-ax); return mo * e / ((1 + e) * (1 + e)); }
    case 1: return 0.5 * mo * (r2 + 2 * ax) * std::exp(-ax * (r2 + ax));
    case 2: return mo * std::exp(-x * x) / rp;
    case 3: return mo * std::exp(-x * x) * (1.5 - x * x) / rp;
    case 4: { double z = x - 1 / r2; return mo * std::exp(-z * z) * (2 - r2 * x) / rp; }
  }
  return NAN;
}
inline double s_dd(int s, double x, double mo)
{
  const double r2 = std::sqrt(2.0), rp = std::sqrt(PI);
  double ax = std::abs(x), sg = x < 0 ? -1 : 1;
  switch (s) {
    case 0: { double e = std::exp(-ax); return -sg * mo * e * (1 - e) / ((1 + e) * (1 + e) * (1 + e)); }
    case 1: return -sg * mo * 2 * ax * (r2 + ax) * std::exp(-ax * (r2 + ax));
    case 2: return -2 * x * mo * std::exp(-x * x) / rp;
    case 3: return mo * std::exp(-x * x) * x * (2 * x * x - 5) / rp;
    case 4: { double z = x - 1 / r2; return mo * std::exp(-z * z) * (-r2 - 2 * z * (2 - r2 * x)) / rp; }
  }
  return NAN;
}
inline double s_s(int s, double x, double mo)
{
  const double r2 = std::sqrt(2.0), rp = std::sqrt(PI);
  double ax = std::abs(x);
  switch (s) {
    case 0: { double e = std::exp(-ax); return mo * (std::log1p(e) + ax * e / (1 + e)); }
    case 1: return 0.25 * mo * (2 * ax * std::exp(-ax * (r2 + ax)) + std::exp(0.5) * rp * std::erfc(1 / r2 + ax));
    case 2: return 0.5 * mo * std::exp(-x * x) / rp;
    case 3: return 0.25 * mo * std::exp(-x * x) * (1 - 2 * x * x) / rp;
    case 4: { double z = x - 1 / r2; return 0.5 * mo * std::exp(-z * z) * (1 - r2 * x) / rp; }
  }
  return NAN;
}
inline bool monotone(int s) { return s <= 2; }
// x from f for the monotone schemes (bisection)
inline double s_inv(int s, double f, double mo)
{
  double lo = -60, hi = 60;
  for (int i = 0; i < 200; ++i) { double m = 0.5 * (lo + hi); if (s_f(s, m, mo) < f) lo = m; else hi = m; }
  return 0.5 * (lo + hi);
}

struct Rng  // splitmix64: deterministic generator of the finite problem family
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0) * 2 - 1; }
  Mat mat(int m, int n) { Mat r(m, n); for (auto& x : r.a) { double a = u(), b = u(); x = cd(a, b); } return r; }
  Mat hermitian(int n) { Mat b = mat(n, n); Mat r = lin(b, 0.5, herm(b), 0.5); return r; }
  Mat unitary(int n) { Mat b = mat(n, n); Mat M = hmul(b, b); return mul(b, invsqrt(M)); }
};
}  // namespace ref
