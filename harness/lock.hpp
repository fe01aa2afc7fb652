// Reference model of the minimisation (preconditioned nonlinear CG on (X, eta)), run in lock step with
// an observed trace.  At every accepted step it is re-synchronised with the observed wave functions
// (gauge), so one violated step is reported where it happens.
#pragma once
#include "mock.hpp"

namespace mk {
struct Finding { std::string prop, msg; };
using Findings = std::vector<Finding>;

struct DirState
{
  std::vector<Mat> zx, zeta, ul;   // search direction; rotation into the current basis
  double fr = 0, slope = 0;
  double unc = 0;                  // rounding uncertainty of the slope (from the uncancelled terms)
};

struct LockInfo
{
  int steps = 0;          // line searches followed to their end
  int evals = 0;          // evaluations compared
  bool ambiguous = false; // stopped early at a decision within rounding
  std::string why;
  std::vector<std::vector<Vec>> ek; // reference band energies per evaluation (empty: not followed)
  std::vector<double> F;            // reference free energy per evaluation (NaN: not followed)
  std::vector<Vec> amp;             // squared norm of X + t Z per evaluation and point (empty: not followed)
  bool longstep = false;  // ended by an error at a step so long that no chemical potential exists in double precision
  int nrestart = 0, nconj = 0, nfail = 0, nbt = 0, ngrow = 0, npos = 0, nposconj = 0;
};

struct Lock
{
  const Trace& t;
  Findings out;
  LockInfo li;
  const Cfg& c;
  const Problem& p;
  int n;
  double kT;
  // current accepted state
  std::vector<Mat> X, HX;
  std::vector<Vec> ek, f, hii;
  double mu = 0, F0 = 0;
  DirState d;
  double statetol = 1e-6;

  explicit Lock(const Trace& t_) : t(t_), c(t_.cfg), p(t_.pr), n(t_.loc.size()), kT(KB * t_.cfg.T) {}
  void add(const std::string& prop, const std::string& msg) { if (out.size() < 30) out.push_back({prop, msg}); }

  double entropy(const std::vector<Vec>& e, double m) const
  {
    double s = 0;
    for (int i = 0; i < n; ++i) for (double x : e[i]) s += p.w[t.loc[i]] * s_s(c.sm, (m - x) / kT, c.mo);
    return -kT * s;
  }

  void gradient(std::vector<Mat>& gx, std::vector<Mat>& dx, std::vector<Mat>& ge, std::vector<Mat>& de, double& fr, double& unc)
  {
    double D = 0, dF = 0, Da = 0, dFa = 0;
    unc = 0;
    for (int i = 0; i < n; ++i) for (size_t j = 0; j < ek[i].size(); ++j) {
      double de_ = s_d(c.sm, (mu - ek[i][j]) / kT, c.mo), w = p.w[t.loc[i]];
      D += w * de_;
      dF += w * (hii[i][j] - ek[i][j]) * de_;
      Da += w * std::abs(de_);
      dFa += w * (std::abs(hii[i][j]) + std::abs(ek[i][j])) * std::abs(de_);
    }
    fr = 0;
    gx.clear(); dx.clear(); ge.clear(); de.clear();
    for (int i = 0; i < n; ++i) {
      int q = t.loc[i];
      double w = p.w[q];
      Mat sx = mul(p.S[q], X[i]);
      Mat ll = solve(hmul(sx, mul(p.P[q], sx)), hmul(sx, mul(p.P[q], HX[i])));
      Mat xll = mul(sx, ll);
      Mat g = lin(colscale(HX[i], f[i]), w, xll, -w);
      Mat dl = mul(p.P[q], lin(xll, 1, HX[i], -1));
      Mat h = hmul(X[i], HX[i]);
      int b = h.n;
      Mat G(b, b), E(b, b);
      for (int a = 0; a < b; ++a) for (int bb = 0; bb < b; ++bb) {
        double da = s_d(c.sm, (mu - ek[i][a]) / kT, c.mo);
        if (a == bb) {
          G(a, a) = -w / kT * (h(a, a) - ek[i][a]) * da;
          if (std::abs(D) >= 1e-12) G(a, a) += w * da / D * (dF / kT);
        } else {
          double dd = ek[i][bb] - ek[i][a];
          double II = std::abs(dd) < 1e-7 * kT ? -da / kT : (f[i][bb] - f[i][a]) / dd;
          G(a, bb) = w * II * h(a, bb);
        }
        E(a, bb) = c.kappa * (h(a, bb) - (a == bb ? ek[i][a] : 0.0));
      }
      fr += 2 * rtrace(g, dl) + rtrace(G, E);
      double u = 0;
      for (size_t z = 0; z < g.a.size(); ++z) u += 2 * std::abs(g.a[z]) * std::abs(dl.a[z]);
      for (int a = 0; a < b; ++a) {
        double da = std::abs(s_d(c.sm, (mu - ek[i][a]) / kT, c.mo)), ea = std::abs(E(a, a));
        u += w / kT * (std::abs(h(a, a)) + std::abs(ek[i][a])) * da * ea;
        if (std::abs(D) >= 1e-13) u += w * da / std::abs(D) / kT * (dFa + std::abs(dF) * Da / std::abs(D)) * ea;
        for (int bb = 0; bb < b; ++bb) if (bb != a) u += w * (std::abs(G(a, bb) / std::max(w, 1e-300)) + 1e-15 / std::max(std::abs(ek[i][bb] - ek[i][a]), 1e-7 * kT) * std::abs(h(a, bb)) / 1e-14) * std::abs(E(a, bb));
      }
      unc += 1e-14 * u;
      gx.push_back(g); dx.push_back(dl); ge.push_back(G); de.push_back(E);
    }
  }
  void steepest()
  {
    std::vector<Mat> gx, dx, ge, de;
    double fr;
    gradient(gx, dx, ge, de, fr, d.unc);
    d.zx = dx; d.zeta = de; d.fr = fr; d.slope = fr;
    li.nrestart++;
  }
  void conjugate()
  {
    std::vector<Mat> gx, dx, ge, de;
    double fr, szp = 0, unc;
    gradient(gx, dx, ge, de, fr, unc);
    double gamma = fr / d.fr, zu = 0;
    for (int i = 0; i < n; ++i) {
      Mat sx = mul(p.S[t.loc[i]], X[i]);
      Mat zx = mul(d.zx[i], d.ul[i]);
      Mat ze = hmul(d.ul[i], mul(d.zeta[i], d.ul[i]));
      zx = lin(zx, 1, mul(sx, solve(hmul(sx, sx), hmul(sx, zx))), -1);
      szp += 2 * rtrace(zx, gx[i]) + rtrace(ze, ge[i]);
      for (size_t z = 0; z < zx.a.size(); ++z) zu += 2 * std::abs(zx.a[z]) * std::abs(gx[i].a[z]);
      for (size_t z = 0; z < ze.a.size(); ++z) zu += std::abs(ze.a[z]) * std::abs(ge[i].a[z]);
      d.zx[i] = lin(dx[i], 1, zx, gamma);
      d.zeta[i] = lin(de[i], 1, ze, gamma);
    }
    d.unc = unc * (1 + std::abs(gamma * szp / fr)) + std::abs(gamma) * (1e-14 * zu + std::abs(szp) * (d.unc / std::abs(d.fr)));
    d.fr = fr;
    d.slope = fr + gamma * szp;
    li.nconj++;
  }
  // expected state at step t: compare with evaluation e; returns the free energy seen there.
  // fit: the step length is known only up to rounding of the quadratic model; the observed one is
  // recovered, has to agree with the expected one within that rounding, and is then used.
  struct At { std::vector<Vec> ek; std::vector<Mat> U, X; double F; bool ok; };
  void geo(double tt, At& r)
  {
    r.ek.clear(); r.U.clear(); r.X.clear();
    for (int i = 0; i < n; ++i) {
      int q = t.loc[i];
      Mat eta = lin(diag(ek[i]), 1, d.zeta[i], tt), U;
      Vec w;
      eigh(eta, w, U);
      Mat Y = lin(X[i], 1, d.zx[i], tt);
      Mat M = hmul(Y, mul(p.S[q], Y));
      r.ek.push_back(w); r.U.push_back(U); r.X.push_back(mul(mul(Y, invsqrt(M)), U));
    }
  }
  void dens(const At& r, double m, std::vector<Mat>& D)
  {
    D.clear();
    for (int i = 0; i < n; ++i) {
      Vec fr(r.ek[i].size());
      for (size_t j = 0; j < fr.size(); ++j) fr[j] = s_f(c.sm, (m - r.ek[i][j]) / kT, c.mo) / c.mo;
      D.push_back(mul(r.X[i], herm(r.X[i])));
      D.push_back(mul(colscale(r.X[i], fr), herm(r.X[i])));
    }
  }
  At at(double tt, int e, const char* what, bool first, bool fit = false, double dt = 0)
  {
    At r;
    r.ok = true;
    const Eval& ev = t.ev[e];
    std::vector<Mat> Do, Dn;
    for (int i = 0; i < n; ++i) {
      Vec fr = ev.f[i];
      for (auto& x : fr) x /= c.mo;
      Do.push_back(mul(ev.X[i], herm(ev.X[i])));
      Do.push_back(mul(colscale(ev.X[i], fr), herm(ev.X[i])));
    }
    double texp = tt;
    geo(tt, r);
    dens(r, ev.mu, Dn);
    auto deviation = [&] { double v = 0; for (size_t i = 0; i < Do.size(); ++i) { double x = diff(Do[i], Dn[i]); if (!(x <= v)) v = x; } return v; };
    double dev = deviation();
    if (fit && dev > 1e-13) {
      for (int it = 0; it < 3; ++it) {
        double h = 1e-4 * std::max(1e-3, std::abs(tt)), num_ = 0, den = 0;
        At rp, rm;
        std::vector<Mat> Dp, Dm;
        geo(tt + h, rp); dens(rp, ev.mu, Dp);
        geo(tt - h, rm); dens(rm, ev.mu, Dm);
        for (size_t i = 0; i < Do.size(); ++i) {
          Mat g = lin(Dp[i], 0.5 / h, Dm[i], -0.5 / h), df = lin(Do[i], 1, Dn[i], -1);
          num_ += rtrace(df, g); den += rtrace(g, g);
        }
        if (!(den > 1e-18)) break;
        double tn = tt + num_ / den;
        if (!std::isfinite(tn)) break;
        double lim = 1e-9 * std::max(1.0, std::abs(texp)) + 20 * dt;
        if (std::abs(tn - texp) > lim) break;
        At rn; geo(tn, rn);
        auto keep = Dn;
        dens(rn, ev.mu, Dn);
        double dv = deviation();
        if (dv < dev) { dev = dv; r.ek = rn.ek; r.U = rn.U; r.X = rn.X; tt = tn; } else { Dn = keep; break; }
      }
    }
    double devf = 0;
    for (int i = 0; i < n; ++i) for (size_t j = 0; j < r.ek[i].size(); ++j) { double x = std::abs(s_f(c.sm, (ev.mu - r.ek[i][j]) / kT, c.mo) - ev.f[i][j]); if (!(x <= devf)) devf = x; }
    li.evals++;
    if (getenv("LOCK_DEBUG")) fprintf(stderr, "e %d t %.10g (expected %.10g) dev %.3g devf %.3g slope %g E %.15g\n", e, tt, texp, dev, devf, d.slope, ev.Eret);
    if (getenv("LOCK_DEBUG2")) for (int i = 0; i < n; ++i) for (size_t j = 0; j < r.ek[i].size(); ++j) fprintf(stderr, "   k %d ek %.14g mu %.14g f %.14g ref %.14g\n", i, r.ek[i][j], ev.mu, ev.f[i][j], s_f(c.sm, (ev.mu - r.ek[i][j]) / kT, c.mo));
    double s = entropy(r.ek, ev.mu);
    r.F = ev.Eret + s;
    if ((int)li.ek.size() < (int)t.ev.size()) { li.ek.resize(t.ev.size()); li.F.resize(t.ev.size(), NAN); }
    // sensitivity of the comparison grows with the length of the step
    double tol = statetol * std::max(1.0, std::abs(tt));
    if (!(dev <= tol)) {
      char b[300];
      snprintf(b, sizeof b, "evaluation %d (%s, expected step %.6g of line search %d) is not at the expected state: deviation %.3g", e, what, texp, ev.nrec - 1, dev);
      add("C14", b);
      if (!first) add("C02", b);
      r.ok = false;
    } else {
      li.ek[e] = r.ek; li.F[e] = r.F;
      li.amp.resize(t.ev.size());
      li.amp[e].clear();
      for (int i = 0; i < n; ++i) { Mat Y = lin(X[i], 1, d.zx[i], tt); li.amp[e].push_back(rtrace(Y, Y)); }
      if (!(devf <= 1e-5 * c.mo * std::max(1.0, std::abs(tt)))) {
        char b[300];
        snprintf(b, sizeof b, "occupations of evaluation %d are not the smearing function of the band energies at the chemical potential set on the host: deviation %.3g", e, devf);
        add("C04", b);
      }
    }
    return r;
  }
  void accept(int e, const At& a)
  {
    const Eval& ev = t.ev[e];
    d.ul.resize(n);
    for (int i = 0; i < n; ++i) {
      // gauge: observed = reference * U
      Mat U = hmul(a.X[i], mul(p.S[t.loc[i]], ev.X[i]));
      Mat N = hmul(U, U);
      U = mul(U, invsqrt(N));
      d.ul[i] = mul(a.U[i], U);
    }
    X = ev.X; HX = ev.HX; f = ev.f; ek = a.ek; hii = ev.ek; mu = ev.mu; F0 = a.F;
  }
  static bool num(const json& r, const char* k, double& v) { if (!r.is_object() || !r.contains(k) || !r[k].is_number()) return false; v = r[k].get<double>(); return true; }

  void run()
  {
    if (t.ev.size() < 2) return;
    li.ek.resize(t.ev.size()); li.F.resize(t.ev.size(), NAN);
    // initial state: band energies of evaluation 0
    X = t.ev[1].X; HX = t.ev[1].HX; f = t.ev[1].f; ek = t.ev[0].ek; hii = t.ev[1].ek; mu = t.ev[1].mu;
    F0 = t.ev[1].Eret + entropy(ek, mu);
    li.ek[1] = ek; li.F[1] = F0;
    {
      double dv = 0;
      for (int i = 0; i < n; ++i) dv = std::max(dv, diff(X[i], p.X0[t.loc[i]]));
      if (!(dv <= 1e-12)) add("C14", "the first smeared evaluation is not at the host's starting wave functions");
      for (int i = 0; i < n; ++i) for (size_t j = 0; j < ek[i].size(); ++j)
        if (!(std::abs(f[i][j] - s_f(c.sm, (mu - ek[i][j]) / kT, c.mo)) <= 1e-8 * c.mo)) add("C04", "occupations of the first smeared evaluation are not the smearing function of the host's band energies");
    }
    steepest();
    bool force = false;
    int nr = t.recs.size();
    for (int r = 0; r < nr; ++r) {
      double slope = NAN, F = NAN;
      num(t.recs[r], "slope_x", slope);
      num(t.recs[r], "F", F);
      if (!(d.unc <= 1e-6 * std::abs(d.slope))) { li.ambiguous = true; li.why = "slope known only up to rounding"; return; }
      if (!(std::abs(slope - d.slope) <= 1e-6 * std::abs(d.slope) + 1e-9)) {
        char b[300];
        snprintf(b, sizeof b, "slope logged for iteration %d is %.12g, the derivative of the free energy along the search direction is %.12g", r, slope, d.slope);
        add("C06", b);
      }
      if (std::abs(d.slope) < 1e-7) { li.ambiguous = true; li.why = "slope at rounding level"; return; }
      std::vector<int> L;
      for (size_t e = 0; e < t.ev.size(); ++e) if (t.ev[e].nrec == r + 1) L.push_back(e);
      double tolamb = std::abs(std::abs(d.slope) - c.tol) / c.tol;
      if (tolamb < 1e-4) { li.ambiguous = true; li.why = "slope within rounding of the tolerance"; return; }
      if (std::abs(d.slope) < c.tol) { if (!L.empty()) add("C14", "evaluations after the slope fell below the tolerance"); return; }
      size_t i = 0;
      auto have = [&](const char* what) {
        if (i < L.size()) return true;
        if (t.exc == 3 || t.exc == 4) return false;
        std::string m = std::string("line search ") + std::to_string(r) + " ended early: " + what + " was not evaluated";
        if (t.exc) m += " (exception: " + t.what + ")";
        add("C14", m); add("C02", m);
        return false;
      };
      double amb = 1e-12 * std::max(1.0, std::abs(F0));
      if (d.slope > 0) {
        if (!L.empty()) { add("C02", "a direction of positive slope was followed"); add("C14", "a direction of positive slope was followed"); }
        return;
      }
      // quadratic search
      double tt = 0.2, tmin = NAN, a;
      bool need_bt = false;
      At st;
      while (true) {
        if (i >= L.size() && t.exc == 1 && tt > 100) { li.longstep = li.ambiguous = true; li.why = "error at a very long step"; return; }
        if (!have("a trial step")) return;
        st = at(tt, L[i], "trial step", tt == 0.2);
        if (!st.ok) return;
        ++i;
        a = (st.F - d.slope * tt - F0) / (tt * tt);
        tmin = -d.slope / (2 * a);
        if (std::abs(st.F - d.slope * tt - F0) < 10 * amb) { li.ambiguous = true; li.why = "curvature within rounding"; return; }
        if (!std::isfinite(st.F) && !(st.F < 0)) { need_bt = true; break; }
        if (a < 0) { tt *= 5; li.ngrow++; if (tt > 1e6) { li.longstep = li.ambiguous = true; li.why = "very long step"; return; } continue; }
        break;
      }
      if (!std::isfinite(tmin)) need_bt = true;
      bool accepted = false;
      if (!need_bt) {
        if (i >= L.size() && t.exc == 1 && tmin > 100) { li.longstep = li.ambiguous = true; li.why = "error at a very long step"; return; }
        if (!have("the minimum of the quadratic model")) return;
        // rounding of the curvature limits the knowledge of t_min
        double dtm = std::abs(tmin) * ((d.unc + 1e-14 * std::abs(d.slope)) * tt + 4e-15 * std::max(1.0, std::abs(F0) + std::abs(st.F))) / (std::abs(a) * tt * tt);
        double sens = 0;
        for (int k = 0; k < n; ++k) sens = std::max(sens, std::max(maxabs(d.zeta[k]) / kT, maxabs(d.zx[k])));
        if (!(dtm * sens <= 1e-3)) { li.ambiguous = true; li.why = "quadratic minimum known only up to rounding"; return; }
        st = at(tmin, L[i], "quadratic minimum", false, true, dtm);
        if (!st.ok) return;
        int e = L[i++];
        if (std::abs(st.F - F0) < amb) { li.ambiguous = true; li.why = "energy change within rounding"; return; }
        if (st.F <= F0) { accept(e, st); accepted = true; force = false; }
        else need_bt = true;
      }
      if (need_bt) {
        li.nbt++;
        if (c.tau >= 1) {
          if (i < L.size()) { add("C02", "backtracking with a factor >= 1 was carried out"); return; }
          if (t.exc != 1 && t.exc != 3 && t.exc != 4) add("C02", "a backtracking factor >= 1 was not reported as an error when backtracking was needed");
          return;
        }
        double tb = 0.2;
        while (tb > 1e-8) {
          if (!have("a backtracking step")) return;
          st = at(tb, L[i], "backtracking step", false);
          if (!st.ok) return;
          int e = L[i++];
          if (std::abs(st.F - F0) < amb && st.F != INFINITY) { li.ambiguous = true; li.why = "energy change within rounding"; return; }
          if (st.F < F0) { accept(e, st); accepted = true; force = false; break; }
          tb *= c.tau;
        }
        if (!accepted) {
          li.nfail++;
          if (!have("the return to the starting point")) return;
          st = at(0, L[i], "return to the start", false);
          if (!st.ok) return;
          int e = L[i++];
          if (force) {
            if (i != L.size()) { add("C02", "evaluations after a second failed line search"); add("C14", "evaluations after a second failed line search"); }
            if (r + 1 < nr) { add("C02", "the minimisation went on after a second failed line search"); add("C14", "the minimisation went on after a second failed line search"); }
            if (t.returned && t.info.converged) add("C02", "converged result after a second failed line search");
            return;
          }
          force = true;
          accept(e, st);
        }
      }
      if (i != L.size()) {
        std::string m = "line search " + std::to_string(r) + " went on after an acceptable step (" + std::to_string(L.size() - i) + " further evaluations)";
        add("C02", m); add("C14", m);
        return;
      }
      li.steps++;
      if (r + 1 == nr && r + 1 < c.maxiter && t.returned) {
        std::string m = "the minimisation stopped after a successful line search (iteration " + std::to_string(r) + ") before its limit";
        add("C02", m); add("C14", m);
        return;
      }
      if (r + 1 >= nr) return;
      if (r % c.restart == 0 || force) steepest();
      else {
        if (li.npos) li.nposconj++;
        conjugate();
        if (std::abs(d.slope) < 1e-10 * std::abs(d.fr)) { li.ambiguous = true; li.why = "sign of the slope within rounding"; return; }
        if (d.slope > 0) { steepest(); force = true; li.npos++; }
      }
    }
  }
};
}  // namespace mk
