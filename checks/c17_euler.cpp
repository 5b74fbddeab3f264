// C17: Euler state conversions and numerical fluxes
#include <array>
#include <cmath>
#include "mc.hpp"
#include "mfem.hpp"
#include "euler_fluxes.hpp"
#include "gas_ref.hpp"

using namespace mc;
using namespace miso;
using gas::Dir;
using gas::Prim;
using gas::R;
using gas::V;
namespace
{
std::vector<double> rhos() { return thorough() ? std::vector<double>{0.02, 0.4, 0.8, 1.0, 1.0001, 1.13, 2.5, 12.0, 90.0} : std::vector<double>{0.4, 1.0, 1.0001, 1.13, 2.5, 12.0}; }
std::vector<double> prs() { return thorough() ? std::vector<double>{0.05, 0.3, 1 / 1.4, 0.72, 1.3, 2.0, 9.0, 60.0} : std::vector<double>{0.05, 0.3, 1 / 1.4, 0.72, 2.0, 9.0}; }
std::vector<double> vels(int d)
{
   if (d == 1) { return {-3.1, -1.3, -0.2, 0, 0.2, 0.9, 1.0, 2.4}; }
   if (d == 2) { return thorough() ? std::vector<double>{-1.3, -0.5, -0.01, 0, 0.2, 0.9, 1.0, 1.7, 2.4} : std::vector<double>{-1.3, -0.5, 0, 0.2, 0.9, 2.4}; }
   return thorough() ? std::vector<double>{-1.3, -0.4, 0, 0.2, 0.9, 2.1} : std::vector<double>{-1.3, 0, 0.2, 0.9};
}
template <int d>
struct State
{
   Prim<d> s;
   double q[d + 2], w[d + 2];
   Prim<d> sw;  // the state w stands for exactly
   V<d> Q() const { return s.cons(); }
};
template <int d>
State<d> make(double rho, double p, const double *u)
{
   State<d> r;
   Prim<d> x;
   x.rho = rho;
   x.p = p;
   for (int i = 0; i < d; ++i) { x.u[i] = u[i]; }
   V<d> q = x.cons(), e;
   for (int i = 0; i < d + 2; ++i)
   {
      r.q[i] = (double)q[i];
      q[i] = r.q[i];
   }
   r.s = gas::from_cons<d>(q);
   V<d> w = r.s.entv();
   for (int i = 0; i < d + 2; ++i)
   {
      r.w[i] = (double)w[i];
      e[i] = r.w[i];
   }
   r.sw = gas::from_ent<d>(e);
   return r;
}
template <int d>
State<d> pick_state(const char *what)
{
   double rho = pick(rhos(), what), p = pick(prs(), what), u[d];
   static const std::vector<double> v[4] = {{}, vels(1), vels(2), vels(3)};
   for (int i = 0; i < d; ++i) { u[i] = pick(v[d], what); }
   return make<d>(rho, p, u);
}
// a smaller, deliberately irregular family for the second state
template <int d>
State<d> pick_other(const char *what)
{
   static const double T[10][5] = {{1, 1 / 1.4, 0, 0, 0}, {1.0001, 0.72, 0.2, 0, 0.1}, {0.4, 2.0, -1.3, 0.9, 0}, {2.5, 0.3, 2.4, -1.3, 0.7}, {1, 1 / 1.4, 1, 0, 0}, {1, 2, 0.2, 0.2, -0.2}, {12, 9, -0.6, 0.1, 0.3}, {0.05, 0.9, 3.1, 2.4, 1.2}, {1, 0.3, 0.2, 0, 0.4}, {2.5, 2, 0, -1.3, 0}};
   int k = choose(10, what);
   return make<d>(T[k][0], T[k][1], T[k] + 2);
}
template <int d>
Dir<d> pick_dir(double *n)
{
   static const double T1[3] = {1, -1, 0.3}, T2[5][2] = {{1, 0}, {0, -1}, {0.6, 0.8}, {-2, 1}, {0.01, -0.02}}, T3[5][3] = {{1, 0, 0}, {0, 0, -1}, {0.3, -0.5, 1.1}, {0, 2, 0}, {-0.02, -0.01, 0.005}};
   int k = choose(d == 1 ? 3 : 5, "direction");
   Dir<d> r;
   for (int i = 0; i < d; ++i) { n[i] = r[i] = d == 1 ? T1[k] : d == 2 ? T2[k][i] : T3[k][i]; }
   return r;
}
template <int d>
std::string show(const double *q)
{
   Str s;
   s << "(";
   for (int i = 0; i < d + 2; ++i) { s << (i ? " " : "") << q[i]; }
   s << ")";
   return s;
}
template <int d>
void same(const double *got, const V<d> &want, R scale, const std::string &key, const std::string &where, double tol = 1e-11)
{
   R m = scale;
   for (R x : want) { m = std::max(m, fabsl(x)); }
   for (int i = 0; i < d + 2; ++i)
   {
      mc::fingerprint(std::round(got[i] * 1e6));
      MC_CHECK(fabsl(got[i] - want[i]) <= tol * m, key, where << ": entry " << i << " is " << got[i] << " instead of " << (double)want[i]);
   }
}
template <int d>
void same_state(const State<d> &s, const State<d> &c, const std::string &where)
{
   for (int i = 0; i < d + 2; ++i) { MC_CHECK(s.q[i] == c.q[i] && s.w[i] == c.w[i], "mutates-input", where << ": an input changed"); }
}
template <int d>
R fscale(const Prim<d> &s, const Dir<d> &n)
{
   R m = 0;
   for (R x : s.cons()) { m = std::max(m, fabsl(x)); }
   return (m + s.p) * (fabsl(s.un(n)) + s.a() * gas::norm<d>(n));
}
template <int d>
R qscale(const Prim<d> &s)
{
   R m = 0;
   for (R x : s.cons()) { m = std::max(m, fabsl(x)); }
   return m;
}

// ---------------------------------------------------------------- one state
template <int d>
void single()
{
   State<d> S = pick_state<d>("state"), C = S;
   std::string at = Str() << d << "D state " << show<d>(S.q);
   note(at);
   const Prim<d> &s = S.s;
   double q[d + 2], w[d + 2];
   double p = pressure<double, d>(S.q);
   MC_CHECK(fabsl(p - s.p) <= 1e-12L * qscale(s), "pressure", at << ": pressure " << p << " instead of " << (double)s.p);
   calcEntropyVars<double, d, false>(S.q, w);
   same<d>(w, s.entv(), 1, "entropy-variables", at);
   calcConservativeVars<double, d, true>(S.w, q);
   same<d>(q, S.sw.cons(), 0, "conservative-from-entropy", at);
   calcEntropyVars<double, d, true>(S.w, w);
   calcConservativeVars<double, d, false>(S.q, q);
   for (int i = 0; i < d + 2; ++i) { MC_CHECK(w[i] == S.w[i] && q[i] == S.q[i], "identity-conversion", at << ": converting to the same variables changed entry " << i); }
   // mathematical entropy and its gradient
   R e = -s.rho * s.s() / gas::g1;
   double ec = entropy<double, d, false>(S.q), ed = entropy<double, d>(S.q), ew = entropy<double, d, true>(S.w);
   MC_CHECK(fabsl(ec - e) <= 1e-11L * (1 + s.rho + fabsl(e)) && same_bits(ec, ed), "entropy", at << ": entropy " << ec << " instead of " << (double)e);
   R e2 = -S.sw.rho * S.sw.s() / gas::g1;
   MC_CHECK(fabsl(ew - e2) <= 1e-11L * (1 + s.rho + fabsl(e2)), "entropy-entvar", at << ": entropy from entropy variables " << ew << " instead of " << (double)e2);
   double h = 1e-4 * std::min((double)s.p, (double)s.rho);
   V<d> W = s.entv();
   for (int i = 0; i < d + 2; ++i)
   {
      double x[d + 2], v[4];
      static const int k4[4] = {-2, -1, 1, 2};
      for (int k = 0; k < 4; ++k)
      {
         std::copy(S.q, S.q + d + 2, x);
         x[i] += k4[k] * h;
         v[k] = entropy<double, d>(x);
      }
      double gr = (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h);
      MC_CHECK(std::fabs(gr - (double)W[i]) <= 1e-5 * (1 + std::fabs((double)W[i])) * (1 + (double)(s.vel2() * s.rho / s.p)), "entropy-gradient", at << ": dS/dq_" << i << " = " << gr << " but the entropy variable is " << (double)W[i]);
   }
   // derivative of pressure
   double dp[d + 2];
   dpressdq<double, d>(S.q, dp);
   for (int i = 0; i < d + 2; ++i)
   {
      R ref = i == 0 ? gas::g1 * s.vel2() / 2 : i == d + 1 ? gas::g1 : -gas::g1 * s.u[i - 1];
      MC_CHECK(fabsl(dp[i] - ref) <= 1e-12L * (1 + s.vel2()), "dpressdq", at << ": dp/dq_" << i << " = " << dp[i] << " instead of " << (double)ref);
   }
   // dq/dw: columns, symmetry, definiteness
   double A[d + 2][d + 2];
   for (int j = 0; j < d + 2; ++j)
   {
      double v[d + 2] = {};
      V<d> ev;
      ev.fill(0);
      v[j] = 1;
      ev[j] = 1;
      std::fill(A[j], A[j] + d + 2, 77.0);
      calcdQdWProduct<double, d>(S.q, v, A[j]);
      same<d>(A[j], gas::dqdw<d>(s, ev), 1e-3, "dqdw", Str() << at << " dq/dw column " << j, 1e-8);
   }
   for (int j = 0; j < d + 2; ++j)
   {
      for (int i = 0; i < j; ++i)
      {
         double sc = std::sqrt(A[i][i] * A[j][j]);
         MC_CHECK(std::fabs(A[i][j] - A[j][i]) <= 1e-12 * sc, "dqdw-symmetric", at << ": dq/dw is not symmetric");
         MC_CHECK(A[i][j] * A[i][j] < A[i][i] * A[j][j] * (1 + 1e-9), "dqdw-definite", at << ": dq/dw is not positive definite");
      }
   }
   same_state<d>(S, C, at);
}
// one state and a direction
template <int d>
void directed()
{
   State<d> S = pick_state<d>("state"), C = S;
   double n[d], f[d + 2], f2[d + 2], q[d + 2];
   Dir<d> N = pick_dir<d>(n);
   std::string at = Str() << d << "D state " << show<d>(S.q) << " direction " << n[0];
   note(at);
   const Prim<d> &s = S.s;
   R fs = fscale<d>(s, N);
   V<d> F = s.flux(N);
   calcEulerFlux<double, d>(n, S.q, f);
   same<d>(f, F, fs, "euler-flux", at);
   // consistency of every two-point flux
   calcRoeFaceFlux<double, d>(n, S.q, S.q, f);
   same<d>(f, F, fs, "roe-consistent", at);
   calcIsmailRoeFaceFlux<double, d>(n, S.q, S.q, f);
   same<d>(f, F, fs, "ismail-roe-consistent", at);
   calcIsmailRoeFaceFluxUsingEntVars<double, d>(n, S.w, S.w, f);
   same<d>(f, S.sw.flux(N), fs, "ismail-roe-entvar-consistent", at);
   calcIsmailRoeFaceFluxWithDiss<double, d>(n, 0.7, S.q, S.q, f);
   same<d>(f, F, fs, "ismail-roe-diss-consistent", at);
   double work[d + 2];
   calcBoundaryFlux<double, d>(n, S.q, S.q, work, f);
   same<d>(f, F, fs, "boundary-consistent", at);
   calcFarFieldFlux2<double, d>(n, S.q, S.q, work, f);
   same<d>(f, F, fs, "farfield2-consistent", at);
   // spectral radius
   R rad = fabsl(s.un(N)) + s.a() * gas::norm<d>(N);
   double r1 = calcSpectralRadius<double, d>(n, S.q), r2 = calcSpectralRadius<double, d, true>(n, S.w);
   MC_CHECK(fabsl(r1 - rad) <= 1e-11L * rad, "spectral-radius", at << ": " << r1 << " instead of " << (double)rad);
   MC_CHECK(fabsl(r2 - rad) <= 1e-10L * rad, "spectral-radius-entvar", at << ": " << r2 << " instead of " << (double)rad);
   // slip wall: no mass, energy or entropy flux, pressure force only
   V<d> wall;
   wall.fill(0);
   for (int i = 0; i < d; ++i) { wall[i + 1] = s.p * N[i]; }
   double x[3] = {0.1, 0.2, 0.3};
   calcSlipWallFlux<double, d>(x, n, S.q, f);
   same<d>(f, wall, fs, "slip-wall", at);
   MC_CHECK(f[0] == 0 && f[d + 1] == 0, "slip-wall-leaks", at << ": mass or energy crosses a slip wall");
   for (int i = 0; i < d; ++i) { wall[i + 1] = S.sw.p * N[i]; }
   calcSlipWallFlux<double, d, true>(x, n, S.w, f);
   same<d>(f, wall, fs, "slip-wall-entvar", at);
   MC_CHECK(f[0] == 0 && f[d + 1] == 0, "slip-wall-leaks", at << ": mass or energy crosses a slip wall");
   // projection
   projectStateOntoWall<double, d>(n, S.q, q);
   V<d> P = s.cons();
   R nn = gas::norm<d>(N);
   for (int i = 0; i < d; ++i) { P[i + 1] -= s.rho * s.un(N) * N[i] / (nn * nn); }
   same<d>(q, P, qscale(s), "wall-projection", at);
   // control flux
   static const std::vector<double> vc = {-0.5, 0, 0.3};
   double c = pick(vc, "control velocity");
   Prim<d> b = s;
   V<d> ctl = s.cons();
   R U = -c * nn;
   for (int i = 0; i < d + 2; ++i) { ctl[i] *= U; }
   for (int i = 0; i < d; ++i) { ctl[i + 1] += s.p * N[i]; }
   ctl[d + 1] += s.p * U;
   calcControlFlux<double, d>(n, S.q, c, f);
   same<d>(f, ctl, fs, "control-flux", at);
   (void)f2;
   (void)b;
   same_state<d>(S, C, at);
}
// ---------------------------------------------------------------- two states
template <int d>
V<d> roe_ref(const Prim<d> &L, const Prim<d> &Rt, const Dir<d> &n)
{
   R sl = sqrtl(L.rho), sr = sqrtl(Rt.rho), u[d], vel2 = 0, un = 0;
   for (int i = 0; i < d; ++i)
   {
      u[i] = (sl * L.u[i] + sr * Rt.u[i]) / (sl + sr);
      vel2 += u[i] * u[i];
      un += u[i] * n[i];
   }
   R H = (sl * L.H() + sr * Rt.H()) / (sl + sr), a = sqrtl(gas::g1 * (H - vel2 / 2)), dA = gas::norm<d>(n);
   R low = 0.025L * (fabsl(un) + a * dA);
   V<d> a1 = L.flux(n), a2 = Rt.flux(n), qL = L.cons(), qR = Rt.cons(), dq;
   for (int i = 0; i < d + 2; ++i) { dq[i] = qL[i] - qR[i]; }
   V<d> D = gas::wave_apply<d>(u, H, n, std::max(fabsl(un + a * dA), low), std::max(fabsl(un - a * dA), low), std::max(fabsl(un), low), dq);
   for (int i = 0; i < d + 2; ++i) { a1[i] = (a1[i] + a2[i] + D[i]) / 2; }
   return a1;
}
template <int d>
void pairs()
{
   State<d> L = pick_state<d>("left"), T = pick_other<d>("right"), CL = L, CT = T;
   double n[d], m[d], f[d + 2], fb[d + 2];
   Dir<d> N = pick_dir<d>(n);
   for (int i = 0; i < d; ++i) { m[i] = -n[i]; }
   std::string at = Str() << d << "D left " << show<d>(L.q) << " right " << show<d>(T.q) << " direction " << n[0];
   note(at);
   R fs = fscale<d>(L.s, N) + fscale<d>(T.s, N);
   // Roe
   calcRoeFaceFlux<double, d>(n, L.q, T.q, f);
   same<d>(f, roe_ref<d>(L.s, T.s, N), fs, "roe-flux", at);
   calcRoeFaceFlux<double, d>(m, T.q, L.q, fb);
   for (int i = 0; i < d + 2; ++i) { MC_CHECK(std::fabs(f[i] + fb[i]) <= 1e-12 * fs, "roe-conservation", at << ": the flux from the other side does not cancel"); }
   // Ismail-Roe
   V<d> IR = gas::ismail_roe<d>(L.s, T.s, N), IRw = gas::ismail_roe<d>(L.sw, T.sw, N);
   double fe[d + 2];
   calcIsmailRoeFaceFlux<double, d>(n, L.q, T.q, f);
   same<d>(f, IR, fs, "ismail-roe", at);
   calcIsmailRoeFaceFlux<double, d>(n, T.q, L.q, fb);
   calcIsmailRoeFaceFluxUsingEntVars<double, d>(n, L.w, T.w, fe);
   same<d>(fe, IRw, fs, "ismail-roe-entvar", at, 1e-10);
   for (int i = 0; i < d + 2; ++i) { MC_CHECK(std::fabs(f[i] - fb[i]) <= 1e-12 * fs, "ismail-roe-symmetric", at << ": flux is not symmetric in its states"); }
   // Tadmor's condition
   V<d> wl = L.s.entv(), wr = T.s.entv();
   auto jump = [&](const double *x, R &mag)
   {
      R v = 0;
      mag = 0;
      for (int i = 0; i < d + 2; ++i)
      {
         v += (wl[i] - wr[i]) * x[i];
         mag += (fabsl(wl[i]) + fabsl(wr[i])) * fs;
      }
      return v - (L.s.psi(N) - T.s.psi(N));
   };
   R mag, pr = jump(f, mag);
   MC_CHECK(fabsl(pr) <= 1e-11L * (1 + mag), "entropy-conservation", at << ": entropy production " << (double)pr);
   pr = jump(fe, mag);
   MC_CHECK(fabsl(pr) <= 1e-10L * (1 + mag), "entropy-conservation-entvar", at << ": entropy production " << (double)pr);
   // coordinate versions add up to the face version
   double sum[d + 2] = {}, sumw[d + 2] = {}, g[d + 2];
   for (int k = 0; k < d; ++k)
   {
      calcIsmailRoeFlux<double, d>(k, L.q, T.q, g);
      Dir<d> ek;
      ek.fill(0);
      ek[k] = 1;
      same<d>(g, gas::ismail_roe<d>(L.s, T.s, ek), fscale<d>(L.s, ek) + fscale<d>(T.s, ek), "ismail-roe-coordinate", Str() << at << " coordinate " << k);
      for (int i = 0; i < d + 2; ++i) { sum[i] += n[k] * g[i]; }
      calcIsmailRoeFluxUsingEntVars<double, d>(k, L.w, T.w, g);
      same<d>(g, gas::ismail_roe<d>(L.sw, T.sw, ek), fscale<d>(L.s, ek) + fscale<d>(T.s, ek), "ismail-roe-coordinate-entvar", Str() << at << " coordinate " << k, 1e-10);
   }
   (void)sumw;
   R ss = 0;
   for (int k = 0; k < d; ++k)
   {
      Dir<d> ek;
      ek.fill(0);
      ek[k] = 1;
      ss += fabsl(N[k]) * (fscale<d>(L.s, ek) + fscale<d>(T.s, ek));
   }
   for (int i = 0; i < d + 2; ++i) { MC_CHECK(std::fabs(sum[i] - f[i]) <= 1e-11 * ss, "ismail-roe-linear", at << ": face flux is not the sum of the coordinate fluxes"); }
   // Lax-Friedrichs dissipation
   static const std::vector<double> cs = {0.0, 0.3, 1.0};
   double c = pick(cs, "dissipation");
   auto diss = [&](const Prim<d> &a, const Prim<d> &b, V<d> base)
   {
      V<d> qa = a.cons(), qb = b.cons(), av, dw;
      V<d> wa = a.entv(), wb = b.entv();
      for (int i = 0; i < d + 2; ++i)
      {
         av[i] = (qa[i] + qb[i]) / 2;
         dw[i] = wa[i] - wb[i];
      }
      Prim<d> ps = gas::from_cons<d>(av);
      R rad = fabsl(ps.un(N)) + ps.a() * gas::norm<d>(N);
      V<d> x = gas::dqdw<d>(ps, dw);
      R mx = 0;
      for (int i = 0; i < d + 2; ++i)
      {
         base[i] += c * rad * x[i];
         mx = std::max(mx, fabsl(c * rad * x[i]));
      }
      return std::make_pair(base, mx);
   };
   auto ref = diss(L.s, T.s, IR);
   calcIsmailRoeFaceFluxWithDiss<double, d>(n, c, L.q, T.q, f);
   same<d>(f, ref.first, fs + ref.second, "dissipative-flux", at, 1e-8);
   pr = jump(f, mag);
   MC_CHECK(pr >= -1e-10L * (1 + mag), "entropy-dissipation", at << " coefficient " << c << ": entropy production " << (double)pr);
   if (c == 0) { MC_CHECK(fabsl(pr) <= 1e-10L * (1 + mag), "entropy-dissipation-zero", at << ": a zero coefficient changes the entropy balance by " << (double)pr); }
   auto refw = diss(L.sw, T.sw, IRw);
   calcIsmailRoeFaceFluxWithDissUsingEntVars<double, d>(n, c, L.w, T.w, f);
   same<d>(f, refw.first, fs + refw.second, "dissipative-flux-entvar", at, 1e-8);
   same_state<d>(L, CL, at);
   same_state<d>(T, CT, at);
}
// characteristic boundary fluxes: interior state q, boundary state b
template <int d>
void boundary()
{
   State<d> Q = pick_state<d>("interior"), B = pick_other<d>("boundary"), CQ = Q, CB = B;
   double n[d], f[d + 2], work[d + 2];
   Dir<d> N = pick_dir<d>(n);
   std::string at = Str() << d << "D interior " << show<d>(Q.q) << " boundary " << show<d>(B.q) << " direction " << n[0];
   note(at);
   R fs = fscale<d>(Q.s, N) + fscale<d>(B.s, N), dA = gas::norm<d>(N);
   auto bf = [&](const Prim<d> &q)
   {
      V<d> F = q.flux(N), dq = q.cons(), b = B.s.cons();
      for (int i = 0; i < d + 2; ++i) { dq[i] -= b[i]; }
      R un = B.s.un(N), a = B.s.a() * dA;
      auto neg = [](R l) { return l < 0 ? -l : (R)0; };
      V<d> D = gas::wave_apply<d>(B.s.u, B.s.H(), N, neg(un + a), neg(un - a), neg(un), dq);
      for (int i = 0; i < d + 2; ++i) { F[i] += D[i]; }
      return F;
   };
   R qs = (qscale<d>(Q.s) + qscale<d>(B.s)) * (fabsl(B.s.un(N)) + B.s.a() * dA) * (1 + B.s.H() / (B.s.a() * B.s.a()) + B.s.vel2());
   calcBoundaryFlux<double, d>(n, B.q, Q.q, work, f);
   V<d> F = bf(Q.s);
   same<d>(f, F, fs + qs, "boundary-flux", at);
   // supersonic outflow ignores the boundary state
   if (B.s.un(N) > B.s.a() * dA * (1 + 1e-9L)) { same<d>(f, Q.s.flux(N), fs, "boundary-outflow", at); }
   calcFarFieldFlux<double, d>(n, B.q, Q.q, work, f);
   same<d>(f, F, fs + qs, "farfield-flux", at);
   calcFarFieldFlux<double, d, true>(n, B.q, Q.w, work, f);
   same<d>(f, bf(Q.sw), fs + qs, "farfield-flux-entvar", at, 1e-10);
   // entropy-constrained version
   static const std::vector<double> es = {-0.4, 0, 1.5};
   double ef = pick(es, "entropy flux");
   calcBoundaryFluxEC<double, d>(n, B.q, Q.q, ef, f);
   V<d> w = Q.s.entv();
   R wf = 0, m = 1, nw = 0;
   for (int i = 0; i < d + 2; ++i)
   {
      wf += w[i] * f[i];
      m += fabsl(w[i]) * (fs + qs);
      nw += w[i] * w[i];
   }
   R want = Q.s.psi(N) + ef;
   MC_CHECK(fabsl(wf - want) <= 1e-10L * m, "constrained-entropy-flux", at << ": w.f - psi = " << (double)(wf - Q.s.psi(N)) << " instead of " << ef);
   // the correction is along A0 w
   V<d> A0w = gas::dqdw<d>(Q.s, w);
   R k = 0, kk = 0;
   for (int i = 0; i < d + 2; ++i)
   {
      k += A0w[i] * (f[i] - F[i]);
      kk += A0w[i] * A0w[i];
   }
   k /= kk;
   V<d> X = F;
   for (int i = 0; i < d + 2; ++i) { X[i] += k * A0w[i]; }
   same<d>(f, X, fs + qs + fabsl(k) * sqrtl(kk), "constrained-direction", at, 1e-7);
   // upwinded "far-field 2"
   V<d> q = Q.s.cons(), b = B.s.cons();
   R U = B.s.un(N), fU = fabsl(U);
   V<d> G;
   for (int i = 0; i < d + 2; ++i) { G[i] = U > 0 ? U * q[i] : U * b[i]; }
   for (int i = 0; i < d; ++i) { G[i + 1] += N[i] * Q.s.p; }
   G[d + 1] += U > 0 ? U * Q.s.p : U * B.s.p;
   (void)fU;
   calcFarFieldFlux2<double, d>(n, B.q, Q.q, work, f);
   same<d>(f, G, fs + qs, "farfield2-flux", at);
   // affine entropy has its only minimum, zero, at the equilibrium
   double a0 = entropy<double, d>(Q.q, B.q), a1 = entropy<double, d>(B.q, B.q);
   V<d> we = B.s.entv();
   R ae = -Q.s.rho * Q.s.s() / gas::g1 + B.s.rho * B.s.s() / gas::g1;
   R am = fabsl(ae) + 1;
   for (int i = 0; i < d + 2; ++i)
   {
      ae -= we[i] * (q[i] - b[i]);
      am += fabsl(we[i]) * (fabsl(q[i]) + fabsl(b[i]));
   }
   MC_CHECK(fabsl(a0 - ae) <= 1e-11L * am, "affine-entropy", at << ": " << a0 << " instead of " << (double)ae);
   MC_CHECK(a0 >= -1e-11 * (double)am && std::fabs(a1) <= 1e-11 * (double)am, "affine-entropy-minimum", at << ": entropy " << a0 << " at the state, " << a1 << " at equilibrium");
   same_state<d>(Q, CQ, at);
   same_state<d>(B, CB, at);
}
// LPS scaling and AD Jacobians
template <int d>
void scaling()
{
   State<d> S = pick_other<d>("state");
   double adj[d * d], v[d + 2], r[d + 2];
   int k = choose(3, "mapping"), vk = choose(d + 3, "vector");
   for (int i = 0; i < d * d; ++i) { adj[i] = k == 0 ? (i % (d + 1) == 0) : k == 1 ? 0.3 + 0.5 * i - 0.2 * i * i : -0.01 * (i + 1) + 0.02 * (i % 2); }
   V<d> vv;
   for (int i = 0; i < d + 2; ++i) { vv[i] = v[i] = vk == d + 2 ? 0.7 - 0.4 * i : (i == vk); }
   std::string at = Str() << d << "D state " << show<d>(S.q) << " mapping " << k << " vector " << vk;
   note(at);
   auto ref = [&](const Prim<d> &s)
   {
      R rad = 0;
      for (int i = 0; i < d; ++i)
      {
         Dir<d> n;
         for (int j = 0; j < d; ++j) { n[j] = adj[i * d + j]; }
         rad += (fabsl(s.un(n)) + s.a() * gas::norm<d>(n)) / d;
      }
      V<d> x = gas::dqdw<d>(s, vv);
      for (auto &y : x) { y *= rad; }
      return x;
   };
   applyLPSScaling<double, d>(adj, S.q, v, r);
   same<d>(r, ref(S.s), 1e-4, "lps-scaling", at, 1e-8);
   applyLPSScalingUsingEntVars<double, d>(adj, S.w, v, r);
   same<d>(r, ref(S.sw), 1e-4, "lps-scaling-entvar", at, 1e-8);
}
template <int d>
void jacobians()
{
   State<d> S = pick_state<d>("state"), B = pick_other<d>("reference");
   double n[d];
   pick_dir<d>(n);
   std::string at = Str() << d << "D state " << show<d>(S.q) << " reference " << show<d>(B.q) << " direction " << n[0];
   note(at);
   static adept::Stack stack;
   mfem::Vector q(S.q, d + 2), dir(n, d), x(d), ref(B.q, d + 2), work(d + 2);
   mfem::DenseMatrix Dw(d + 2, d), J(d + 2), W(d + 2);
   Dw = 0.0;
   x = 0.1;
   work = 0.0;
   J = 5.0;
   W = 5.0;
   convertVarsJac<d>(q, stack, W);
   miso::calcFluxJacState<d>(x, dir, 1.0, q, Dw, ref, work, stack, J);
   R h = 1e-4L * std::min(S.s.p, S.s.rho) / (1 + sqrtl(S.s.vel2()));
   R big = 0;
   for (int j = 0; j < d + 2; ++j)
   {
      V<d> dw, a[4];
      static const R c[4] = {-2, -1, 1, 2};
      double fd[d + 2], wk[d + 2], fl[4][d + 2];
      for (int k = 0; k < 4; ++k)
      {
         V<d> y = S.s.cons();
         y[j] += c[k] * h;
         a[k] = gas::from_cons<d>(y).entv();
         double qd[d + 2];
         for (int i = 0; i < d + 2; ++i) { qd[i] = (double)y[i]; }
         calcBoundaryFlux<double, d>(n, B.q, qd, wk, fl[k]);
      }
      for (int i = 0; i < d + 2; ++i)
      {
         R e = (a[0][i] - 8 * a[1][i] + 8 * a[2][i] - a[3][i]) / (12 * h);
         big = std::max(big, fabsl(e));
         fd[i] = (fl[0][i] - 8 * fl[1][i] + 8 * fl[2][i] - fl[3][i]) / (12 * (double)h);
         MC_CHECK(fabsl(W(i, j) - e) <= 1e-7L * (1 + fabsl(e) + big), "entropy-jacobian", at << ": dw_" << i << "/dq_" << j << " = " << W(i, j) << " instead of " << (double)e);
         double fs = (double)(fscale<d>(S.s, Dir<d>{}) + 1);
         double mx = 0;
         for (int k = 0; k < 4; ++k) { mx = std::max(mx, std::fabs(fl[k][i])); }
         MC_CHECK(std::fabs(J(i, j) - fd[i]) <= 1e-6 * (fs + std::fabs(fd[i])) + 1e-13 * mx / (double)h + 1e-13 * 100 / (double)h, "flux-jacobian", at << ": df_" << i << "/dq_" << j << " = " << J(i, j) << " instead of " << fd[i]);
      }
   }
}
// ------------------------------------------------------------------- other
void freestream()
{
   static const std::vector<double> mach = {0, 0.1, 0.5, 1, 2.5}, aoa = {-0.5, 0, 0.03, M_PI / 2, 3};
   double M = pick(mach, "mach"), A = pick(aoa, "angle");
   int d = 1 + choose(3, "dimension");
   int ir = 0, ip = 0;
   if (d > 1)
   {
      ir = choose(d, "roll");
      ip = choose(d, "pitch");
      if (ir == ip) { prune(); }
   }
   note(Str() << d << "D Mach " << M << " angle " << A << " roll " << ir << " pitch " << ip);
   double q[5] = {9, 9, 9, 9, 9};
   if (d == 1) { getFreeStreamQ<double, 1>(M, A, ir, ip, q); }
   if (d == 2) { getFreeStreamQ<double, 2>(M, A, ir, ip, q); }
   if (d == 3) { getFreeStreamQ<double, 3>(M, A, ir, ip, q); }
   MC_CHECK(q[0] == 1, "freestream-density", "density " << q[0]);
   for (int i = 0; i < d; ++i)
   {
      double u = d == 1 ? M : i == ir ? M * std::cos(A) : i == ip ? M * std::sin(A) : 0;
      MC_CHECK(close(q[i + 1], u, 1e-14), "freestream-momentum", "momentum " << i << " is " << q[i + 1] << " instead of " << u);
   }
   // unit sound speed, so that the Mach number is the requested one
   double ke = 0;
   for (int i = 0; i < d; ++i) { ke += q[i + 1] * q[i + 1] / 2; }
   double a = std::sqrt(1.4 * 0.4 * (q[d + 1] - ke));
   MC_CHECK(close(a, 1, 1e-13), "freestream-sound-speed", "sound speed " << a);
   MC_CHECK(close(std::sqrt(2 * ke) / a, M, 1e-13), "freestream-mach", "Mach number " << std::sqrt(2 * ke) / a);
}
void logaverage()
{
   static const std::vector<double> base = {1e-3, 0.4, 1, 2.5, 1e4};
   std::vector<double> rat = {1, 1 + 1e-15, 1 + 1e-9, 1.0001, 0.999, 1.05, 1.064, 1.065, 1.0653, 1.0654, 1.0655, 1.066, 1.07, 1.1, 1.12, 1.15, 1.2, 1.222, 1.25, 1.3, 1.4, 0.93, 0.9385, 0.9387, 0.939, 1.5, 2, 0.1, 10, 1e3, 1e-4};
   double a = pick(base, "a");
   int ri = choose((int)rat.size(), "ratio");
   bool sw = choose(2, "swap");
   double b = a * rat[ri];
   if (sw) { std::swap(a, b); }
   note(Str() << "logavg(" << a << ", " << b << ")");
   double v = logavg<double>(a, b), v2 = logavg<double>(b, a);
   R w = gas::logmean(a, b);
   MC_CHECK(fabsl(v - w) <= 1e-13L * w, "logavg", v << " instead of " << (double)w);
   MC_CHECK(std::fabs(v - v2) <= 1e-14 * v, "logavg-symmetric", v << " and " << v2);
   MC_CHECK(v >= std::min(a, b) * (1 - 1e-14) && v <= std::max(a, b) * (1 + 1e-14), "logavg-mean", v << " is no mean");
   mc::fingerprint(v);
}
template <class F>
std::vector<double> deriv(F f, std::vector<double> x, int k, int n, double h)
{
   // eighth order central differences
   static const double c[4] = {4. / 5, -1. / 5, 4. / 105, -1. / 280};
   std::vector<double> r(n, 0.0), p(n), m(n);
   for (int i = 0; i < 4; ++i)
   {
      auto y = x;
      y[k] += (i + 1) * h;
      f(y.data(), p.data());
      y[k] = x[k] - (i + 1) * h;
      f(y.data(), m.data());
      for (int j = 0; j < n; ++j) { r[j] += c[i] * (p[j] - m[j]) / h; }
   }
   return r;
}
void vortex()
{
   int nr = thorough() ? 41 : 17, nt = thorough() ? 33 : 13;
   double r = 1 + 2.0 * choose(nr, "radius") / (nr - 1), th = 0.02 + (M_PI / 2 - 0.04) * choose(nt, "angle") / (nt - 1);
   std::vector<double> x = {r * std::cos(th), r * std::sin(th)};
   note(Str() << "vortex at radius " << r << " angle " << th);
   double q[4];
   calcIsentropicVortexState<double>(x.data(), q);
   Prim<2> s = gas::from_cons<2>(V<2>{q[0], q[1], q[2], q[3]});
   // isentropic, homenthalpic, circular flow
   R s0 = logl(1 / 1.4L) - 1.4L * logl(2.0L), a0 = sqrtl(1.4L / 1.4L / 2.0L), H0 = a0 * a0 / 0.4L * (1 + 0.2L * 0.25L);
   MC_CHECK(fabsl(s.s() - s0) <= 1e-12L, "vortex-entropy", "entropy " << (double)s.s() << " instead of " << (double)s0);
   MC_CHECK(fabsl(s.H() - H0) <= 1e-12L, "vortex-enthalpy", "total enthalpy " << (double)s.H() << " instead of " << (double)H0);
   MC_CHECK(fabsl(s.u[0] * x[0] + s.u[1] * x[1]) <= 1e-13L, "vortex-radial", "radial velocity " << (double)(s.u[0] * x[0] + s.u[1] * x[1]));
   R ut = (-s.u[0] * x[1] + s.u[1] * x[0]) / r;
   MC_CHECK(ut > 0, "vortex-direction", "tangential velocity " << (double)ut);
   MC_CHECK(fabsl(ut - 0.5L * a0 / r) <= 1e-12L, "vortex-speed", "tangential velocity " << (double)ut << " instead of " << (double)(0.5L * a0 / r));
   auto fx = [](const double *y, double *f)
   {
      double z[4], e[2] = {1, 0};
      calcIsentropicVortexState<double>(y, z);
      calcEulerFlux<double, 2>(e, z, f);
   };
   auto fy = [](const double *y, double *f)
   {
      double z[4], e[2] = {0, 1};
      calcIsentropicVortexState<double>(y, z);
      calcEulerFlux<double, 2>(e, z, f);
   };
   double h = 0.002;
   auto dx = deriv(fx, x, 0, 4, h), dy = deriv(fy, x, 1, 4, h);
   for (int i = 0; i < 4; ++i) { MC_CHECK(std::fabs(dx[i] + dy[i]) <= 1e-8, "vortex-steady", "residual " << dx[i] + dy[i] << " in equation " << i); }
   // boundary flux wrapper against the exact state
   double n[2];
   pick_dir<2>(n);
   State<2> S = pick_other<2>("interior");
   double f[4], g[4], wk[4];
   calcIsentropicVortexFlux<double>(x.data(), n, S.q, f);
   calcBoundaryFlux<double, 2>(n, q, S.q, wk, g);
   for (int i = 0; i < 4; ++i) { MC_CHECK(close(f[i], g[i], 1e-13), "vortex-flux", "flux " << f[i] << " instead of " << g[i]); }
   calcIsentropicVortexFlux<double, true>(x.data(), n, S.w, f);
   for (int i = 0; i < 4; ++i) { MC_CHECK(close(f[i], g[i], 1e-10), "vortex-flux-entvar", "flux " << f[i] << " instead of " << g[i]); }
}
void mms()
{
   int n = thorough() ? 25 : 13;
   std::vector<double> x = {0.02 + 0.96 * choose(n, "x") / (n - 1), 0.02 + 0.96 * choose(n, "y") / (n - 1), 0.3};
   note(Str() << "manufactured solution at " << x[0] << ", " << x[1]);
   double src[5] = {7, 7, 7, 7, 7};
   calcInviscidMMS<double>(3, x.data(), src);
   double sum[5] = {};
   for (int k = 0; k < 3; ++k)
   {
      auto f = [k](const double *y, double *fl)
      {
         double z[5], e[3] = {};
         e[k] = 1;
         InviscidMMSExact<double>(3, y, z);
         calcEulerFlux<double, 3>(e, z, fl);
      };
      auto g = deriv(f, x, k, 5, 0.004);
      for (int i = 0; i < 5; ++i) { sum[i] += g[i]; }
   }
   for (int i = 0; i < 5; ++i) { MC_CHECK(std::fabs(sum[i] - src[i]) <= 1e-9, Str() << "mms-source-" << i, "source " << src[i] << " but the divergence of the flux of the exact solution is " << sum[i]); }
   for (int dim : {1, 2})
   {
      double z[5] = {7, 7, 7, 7, 7}, y[5] = {7, 7, 7, 7, 7};
      calcInviscidMMS<double>(dim, x.data(), z);
      InviscidMMSExact<double>(dim, x.data(), y);
      for (int i = 0; i < 5; ++i)
      {
         double want = i < dim + 2 ? 0 : 7;
         MC_CHECK(z[i] == want && y[i] == want, "mms-other-dimensions", "entry " << i << " of dimension " << dim << " is " << z[i] << " and " << y[i]);
      }
   }
}
}  // namespace

int main(int argc, char **argv)
{
   return run(argc, argv, "C17", [] {}, {{"single1", single<1>}, {"single2", single<2>}, {"single3", single<3>}, {"directed1", directed<1>}, {"directed2", directed<2>}, {"directed3", directed<3>}, {"pairs1", pairs<1>}, {"pairs2", pairs<2>}, {"pairs3", pairs<3>}, {"boundary1", boundary<1>}, {"boundary2", boundary<2>}, {"boundary3", boundary<3>}, {"scaling1", scaling<1>}, {"scaling2", scaling<2>}, {"scaling3", scaling<3>}, {"jacobians1", jacobians<1>}, {"jacobians2", jacobians<2>}, {"jacobians3", jacobians<3>}, {"freestream", freestream}, {"logavg", logaverage}, {"vortex", vortex}, {"mms", mms}});
}
