// C18: Navier-Stokes fluxes, wall treatments and manufactured solutions
#include <array>
#include <cmath>
#include "mc.hpp"
#include "mfem.hpp"
#include "navier_stokes_fluxes.hpp"
#include "gas_ref.hpp"

using namespace mc;
using namespace miso;
using gas::Dir;
using gas::Prim;
using gas::R;
using gas::V;
namespace
{
constexpr R ST = 198.60L / 460.0L;
template <int d>
struct State
{
   Prim<d> s;
   double q[d + 2];
};
template <int d>
State<d> make(double rho, double p, const double *u)
{
   State<d> r;
   Prim<d> x;
   x.rho = rho;
   x.p = p;
   for (int i = 0; i < d; ++i) { x.u[i] = u[i]; }
   V<d> q = x.cons();
   for (int i = 0; i < d + 2; ++i) { q[i] = r.q[i] = (double)q[i]; }
   r.s = gas::from_cons<d>(q);
   return r;
}
template <int d>
State<d> pick_state(const char *what)
{
   static const std::vector<double> rho = {0.4, 1.0, 2.5}, p = {0.3, 1 / 1.4, 2.0}, v = {-1.3, 0, 0.2};
   double r = pick(rho, what), pr = pick(p, what), u[d];
   for (int i = 0; i < d; ++i) { u[i] = pick(v, what); }
   return make<d>(r, pr, u);
}
template <int d>
Dir<d> pick_dir(double *n)
{
   static const double T1[3] = {1, -1, 0.3}, T2[5][2] = {{1, 0}, {0, -1}, {0.6, 0.8}, {-2, 1}, {0.01, -0.02}}, T3[5][3] = {{1, 0, 0}, {0, 0, -1}, {0.3, -0.5, 1.1}, {0, 2, 0}, {-0.02, -0.01, 0.005}};
   int k = choose(d == 1 ? 3 : 5, "direction");
   Dir<d> r;
   for (int i = 0; i < d; ++i) { n[i] = r[i] = d == 1 ? T1[k] : d == 2 ? T2[k][i] : T3[k][i]; }
   return r;
}
// gradient of the entropy variables, column major; unit entries first, then mixed ones
template <int d>
int n_grads()
{
   return (d + 2) * d + 2;
}
template <int d>
void grad(int k, double *Dw)
{
   for (int i = 0; i < (d + 2) * d; ++i) { Dw[i] = k < (d + 2) * d ? (i == k) : k == (d + 2) * d ? 0.7 - 0.31 * i + 0.03 * i * i : ((i * 7) % 5 - 2) * 0.8; }
}
template <int d>
std::string show(const double *q)
{
   Str s;
   s << d << "D state (";
   for (int i = 0; i < d + 2; ++i) { s << (i ? " " : "") << q[i]; }
   s << ")";
   return s;
}
// viscous flux in coordinate i from grad(u) and grad(T), T = p/rho
template <int d>
V<d> vflux(const Prim<d> &s, const R gu[d][d], const R *gT, int i, R mu, R Pr)
{
   V<d> f;
   f.fill(0);
   R div = 0, kappa = mu * gas::g / (Pr * gas::g1);
   for (int k = 0; k < d; ++k) { div += gu[k][k]; }
   f[d + 1] = kappa * gT[i];
   for (int k = 0; k < d; ++k)
   {
      R tau = mu * (gu[k][i] + gu[i][k] - (k == i ? 2 * div / 3 : 0));  // gu[a][b] = d u_a / d x_b
      f[k + 1] = tau;
      f[d + 1] += s.u[k] * tau;
   }
   return f;
}
// the same from the gradient of the entropy variables
template <int d>
V<d> vflux_w(const Prim<d> &s, const R *Dw, int i, R mu, R Pr)
{
   R T = s.p / s.rho, gu[d][d], gT[d];
   for (int b = 0; b < d; ++b)
   {
      const R *w = Dw + b * (d + 2);
      for (int a = 0; a < d; ++a) { gu[a][b] = T * (w[a + 1] + s.u[a] * w[d + 1]); }
      gT[b] = T * T * w[d + 1];
   }
   return vflux<d>(s, gu, gT, i, mu, Pr);
}
template <int d>
void same(const double *got, const R *want, int n, R scale, const std::string &key, const std::string &at, double tol = 1e-11)
{
   R m = scale;
   for (int i = 0; i < n; ++i) { m = std::max(m, fabsl(want[i])); }
   for (int i = 0; i < n; ++i)
   {
      mc::fingerprint(std::round(got[i] * 1e6));
      MC_CHECK(fabsl(got[i] - want[i]) <= tol * m, key, at << ": entry " << i << " is " << got[i] << " instead of " << (double)want[i]);
   }
}
template <int d>
R sc(const Prim<d> &s, R mu, R Pr)
{
   R T = s.p / s.rho;
   return mu * (T + T * T / Pr * 4) * (1 + s.vel2());
}
std::vector<double> mus() { return {1.0, 0.02, 3.5}; }
std::vector<double> prs() { return {0.72, 1.0, 0.2}; }

template <int d>
void cij()
{
   State<d> S = pick_state<d>("state"), C = S;
   double mu = pick(mus(), "mu"), Pr = pick(prs(), "Pr");
   std::string at = Str() << show<d>(S.q) << " mu=" << mu << " Pr=" << Pr;
   note(at);
   const Prim<d> &s = S.s;
   R scale = sc<d>(s, mu, Pr);
   const int N = (d + 2) * d;
   // assembled block matrix
   std::vector<double> K(N * N);
   for (int i = 0; i < d; ++i)
   {
      for (int j = 0; j < d; ++j)
      {
         for (int k = 0; k < d + 2; ++k)
         {
            double v[d + 2] = {}, r[d + 2];
            R Dw[N] = {};
            v[k] = 1;
            Dw[j * (d + 2) + k] = 1;
            for (int a = 0; a < d + 2; ++a) { r[a] = 0; }
            applyCijMatrix<double, d>(i, j, mu, Pr, S.q, v, r);
            V<d> w = vflux_w<d>(s, Dw, i, mu, Pr);
            same<d>(r, w.data(), d + 2, scale * 1e-2, "cij", Str() << at << " C_" << i << j << " column " << k);
            for (int a = 0; a < d + 2; ++a) { K[(i * (d + 2) + a) * N + j * (d + 2) + k] = r[a]; }
            // the product is added to the result
            for (int a = 0; a < d + 2; ++a) { r[a] = 3.0 + a; }
            applyCijMatrix<double, d>(i, j, mu, Pr, S.q, v, r);
            for (int a = 0; a < d + 2; ++a) { w[a] += 3.0 + a; }
            same<d>(r, w.data(), d + 2, scale * 1e-2, "cij-adds", Str() << at << " C_" << i << j << " column " << k);
         }
      }
   }
   for (int a = 0; a < N; ++a)
   {
      for (int b = 0; b < a; ++b) { MC_CHECK(std::fabs(K[a * N + b] - K[b * N + a]) <= 1e-12 * scale, "cij-symmetric", at << ": viscous matrix is not symmetric at " << a << "," << b); }
   }
   int g = choose(n_grads<d>(), "gradient");
   double Dw[N], f[d + 2];
   R Dr[N];
   grad<d>(g, Dw);
   R prod = 0, mag = 0;
   for (int i = 0; i < N; ++i) { Dr[i] = Dw[i]; }
   for (int i = 0; i < d; ++i)
   {
      for (int a = 0; a < d + 2; ++a) { f[a] = 55.0; }
      applyViscousScaling<double, d>(i, mu, Pr, S.q, Dw, f);
      V<d> w = vflux_w<d>(s, Dr, i, mu, Pr);
      same<d>(f, w.data(), d + 2, scale * 1e-2, "viscous-scaling", Str() << at << " direction " << i << " gradient " << g);
      for (int a = 0; a < d + 2; ++a)
      {
         prod += Dw[i * (d + 2) + a] * f[a];
         mag += std::fabs(Dw[i * (d + 2) + a] * f[a]);
      }
   }
   MC_CHECK(prod >= -1e-12L * (mag + scale), "viscous-dissipation", at << " gradient " << g << ": entropy production has the wrong sign, " << (double)prod);
   for (int i = 0; i < d + 2; ++i) { MC_CHECK(S.q[i] == C.q[i], "mutates-input", at << ": state changed"); }
}
template <int d>
void walls()
{
   State<d> S = pick_state<d>("state");
   double mu = pick(mus(), "mu"), Pr = pick(prs(), "Pr"), n[d], f[d + 2];
   Dir<d> D = pick_dir<d>(n);
   R dA = gas::norm<d>(D);
   const Prim<d> &s = S.s;
   R scale = sc<d>(s, mu, Pr);
   const int N = (d + 2) * d;
   std::string at = Str() << show<d>(S.q) << " mu=" << mu << " Pr=" << Pr << " direction " << n[0];
   note(at);
   {  // Sutherland's law
      R T = s.a() * s.a(), want = T * sqrtl(T) * (1 + ST) / (T + ST);
      double v = calcSutherlandViscosity<double, d>(S.q);
      MC_CHECK(fabsl(v - want) <= 1e-11L * (1 + want) * (1 + s.vel2()), "sutherland", at << ": viscosity " << v << " instead of " << (double)want);
   }
   // penalties
   static const double F[3][5] = {{1, 1 / 1.4, 0.5, 0, 0.2}, {1.3, 2, -0.7, 0.3, 0}, {0.6, 0.4, 0, 0, 0}};
   static const std::vector<double> jacs = {1.0, 0.03, 12.0}, ucs = {0.0, 0.4, -1.1};
   int fk = choose(3, "fixed state");
   State<d> Q = make<d>(F[fk][0], F[fk][1], F[fk] + 2);
   double Jac = pick(jacs, "Jacobian"), uc = pick(ucs, "control");
   auto penalty = [&](R u)
   {
      R T = Q.s.p / Q.s.rho, c = s.rho / s.p;
      V<d> r;
      r.fill(0);
      for (int k = 0; k < d; ++k)
      {
         R dv = c * (s.u[k] - u * D[k] / dA);
         // sum_j C_jj restricted to momentum: mu T (d + 1/3)
         r[k + 1] = mu * T * (d + 1 / 3.0L) * dv * dA / Jac;
      }
      return r;
   };
   R ps = mu * Q.s.p / Q.s.rho * s.rho / s.p * (1 + sqrtl(s.vel2())) * dA / Jac;
   V<d> w = penalty(0);
   std::fill(f, f + d + 2, 44.0);
   calcNoSlipPenaltyFlux<double, d>(n, Jac, mu, Pr, Q.q, S.q, f);
   same<d>(f, w.data(), d + 2, ps, "no-slip-penalty", at);
   MC_CHECK(f[0] == 0 && f[d + 1] == 0, "no-slip-penalty-leaks", at << ": mass or energy flux from the no-slip penalty");
   std::fill(f, f + d + 2, 44.0);
   calcControlPenaltyFlux<double, d>(n, Jac, mu, Pr, uc, Q.q, S.q, f);
   w = penalty(uc);
   same<d>(f, w.data(), d + 2, ps * (1 + fabsl(uc)), "control-penalty", Str() << at << " control " << uc);
   MC_CHECK(f[0] == 0 && f[d + 1] == 0, "control-penalty-leaks", at << ": mass or energy flux from the control penalty");
}
template <int d>
void gradients()
{
   State<d> S = pick_state<d>("state");
   static const std::vector<double> m2 = {1.0, 0.02};
   double mu = pick(m2, "mu"), Pr = 0.72, n[d], f[d + 2];
   Dir<d> D = pick_dir<d>(n);
   R dA = gas::norm<d>(D);
   const Prim<d> &s = S.s;
   R scale = sc<d>(s, mu, Pr);
   const int N = (d + 2) * d;
   std::string at = Str() << show<d>(S.q) << " mu=" << mu << " direction " << n[0];
   int g = choose(n_grads<d>(), "gradient");
   double Dw[N], Dt[N];
   R Dr[N], P[N];
   grad<d>(g, Dw);
   at += Str() << " gradient " << g;
   note(at);
   for (int i = 0; i < N; ++i) { Dr[i] = Dw[i]; }
   for (int a = 0; a < d + 2; ++a)
   {
      R dn = 0;
      for (int k = 0; k < d; ++k) { dn += Dr[k * (d + 2) + a] * D[k] / dA; }
      for (int k = 0; k < d; ++k) { P[k * (d + 2) + a] = Dr[k * (d + 2) + a] - dn * D[k] / dA; }
   }
   setZeroNormalDeriv<double, d>(n, Dw, Dt);
   same<d>(Dt, P, N, 1, "zero-normal-derivative", at, 1e-13);
   // adiabatic wall: only the temperature gradient loses its normal part
   R B[N];
   for (int i = 0; i < N; ++i) { B[i] = (i % (d + 2)) == d + 1 ? P[i] : Dr[i]; }
   V<d> w;
   w.fill(0);
   R gTn = 0;
   for (int k = 0; k < d; ++k)
   {
      V<d> x = vflux_w<d>(s, B, k, mu, Pr);
      for (int a = 0; a < d + 2; ++a) { w[a] += D[k] * x[a]; }
   }
   std::fill(f, f + d + 2, 44.0);
   calcAdiabaticWallFlux<double, d>(n, mu, Pr, S.q, Dw, f);
   same<d>(f, w.data(), d + 2, scale * dA * 1e-1, "adiabatic-wall", at);
   // no heat crosses the wall: the energy flux is the work of the stresses
   R work = 0;
   for (int k = 0; k < d; ++k) { work += s.u[k] * f[k + 1]; }
   MC_CHECK(fabsl(f[d + 1] - work) <= 1e-11L * (scale * dA * 40), "adiabatic-heat", at << ": heat flux " << (double)(f[d + 1] - work) << " through an adiabatic wall");
   MC_CHECK(f[0] == 0, "viscous-mass-flux", at << ": mass flux " << f[0]);
   (void)gTn;
   // dual-consistent term: sum over the normal of -C_{d2,d} dir_d dw
   double X[N];
   R want[N] = {};
   for (int i = 0; i < N; ++i) { X[i] = 66.0; }
   calcNoSlipDualFlux<double, d>(n, mu, Pr, S.q, X);
   for (int d2 = 0; d2 < d; ++d2)
   {
      for (int k = 0; k < d; ++k)
      {
         R G[N] = {};
         for (int a = 0; a < d; ++a) { G[k * (d + 2) + a + 1] = s.rho * s.u[a] / s.p; }
         V<d> x = vflux_w<d>(s, G, d2, mu, Pr);
         for (int a = 0; a < d + 2; ++a) { want[d2 * (d + 2) + a] -= D[k] * x[a]; }
      }
   }
   R en = 0;
   for (int k = 0; k < d; ++k) { en += want[k * (d + 2) + d + 1] * D[k] / dA; }
   for (int k = 0; k < d; ++k) { want[k * (d + 2) + d + 1] -= en * D[k] / dA; }
   same<d>(X, want, N, scale * dA * 1e-1, "no-slip-dual", at);
}
template <class F>
std::vector<R> deriv(F f, std::vector<double> x, int k, int n, double h)
{
   static const R c[4] = {4. / 5.L, -1. / 5.L, 4. / 105.L, -1. / 280.L};
   std::vector<R> r(n, 0.0L), p(n), m(n);
   for (int i = 0; i < 4; ++i)
   {
      auto y = x;
      y[k] += (i + 1) * h;
      f(y.data(), p.data());
      y[k] = x[k] - (i + 1) * h;
      f(y.data(), m.data());
      for (int j = 0; j < n; ++j) { r[j] += c[i] * (p[j] - m[j]) / h; }
   }
   return r;
}
template <int d>
Prim<d> exact(const double *x)
{
   // exact-size buffers, so that a sanitizer sees any access outside of them
   std::vector<double> y(x, x + d), q(d + 2, 3.0);
   viscousMMSExact<double>(d, y.data(), q.data());
   V<d> v;
   for (int i = 0; i < d + 2; ++i) { v[i] = q[i]; }
   return gas::from_cons<d>(v);
}
template <int d>
void mms()
{
   int n = thorough() ? (d == 3 ? 11 : 31) : (d == 3 ? 5 : 11);
   std::vector<double> x(d);
   for (int i = 0; i < d; ++i) { x[i] = 0.06 + 0.88 * choose(n, "point") / (n - 1); }
   static const std::vector<double> m = {0.02, 1.0};
   static const std::vector<double> p = {0.72, 1.0};
   double mu = pick(m, "mu"), Pr = pick(p, "Pr");
   Str at;
   at << d << "D point";
   for (double y : x) { at << " " << y; }
   at << " mu=" << mu << " Pr=" << Pr;
   note(at);
   std::vector<double> src(d + 2, 9.0);
   calcViscousMMS<double>(d, mu, Pr, x.data(), src.data());
   R sum[d + 2] = {};
   auto total = [&](const double *y0, int k, R *out)
   {
      std::vector<double> y(y0, y0 + d);
      Prim<d> s = exact<d>(y.data());
      R gu[d][d], gT[d];
      for (int b = 0; b < d; ++b)
      {
         auto g = deriv(
             [](const double *z, R *r)
             {
                Prim<d> e = exact<d>(z);
                for (int a = 0; a < d; ++a) { r[a] = e.u[a]; }
                r[d] = e.p / e.rho;
             },
             y, b, d + 1, 0.01);
         for (int a = 0; a < d; ++a) { gu[a][b] = g[a]; }
         gT[b] = g[d];
      }
      Dir<d> e;
      e.fill(0);
      e[k] = 1;
      V<d> F = s.flux(e), G = vflux<d>(s, gu, gT, k, mu, Pr);
      for (int a = 0; a < d + 2; ++a) { out[a] = F[a] - G[a]; }
   };
   for (int k = 0; k < d; ++k)
   {
      auto g = deriv([&](const double *y, R *r) { total(y, k, r); }, x, k, d + 2, 0.01);
      for (int a = 0; a < d + 2; ++a) { sum[a] += g[a]; }
   }
   for (int a = 0; a < d + 2; ++a)
   {
      mc::fingerprint(src[a]);
      MC_CHECK(fabsl(src[a] - sum[a]) <= 2e-7L * (1 + mu), Str() << d << "D-viscous-mms-source-" << a, std::string(at) << ": source " << src[a] << " but the exact solution needs " << (double)sum[a]);
   }
}
}  // namespace
int main(int argc, char **argv)
{
   return run(argc, argv, "C18", [] {}, {{"cij1", cij<1>}, {"cij2", cij<2>}, {"cij3", cij<3>}, {"walls1", walls<1>}, {"walls2", walls<2>}, {"walls3", walls<3>}, {"gradients1", gradients<1>}, {"gradients2", gradients<2>}, {"gradients3", gradients<3>}, {"mms2", mms<2>}, {"mms3", mms<3>}});
}
