// Reference gas dynamics in long double, written from the primitive variables
#ifndef VERIF_GAS_REF_HPP
#define VERIF_GAS_REF_HPP
#include <array>
#include <cmath>
#include <vector>
namespace gas
{
typedef long double R;
constexpr R g = 1.4L, g1 = 0.4L;
template <int d>
using V = std::array<R, d + 2>;
template <int d>
using Dir = std::array<R, d>;

template <int d>
struct Prim
{
   R rho, p;
   R u[d];
   R vel2() const
   {
      R s = 0;
      for (int i = 0; i < d; ++i) { s += u[i] * u[i]; }
      return s;
   }
   R a() const { return sqrtl(g * p / rho); }
   R H() const { return g / g1 * p / rho + vel2() / 2; }
   R s() const { return logl(p) - g * logl(rho); }
   R un(const Dir<d> &n) const
   {
      R s = 0;
      for (int i = 0; i < d; ++i) { s += u[i] * n[i]; }
      return s;
   }
   V<d> cons() const
   {
      V<d> q;
      q[0] = rho;
      for (int i = 0; i < d; ++i) { q[i + 1] = rho * u[i]; }
      q[d + 1] = p / g1 + rho * vel2() / 2;
      return q;
   }
   V<d> entv() const
   {
      V<d> w;
      w[0] = (g - s()) / g1 - rho * vel2() / (2 * p);
      for (int i = 0; i < d; ++i) { w[i + 1] = rho * u[i] / p; }
      w[d + 1] = -rho / p;
      return w;
   }
   V<d> flux(const Dir<d> &n) const
   {
      V<d> q = cons(), f;
      R U = un(n);
      for (int i = 0; i < d + 2; ++i) { f[i] = q[i] * U; }
      for (int i = 0; i < d; ++i) { f[i + 1] += n[i] * p; }
      f[d + 1] += p * U;
      return f;
   }
   // potential flux of the entropy S = -rho s/(g-1):  w.F - S u.n = rho u.n
   R psi(const Dir<d> &n) const { return rho * un(n); }
};
template <int d>
Prim<d> from_cons(const V<d> &q)
{
   Prim<d> r;
   r.rho = q[0];
   for (int i = 0; i < d; ++i) { r.u[i] = q[i + 1] / q[0]; }
   r.p = g1 * (q[d + 1] - q[0] * r.vel2() / 2);
   return r;
}
template <int d>
Prim<d> from_ent(const V<d> &w)
{
   Prim<d> r;
   for (int i = 0; i < d; ++i) { r.u[i] = -w[i + 1] / w[d + 1]; }
   R s = g - g1 * (w[0] - r.vel2() * w[d + 1] / 2);
   // p = rho / -w, s = ln p - g ln rho
   R lr = (-logl(-w[d + 1]) - s) / g1;
   r.rho = expl(lr);
   r.p = -r.rho / w[d + 1];
   return r;
}
template <int d>
R norm(const Dir<d> &n)
{
   R s = 0;
   for (int i = 0; i < d; ++i) { s += n[i] * n[i]; }
   return sqrtl(s);
}
template <size_t n>
R dot(const std::array<R, n> &a, const std::array<R, n> &b)
{
   R s = 0;
   for (size_t i = 0; i < n; ++i) { s += a[i] * b[i]; }
   return s;
}
// X diag(phi(lambda)) X^-1 v for the flux Jacobian in direction n at velocity
// u, total enthalpy H; phi is given for the waves (Un+a, Un-a, Un)
template <int d>
V<d> wave_apply(const R *u, R H, const Dir<d> &n, R l1, R l2, R l3, const V<d> &v)
{
   // decompose v into acoustic (+/-), entropy and shear parts
   R vel2 = 0, dA = norm<d>(n), un = 0;
   for (int i = 0; i < d; ++i)
   {
      vel2 += u[i] * u[i];
      un += u[i] * n[i] / dA;
   }
   R a = sqrtl(g1 * (H - vel2 / 2));
   // linearised primitive variations
   R drho = v[0], dm_n = 0;
   R dp = g1 * (v[d + 1] + vel2 / 2 * v[0]);
   for (int i = 0; i < d; ++i)
   {
      dp -= g1 * u[i] * v[i + 1];
      dm_n += v[i + 1] * n[i] / dA;
   }
   R rdun = dm_n - un * drho;  // rho * d(un)
   R al1 = (dp / (a * a) + rdun / a) / 2, al2 = (dp / (a * a) - rdun / a) / 2;
   R al3 = drho - dp / (a * a);
   V<d> acp, acm, rest, r;
   acp[0] = al1;
   acm[0] = al2;
   for (int i = 0; i < d; ++i)
   {
      acp[i + 1] = al1 * (u[i] + a * n[i] / dA);
      acm[i + 1] = al2 * (u[i] - a * n[i] / dA);
   }
   acp[d + 1] = al1 * (H + a * un);
   acm[d + 1] = al2 * (H - a * un);
   // entropy wave plus shear waves, built directly
   rest[0] = al3;
   R e = al3 * vel2 / 2;
   for (int i = 0; i < d; ++i)
   {
      R tang = (v[i + 1] - u[i] * drho) - rdun * n[i] / dA;  // rho * d(u_t)
      rest[i + 1] = al3 * u[i] + tang;
      e += tang * u[i];
   }
   rest[d + 1] = e;
   for (int i = 0; i < d + 2; ++i) { r[i] = l1 * acp[i] + l2 * acm[i] + l3 * rest[i]; }
   return r;
}
inline R logmean(R a, R b)
{
   R x = (a - b) / (a + b);
   if (fabsl(x) < 1e-3L)
   {
      R u = x * x;
      return (a + b) / 2 / (1 + u * (1 / 3.0L + u * (1 / 5.0L + u * (1 / 7.0L + u * (1 / 9.0L + u / 11.0L)))));
   }
   return (a - b) / logl(a / b);
}
// the Ismail-Roe entropy conservative flux
template <int d>
V<d> ismail_roe(const Prim<d> &L, const Prim<d> &Rt, const Dir<d> &n)
{
   R z1L = sqrtl(L.rho / L.p), z1R = sqrtl(Rt.rho / Rt.p), z4L = sqrtl(L.rho * L.p), z4R = sqrtl(Rt.rho * Rt.p);
   R m1 = (z1L + z1R) / 2, m4 = (z4L + z4R) / 2, l1 = logmean(z1L, z1R), l4 = logmean(z4L, z4R);
   R rho = m1 * l4, U = 0, u[d], k = 0;
   for (int i = 0; i < d; ++i)
   {
      u[i] = (z1L * L.u[i] + z1R * Rt.u[i]) / 2 / m1;
      U += u[i] * n[i];
      k += u[i] * u[i] / 2;
   }
   R p1 = m4 / m1, p2 = (g + 1) / (2 * g) * l4 / l1 + g1 / (2 * g) * m4 / m1;
   R h = g * p2 / (rho * g1) + k;
   V<d> f;
   f[0] = rho * U;
   for (int i = 0; i < d; ++i) { f[i + 1] = rho * U * u[i] + p1 * n[i]; }
   f[d + 1] = rho * U * h;
   return f;
}
// dq/dw applied to v, by differentiating q(w)
template <int d>
V<d> dqdw(const Prim<d> &s, const V<d> &v)
{
   V<d> w = s.entv(), r;
   R h = 1e-5L, sc = 0;
   for (R x : v) { sc = std::max(sc, fabsl(x)); }
   if (sc == 0)
   {
      r.fill(0);
      return r;
   }
   R wl = fabsl(w[d + 1]);
   h *= std::min((R)1, wl) / sc;
   V<d> a[4];
   for (int k = 0; k < 4; ++k)
   {
      static const R c[4] = {-2, -1, 1, 2};
      V<d> x = w;
      for (int i = 0; i < d + 2; ++i) { x[i] += c[k] * h * v[i]; }
      a[k] = from_ent<d>(x).cons();
   }
   for (int i = 0; i < d + 2; ++i) { r[i] = (a[0][i] - 8 * a[1][i] + 8 * a[2][i] - a[3][i]) / (12 * h); }
   return r;
}
}  // namespace gas
#endif
