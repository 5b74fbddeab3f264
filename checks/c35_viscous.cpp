// C35: viscous element and boundary terms of the flow equations, surface force, manufactured sources
#include "sbp_disc.hpp"
#include "euler_fluxes.hpp"
#include "navier_stokes_fluxes.hpp"
#include "euler_integ.hpp"
#include "euler_integ_mms.hpp"
#include "navier_stokes_integ.hpp"
#include "miso_input.hpp"

using namespace miso;

namespace
{
const double Re = 40.0, Pr = 0.75;
std::vector<double> viscosities() { return {0.8, -1.0}; }
template <int d>
double viscosity(double mu, const double *q)
{
   return (mu < 0 ? calcSutherlandViscosity<double, d>(q) : mu) / Re;
}
/// the entry of the SBP operator for derivatives along x_k
template <int d>
double Qx(const Disc<d> &D, int e, const std::vector<DenseMatrix> &A, int k, int i, int j)
{
   double s = 0;
   for (int r = 0; r < d; ++r)
   {
      if (i == j) { s += A[i](r, k) * D.el(e).getQ(r, i, i); }
      else { s += 0.5 * (A[i](r, k) * D.el(e).getQ(r, i, j) - A[j](r, k) * D.el(e).getQ(r, j, i)); }
   }
   return s;
}
/// derivatives of the entropy variables at the nodes of an element
template <int d>
struct Grad
{
   std::vector<DenseMatrix> A, Dw;
   std::vector<double> H;
   std::vector<std::array<double, d + 2>> w;
   Grad(const Disc<d> &D, int e, const Vector &u)
   {
      constexpr int ns = d + 2;
      int n = D.nn(e);
      for (int i = 0; i < n; ++i) { A.push_back(D.adj(e, i)); }
      for (int i = 0; i < n; ++i)
      {
         H.push_back(D.el(e).getDiagNormEntry(i) * D.detJ(e, i));
         auto q = row<d>(u, n, i);
         gas::V<d> qq;
         for (int k = 0; k < ns; ++k) { qq[k] = q[k]; }
         auto v = gas::from_cons<d>(qq).entv();
         std::array<double, ns> wi;
         for (int k = 0; k < ns; ++k) { wi[k] = (double)v[k]; }
         w.push_back(wi);
      }
      for (int i = 0; i < n; ++i)
      {
         DenseMatrix G(ns, d);
         G = 0.0;
         for (int j = 0; j < n; ++j)
         {
            for (int k = 0; k < d; ++k)
            {
               double q = Qx<d>(D, e, A, k, i, j);
               for (int s = 0; s < ns; ++s) { G(s, k) += q * w[j][s] / H[i]; }
            }
         }
         Dw.push_back(G);
      }
   }
};
template <int d>
void volume_vec(const Disc<d> &D, int e, double mu, double alpha, const Vector &u, Vector &r)
{
   constexpr int ns = d + 2;
   int n = D.nn(e);
   Grad<d> G(D, e, u);
   r.SetSize(ns * n);
   r = 0.0;
   for (int i = 0; i < n; ++i)
   {
      auto q = row<d>(u, n, i);
      for (int k = 0; k < d; ++k)
      {
         double c[ns];
         applyViscousScaling<double, d>(k, viscosity<d>(mu, q.data()), Pr, q.data(), G.Dw[i].GetData(), c);
         for (int j = 0; j < n; ++j)
         {
            for (int s = 0; s < ns; ++s) { r(s * n + j) += alpha * Qx<d>(D, e, G.A, k, i, j) * c[s]; }
         }
      }
   }
}
template <int d>
double work(const Vector &u, const Vector &r, int n)
{
   double s = 0;
   for (int i = 0; i < n; ++i)
   {
      auto q = row<d>(u, n, i);
      double w[d + 2];
      calcEntropyVars<double, d, false>(q.data(), w);
      for (int k = 0; k < d + 2; ++k) { s += w[k] * r(k * n + i); }
   }
   return s;
}
template <class F>
void dims(F f)
{
   if (choose(2, "dimension") == 0) { f(std::integral_constant<int, 2>()); }
   else { f(std::integral_constant<int, 3>()); }
}
template <int d>
void volume_case(bool grad)
{
   constexpr int ns = d + 2;
   Size sz = pick(sizes<d>(grad), "size");
   bool dg = d == 2 ? choose(2, "discontinuous") : false;
   int e = choose(2, "element"), kind = choose(grad ? 2 : 3, "state");
   double mu = pick(viscosities(), "viscosity"), alpha = pick(alphas(), "alpha");
   adept::Stack st;
   Disc<d> D(sz.p, sz.order, dg);
   ESViscousIntegrator<d> I(st, Re, Pr, mu, alpha);
   Vector u = D.state(e, kind, 1, false), got, want;
   int n = D.nn(e);
   if (grad)
   {
      DenseMatrix J;
      I.AssembleElementGrad(D.el(e), D.tr(e), u, J);
      derivative("volume.gradient", J, u, [&](const Vector &v, Vector &r) { volume_vec<d>(D, e, mu, alpha, v, r); });
      outcome(hash_of(J.GetData(), J.Height() * J.Width() * sizeof(double)));
      return;
   }
   volume_vec<d>(D, e, mu, alpha, u, want);
   I.AssembleElementVector(D.el(e), D.tr(e), u, got);
   same("volume.vector", got, want);
   double sc = std::max(1e-3, want.Norml1());
   double en = I.GetElementEnergy(D.el(e), D.tr(e), u), ref = work<d>(u, want, n);
   MC_CHECK(fabs(en - ref) <= 1e-10 * sc, "volume.energy", "" << en << " for w.r = " << ref);
   // viscosity never produces entropy, and it moves nothing in or out
   MC_CHECK(en * alpha >= -1e-10 * sc, "volume.sign", "" << "entropy change " << en << " with a factor of " << alpha);
   // a straight element (with a diagonal boundary operator): the derivative of a constant is zero, so the sums are
   if (sz.order == 1 && !(d == 2 && sz.p == 0))
   {
      for (int s = 0; s < ns; ++s)
      {
         double sum = 0;
         for (int i = 0; i < n; ++i) { sum += got(s * n + i); }
         MC_CHECK(fabs(sum) <= 1e-10 * sc, "volume.conservation", "" << "equation " << s << " sums to " << sum);
      }
      if (kind == UNIFORM) { MC_CHECK(got.Normlinf() <= 1e-10, "volume.uniform", "" << "uniform flow gives " << got.Normlinf()); }
   }
   outcome(hash_of(want.GetData(), want.Size() * sizeof(double)));
}
void s_volume()
{
   dims([](auto dc) { volume_case<decltype(dc)::value>(false); });
}
void s_volume_grad()
{
   dims([](auto dc) { volume_case<decltype(dc)::value>(true); });
}
/////////////////////////////////////////////////////////////////////////////
// boundary terms
enum { NOSLIP, SLIP, INFLOW, OUTFLOW, FAR, EXACT, CONTROL, NBC };
const char *bname[] = {"no-slip", "slip", "inflow", "outflow", "far", "exact", "control"};
double bump(double len, const Vector &xc, const Vector &x)
{
   double r = 0;
   for (int k = 0; k < x.Size(); ++k) { r += (x(k) - xc(k)) * (x(k) - xc(k)); }
   return exp(-r / (len * len));
}
template <int d>
void exact(const Vector &x, Vector &q)
{
   auto c = Mix<d>::smooth(x, 4).cons();
   q.SetSize(d + 2);
   for (int k = 0; k < d + 2; ++k) { q(k) = (double)c[k]; }
}
template <int d>
struct BcData
{
   // the actuator covers part of the boundary: some nodes get the penalty, some do not
   double control = 0.3, len = 0.15;
   Vector xc, qref, dir;
   BcData()
   {
      xc.SetSize(d);
      dir.SetSize(d);
      qref.SetSize(d + 2);
      for (int k = 0; k < d; ++k)
      {
         xc(k) = 0.1 + 0.1 * k;
         dir(k) = 0.8 - 0.5 * k;
      }
      gas::Prim<d> s = Mix<d>::uniform();
      s.rho = 1.05;
      s.p = 0.75;
      auto q = s.cons();
      for (int k = 0; k < d + 2; ++k) { qref(k) = (double)q[k]; }
   }
};
template <int d>
void subtract_viscous(const Vector &n, double mu, const double *q, const double *Dw, double *f)
{
   for (int k = 0; k < d; ++k)
   {
      double c[d + 2];
      applyViscousScaling<double, d>(k, mu, Pr, q, Dw, c);
      for (int s = 0; s < d + 2; ++s) { f[s] -= n(k) * c[s]; }
   }
}
template <int d>
void wall_flux(const BcData<d> &B, const Vector &n, double jac, double mu, const double *q, const DenseMatrix &Dw, double *f)
{
   double a[d + 2], b[d + 2];
   calcAdiabaticWallFlux<double, d>(n.GetData(), mu, Pr, q, Dw.GetData(), a);
   calcNoSlipPenaltyFlux<double, d>(n.GetData(), jac, mu, Pr, B.qref.GetData(), q, b);
   for (int s = 0; s < d + 2; ++s) { f[s] += b[s] - a[s]; }
}
template <int d>
void bc_flux(int which, const BcData<d> &B, double visc, const Vector &x, const Vector &n, double jac, const double *q, const DenseMatrix &Dw, double *f)
{
   double mu = viscosity<d>(visc, q), work[d + 2], flat[(d + 2) * d];
   if (which == NOSLIP || which == SLIP) { calcSlipWallFlux<double, d>(x.GetData(), n.GetData(), q, f); }
   if (which == NOSLIP) { wall_flux<d>(B, n, jac, mu, q, Dw, f); }
   if (which == INFLOW || which == OUTFLOW || which == FAR) { calcBoundaryFlux<double, d>(n.GetData(), B.qref.GetData(), q, work, f); }
   if (which == EXACT)
   {
      Vector qe;
      exact<d>(x, qe);
      calcBoundaryFlux<double, d>(n.GetData(), qe.GetData(), q, work, f);
   }
   if (which == SLIP || which == EXACT)
   {
      setZeroNormalDeriv<double, d>(n.GetData(), Dw.GetData(), flat);
      subtract_viscous<d>(n, mu, q, flat, f);
   }
   if (which == CONTROL)
   {
      double sc = bump(B.len, B.xc, x);
      calcControlFlux<double, d>(n.GetData(), q, B.control * sc, f);
      // away from the actuator it is a no-slip wall
      if (sc < 1e-4) { wall_flux<d>(B, n, jac, mu, q, Dw, f); }
   }
}
template <int d>
void bc_vec(int which, const Disc<d> &D, mfem::FaceElementTransformations &t, const BcData<d> &B, double visc, double alpha, const Vector &u, Vector &r)
{
   int e = t.Elem1No, n = D.nn(e);
   auto F = face_nodes<d>(D, t);
   Grad<d> G(D, e, u);
   r.SetSize((d + 2) * n);
   r = 0.0;
   for (auto &f : F)
   {
      auto q = row<d>(u, n, f.left);
      double fl[d + 2];
      bc_flux<d>(which, B, visc, f.x, f.n, D.detJ(e, f.left), q.data(), G.Dw[f.left], fl);
      for (int k = 0; k < d + 2; ++k) { r(k * n + f.left) += alpha * f.w * fl[k]; }
   }
}
template <int d>
double force_ref(const Disc<d> &D, mfem::FaceElementTransformations &t, const BcData<d> &B, double visc, double alpha, const Vector &u)
{
   int e = t.Elem1No, n = D.nn(e);
   auto F = face_nodes<d>(D, t);
   Grad<d> G(D, e, u);
   double sum = 0;
   for (auto &f : F)
   {
      auto q = row<d>(u, n, f.left);
      double fl[d + 2];
      bc_flux<d>(NOSLIP, B, visc, f.x, f.n, D.detJ(e, f.left), q.data(), G.Dw[f.left], fl);
      for (int k = 0; k < d; ++k) { sum += alpha * f.w * B.dir(k) * fl[k + 1]; }
   }
   return sum;
}
template <int d>
std::unique_ptr<mfem::NonlinearFormIntegrator> bc_integ(int which, adept::Stack &st, const mfem::FiniteElementCollection *fec, const BcData<d> &B, double visc, double alpha)
{
   switch (which)
   {
   case NOSLIP: return std::make_unique<NoSlipAdiabaticWallBC<d>>(st, fec, Re, Pr, B.qref, visc, alpha);
   case SLIP: return std::make_unique<ViscousSlipWallBC<d>>(st, fec, Re, Pr, visc, alpha);
   case INFLOW: return std::make_unique<ViscousInflowBC<d>>(st, fec, Re, Pr, B.qref, visc, alpha);
   case OUTFLOW: return std::make_unique<ViscousOutflowBC<d>>(st, fec, Re, Pr, B.qref, visc, alpha);
   case FAR: return std::make_unique<ViscousFarFieldBC<d>>(st, fec, Re, Pr, B.qref, visc, alpha);
   case EXACT: return std::make_unique<ViscousExactBC<d>>(st, fec, Re, Pr, exact<d>, visc, alpha);
   default:
   {
      auto p = std::make_unique<ViscousControlBC<d>>(st, fec, Re, Pr, B.qref, bump, B.xc, B.len, visc, alpha);
      MISOInputs in{{"control", B.control}};
      setInputs(*p, in);
      return p;
   }
   }
}
template <int d>
void boundary_case(bool grad)
{
   int which = choose(NBC, "boundary term");
   Size sz = pick(sizes<d>(true), "size");
   bool dg = d == 2 ? choose(2, "discontinuous") : false;
   adept::Stack st;
   Disc<d> D(sz.p, sz.order, dg);
   int nb = D.mesh->GetNBE();
   int b = choose(grad && d == 3 && !thorough() ? 2 : nb, "face"), kind = choose(2, "state");
   double mu = pick(viscosities(), "viscosity"), alpha = pick(alphas(), "alpha");
   BcData<d> B;
   auto face = [&]() -> mfem::FaceElementTransformations & { return *D.mesh->GetBdrFaceTransformations(b); };
   int e = face().Elem1No, n = D.nn(e);
   auto I = bc_integ<d>(which, st, D.fec.get(), B, mu, alpha);
   Vector u = D.state(e, kind, 2, false), got, want;
   S key = S("boundary.") + bname[which];
   if (grad)
   {
      DenseMatrix J;
      I->AssembleFaceGrad(D.el(e), D.el(e), face(), u, J);
      derivative(key + ".gradient", J, u, [&](const Vector &v, Vector &r) { bc_vec<d>(which, D, face(), B, mu, alpha, v, r); });
      outcome(hash_of(J.GetData(), J.Height() * J.Width() * sizeof(double)));
      return;
   }
   bc_vec<d>(which, D, face(), B, mu, alpha, u, want);
   I->AssembleFaceVector(D.el(e), D.el(e), face(), u, got);
   same(key + ".vector", got, want);
   double en = I->GetFaceEnergy(D.el(e), D.el(e), face(), u), ref = work<d>(u, want, n);
   MC_CHECK(fabs(en - ref) <= 1e-10 * std::max(1e-3, want.Norml1()), key + ".energy", "" << en << " for w.r = " << ref);
   outcome(hash_of(want.GetData(), want.Size() * sizeof(double)));
}
void s_boundary()
{
   dims([](auto dc) { boundary_case<decltype(dc)::value>(false); });
}
void s_boundary_grad()
{
   dims([](auto dc) { boundary_case<decltype(dc)::value>(true); });
}
template <int d>
void force_case()
{
   Size sz = pick(sizes<d>(true), "size");
   bool dg = d == 2 ? choose(2, "discontinuous") : false;
   adept::Stack st;
   Disc<d> D(sz.p, sz.order, dg);
   int b = choose(D.mesh->GetNBE(), "face"), kind = choose(2, "state");
   double mu = pick(viscosities(), "viscosity"), alpha = pick(alphas(), "alpha");
   BcData<d> B;
   auto face = [&]() -> mfem::FaceElementTransformations & { return *D.mesh->GetBdrFaceTransformations(b); };
   int e = face().Elem1No;
   SurfaceForce<d> I(st, D.fec.get(), d + 2, Re, Pr, B.qref, B.dir, mu, alpha);
   Vector u = D.state(e, kind, 2, false), got;
   double en = I.GetFaceEnergy(D.el(e), D.el(e), face(), u), ref = force_ref<d>(D, face(), B, mu, alpha, u);
   MC_CHECK(close(en, ref, 1e-10), "force.value", "" << en << " for " << ref);
   I.AssembleFaceVector(D.el(e), D.el(e), face(), u, got);
   DenseMatrix J(1, got.Size());
   for (int i = 0; i < got.Size(); ++i) { J(0, i) = got(i); }
   derivative("force.gradient", J, u, [&](const Vector &v, Vector &r)
   {
      r.SetSize(1);
      r(0) = force_ref<d>(D, face(), B, mu, alpha, v);
   });
   outcome(hash_of(got.GetData(), got.Size() * sizeof(double)));
}
void s_force()
{
   dims([](auto dc) { force_case<decltype(dc)::value>(); });
}
/////////////////////////////////////////////////////////////////////////////
// inputs of the actuator: what was set last counts, the rest is kept
void s_inputs()
{
   constexpr int d = 2;
   adept::Stack st;
   Disc<d> D(2, 2, true);
   BcData<d> B;
   double mu = 0.8;
   ViscousControlBC<d> I(st, D.fec.get(), Re, Pr, B.qref, bump, B.xc, B.len, mu);
   B.control = 0.0;
   int len = thorough() ? 5 : 4;
   Vector pos[2] = {Vector(d), Vector(d)};
   pos[0](0) = 0.9;
   pos[0](1) = 0.3;
   pos[1](0) = 0.0;
   pos[1](1) = 0.6;
   auto compare = [&]()
   {
      for (int b = 0; b < D.mesh->GetNBE(); ++b)
      {
         auto face = [&]() -> mfem::FaceElementTransformations & { return *D.mesh->GetBdrFaceTransformations(b); };
         int e = face().Elem1No;
         Vector u = D.state(e, ROUGH, 2, false), got, want;
         bc_vec<d>(CONTROL, D, face(), B, mu, 1.0, u, want);
         I.AssembleFaceVector(D.el(e), D.el(e), face(), u, got);
         same("inputs", got, want);
      }
   };
   compare();
   for (int k = 0; k < len; ++k)
   {
      int op = choose(7, "inputs");
      MISOInputs in;
      if (op == 0) { in = {{"control", 0.4}}; }
      if (op == 1) { in = {{"control", -0.2}}; }
      if (op == 2) { in = {{"x-actuator", pos[0]}}; }
      if (op == 3) { in = {{"x-actuator", pos[1]}}; }
      if (op == 4) { in = {{"control", 0.1}, {"x-actuator", pos[1]}}; }
      if (op == 5) { in = {{"controls", 9.0}, {"time", 3.0}}; }
      if (op == 0) { B.control = 0.4; }
      if (op == 1) { B.control = -0.2; }
      if (op == 2) { B.xc = pos[0]; }
      if (op == 3 || op == 4) { B.xc = pos[1]; }
      if (op == 4) { B.control = 0.1; }
      setInputs(I, in);
      compare();
   }
}
/////////////////////////////////////////////////////////////////////////////
// manufactured sources
template <int d>
void mms_case()
{
   constexpr int ns = d + 2;
   bool viscous = choose(2, "viscous");
   Size sz = pick(sizes<d>(false), "size");
   bool dg = d == 2 ? choose(2, "discontinuous") : false;
   int e = choose(2, "element");
   int ai = choose(4, "alpha");
   double alpha = ai == 3 ? -1.0 : alphas()[ai];
   adept::Stack st;
   Disc<d> D(sz.p, sz.order, dg);
   std::unique_ptr<mfem::NonlinearFormIntegrator> I;
   if (viscous)
   {
      if (ai == 3)
      {
         if (d == 3) { prune(); }
         I = std::make_unique<NavierStokesMMSIntegrator>(Re, Pr);
      }
      else { I = std::make_unique<NavierStokesMMSIntegrator>(Re, Pr, alpha, d); }
   }
   else
   {
      if (ai == 3)
      {
         if (d == 3) { prune(); }
         I = std::make_unique<InviscidMMSIntegrator>();
      }
      else { I = std::make_unique<InviscidMMSIntegrator>(alpha, d); }
   }
   int n = D.nn(e);
   Vector u = D.state(e, ROUGH, 1, false), got, want(ns * n);
   want = 0.0;
   for (int i = 0; i < n; ++i)
   {
      Vector x = D.node_x(e, i);
      double s[ns];
      if (viscous) { calcViscousMMS<double>(d, 1.0 / Re, Pr, x.GetData(), s); }
      else { calcInviscidMMS<double>(d, x.GetData(), s); }
      for (int k = 0; k < ns; ++k) { want(k * n + i) = alpha * D.el(e).getDiagNormEntry(i) * D.detJ(e, i) * s[k]; }
   }
   I->AssembleElementVector(D.el(e), D.tr(e), u, got);
   same("mms.vector", got, want);
   DenseMatrix J(2);
   J = 3.0;
   I->AssembleElementGrad(D.el(e), D.tr(e), u, J);
   MC_CHECK(J.Height() == ns * n && J.Width() == ns * n && J.MaxMaxNorm() == 0.0, "mms.gradient", "" << J.Height() << " x " << J.Width() << ", largest " << J.MaxMaxNorm());
   MC_CHECK(I->GetElementEnergy(D.el(e), D.tr(e), u) == 0.0, "mms.energy", "not zero");
   outcome(hash_of(want.GetData(), want.Size() * sizeof(double)));
}
void s_mms()
{
   dims([](auto dc) { mms_case<decltype(dc)::value>(); });
}
/////////////////////////////////////////////////////////////////////////////
// a whole element between walls: mass and entropy
template <int d>
void global_case()
{
   constexpr int ns = d + 2;
   Size sz = pick(sizes<d>(true), "size");
   int kind = choose(2, "state"), seed = choose(thorough() ? 6 : 3, "seed"), wall = choose(2, "wall");
   double mu = pick(viscosities(), "viscosity");
   adept::Stack st;
   Disc<d> D(sz.p, sz.order, d == 2);
   BcData<d> B;
   IsmailRoeIntegrator<d> euler(st);
   ESViscousIntegrator<d> visc(st, Re, Pr, mu);
   InterfaceIntegrator<d> face(st, 0.0, D.fec.get());
   auto bnd = bc_integ<d>(wall == 0 ? NOSLIP : SLIP, st, D.fec.get(), B, mu, 1.0);
   Vector u[2], r[2], x;
   double energy = 0, l1 = 0;
   for (int e = 0; e < 2; ++e)
   {
      u[e] = D.state(e, kind, 1 + e + 3 * seed, false);
      euler.AssembleElementVector(D.el(e), D.tr(e), u[e], r[e]);
      l1 += r[e].Norml1();
      visc.AssembleElementVector(D.el(e), D.tr(e), u[e], x);
      r[e] += x;
      energy += euler.GetElementEnergy(D.el(e), D.tr(e), u[e]) + visc.GetElementEnergy(D.el(e), D.tr(e), u[e]);
   }
   for (int f = 0; f < D.mesh->GetNumFaces(); ++f)
   {
      auto *t = D.mesh->GetInteriorFaceTransformations(f);
      if (!t) { continue; }
      int e1 = t->Elem1No, e2 = t->Elem2No;
      Vector uu(u[e1].Size() + u[e2].Size());
      for (int i = 0; i < u[e1].Size(); ++i) { uu(i) = u[e1](i); }
      for (int i = 0; i < u[e2].Size(); ++i) { uu(u[e1].Size() + i) = u[e2](i); }
      face.AssembleFaceVector(D.el(e1), D.el(e2), *t, uu, x);
      for (int i = 0; i < u[e1].Size(); ++i) { r[e1](i) += x(i); }
      for (int i = 0; i < u[e2].Size(); ++i) { r[e2](i) += x(u[e1].Size() + i); }
      energy += face.GetFaceEnergy(D.el(e1), D.el(e2), *D.mesh->GetInteriorFaceTransformations(f), uu);
   }
   for (int b = 0; b < D.mesh->GetNBE(); ++b)
   {
      auto *t = D.mesh->GetBdrFaceTransformations(b);
      int e = t->Elem1No;
      bnd->AssembleFaceVector(D.el(e), D.el(e), *t, u[e], x);
      r[e] += x;
      energy += bnd->GetFaceEnergy(D.el(e), D.el(e), *D.mesh->GetBdrFaceTransformations(b), u[e]);
   }
   double w = 0;
   for (int e = 0; e < 2; ++e) { w += work<d>(u[e], r[e], D.nn(e)); }
   MC_CHECK(fabs(energy - w) <= 1e-9 * std::max(1.0, l1), "global.energy", "" << "entropy change " << energy << " but w.r = " << w);
   if (sz.order == 1 && !(d == 2 && sz.p == 0))
   {
      double mass = 0;
      for (int e = 0; e < 2; ++e)
      {
         for (int i = 0; i < D.nn(e); ++i) { mass += r[e](i); }
      }
      MC_CHECK(fabs(mass) <= 1e-10 * std::max(1.0, l1), "global.mass", "" << "the walls let through " << mass);
   }
   // a closed adiabatic domain never loses entropy (it is the mathematical entropy that decays)
   if (wall == 0) { MC_CHECK(energy >= -1e-9 * std::max(1.0, l1), "global.entropy", "" << "entropy change " << energy); }
   (void)ns;
   outcome(hash_of(r[0].GetData(), r[0].Size() * sizeof(double)));
}
void s_global()
{
   dims([](auto dc) { global_case<decltype(dc)::value>(); });
}
/////////////////////////////////////////////////////////////////////////////
// an integrator carries nothing from one call to the next
void s_reuse()
{
   constexpr int d = 2;
   int term = choose(2 + NBC, "term");
   adept::Stack st;
   Disc<d> A(1, 2, true), C(3, 1, true);
   BcData<d> B;
   Disc<d> *D[2] = {&A, term == 0 ? &C : &A};
   auto mk = [&](adept::Stack &s) -> std::unique_ptr<mfem::NonlinearFormIntegrator>
   {
      if (term == 0) { return std::make_unique<ESViscousIntegrator<d>>(s, Re, Pr, -1.0, 0.7); }
      if (term == 1) { return std::make_unique<SurfaceForce<d>>(s, A.fec.get(), d + 2, Re, Pr, B.qref, B.dir, -1.0, 0.7); }
      return bc_integ<d>(term - 2, s, A.fec.get(), B, -1.0, 0.7);
   };
   auto call = [&](mfem::NonlinearFormIntegrator &I, int op) -> std::vector<double>
   {
      Disc<d> &Q = *D[op & 1];
      int what = op >> 1, e = op & 1;
      Vector v;
      DenseMatrix M;
      auto out = [](const double *p, int n) { return std::vector<double>(p, p + n); };
      if (term == 0)
      {
         Vector u = Q.state(e, ROUGH, 3, false);
         if (what == 0)
         {
            I.AssembleElementVector(Q.el(e), Q.tr(e), u, v);
            return out(v.GetData(), v.Size());
         }
         if (what == 1)
         {
            I.AssembleElementGrad(Q.el(e), Q.tr(e), u, M);
            return out(M.GetData(), M.Height() * M.Width());
         }
         return {I.GetElementEnergy(Q.el(e), Q.tr(e), u)};
      }
      int el = Q.mesh->GetBdrFaceTransformations(op & 1 ? 2 : 0)->Elem1No;
      Vector u = Q.state(el, ROUGH, 3 + e, false);
      auto &t = *Q.mesh->GetBdrFaceTransformations(op & 1 ? 2 : 0);
      if (what == 0)
      {
         I.AssembleFaceVector(Q.el(el), Q.el(el), t, u, v);
         return out(v.GetData(), v.Size());
      }
      if (what == 1)
      {
         if (term == 1) { return {}; }
         I.AssembleFaceGrad(Q.el(el), Q.el(el), t, u, M);
         return out(M.GetData(), M.Height() * M.Width());
      }
      return {I.GetFaceEnergy(Q.el(el), Q.el(el), t, u)};
   };
   auto one = mk(st);
   int len = thorough() ? 4 : 3;
   for (int k = 0; k < len; ++k)
   {
      int op = choose(6, "call");
      auto got = call(*one, op);
      auto fresh = mk(st);
      auto want = call(*fresh, op);
      bool eq = got.size() == want.size();
      for (size_t i = 0; eq && i < got.size(); ++i) { eq = fabs(got[i] - want[i]) <= 1e-13 * std::max(1.0, fabs(want[i])); }
      MC_CHECK(eq, "reuse", "" << "term " << term << ": call " << k << " (operation " << op << ") differs from that of a new integrator");
      step();
   }
}
}  // namespace
int main(int argc, char **argv)
{
   return run(argc, argv, "C35",
              [] { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
              {{"volume", s_volume},
               {"volume_gradient", s_volume_grad},
               {"boundary", s_boundary},
               {"boundary_gradient", s_boundary_grad},
               {"force", s_force},
               {"inputs", s_inputs},
               {"mms", s_mms},
               {"global", s_global},
               {"reuse", s_reuse}});
}
