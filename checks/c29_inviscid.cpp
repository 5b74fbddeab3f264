// C29: inviscid element, boundary and interface terms of the flow equations
#include "sbp_disc.hpp"
#include "euler_fluxes.hpp"
#include "euler_integ.hpp"
#include "euler_sens_integ.hpp"
#include "miso_input.hpp"

using namespace miso;

namespace
{

/////////////////////////////////////////////////////////////////////////////
// volume terms
template <int d, bool ent>
void volume_vec(int which, Disc<d> &D, int e, double alpha, double lps, const Vector &u, Vector &r)
{
   constexpr int ns = d + 2;
   const auto &el = D.el(e);
   int n = el.GetDof();
   r.SetSize(ns * n);
   r = 0.0;
   auto add = [&](int i, int k, double v) { r(k * n + i) += v; };
   std::vector<DenseMatrix> A;
   for (int i = 0; i < n; ++i) { A.push_back(D.adj(e, i)); }
   if (which == 0)  // -Q^T F, with F the flux in the direction of each reference coordinate
   {
      for (int i = 0; i < n; ++i)
      {
         auto q = row<d>(u, n, i);
         gas::V<d> qq;
         for (int k = 0; k < ns; ++k) { qq[k] = q[k]; }
         auto s = gas::from_cons<d>(qq);
         for (int di = 0; di < d; ++di)
         {
            gas::Dir<d> dir;
            for (int k = 0; k < d; ++k) { dir[k] = A[i](di, k); }
            auto f = s.flux(dir);
            for (int j = 0; j < n; ++j)
            {
               for (int k = 0; k < ns; ++k) { add(j, k, -alpha * el.getQ(di, i, j) * (double)f[k]); }
            }
         }
      }
   }
   else if (which == 1)  // the skew-symmetric part of Q with the two-point flux
   {
      for (int i = 0; i < n; ++i)
      {
         auto qi = row<d>(u, n, i);
         for (int j = 0; j < n; ++j)
         {
            if (j == i) { continue; }
            auto qj = row<d>(u, n, j);
            for (int di = 0; di < d; ++di)
            {
               double f[ns], Sij = 0;
               if (ent) { calcIsmailRoeFluxUsingEntVars<double, d>(di, qi.data(), qj.data(), f); }
               else { calcIsmailRoeFlux<double, d>(di, qi.data(), qj.data(), f); }
               for (int k = 0; k < d; ++k) { Sij += A[i](k, di) * el.getQ(k, i, j) - A[j](k, di) * el.getQ(k, j, i); }
               for (int k = 0; k < ns; ++k) { add(i, k, alpha * Sij * f[k]); }
            }
         }
      }
   }
   else if (which == 2)  // P^T H A P w
   {
      DenseMatrix P(n);
      el.getProjOperator(P);
      std::vector<std::array<double, ns>> w(n), Aw(n);
      for (int i = 0; i < n; ++i)
      {
         auto q = row<d>(u, n, i);
         calcEntropyVars<double, d, ent>(q.data(), w[i].data());
      }
      for (int i = 0; i < n; ++i)
      {
         auto q = row<d>(u, n, i);
         std::array<double, ns> Pw{};
         for (int j = 0; j < n; ++j)
         {
            for (int k = 0; k < ns; ++k) { Pw[k] += P(i, j) * w[j][k]; }
         }
         if (ent) { applyLPSScalingUsingEntVars<double, d>(A[i].GetData(), q.data(), Pw.data(), Aw[i].data()); }
         else { applyLPSScaling<double, d>(A[i].GetData(), q.data(), Pw.data(), Aw[i].data()); }
         for (int j = 0; j < n; ++j)
         {
            for (int k = 0; k < ns; ++k) { add(j, k, alpha * lps * el.getDiagNormEntry(i) * P(i, j) * Aw[i][k]); }
         }
      }
   }
   else  // the conservative variables, weighted
   {
      for (int i = 0; i < n; ++i)
      {
         auto q = row<d>(u, n, i);
         gas::V<d> qq;
         for (int k = 0; k < ns; ++k) { qq[k] = q[k]; }
         if (ent) { qq = gas::from_ent<d>(qq).cons(); }
         for (int k = 0; k < ns; ++k) { add(i, k, alpha * el.getDiagNormEntry(i) * D.detJ(e, i) * (double)qq[k]); }
      }
   }
}
template <int d, bool ent>
std::unique_ptr<mfem::NonlinearFormIntegrator> volume_integ(int which, adept::Stack &st, double alpha, double lps)
{
   if (which == 0) { return std::make_unique<EulerIntegrator<d>>(st, alpha); }
   if (which == 1) { return std::make_unique<IsmailRoeIntegrator<d, ent>>(st, alpha); }
   if (which == 2) { return std::make_unique<EntStableLPSIntegrator<d, ent>>(st, alpha, lps); }
   if (which == 3) { return std::make_unique<miso::MassIntegrator<d, ent>>(st, alpha); }
   return std::make_unique<EntropyIntegrator<d, ent>>(st);
}
const char *vname[] = {"euler", "ismail-roe", "lps", "mass", "entropy"};
template <int d, bool ent>
double work(const Vector &u, const Vector &r, int n)
{
   double s = 0;
   for (int i = 0; i < n; ++i)
   {
      auto q = row<d>(u, n, i);
      double w[d + 2];
      calcEntropyVars<double, d, ent>(q.data(), w);
      for (int k = 0; k < d + 2; ++k) { s += w[k] * r(k * n + i); }
   }
   return s;
}
template <int d, bool ent>
void volume_case(int which, Size sz, bool dg, int e, int kind, double alpha)
{
   double lps = which == 2 ? pick(std::vector<double>{1.0, 0.4}, "coefficient") : 1.0;
   adept::Stack st;
   Disc<d> D(sz.p, sz.order, dg);
   auto integ = volume_integ<d, ent>(which, st, alpha, lps);
   Vector u = D.state(e, kind, 1, ent), got, want;
   int n = D.nn(e);
   S key = S("volume.") + vname[which];
   if (which < 4)
   {
      volume_vec<d, ent>(which, D, e, alpha, lps, u, want);
      integ->AssembleElementVector(D.el(e), D.tr(e), u, got);
      same(key + ".vector", got, want);
   }
   if (which == 1 || which == 2)
   {
      double en = integ->GetElementEnergy(D.el(e), D.tr(e), u), ref = work<d, ent>(u, want, n);
      MC_CHECK(fabs(en - ref) <= 1e-9 * std::max(1.0, want.Norml1()), key + ".energy", "" << en << " for w.r = " << ref);
      // the stabilisation never produces entropy
      if (which == 2) { MC_CHECK(en * alpha >= -1e-9 * want.Norml1(), key + ".sign", "" << en); }
   }
   if (which == 4)
   {
      double ref = 0;
      for (int i = 0; i < n; ++i)
      {
         auto s = D.prim(e, i, kind, 1);
         ref += (double)(-s.rho * s.s() / gas::g1) * D.detJ(e, i) * D.el(e).getDiagNormEntry(i);
      }
      double en = integ->GetElementEnergy(D.el(e), D.tr(e), u);
      MC_CHECK(close(en, ref, 1e-9), key + ".energy", "" << en << " for " << ref);
   }
   if (which == 0)
   {
      double en = integ->GetElementEnergy(D.el(e), D.tr(e), u);
      MC_CHECK(en == 0.0, key + ".energy", "" << en);
   }
   outcome(hash_of(want.GetData(), want.Size() * sizeof(double)));
}
template <int d, bool ent>
void volume_grad(int which, Size sz, bool dg, int e, int kind, double alpha)
{
   double lps = which == 2 ? pick(std::vector<double>{1.0, 0.4}, "coefficient") : 1.0;
   adept::Stack st;
   Disc<d> D(sz.p, sz.order, dg);
   auto integ = volume_integ<d, ent>(which, st, alpha, lps);
   Vector u = D.state(e, kind, 1, ent);
   DenseMatrix A;
   integ->AssembleElementGrad(D.el(e), D.tr(e), u, A);
   derivative(S("volume.") + vname[which] + ".gradient", A, u,
              [&](const Vector &v, Vector &r) { volume_vec<d, ent>(which, D, e, alpha, lps, v, r); });
   outcome(hash_of(A.GetData(), A.Height() * A.Width() * sizeof(double)));
}
template <class F>
void dims(F f)
{
   int d = 1 + choose(3, "dimension");
   bool ent = choose(2, "entropy variables");
   if (d == 1) { ent ? f(std::integral_constant<int, 1>(), std::true_type()) : f(std::integral_constant<int, 1>(), std::false_type()); }
   else if (d == 2) { ent ? f(std::integral_constant<int, 2>(), std::true_type()) : f(std::integral_constant<int, 2>(), std::false_type()); }
   else { ent ? f(std::integral_constant<int, 3>(), std::true_type()) : f(std::integral_constant<int, 3>(), std::false_type()); }
}
template <class F>
void dims23(F f)
{
   int d = 2 + choose(2, "dimension");
   bool ent = choose(2, "entropy variables");
   if (d == 2) { ent ? f(std::integral_constant<int, 2>(), std::true_type()) : f(std::integral_constant<int, 2>(), std::false_type()); }
   else { ent ? f(std::integral_constant<int, 3>(), std::true_type()) : f(std::integral_constant<int, 3>(), std::false_type()); }
}
void s_volume()
{
   dims([](auto dc, auto ec)
   {
      constexpr int d = decltype(dc)::value;
      constexpr bool ent = decltype(ec)::value;
      int which = choose(5, "term");
      if (which == 0 && ent) { prune(); }
      Size sz = pick(sizes<d>(false), "size");
      bool dg = d == 2 ? choose(2, "discontinuous") : false;
      int e = choose(2, "element"), kind = choose(3, "state");
      double a = which == 4 ? 1.0 : pick(alphas(), "alpha");
      volume_case<d, ent>(which, sz, dg, e, kind, a);
   });
}
void s_volume_grad()
{
   dims([](auto dc, auto ec)
   {
      constexpr int d = decltype(dc)::value;
      constexpr bool ent = decltype(ec)::value;
      int which = choose(4, "term");
      if (which == 0 && ent) { prune(); }
      Size sz = pick(sizes<d>(true), "size");
      int e = choose(2, "element"), kind = choose(2, "state");
      double a = pick(std::vector<double>{-1.0, 0.7}, "alpha");
      volume_grad<d, ent>(which, sz, true, e, kind, a);
   });
}

/////////////////////////////////////////////////////////////////////////////
// boundary terms
double bump(double len, const Vector &xc, const Vector &x)
{
   double r = 0;
   for (int k = 0; k < x.Size(); ++k) { r += pow(x(k) - xc(k), 2); }
   return 1.0 / (1.0 + r / (len * len));
}
template <int d>
void pump(double t, const Vector &x, Vector &q)
{
   gas::Prim<d> s = Mix<d>::uniform();
   s.rho += 0.1 * t;
   s.u[0] += 0.05 * t * x(0);
   auto c = s.cons();
   for (int k = 0; k < d + 2; ++k) { q(k) = (double)c[k]; }
}
enum { VORTEX, SLIP, FAR, CONSERVE, CONTROL, PRESSURE, BENTROPY, SUPPLY, NBC };
const char *bname[] = {"vortex", "slip", "far", "conserve", "control", "pressure", "boundary-entropy", "supply"};
template <int d>
struct BcData
{
   double time = 0.4, control = 0.3, len = 0.8;
   Vector xc, qfar, dir;
   BcData()
   {
      xc.SetSize(d);
      dir.SetSize(d);
      qfar.SetSize(d + 2);
      for (int k = 0; k < d; ++k)
      {
         xc(k) = 0.3 + 0.1 * k;
         dir(k) = 0.8 - 0.5 * k;
      }
      auto q = Mix<d>::uniform().cons();
      for (int k = 0; k < d + 2; ++k) { qfar(k) = (double)q[k] * (1 + 0.02 * k); }
   }
};
template <int d, bool ent>
void bc_flux(int which, const BcData<d> &B, const Vector &x, const Vector &n, const double *q, double *f)
{
   double qc[d + 2], wk[d + 2];
   calcConservativeVars<double, d, ent>(q, qc);
   Vector qb(d + 2);
   if (which == VORTEX)
   {
      if constexpr (d == 2)
      {
         calcIsentropicVortexState<double>(x.GetData(), qb.GetData());
         calcBoundaryFlux<double, 2>(n.GetData(), qb.GetData(), qc, wk, f);
      }
   }
   else if (which == SLIP || which == PRESSURE) { calcSlipWallFlux<double, d, ent>(x.GetData(), n.GetData(), q, f); }
   else if (which == FAR) { calcBoundaryFlux<double, d>(n.GetData(), B.qfar.GetData(), qc, wk, f); }
   else if (which == CONSERVE)
   {
      pump<d>(B.time, x, qb);
      gas::V<d> c;
      for (int k = 0; k < d + 2; ++k) { c[k] = qb(k); }
      auto s = gas::from_cons<d>(c);
      gas::Dir<d> dn;
      for (int k = 0; k < d; ++k) { dn[k] = n(k); }
      double flux = (double)(s.un(dn) * (-s.rho * s.s() / gas::g1));
      calcBoundaryFluxEC<double, d>(n.GetData(), qb.GetData(), qc, flux, f);
   }
   else if (which == CONTROL) { calcControlFlux<double, d>(n.GetData(), qc, B.control * bump(B.len, B.xc, x), f); }
   else { for (int k = 0; k < d + 2; ++k) { f[k] = 0; } }
}
template <int d, bool ent>
double bc_fun(int which, const BcData<d> &B, const Vector &x, const Vector &n, const double *q)
{
   double f[d + 2], w[d + 2], r = 0;
   gas::V<d> c;
   for (int k = 0; k < d + 2; ++k) { c[k] = q[k]; }
   auto s = ent ? gas::from_ent<d>(c) : gas::from_cons<d>(c);
   if (which == BENTROPY)
   {
      double S0 = (double)(-s.rho * s.s() / gas::g1);
      S0 += euler::rho_ref * ((double)s.p - euler::press_ref) / euler::press_ref;
      return S0 * bump(B.len, B.xc, x) * n.Norml2();
   }
   if (which == SUPPLY)
   {
      double wk[d + 2];
      if constexpr (!ent) { calcFarFieldFlux2<double, d, ent>(n.GetData(), B.qfar.GetData(), q, wk, f); }
      calcEntropyVars<double, d, ent>(q, w);
      for (int k = 0; k < d + 2; ++k) { r -= w[k] * f[k]; }
      for (int k = 0; k < d; ++k) { r += n(k) * (double)(s.rho * s.u[k]); }
      return r;
   }
   bc_flux<d, ent>(which, B, x, n, q, f);
   if (which == PRESSURE)
   {
      for (int k = 0; k < d; ++k) { r += B.dir(k) * f[k + 1]; }
      return r;
   }
   calcEntropyVars<double, d, ent>(q, w);
   for (int k = 0; k < d + 2; ++k) { r += w[k] * f[k]; }
   return r;
}
template <int d, bool ent>
std::unique_ptr<mfem::NonlinearFormIntegrator> bc_integ(int which, adept::Stack &st, const mfem::FiniteElementCollection *fec, const BcData<d> &B, double alpha)
{
   MISOInputs in{{"time", B.time}, {"control", B.control}, {"x-actuator", InputVector(B.xc)}};
   Vector zero(d);
   zero = 0.0;
   switch (which)
   {
   case VORTEX: return std::make_unique<IsentropicVortexBC<2, ent>>(st, fec, alpha);
   case SLIP: return std::make_unique<SlipWallBC<d, ent>>(st, fec, alpha);
   case FAR: return std::make_unique<FarFieldBC<d, ent>>(st, fec, B.qfar, alpha);
   case CONSERVE:
   {
      auto p = std::make_unique<EntropyConserveBC<d, ent>>(st, fec, pump<d>, alpha);
      setInputs(*p, in);
      return p;
   }
   case CONTROL:
   {
      auto p = std::make_unique<ControlBC<d, ent>>(st, fec, bump, zero, B.len, alpha);
      setInputs(*p, in);
      return p;
   }
   case PRESSURE: return std::make_unique<PressureForce<d, ent>>(st, fec, B.dir);
   case BENTROPY:
   {
      auto p = std::make_unique<BoundaryEntropy<d, ent>>(st, fec, bump, zero, B.len);
      setInputs(*p, in);
      return p;
   }
   default:
      if constexpr (!ent) { return std::make_unique<SupplyRate<d, ent>>(st, fec, B.qfar); }
      else { return nullptr; }
   }
}
template <int d, bool ent>
void bc_vec(int which, const Disc<d> &D, mfem::FaceElementTransformations &t, const BcData<d> &B, double alpha, const Vector &u, Vector &r)
{
   int n = D.nn(t.Elem1No);
   r.SetSize((d + 2) * n);
   r = 0.0;
   for (auto &f : face_nodes<d>(D, t))
   {
      auto q = row<d>(u, n, f.left);
      double fl[d + 2];
      bc_flux<d, ent>(which, B, f.x, f.n, q.data(), fl);
      for (int k = 0; k < d + 2; ++k) { r(k * n + f.left) += alpha * f.w * fl[k]; }
   }
}
template <int d, bool ent>
double bc_energy(int which, const Disc<d> &D, mfem::FaceElementTransformations &t, const BcData<d> &B, double alpha, const Vector &u)
{
   int n = D.nn(t.Elem1No);
   double r = 0;
   for (auto &f : face_nodes<d>(D, t))
   {
      auto q = row<d>(u, n, f.left);
      r += alpha * f.w * bc_fun<d, ent>(which, B, f.x, f.n, q.data());
   }
   return r;
}
template <int d, bool ent>
void boundary_case(bool grad)
{
   int which = choose(NBC, "boundary term");
   if (which == VORTEX && d != 2) { prune(); }
   if (which == SUPPLY && ent) { prune(); }
   if (grad && which >= BENTROPY) { prune(); }
   Size sz = pick(sizes<d>(grad), "size");
   bool dg = d != 2 ? false : grad ? true : choose(2, "discontinuous");
   adept::Stack st;
   Disc<d> D(sz.p, sz.order, dg);
   BcData<d> B;
   // the isentropic vortex lives around the origin between radii 1 and 3
   if (which == VORTEX)
   {
      auto &x = *D.mesh->GetNodes();
      for (int i = 0; i < x.Size(); ++i) { x(i) += 0.9; }
   }
   int b = choose(grad && !thorough() ? 2 : D.mesh->GetNBE(), "face"), kind = choose(grad ? 2 : 3, "state");
   double alpha = which >= PRESSURE ? 1.0 : pick(grad ? std::vector<double>{-1.0, 0.7} : alphas(), "alpha");
   auto integ = bc_integ<d, ent>(which, st, D.fec.get(), B, alpha);
   auto &t = *D.mesh->GetBdrFaceTransformations(b);
   int e = t.Elem1No;
   Vector u = D.state(e, kind, 1, ent), got, want;
   S key = S("boundary.") + bname[which];
   const auto &el = D.el(e);
   if (!grad)
   {
      double en = integ->GetFaceEnergy(el, el, *D.mesh->GetBdrFaceTransformations(b), u);
      double ref = bc_energy<d, ent>(which, D, *D.mesh->GetBdrFaceTransformations(b), B, alpha, u);
      MC_CHECK(close(en, ref, 1e-8), key + ".energy", "" << en << " for " << ref);
      step();
      if (which < PRESSURE)
      {
         integ->AssembleFaceVector(el, el, *D.mesh->GetBdrFaceTransformations(b), u, got);
         bc_vec<d, ent>(which, D, *D.mesh->GetBdrFaceTransformations(b), B, alpha, u, want);
         same(key + ".vector", got, want, 1e-9);
      }
      outcome(hash_of(&ref, sizeof ref));
      return;
   }
   if (which == PRESSURE)
   {
      // the vector is the gradient of the force
      integ->AssembleFaceVector(el, el, *D.mesh->GetBdrFaceTransformations(b), u, got);
      DenseMatrix A(1, got.Size());
      for (int i = 0; i < got.Size(); ++i) { A(0, i) = got(i); }
      derivative(key + ".gradient", A, u, [&](const Vector &v, Vector &r)
      {
         r.SetSize(1);
         r(0) = bc_energy<d, ent>(which, D, *D.mesh->GetBdrFaceTransformations(b), B, alpha, v);
      });
      return;
   }
   DenseMatrix A;
   integ->AssembleFaceGrad(el, el, *D.mesh->GetBdrFaceTransformations(b), u, A);
   derivative(key + ".gradient", A, u, [&](const Vector &v, Vector &r) { bc_vec<d, ent>(which, D, *D.mesh->GetBdrFaceTransformations(b), B, alpha, v, r); });
   outcome(hash_of(A.GetData(), A.Height() * A.Width() * sizeof(double)));
}
void s_boundary()
{
   dims23([](auto dc, auto ec) { boundary_case<decltype(dc)::value, decltype(ec)::value>(false); });
}
void s_boundary_grad()
{
   dims23([](auto dc, auto ec) { boundary_case<decltype(dc)::value, decltype(ec)::value>(true); });
}
/// derivatives of the flux functions in the direction argument
template <int d, bool ent, class I, class F>
void dirjac(const S &key, I &integ, const Vector &x, const Vector &n, const Vector &q, F f)
{
   DenseMatrix J(d + 2, d);
   integ.calcFluxJacDir(x, n, q, J);
   derivative(key, J, n, [&](const Vector &v, Vector &r)
   {
      r.SetSize(d + 2);
      f(v, r.GetData());
   });
}
template <int d, bool ent>
void direction_case()
{
   adept::Stack st;
   mfem::SBPCollection fec(1, d);
   BcData<d> B;
   int which = choose(7, "flux"), seed = choose(4, "state");
   Vector x(d), n(d), q(d + 2), qr(d + 2);
   for (int k = 0; k < d; ++k)
   {
      x(k) = 1.1 + 0.2 * k;
      n(k) = 0.7 * fr::irr(k, 31 + seed);
   }
   auto s = Mix<d>::rough(1, 40 + seed), s2 = Mix<d>::rough(2, 40 + seed);
   for (int k = 0; k < d + 2; ++k)
   {
      q(k) = (double)(ent ? s.entv() : s.cons())[k];
      qr(k) = (double)(ent ? s2.entv() : s2.cons())[k];
   }
   if (which < 5)
   {
      if (which == VORTEX && d != 2) { prune(); }
      auto f = [&](const Vector &v, double *r) { bc_flux<d, ent>(which, B, x, v, q.GetData(), r); };
      auto p = bc_integ<d, ent>(which, st, &fec, B, 1.0);
      S key = S("boundary.") + bname[which] + ".direction";
      if constexpr (d == 2)
      {
         if (which == VORTEX) { dirjac<d, ent>(key, dynamic_cast<IsentropicVortexBC<2, ent> &>(*p), x, n, q, f); }
      }
      if (which == SLIP) { dirjac<d, ent>(key, dynamic_cast<SlipWallBC<d, ent> &>(*p), x, n, q, f); }
      if (which == FAR) { dirjac<d, ent>(key, dynamic_cast<FarFieldBC<d, ent> &>(*p), x, n, q, f); }
      if (which == CONSERVE) { dirjac<d, ent>(key, dynamic_cast<EntropyConserveBC<d, ent> &>(*p), x, n, q, f); }
      if (which == CONTROL) { dirjac<d, ent>(key, dynamic_cast<ControlBC<d, ent> &>(*p), x, n, q, f); }
      return;
   }
   DenseMatrix J(d + 2, d);
   if (which == 5)
   {
      if (ent) { prune(); }
      EulerIntegrator<d> E(st);
      E.calcFluxJacDir(n, q, J);
      derivative("volume.euler.direction", J, n, [&](const Vector &v, Vector &r)
      {
         r.SetSize(d + 2);
         calcEulerFlux<double, d>(v.GetData(), q.GetData(), r.GetData());
      });
      return;
   }
   double diss = pick(std::vector<double>{0.0, 1.0, 0.3}, "dissipation");
   InterfaceIntegrator<d, ent> I(st, diss, &fec);
   I.calcFluxJacDir(n, q, qr, J);
   derivative("interface.direction", J, n, [&](const Vector &v, Vector &r)
   {
      r.SetSize(d + 2);
      if constexpr (ent) { calcIsmailRoeFaceFluxWithDissUsingEntVars<double, d>(v.GetData(), diss, q.GetData(), qr.GetData(), r.GetData()); }
      else { calcIsmailRoeFaceFluxWithDiss<double, d>(v.GetData(), diss, q.GetData(), qr.GetData(), r.GetData()); }
   });
   // the scaling of the stabilisation, in the adjugate
   EntStableLPSIntegrator<d, ent> L(st);
   Vector a(d * d);
   for (int k = 0; k < d * d; ++k) { a(k) = fr::irr(k, 77 + seed); }
   DenseMatrix adj(a.GetData(), d, d), JA(d + 2, d * d);
   Vector v(d + 2);
   for (int k = 0; k < d + 2; ++k) { v(k) = fr::irr(k, 91); }
   L.applyScalingJacAdjJ(adj, q, v, JA);
   derivative("volume.lps.adjugate", JA, a, [&](const Vector &y, Vector &r)
   {
      r.SetSize(d + 2);
      if (ent) { applyLPSScalingUsingEntVars<double, d>(y.GetData(), q.GetData(), v.GetData(), r.GetData()); }
      else { applyLPSScaling<double, d>(y.GetData(), q.GetData(), v.GetData(), r.GetData()); }
   });
}
void s_direction()
{
   dims23([](auto dc, auto ec) { direction_case<decltype(dc)::value, decltype(ec)::value>(); });
}
/////////////////////////////////////////////////////////////////////////////
// inputs of the boundary terms: what was set last counts, the rest is kept
void s_inputs()
{
   constexpr int d = 2;
   adept::Stack st;
   Disc<d> D(2, 2, true);
   BcData<d> B;
   B.control = 0.0;
   B.time = 0.9;
   int which = CONSERVE + choose(2, "boundary term");
   if (which == CONTROL && choose(2, "entropy on the boundary")) { which = BENTROPY; }
   Vector x0(2);
   x0(0) = 0.3;
   x0(1) = -0.1;
   B.xc = x0;
   EntropyConserveBC<d> C(st, D.fec.get(), pump<d>);
   ControlBC<d> U(st, D.fec.get(), bump, x0, B.len);
   BoundaryEntropy<d> E(st, D.fec.get(), bump, x0, B.len);
   setInputs(C, {{"time", B.time}});
   auto &t = *D.mesh->GetBdrFaceTransformations(1);
   int e = t.Elem1No;
   Vector u = D.state(e, ROUGH, 1, false);
   double buf[2];
   for (int k = 0; k < 3; ++k)
   {
      int op = choose(6, "inputs");
      MISOInputs in;
      if (op == 1 || op == 5)
      {
         B.control = 0.2 + 0.1 * k;
         in.emplace("control", B.control);
      }
      if (op == 2 || op == 5)
      {
         B.time = 0.1 + k;
         in.emplace("time", B.time);
      }
      if (op == 3 || op == 5)
      {
         B.xc(0) = 0.1 * k - 0.4;
         B.xc(1) = 0.5;
         buf[0] = B.xc(0);
         buf[1] = B.xc(1);
         in.emplace("x-actuator", InputVector(Vector(buf, 2)));
      }
      if (op == 4) { in.emplace("timestep", 17.0); }
      setInputs(C, in);
      setInputs(U, in);
      setInputs(E, in);
      double got = 0;
      auto &ft = *D.mesh->GetBdrFaceTransformations(1);
      if (which == CONSERVE) { got = C.GetFaceEnergy(D.el(e), D.el(e), ft, u); }
      if (which == CONTROL) { got = U.GetFaceEnergy(D.el(e), D.el(e), ft, u); }
      if (which == BENTROPY) { got = E.GetFaceEnergy(D.el(e), D.el(e), ft, u); }
      double want = bc_energy<d, false>(which, D, *D.mesh->GetBdrFaceTransformations(1), B, 1.0, u);
      MC_CHECK(close(got, want, 1e-9), S("inputs.") + bname[which], "" << got << " for " << want << " after step " << k);
      step();
      outcome(hash_of(&want, sizeof want));
   }
}
/////////////////////////////////////////////////////////////////////////////
// interior faces
template <int d, bool ent>
void iface_vec(const Disc<d> &D, mfem::FaceElementTransformations &t, double diss, double alpha, const Vector &u, Vector &r)
{
   int nl = D.nn(t.Elem1No), nr = D.nn(t.Elem2No), off = (d + 2) * nl;
   r.SetSize((d + 2) * (nl + nr));
   r = 0.0;
   for (auto &f : face_nodes<d>(D, t))
   {
      double L[d + 2], R[d + 2], fl[d + 2], dir[d];
      for (int k = 0; k < d + 2; ++k)
      {
         L[k] = u(k * nl + f.left);
         R[k] = u(off + k * nr + f.right);
      }
      for (int k = 0; k < d; ++k) { dir[k] = f.n(k) * f.w; }
      if constexpr (ent) { calcIsmailRoeFaceFluxWithDissUsingEntVars<double, d>(dir, diss, L, R, fl); }
      else { calcIsmailRoeFaceFluxWithDiss<double, d>(dir, diss, L, R, fl); }
      for (int k = 0; k < d + 2; ++k)
      {
         r(k * nl + f.left) += alpha * fl[k];
         r(off + k * nr + f.right) -= alpha * fl[k];
      }
   }
}
template <int d, bool ent>
void iface_case(bool grad)
{
   Size sz = pick(sizes<d>(grad), "size");
   adept::Stack st;
   Disc<d> D(sz.p, sz.order, true);
   int kind = choose(grad ? 2 : 3, "state");
   double diss = pick(std::vector<double>{0.0, 1.0, 0.3}, "dissipation");
   double alpha = pick(grad ? std::vector<double>{-1.0, 0.7} : alphas(), "alpha");
   InterfaceIntegrator<d, ent> I(st, diss, D.fec.get(), alpha);
   int face = -1;
   for (int f = 0; f < D.mesh->GetNumFaces(); ++f)
   {
      if (D.mesh->GetInteriorFaceTransformations(f)) { face = f; }
   }
   auto T = [&]() -> mfem::FaceElementTransformations & { return *D.mesh->GetInteriorFaceTransformations(face); };
   int e1 = T().Elem1No, e2 = T().Elem2No;
   Vector a = D.state(e1, kind, 1, ent), b = D.state(e2, kind, 2, ent), u(a.Size() + b.Size());
   for (int i = 0; i < a.Size(); ++i) { u(i) = a(i); }
   for (int i = 0; i < b.Size(); ++i) { u(a.Size() + i) = b(i); }
   Vector got, want;
   if (!grad)
   {
      I.AssembleFaceVector(D.el(e1), D.el(e2), T(), u, got);
      iface_vec<d, ent>(D, T(), diss, alpha, u, want);
      same("interface.vector", got, want);
      Vector r1(want.GetData(), a.Size()), r2(want.GetData() + a.Size(), b.Size());
      double ref = work<d, ent>(a, r1, D.nn(e1)) + work<d, ent>(b, r2, D.nn(e2));
      double en = I.GetFaceEnergy(D.el(e1), D.el(e2), T(), u);
      MC_CHECK(fabs(en - ref) <= 1e-9 * std::max(1.0, want.Norml1()), "interface.energy", "" << en << " for w.r = " << ref << " (alpha " << alpha << ")");
      outcome(hash_of(want.GetData(), want.Size() * sizeof(double)));
      return;
   }
   DenseMatrix A;
   I.AssembleFaceGrad(D.el(e1), D.el(e2), T(), u, A);
   derivative("interface.gradient", A, u, [&](const Vector &v, Vector &r) { iface_vec<d, ent>(D, T(), diss, alpha, v, r); });
   outcome(hash_of(A.GetData(), A.Height() * A.Width() * sizeof(double)));
}
void s_interface()
{
   dims23([](auto dc, auto ec) { iface_case<decltype(dc)::value, decltype(ec)::value>(false); });
}
void s_interface_grad()
{
   dims23([](auto dc, auto ec) { iface_case<decltype(dc)::value, decltype(ec)::value>(true); });
}
/////////////////////////////////////////////////////////////////////////////
// the discretisation as a whole
template <int d, bool ent>
void global_case()
{
   constexpr int ns = d + 2;
   int p = d == 2 ? choose(5, "degree") : choose(2, "degree");
   // metric terms are represented exactly up to these mesh orders
   int top = d == 2 ? std::min(3, p + 1) : 1;
   int order = 1 + choose(top, "mesh order");
   int kind = choose(3, "state"), bc = choose(3, "boundary"), seed = choose(thorough() ? 5 : 2, "seed");
   double diss = pick(std::vector<double>{0.0, 1.0}, "dissipation"), lps = pick(std::vector<double>{0.0, 0.5}, "stabilisation");
   if (bc == 2 && kind != UNIFORM) { prune(); }
   adept::Stack st;
   Disc<d> D(p, order, true);
   BcData<d> B;
   if (bc == 2)
   {
      auto q = Mix<d>::uniform().cons();
      for (int k = 0; k < ns; ++k) { B.qfar(k) = (double)q[k]; }
   }
   auto vol = std::make_unique<IsmailRoeIntegrator<d, ent>>(st);
   auto stab = std::make_unique<EntStableLPSIntegrator<d, ent>>(st, 1.0, lps);
   auto face = std::make_unique<InterfaceIntegrator<d, ent>>(st, diss, D.fec.get());
   int kinds[] = {SLIP, CONSERVE, FAR};
   auto bnd = bc_integ<d, ent>(kinds[bc], st, D.fec.get(), B, 1.0);
   Vector u[2], r[2];
   double energy = 0, l1 = 0;
   for (int e = 0; e < 2; ++e)
   {
      u[e] = D.state(e, kind, 1 + e + 3 * seed, ent);
      vol->AssembleElementVector(D.el(e), D.tr(e), u[e], r[e]);
      l1 += r[e].Norml1();
      energy += vol->GetElementEnergy(D.el(e), D.tr(e), u[e]);
      Vector x;
      stab->AssembleElementVector(D.el(e), D.tr(e), u[e], x);
      r[e] += x;
      double s = stab->GetElementEnergy(D.el(e), D.tr(e), u[e]);
      MC_CHECK(s >= -1e-11 * l1, "global.stabilisation", "" << "stabilisation produces entropy " << s);
      energy += s;
   }
   double dissip = 0;
   for (int f = 0; f < D.mesh->GetNumFaces(); ++f)
   {
      auto *t = D.mesh->GetInteriorFaceTransformations(f);
      if (!t) { continue; }
      int e1 = t->Elem1No, e2 = t->Elem2No;
      Vector uu(u[e1].Size() + u[e2].Size()), x;
      for (int i = 0; i < u[e1].Size(); ++i) { uu(i) = u[e1](i); }
      for (int i = 0; i < u[e2].Size(); ++i) { uu(u[e1].Size() + i) = u[e2](i); }
      face->AssembleFaceVector(D.el(e1), D.el(e2), *t, uu, x);
      for (int i = 0; i < u[e1].Size(); ++i) { r[e1](i) += x(i); }
      for (int i = 0; i < u[e2].Size(); ++i) { r[e2](i) += x(u[e1].Size() + i); }
      dissip += face->GetFaceEnergy(D.el(e1), D.el(e2), *D.mesh->GetInteriorFaceTransformations(f), uu);
   }
   double flux[ns] = {0}, target = 0;
   for (int b = 0; b < D.mesh->GetNBE(); ++b)
   {
      auto *t = D.mesh->GetBdrFaceTransformations(b);
      int e = t->Elem1No, n = D.nn(e);
      Vector x;
      bnd->AssembleFaceVector(D.el(e), D.el(e), *t, u[e], x);
      r[e] += x;
      for (int k = 0; k < ns; ++k)
      {
         for (int i = 0; i < n; ++i) { flux[k] += x(k * n + i); }
      }
      energy += bnd->GetFaceEnergy(D.el(e), D.el(e), *D.mesh->GetBdrFaceTransformations(b), u[e]);
      if (bc == 1)
      {
         for (auto &f : face_nodes<d>(D, *D.mesh->GetBdrFaceTransformations(b)))
         {
            Vector q(ns);
            pump<d>(B.time, f.x, q);
            gas::V<d> c;
            for (int k = 0; k < ns; ++k) { c[k] = q(k); }
            auto s = gas::from_cons<d>(c);
            gas::Dir<d> dn;
            for (int k = 0; k < d; ++k) { dn[k] = f.n(k); }
            target += f.w * (double)(s.un(dn) * (-s.rho * s.s() / gas::g1));
         }
      }
   }
   // what leaves through the boundary is all that changes in the domain
   for (int k = 0; k < ns; ++k)
   {
      double s = 0;
      for (int e = 0; e < 2; ++e)
      {
         for (int i = 0; i < D.nn(e); ++i) { s += r[e](k * D.nn(e) + i); }
      }
      MC_CHECK(fabs(s - flux[k]) <= 1e-10 * std::max(1.0, l1), "global.conservation", "" << "equation " << k << " sums to " << s << ", boundary flux " << flux[k]);
   }
   double total = energy + dissip, w = work<d, ent>(u[0], r[0], D.nn(0)) + work<d, ent>(u[1], r[1], D.nn(1));
   MC_CHECK(fabs(total - w) <= 1e-9 * std::max(1.0, l1), "global.energy", "" << "entropy change " << total << " but w.r = " << w);
   if (bc < 2)
   {
      // entropy: exactly what the boundary is asked to let through, less the dissipation
      if (lps == 0.0 && diss == 0.0) { MC_CHECK(fabs(total - target) <= 1e-9 * std::max(1.0, l1), "global.entropy", "" << "entropy change " << total << " for a boundary flux of " << target); }
      MC_CHECK(total - target >= -1e-9 * std::max(1.0, l1), "global.entropy-stable", "" << "entropy change " << total << " for a boundary flux of " << target);
      step();
   }
   if (kind == UNIFORM && bc == 2)
   {
      for (int e = 0; e < 2; ++e)
      {
         MC_CHECK(r[e].Normlinf() <= 1e-10 * std::max(1.0, l1), "global.free-stream", "" << "residual of the free stream is " << r[e].Normlinf());
      }
   }
   outcome(hash_of(r[0].GetData(), r[0].Size() * sizeof(double)));
}
void s_global()
{
   dims23([](auto dc, auto ec) { global_case<decltype(dc)::value, decltype(ec)::value>(); });
}
/////////////////////////////////////////////////////////////////////////////
// an integrator carries nothing from one call to the next
template <bool ent>
void reuse_case()
{
   constexpr int d = 2;
   int term = choose(9, "term");
   if (term == 0 && ent) { prune(); }
   adept::Stack st;
   Disc<d> A(1, 2, true), Bd(3, 1, true);
   BcData<d> B;
   Disc<d> *D[2] = {&A, &Bd};
   auto make = [&](adept::Stack &s) -> std::unique_ptr<mfem::NonlinearFormIntegrator>
   {
      if (term < 4) { return volume_integ<d, ent>(term, s, 0.7, 0.4); }
      int bc[] = {SLIP, FAR, CONSERVE, CONTROL};
      if (term < 8) { return bc_integ<d, ent>(bc[term - 4], s, nullptr, B, 0.7); }
      return nullptr;
   };
   if (term >= 4)
   {
      // boundary terms belong to one collection: two elements of the same space
      D[1] = &A;
   }
   std::unique_ptr<mfem::NonlinearFormIntegrator> one;
   auto mk = [&](adept::Stack &s) -> std::unique_ptr<mfem::NonlinearFormIntegrator>
   {
      if (term < 4) { return make(s); }
      int bc[] = {SLIP, FAR, CONSERVE, CONTROL};
      if (term < 8) { return bc_integ<d, ent>(bc[term - 4], s, A.fec.get(), B, 0.7); }
      return std::make_unique<InterfaceIntegrator<d, ent>>(s, 0.3, A.fec.get(), 0.7);
   };
   one = mk(st);
   int len = thorough() ? 4 : 3;
   auto call = [&](mfem::NonlinearFormIntegrator &I, int op) -> std::vector<double>
   {
      Disc<d> &Q = *D[op & 1];
      int what = op >> 1, e = op & 1;
      Vector v;
      DenseMatrix M;
      auto out = [](const double *p, int n) { return std::vector<double>(p, p + n); };
      if (term < 4)
      {
         Vector u = Q.state(e, ROUGH, 3, ent);
         if (what == 0)
         {
            I.AssembleElementVector(Q.el(e), Q.tr(e), u, v);
            return out(v.GetData(), v.Size());
         }
         if (what == 1)
         {
            I.AssembleElementGrad(Q.el(e), Q.tr(e), u, M);
            return out(M.GetData(), M.Height() * M.Width());
         }
         if (term == 3) { return {}; }
         return {I.GetElementEnergy(Q.el(e), Q.tr(e), u)};
      }
      if (term < 8)
      {
         auto &t = *Q.mesh->GetBdrFaceTransformations(op & 1 ? 2 : 0);
         int el = t.Elem1No;
         Vector u = Q.state(el, ROUGH, 3 + e, ent);
         auto &tt = *Q.mesh->GetBdrFaceTransformations(op & 1 ? 2 : 0);
         if (what == 0)
         {
            I.AssembleFaceVector(Q.el(el), Q.el(el), tt, u, v);
            return out(v.GetData(), v.Size());
         }
         if (what == 1)
         {
            I.AssembleFaceGrad(Q.el(el), Q.el(el), tt, u, M);
            return out(M.GetData(), M.Height() * M.Width());
         }
         return {I.GetFaceEnergy(Q.el(el), Q.el(el), tt, u)};
      }
      int face = -1;
      for (int f = 0; f < Q.mesh->GetNumFaces(); ++f)
      {
         if (Q.mesh->GetInteriorFaceTransformations(f)) { face = f; }
      }
      auto *t = Q.mesh->GetInteriorFaceTransformations(face);
      int e1 = t->Elem1No, e2 = t->Elem2No;
      Vector a = Q.state(e1, ROUGH, 3 + e, ent), b = Q.state(e2, ROUGH, 5 + e, ent), u(a.Size() + b.Size());
      for (int i = 0; i < a.Size(); ++i) { u(i) = a(i); }
      for (int i = 0; i < b.Size(); ++i) { u(a.Size() + i) = b(i); }
      t = Q.mesh->GetInteriorFaceTransformations(face);
      if (what == 0)
      {
         I.AssembleFaceVector(Q.el(e1), Q.el(e2), *t, u, v);
         return out(v.GetData(), v.Size());
      }
      if (what == 1)
      {
         I.AssembleFaceGrad(Q.el(e1), Q.el(e2), *t, u, M);
         return out(M.GetData(), M.Height() * M.Width());
      }
      return {I.GetFaceEnergy(Q.el(e1), Q.el(e2), *t, u)};
   };
   for (int k = 0; k < len; ++k)
   {
      int op = choose(6, "call");
      auto got = call(*one, op);
      auto fresh = mk(st);
      auto want = call(*fresh, op);
      bool eq = got.size() == want.size();
      for (size_t i = 0; eq && i < got.size(); ++i) { eq = fabs(got[i] - want[i]) <= 1e-13 * std::max(1.0, fabs(want[i])); }
      MC_CHECK(eq, "reuse", "" << "term " << term << ": call " << k << " (operation " << op << ") differs from that of a new integrator");
      step();
   }
}
void s_reuse()
{
   if (choose(2, "entropy variables")) { reuse_case<true>(); }
   else { reuse_case<false>(); }
}
/////////////////////////////////////////////////////////////////////////////
// sensitivities with respect to the mesh nodes
template <int d, bool ent>
void mesh_case()
{
   constexpr int ns = d + 2;
   int term = choose(2, "term");
   Size sz = pick(d == 2 ? std::vector<Size>{{0, 1}, {1, 2}, {2, 1}, {3, 2}, {2, 3}} : std::vector<Size>{{0, 1}, {1, 1}, {1, 2}}, "size");
   bool dg = d == 2 ? choose(2, "discontinuous") : false;
   double alpha = pick(alphas(), "alpha");
   adept::Stack st;
   Disc<d> D(sz.p, sz.order, dg);
   int where = term == 0 ? choose(2, "element") : choose(D.mesh->GetNBE(), "face");
   mfem::GridFunction state(D.fes.get()), adj(D.fes.get());
   int nd = D.fes->GetNDofs();
   for (int i = 0; i < nd; ++i)
   {
      auto s = Mix<d>::rough(i, 17);
      auto q = ent ? s.entv() : s.cons();
      for (int k = 0; k < ns; ++k) { state(k * nd + i) = (double)q[k]; }
   }
   for (int i = 0; i < adj.Size(); ++i) { adj(i) = fr::irr(i, 23); }
   int e = term == 0 ? where : D.mesh->GetBdrFaceTransformations(where)->Elem1No;
   auto value = [&]()
   {
      mfem::Array<int> v;
      D.fes->GetElementVDofs(e, v);
      Vector u, ps, r;
      state.GetSubVector(v, u);
      adj.GetSubVector(v, ps);
      BcData<d> B;
      if (term == 0) { volume_vec<d, ent>(1, D, e, alpha, 1.0, u, r); }
      else { bc_vec<d, ent>(SLIP, D, *D.mesh->GetBdrFaceTransformations(where), B, alpha, u, r); }
      return dotp(ps, r);
   };
   auto *nfes = D.mesh->GetNodes()->FESpace();
   const mfem::FiniteElement &mel = *nfes->GetFE(e);
   Vector got;
   IsmailRoeMeshSensIntegrator<d, ent> IR(state, adj, ns, alpha);
   SlipWallBCMeshSens<d, ent> SW(st, state, adj, ns, alpha);
   if (term == 0) { IR.AssembleRHSElementVect(mel, D.tr(e), got); }
   else { SW.AssembleRHSElementVect(mel, *D.mesh->GetBdrFaceTransformations(where), got); }
   mfem::Array<int> vd;
   nfes->GetElementVDofs(e, vd);
   Vector want(vd.Size());
   auto &x = *D.mesh->GetNodes();
   for (int i = 0; i < vd.Size(); ++i)
   {
      double x0 = x(vd[i]), h = 2e-4, f[4];
      static const double stp[4] = {-2, -1, 1, 2};
      for (int k = 0; k < 4; ++k)
      {
         x(vd[i]) = x0 + stp[k] * h;
         f[k] = value();
      }
      x(vd[i]) = x0;
      want(i) = (f[0] - 8 * f[1] + 8 * f[2] - f[3]) / (12 * h);
   }
   same(term == 0 ? "mesh.ismail-roe" : "mesh.slip", got, want, 3e-7);
   outcome(hash_of(want.GetData(), want.Size() * sizeof(double)));
}
void s_mesh()
{
   dims23([](auto dc, auto ec) { mesh_case<decltype(dc)::value, decltype(ec)::value>(); });
}
}  // namespace
int main(int argc, char **argv)
{
   return run(argc, argv, "C29",
              [] { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
              {{"volume", s_volume},
               {"volume_gradient", s_volume_grad},
               {"boundary", s_boundary},
               {"boundary_gradient", s_boundary_grad},
               {"direction", s_direction},
               {"inputs", s_inputs},
               {"interface", s_interface},
               {"interface_gradient", s_interface_grad},
               {"global", s_global},
               {"reuse", s_reuse},
               {"mesh", s_mesh}});
}
