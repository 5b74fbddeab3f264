// FlowResidual: the terms, parameters and outputs that the options name
#include <functional>
#include "sbp_disc.hpp"
#include "mfem_throw.hpp"
#include "adept.h"
#include "nlohmann/json.hpp"
#include "euler_fluxes.hpp"
#include "euler_integ.hpp"
#include "euler_integ_mms.hpp"
#include "navier_stokes_integ.hpp"
#include "flow_residual.hpp"
#include "miso_residual.hpp"

using json = nlohmann::json;
using namespace miso;

namespace
{
json base_options(int d)
{
   return {{"flow-param", {{"viscous", false}, {"entropy-state", false}, {"mu", 0.7}, {"Re", 12.0}, {"Pr", 0.8}, {"mach", 0.4}, {"aoa", 12.0}, {"roll-axis", 0}, {"pitch-axis", d == 3 ? 2 : 1}}},
           {"space-dis", {{"degree", 1}, {"lps-coeff", 0.0}, {"iface-coeff", 0.6}, {"basis-type", "csbp"}, {"flux-fun", "IR"}}},
           {"time-dis", {{"steady", false}}},
           {"lin-prec", {{"type", "hypreilu"}, {"lev-fill", 1}, {"ilu-type", 0}, {"ilu-reorder", 0}, {"printlevel", 0}}}};
}
template <int d, bool ent>
struct Flow
{
   static constexpr int ns = d + 2;
   Disc<d> D;  // node sets and geometry only
   std::unique_ptr<mfem::ParMesh> mesh;
   std::unique_ptr<mfem::FiniteElementCollection> fec;
   std::unique_ptr<mfem::ParFiniteElementSpace> fes;
   std::map<S, FiniteElementState> fields;
   adept::Stack stack;

   Flow(int p, int order, bool dg, bool away = false) : D(p, order, dg)
   {
      if (away)
      {
         // the vortex has no state near its centre
         auto &x = *D.mesh->GetNodes();
         for (int i = 0; i < x.Size(); ++i) { x(i) += 1.2; }
      }
      mesh = std::make_unique<mfem::ParMesh>(MPI_COMM_WORLD, *D.mesh);
      if (dg) { fec = std::make_unique<mfem::DSBPCollection>(p, d); }
      else { fec = std::make_unique<mfem::SBPCollection>(p, d); }
      fes = std::make_unique<mfem::ParFiniteElementSpace>(mesh.get(), fec.get(), ns, mfem::Ordering::byVDIM);
   }
   Vector state(int kind, int seed) const
   {
      mfem::ParGridFunction g(fes.get());
      mfem::Array<int> dofs;
      for (int e = 0; e < fes->GetNE(); ++e)
      {
         fes->GetElementDofs(e, dofs);
         for (int i = 0; i < dofs.Size(); ++i)
         {
            auto s = kind == ROUGH ? Mix<d>::rough(dofs[i], seed + 11) : D.prim(e, i, kind, seed);
            auto q = ent ? s.entv() : s.cons();
            for (int k = 0; k < ns; ++k) { g(dofs[i] * ns + k) = (double)q[k]; }
         }
      }
      Vector t;
      g.GetTrueDofs(t);
      return t;
   }
};
/// sum of contributions of integrators, element by element
struct Term
{
   std::unique_ptr<mfem::NonlinearFormIntegrator> I;
   char where;  // 'D'omain, 'I'nterface, 'B'oundary
   std::vector<int> attrs;
};
typedef std::vector<Term> Terms;
template <class F>
void visit(mfem::ParFiniteElementSpace &fes, const Term &t, F f)
{
   auto &m = *fes.GetParMesh();
   mfem::Array<int> d1, d2;
   if (t.where == 'D')
   {
      for (int e = 0; e < fes.GetNE(); ++e)
      {
         fes.GetElementVDofs(e, d1);
         f(d1, e, -1, nullptr);
      }
   }
   else if (t.where == 'I')
   {
      for (int i = 0; i < m.GetNumFaces(); ++i)
      {
         auto *tr = m.GetInteriorFaceTransformations(i);
         if (!tr) { continue; }
         fes.GetElementVDofs(tr->Elem1No, d1);
         fes.GetElementVDofs(tr->Elem2No, d2);
         d1.Append(d2);
         f(d1, tr->Elem1No, tr->Elem2No, tr);
      }
   }
   else
   {
      for (int b = 0; b < m.GetNBE(); ++b)
      {
         if (std::find(t.attrs.begin(), t.attrs.end(), m.GetBdrAttribute(b)) == t.attrs.end()) { continue; }
         auto *tr = m.GetBdrFaceTransformations(b);
         fes.GetElementVDofs(tr->Elem1No, d1);
         f(d1, tr->Elem1No, -1, tr);
      }
   }
}
Vector sum_residual(mfem::ParFiniteElementSpace &fes, const Terms &ts, const Vector &u)
{
   mfem::ParGridFunction g(&fes);
   g.SetFromTrueDofs(u);
   Vector r(fes.GetVSize()), el, v;
   r = 0.0;
   for (auto &t : ts)
   {
      visit(fes, t, [&](mfem::Array<int> &dofs, int e1, int e2, mfem::FaceElementTransformations *tr)
      {
         g.GetSubVector(dofs, el);
         const auto &f1 = *fes.GetFE(e1), &f2 = *fes.GetFE(e2 >= 0 ? e2 : e1);
         if (t.where == 'D') { t.I->AssembleElementVector(f1, *fes.GetElementTransformation(e1), el, v); }
         else { t.I->AssembleFaceVector(f1, f2, *tr, el, v); }
         r.AddElementVector(dofs, v);
      });
   }
   Vector out(fes.GetTrueVSize());
   fes.GetProlongationMatrix()->MultTranspose(r, out);
   return out;
}
DenseMatrix sum_jacobian(mfem::ParFiniteElementSpace &fes, const Terms &ts, const Vector &u)
{
   mfem::ParGridFunction g(&fes);
   g.SetFromTrueDofs(u);
   DenseMatrix J(fes.GetVSize()), m;
   J = 0.0;
   Vector el;
   for (auto &t : ts)
   {
      visit(fes, t, [&](mfem::Array<int> &dofs, int e1, int e2, mfem::FaceElementTransformations *tr)
      {
         g.GetSubVector(dofs, el);
         const auto &f1 = *fes.GetFE(e1), &f2 = *fes.GetFE(e2 >= 0 ? e2 : e1);
         if (t.where == 'D') { t.I->AssembleElementGrad(f1, *fes.GetElementTransformation(e1), el, m); }
         else { t.I->AssembleFaceGrad(f1, f2, *tr, el, m); }
         for (int i = 0; i < dofs.Size(); ++i) { for (int j = 0; j < dofs.Size(); ++j) { J(dofs[i], dofs[j]) += m(i, j); } }
      });
   }
   // one process, conforming: true dofs are the local ones, in the order P gives
   auto *P = fes.GetProlongationMatrix();
   int n = fes.GetTrueVSize();
   DenseMatrix out(n);
   Vector e(n), l(fes.GetVSize()), Jl(fes.GetVSize()), c(n);
   for (int j = 0; j < n; ++j)
   {
      e = 0.0;
      e(j) = 1;
      P->Mult(e, l);
      J.Mult(l, Jl);
      P->MultTranspose(Jl, c);
      out.SetCol(j, c);
   }
   return out;
}
double sum_energy(mfem::ParFiniteElementSpace &fes, const Terms &ts, const Vector &u)
{
   mfem::ParGridFunction g(&fes);
   g.SetFromTrueDofs(u);
   double s = 0;
   Vector el;
   for (auto &t : ts)
   {
      visit(fes, t, [&](mfem::Array<int> &dofs, int e1, int e2, mfem::FaceElementTransformations *tr)
      {
         g.GetSubVector(dofs, el);
         const auto &f1 = *fes.GetFE(e1), &f2 = *fes.GetFE(e2 >= 0 ? e2 : e1);
         if (t.where == 'D') { s += t.I->GetElementEnergy(f1, *fes.GetElementTransformation(e1), el); }
         else { s += t.I->GetFaceEnergy(f1, f2, *tr, el); }
      });
   }
   return s;
}
DenseMatrix dense(mfem::Operator &A)
{
   DenseMatrix M(A.Height(), A.Width());
   Vector e(A.Width()), c(A.Height());
   for (int j = 0; j < A.Width(); ++j)
   {
      e = 0.0;
      e(j) = 1;
      A.Mult(e, c);
      M.SetCol(j, c);
   }
   return M;
}
void same_matrix(const S &key, const DenseMatrix &a, const DenseMatrix &b, double tol = 1e-10)
{
   MC_CHECK(a.Height() == b.Height() && a.Width() == b.Width(), key + ".size", "" << a.Height() << " x " << a.Width());
   double sc = std::max(1e-3, b.MaxMaxNorm());
   for (int i = 0; i < a.Height(); ++i)
   {
      for (int j = 0; j < a.Width(); ++j)
      {
         MC_CHECK(std::isfinite(a(i, j)) && fabs(a(i, j) - b(i, j)) <= tol * sc, key, "" << "entry (" << i << "," << j << ") is " << a(i, j) << ", expected " << b(i, j) << " (largest " << sc << ")");
      }
   }
   step(a.Height());
}
/// rho = 1, p = 1/gamma, so the speed is the Mach number
template <int d>
Vector free_stream(const json &fp)
{
   Vector q(d + 2);
   q = 0.0;
   double M = fp["mach"], a = fp["aoa"].get<double>() * M_PI / 180;
   q(0) = 1;
   if (d == 1) { q(1) = M; }
   else
   {
      q(1 + fp["roll-axis"].get<int>()) += M * cos(a);
      q(1 + fp["pitch-axis"].get<int>()) += M * sin(a);
   }
   q(d + 1) = 1 / 1.4 / 0.4 + 0.5 * M * M;
   return q;
}
double gauss(double len, const Vector &xc, const Vector &x)
{
   double r2 = 0;
   for (int i = 0; i < x.Size(); ++i) { r2 += (x(i) - xc(i)) * (x(i) - xc(i)); }
   return exp(-r2 / (len * len));
}
void pump_state(double t, const Vector &, Vector &q)
{
   double xl = 0.05 * (1 - cos(t)), rho = 1 / (1 - xl), m = rho * 0.05 * sin(t);
   q(0) = rho;
   q(1) = m;
   q(2) = 0;
   q(3) = pow(rho, 1.4) / 0.4 + 0.5 * m * m / rho;
}
double smooth_scale(double len, const Vector &xc, const Vector &x) { return gauss(len, xc, x); }

/// the terms that a set of options names
template <int d, bool ent>
Terms expected(Flow<d, ent> &F, const json &o, double time, double control, const Vector &xc)
{
   Terms ts;
   auto &st = F.stack;
   auto *fec = F.fec.get();
   const json &fp = o["flow-param"], &sd = o["space-dis"];
   bool visc = fp["viscous"];
   double Re = fp["Re"], Pr = fp["Pr"], mu = fp["mu"];
   auto add = [&](mfem::NonlinearFormIntegrator *I, char w, const std::vector<int> &a = {}) { ts.push_back({std::unique_ptr<mfem::NonlinearFormIntegrator>(I), w, a}); };
   if (sd["flux-fun"] == "IR") { add(new IsmailRoeIntegrator<d, ent>(st), 'D'); }
   else { add(new EulerIntegrator<d>(st), 'D'); }
   if (fp.value("inviscid-mms", false)) { add(new InviscidMMSIntegrator(-1.0, d), 'D'); }
   if (sd["lps-coeff"] > 0.0) { add(new EntStableLPSIntegrator<d, ent>(st, 1.0, sd["lps-coeff"].get<double>()), 'D'); }
   if (visc)
   {
      add(new ESViscousIntegrator<d>(st, Re, Pr, mu), 'D');
      if (fp.value("viscous-mms", false)) { add(new NavierStokesMMSIntegrator(Re, Pr, -1.0, d), 'D'); }
   }
   if (sd["basis-type"] == "dsbp") { add(new InterfaceIntegrator<d, ent>(st, sd["iface-coeff"].get<double>(), fec), 'I'); }
   if (!o.contains("bcs")) { return ts; }
   const json &b = o["bcs"];
   Vector qf = free_stream<d>(fp);
   auto at = [&](const char *n) { return b[n].get<std::vector<int>>(); };
   miso::MISOInputs in({{"time", time}, {"control", control}, {"x-actuator", xc}});
   if (!visc)
   {
      if constexpr (d == 2) { if (b.contains("vortex")) { add(new IsentropicVortexBC<d, ent>(st, fec), 'B', at("vortex")); } }
      if (b.contains("slip-wall")) { add(new SlipWallBC<d, ent>(st, fec), 'B', at("slip-wall")); }
      if (b.contains("far-field")) { add(new FarFieldBC<d, ent>(st, fec, qf), 'B', at("far-field")); }
      if (b.contains("pump"))
      {
         auto *I = new EntropyConserveBC<d, ent>(st, fec, pump_state);
         setInputs(*I, in);
         add(I, 'B', at("pump"));
      }
      if (b.contains("control"))
      {
         auto *I = new ControlBC<d, ent>(st, fec, smooth_scale, xc, 0.1);
         setInputs(*I, in);
         add(I, 'B', at("control"));
      }
   }
   else
   {
      if (b.contains("slip-wall")) { add(new ViscousSlipWallBC<d>(st, fec, Re, Pr, mu), 'B', at("slip-wall")); }
      if (b.contains("no-slip-adiabatic")) { add(new NoSlipAdiabaticWallBC<d>(st, fec, Re, Pr, qf, mu), 'B', at("no-slip-adiabatic")); }
      if (b.contains("far-field")) { add(new FarFieldBC<d, ent>(st, fec, qf), 'B', at("far-field")); }
      if (b.contains("viscous-mms"))
      {
         add(new ViscousExactBC<d>(st, fec, Re, Pr, [](const Vector &x, Vector &u) { viscousMMSExact<double>(d, x.GetData(), u.GetData()); }, mu), 'B', at("viscous-mms"));
      }
      if (b.contains("control"))
      {
         auto *I = new ViscousControlBC<d>(st, fec, Re, Pr, qf, smooth_scale, xc, 0.1, mu);
         setInputs(*I, in);
         add(I, 'B', at("control"));
      }
   }
   return ts;
}
/// a choice of size that fits the discretization
template <int d>
Size pick_size(bool dg)
{
   if (d == 1) { return pick(std::vector<Size>{{1, 1}, {2, 1}}, "size"); }
   if (d == 2)
   {
      if (thorough()) { return pick(std::vector<Size>{{0, 1}, {1, 2}, {2, 2}, {3, 1}}, "size"); }
      return pick(std::vector<Size>{{0, 1}, {1, 2}}, "size");
   }
   if (thorough()) { return pick(std::vector<Size>{{0, 1}, {1, 2}}, "size"); }
   return {0, 2};
}
template <int d, bool ent>
void check_against(Flow<d, ent> &F, FlowResidual<d, ent> &R, const json &o, int kind, bool jac, double shift = 0)
{
   Vector u = F.state(kind, 2);
   double t = 0.8, c = 0.3;
   Vector xc(d);
   for (int k = 0; k < d; ++k) { xc(k) = 0.52 + 0.1 * k + shift; }
   MISOInputs in({{"state", u}, {"time", t}, {"control", c}, {"x-actuator", xc}});
   Vector r(getSize(R));
   r = 7.0;
   evaluate(R, in, r);
   auto T = expected<d, ent>(F, o, t, c, xc);
   same("residual", r, sum_residual(*F.fes, T, u));
   outcome(hash_of(r.GetData(), r.Size() * sizeof(double)));
   if (jac)
   {
      DenseMatrix J = dense(getJacobian(R, in, "state"));
      same_matrix("jacobian", J, sum_jacobian(*F.fes, T, u));
   }
}
/// which boundary part carries which condition
void bc_lists(json &o, const std::vector<S> &names, int nb)
{
   json b = json::object();
   int sh = choose(2, "attribute shift");
   int cover = choose(3, "boundary lists");
   // 0: one condition on every part; 1: two conditions, parts split; 2: overlapping
   int k = choose((int)names.size(), "first condition");
   std::vector<int> all, even, odd;
   for (int a = 1; a <= nb; ++a)
   {
      all.push_back(a);
      ((a + sh) % 2 ? odd : even).push_back(a);
   }
   if (cover == 0) { b[names[k]] = sh ? odd : all; }
   else
   {
      int k2 = choose((int)names.size() - 1, "second condition");
      k2 += k2 >= k;
      b[names[k]] = even;
      b[names[k2]] = cover == 1 ? odd : all;
   }
   o["bcs"] = b;
}
template <int d, bool ent>
void assembly()
{
   fr::Quiet q;
   json o = base_options(d);
   bool visc = d > 1 && !ent && choose(2, "viscous");
   bool dg = d == 2 && !visc && choose(2, "discontinuous");
   int flux = ent ? 0 : choose(2, "flux");
   int lps = choose(2, "lps");
   int mms = d > 1 ? choose(2, "mms") : 0;
   Size s = pick_size<d>(dg);
   auto &fp = o["flow-param"];
   fp["viscous"] = visc;
   fp["entropy-state"] = ent;
   if (mms) { fp[visc ? "viscous-mms" : "inviscid-mms"] = true; }
   auto &sd = o["space-dis"];
   sd["flux-fun"] = flux ? "Euler" : "IR";
   sd["lps-coeff"] = lps ? 0.4 : 0.0;
   sd["degree"] = s.p;
   sd["basis-type"] = dg ? "dsbp" : "csbp";
   if (d > 1 && choose(2, "boundary conditions"))
   {
      std::vector<S> names = visc ? std::vector<S>{"slip-wall", "no-slip-adiabatic", "far-field", "viscous-mms", "control"} : std::vector<S>{"slip-wall", "far-field", "control"};
      if (d == 2 && !visc)
      {
         names.push_back("vortex");
         names.push_back("pump");
      }
      bc_lists(o, names, d == 2 ? 4 : 6);
   }
   else if (choose(2, "empty list")) { o["bcs"] = json::object(); }
   bool away = o.contains("bcs") && o["bcs"].contains("vortex");
   Flow<d, ent> F(s.p, s.order, dg, away);
   FlowResidual<d, ent> R(o, *F.fes, F.fields, F.stack);
   MC_CHECK(getSize(R) == F.fes->GetTrueVSize(), "size", "" << getSize(R));
   check_against<d, ent>(F, R, o, SMOOTH, d < 3 || thorough() || s.p == 0, away ? 1.2 : 0);
   if (thorough()) { check_against<d, ent>(F, R, o, ROUGH, true, away ? 1.2 : 0); }
}
void s_assembly1() { choose(2, "state variables") ? assembly<1, true>() : assembly<1, false>(); }
void s_assembly2() { choose(2, "state variables") ? assembly<2, true>() : assembly<2, false>(); }
void s_assembly3() { choose(2, "state variables") ? assembly<3, true>() : assembly<3, false>(); }

/// all the numbers that the options carry reach the terms that use them
template <int d>
void parameters()
{
   fr::Quiet q;
   json o = base_options(d);
   auto &fp = o["flow-param"];
   fp["viscous"] = choose(2, "viscous") == 1;
   fp["mach"] = pick(std::vector<double>{0.4, 1.3}, "mach");
   fp["aoa"] = pick(std::vector<double>{0.0, 12.0, -30.0, 180.0}, "aoa");
   int ax = choose(d == 2 ? 2 : 6, "axes");
   static const int A3[6][2] = {{0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}};
   fp["roll-axis"] = A3[ax][0];
   fp["pitch-axis"] = A3[ax][1];
   if (fp["viscous"])
   {
      fp["Re"] = pick(std::vector<double>{12.0, 900.0}, "Re");
      fp["Pr"] = pick(std::vector<double>{0.8, 0.72}, "Pr");
      fp["mu"] = pick(std::vector<double>{0.7, -1.0}, "mu");
   }
   auto &sd = o["space-dis"];
   sd["lps-coeff"] = pick(std::vector<double>{0.0, 0.4, 2.0}, "lps");
   bool dg = d == 2 && !fp["viscous"] && choose(2, "discontinuous");
   if (dg)
   {
      sd["basis-type"] = "dsbp";
      sd["iface-coeff"] = pick(std::vector<double>{0.0, 0.6, 1.0}, "iface");
   }
   o["bcs"] = {{"far-field", {1, 2, 3}}};
   if (fp["viscous"]) { o["bcs"]["no-slip-adiabatic"] = {4}; }
   Flow<d, false> F(d == 2 ? 1 : 0, 2, dg);
   FlowResidual<d, false> R(o, *F.fes, F.fields, F.stack);
   check_against<d, false>(F, R, o, SMOOTH, false);
   Vector qf(d + 2);
   qf = 9.0;
   R.getFreeStreamState(qf);
   same("free_stream", qf, free_stream<d>(fp), 1e-14);
   MC_CHECK(R.isViscous() == fp["viscous"].get<bool>() && same_bits(R.getViscosity(), fp["mu"].get<double>()) && same_bits(R.getMISO(), fp["mach"].get<double>()), "getters", "viscous/mu/mach");
   MC_CHECK(close(R.getAoA(), fp["aoa"].get<double>() * M_PI / 180, 1e-15) && same_bits(R.getReynolds(), fp["Re"].get<double>()) && same_bits(R.getPrandtl(), fp["Pr"].get<double>()), "getters", "aoa/Re/Pr");
   MC_CHECK(R.getIRoll() == A3[ax][0] && R.getIPitch() == A3[ax][1], "getters", "axes");
}
void s_parameters() { choose(2, "dim") ? parameters<3>() : parameters<2>(); }

/// entropy, entropy change, mass matrix, time step and error measures
template <int d, bool ent>
void exact_state(const Vector &x, Vector &u)
{
   auto s = Mix<d>::smooth(x, 5);
   auto q = ent ? s.entv() : s.cons();
   for (int k = 0; k < d + 2; ++k) { u(k) = (double)q[k]; }
}
template <int d, bool ent>
gas::Prim<d> prim_of(const double *u)
{
   gas::V<d> q;
   for (int k = 0; k < d + 2; ++k) { q[k] = u[k]; }
   return ent ? gas::from_ent<d>(q) : gas::from_cons<d>(q);
}
template <int d, bool ent>
void functionals()
{
   fr::Quiet q;
   json o = base_options(d);
   bool dg = d == 2 && choose(2, "discontinuous");
   Size s = pick_size<d>(dg);
   bool steady = choose(2, "steady");
   bool visc = d > 1 && !ent && !dg && choose(2, "viscous");
   o["time-dis"]["steady"] = steady;
   o["flow-param"]["entropy-state"] = ent;
   o["flow-param"]["viscous"] = visc;
   o["space-dis"]["basis-type"] = dg ? "dsbp" : "csbp";
   o["space-dis"]["degree"] = s.p;
   o["space-dis"]["lps-coeff"] = choose(2, "lps") ? 0.4 : 0.0;
   if (d == 2 && !visc) { o["bcs"] = {{"far-field", {1, 2}}, {"slip-wall", {3}}, {"pump", {4}}}; }
   if (d == 3) { o["bcs"] = {{"far-field", {1, 2, 5}}, {"slip-wall", {3, 4, 6}}}; }
   if (d == 2 && visc) { o["bcs"] = {{"far-field", {1, 2}}, {"slip-wall", {3, 4}}}; }
   int kind = choose(3, "state");
   Flow<d, ent> F(s.p, s.order, dg);
   FlowResidual<d, ent> R(o, *F.fes, F.fields, F.stack);
   const Vector u = F.state(kind, 2);
   mfem::ParGridFunction g(F.fes.get());
   g.SetFromTrueDofs(u);
   const int ns = d + 2;
   long double H = 0, err[d + 3] = {0};
   double dt = 1e300;
   mfem::Array<int> dofs;
   const double cfl = 0.9;
   Vector m(F.fes->GetVSize()), w(F.fes->GetVSize());
   m = 0.0;
   for (int e = 0; e < F.fes->GetNE(); ++e)
   {
      auto &el = F.D.el(e);
      F.fes->GetElementDofs(e, dofs);
      for (int i = 0; i < dofs.Size(); ++i)
      {
         auto a = prim_of<d, ent>(g.GetData() + dofs[i] * ns);
         auto x = F.D.node_x(e, i);
         auto b = Mix<d>::smooth(x, 5);
         double J = F.D.detJ(e, i), vol = el.getDiagNormEntry(i) * J;
         H += vol * (-a.rho * a.s() / gas::g1);
         auto qa = a.cons(), qb = b.cons();
         auto wa = a.entv();
         for (int k = 0; k < ns; ++k)
         {
            long double t = vol * (qa[k] - qb[k]) * (qa[k] - qb[k]);
            err[k] += t;
            err[ns] += t;
            m(dofs[i] * ns + k) += steady ? vol / pow(J, 1.0 / d) : vol;
            w(dofs[i] * ns + k) = (double)wa[k];
         }
         for (int j = 0; j < dofs.Size(); ++j)
         {
            if (j == i) { continue; }
            auto y = F.D.node_x(e, j);
            y -= x;
            double l = y.Norml2();
            gas::Dir<d> n;
            for (int k = 0; k < d; ++k) { n[k] = y(k) / l; }
            dt = std::min(dt, (double)(cfl * l / (fabsl(a.un(n)) + a.a())));
         }
      }
   }
   double t = 0.8;
   MISOInputs in({{"state", u}, {"time", t}});
   double He = calcEntropy(R, in);
   MC_CHECK(close(He, (double)H, 1e-10), "entropy", "" << He << " for " << (double)H);
   if (steady || d != 1)
   {
      // the time is the one at which the residual is evaluated
      Vector r(u.Size()), dot(u.Size());
      evaluate(R, in, r);
      Vector wt;
      mfem::ParGridFunction wg(F.fes.get());
      wg = w;
      wg.GetTrueDofs(wt);
      auto T = expected<d, ent>(F, o, t, 0, Vector());
      double want = sum_energy(*F.fes, T, u);
      MC_CHECK(fabs(want - wt * r) <= 1e-9 * std::max(1.0, fabs(want)), "entropy_change.energy", "" << "energies sum to " << want << ", w.r is " << wt * r);
      double step_dt = pick(std::vector<double>{0.0, 0.35}, "dt");
      dot = 0.2;
      // another time in between
      evaluate(R, MISOInputs({{"state", u}, {"time", 2.9}}), dot);
      double got = calcEntropyChange(R, MISOInputs({{"state", u}, {"state_dot", dot}, {"time", t}, {"dt", step_dt}}));
      MC_CHECK(fabs(got - wt * r) <= 1e-9 * std::max(1.0, fabs(want)), "entropy_change", "" << got << " for w.r = " << wt * r << " (dt " << step_dt << ")");
   }
   auto *M = getMassMatrix(R, o);
   MC_CHECK(M && M == getMassMatrix(R, o), "mass", "no matrix, or a second one");
   DenseMatrix Md = dense(*M), Mr(M->Height());
   {
      auto *P = F.fes->GetProlongationMatrix();
      Vector e1(F.fes->GetTrueVSize()), l(F.fes->GetVSize()), c(F.fes->GetTrueVSize());
      for (int j = 0; j < e1.Size(); ++j)
      {
         e1 = 0.0;
         e1(j) = 1;
         P->Mult(e1, l);
         for (int i = 0; i < l.Size(); ++i) { l(i) *= m(i); }
         P->MultTranspose(l, c);
         Mr.SetCol(j, c);
      }
   }
   same_matrix("mass", Md, Mr, 1e-11);
   double dtm = R.minCFLTimeStep(cfl, g);
   MC_CHECK(close(dtm, dt, 1e-9), "cfl", "" << dtm << " for " << dt);
   for (int k = -1; k < ns; ++k)
   {
      double l2 = R.calcConservativeVarsL2Error(g, exact_state<d, ent>, k), want = sqrt((double)err[k < 0 ? ns : k]);
      MC_CHECK(fabs(l2 - want) <= 1e-9 * std::max(1.0, want), "l2_error", "" << "entry " << k << ": " << l2 << " for " << want);
   }
   fingerprint(He);
   fingerprint(dtm);
   step(10);
}
void s_functionals()
{
   switch (choose(6, "instance"))
   {
   case 0: return functionals<1, false>();
   case 1: return functionals<1, true>();
   case 2: return functionals<2, false>();
   case 3: return functionals<2, true>();
   case 4: return functionals<3, false>();
   default: return functionals<3, true>();
   }
}
template <int d, bool ent>
void outputs()
{
   fr::Quiet q;
   json o = base_options(d);
   bool visc = !ent && choose(2, "viscous");
   auto &fp = o["flow-param"];
   fp["viscous"] = visc;
   fp["entropy-state"] = ent;
   fp["aoa"] = pick(std::vector<double>{0.0, 12.0, -75.0}, "aoa");
   fp["mach"] = pick(std::vector<double>{0.4, 1.3}, "mach");
   int ax = d == 2 ? choose(2, "axes") : choose(3, "axes");
   static const int A[3][2] = {{0, 1}, {1, 0}, {2, 1}};
   fp["roll-axis"] = A[ax][0];
   fp["pitch-axis"] = A[ax][1];
   Flow<d, ent> F(d == 2 ? 1 : 0, 2, false);
   // options set at construction, or later
   json o1 = o;
   bool later = choose(2, "options set later");
   if (later)
   {
      o1["flow-param"]["mach"] = 0.7;
      o1["flow-param"]["aoa"] = 3.0;
      o1["flow-param"]["Re"] = 50.0;
   }
   FlowResidual<d, ent> R(o1, *F.fes, F.fields, F.stack);
   if (later) { setOptions(R, o); }
   auto fun = pick(std::vector<S>{"drag", "lift", "entropy", "boundary-entropy", "far-field-supply-rate", "thrust"}, "output");
   int nb = d == 2 ? 4 : 6;
   std::vector<int> bd;
   int mask = fun == "entropy" || fun == "thrust" ? 0 : pick(d == 2 ? std::vector<int>{1, 2, 4, 8, 5, 15} : std::vector<int>{1, 8, 33, 63}, "boundaries");
   for (int i = 0; i < nb; ++i) { if (mask >> i & 1) { bd.push_back(i + 1); } }
   json oo = {{"boundaries", bd}};
   if (fun == "thrust")
   {
      bool thrown = false;
      try { R.constructOutput(fun, oo); }
      catch (const MISOException &) { thrown = true; }
      MC_CHECK(thrown, "output.unknown", "an output that does not exist was made");
      return;
   }
   if (ent && fun == "far-field-supply-rate") { return; }
   auto out = R.constructOutput(fun, oo);
   double a = fp["aoa"].get<double>() * M_PI / 180, M = fp["mach"];
   Vector dir(d);
   dir = 0.0;
   if (fun == "drag")
   {
      dir(A[ax][0]) = cos(a) / (M * M);
      dir(A[ax][1]) = sin(a) / (M * M);
   }
   else
   {
      dir(A[ax][0]) = -sin(a) / (M * M);
      dir(A[ax][1]) = cos(a) / (M * M);
   }
   Vector qf = free_stream<d>(fp), xc(d), x0(d);
   x0 = 0.0;
   x0(0) = 0.5;
   for (int k = 0; k < d; ++k) { xc(k) = 0.52 + 0.1 * k; }
   Terms T;
   bool move = fun == "boundary-entropy" && choose(2, "actuator given");
   auto add = [&](mfem::NonlinearFormIntegrator *I) { T.push_back({std::unique_ptr<mfem::NonlinearFormIntegrator>(I), 'B', bd}); };
   if (fun == "drag" || fun == "lift")
   {
      if (visc) { add(new SurfaceForce<d>(F.stack, F.fec.get(), d + 2, fp["Re"].get<double>(), fp["Pr"].get<double>(), qf, dir, fp["mu"].get<double>())); }
      else { add(new PressureForce<d, ent>(F.stack, F.fec.get(), dir)); }
   }
   else if (fun == "boundary-entropy") { add(new BoundaryEntropy<d, ent>(F.stack, F.fec.get(), smooth_scale, move ? xc : x0, 0.1)); }
   else if (fun == "far-field-supply-rate") { add(new SupplyRate<d, ent>(F.stack, F.fec.get(), qf)); }
   else { T.push_back({std::make_unique<EntropyIntegrator<d, ent>>(F.stack), 'D', {}}); }
   for (int kind : {SMOOTH, ROUGH})
   {
      Vector u = F.state(kind, 2);
      MISOInputs in({{"state", u}});
      if (move) { in.emplace("x-actuator", xc); }
      setInputs(out, in);
      double got = calcOutput(out, in), want = sum_energy(*F.fes, T, u);
      MC_CHECK(std::isfinite(want) && fabs(got - want) <= 1e-11 * std::max(1e-3, fabs(want)), "output.value", "" << fun << " is " << got << " for " << want);
      if (fun == "drag" || fun == "lift")
      {
         Vector p(u.Size());
         p = 4.0;
         calcOutputPartial(out, "state", in, p);
         same("output.partial", p, sum_residual(*F.fes, T, u));
      }
      MC_CHECK(getSize(out) == 1, "output.size", "" << fun << ": size " << getSize(out));
      fingerprint(got);
      step();
   }
}
void s_outputs()
{
   switch (choose(4, "instance"))
   {
   case 0: return outputs<2, false>();
   case 1: return outputs<2, true>();
   case 2: return outputs<3, false>();
   default: return outputs<3, true>();
   }
}
/// options that cannot be honoured are refused
template <int d, bool ent>
void refuse()
{
   fr::Quiet q;
   json o = base_options(d);
   o["flow-param"]["entropy-state"] = ent;
   int bad = choose(11, "fault");
   bool dg = false;
   switch (bad)
   {
   case 0: o.erase("flow-param"); break;
   case 1: o.erase("space-dis"); break;
   case 2: o["flow-param"]["roll-axis"] = o["flow-param"]["pitch-axis"]; break;
   case 3: o["flow-param"]["roll-axis"] = pick(std::vector<int>{-1, 3, d == 1 ? 3 : d}, "axis"); break;
   case 4: o["flow-param"]["pitch-axis"] = pick(std::vector<int>{-1, 3, d == 1 ? 3 : d}, "axis"); break;
   case 5:
      if (!ent) { return; }
      o["space-dis"]["flux-fun"] = "Euler";
      break;
   case 6:
      if (d != 2 || ent) { return; }
      dg = true;
      o["flow-param"]["viscous"] = true;
      o["space-dis"]["basis-type"] = "dsbp";
      break;
   case 7:
      if (d != 3) { return; }
      o["bcs"] = {{"vortex", {1}}};
      break;
   case 8:
      if (d == 1) { return; }
      o["bcs"] = {{"far-field", "everywhere"}};
      break;
   case 9: o["lin-prec"]["type"] = "magic"; break;
   default: break;  // nothing wrong
   }
   Flow<d, ent> F(1, 1, dg);
   int thrown = 0;
   try
   {
      FlowResidual<d, ent> R(o, *F.fes, F.fields, F.stack);
      getPreconditioner(R);
   }
   catch (const MISOException &) { thrown = 1; }
   catch (const json::exception &) { thrown = 2; }
   if (bad == 10) { MC_CHECK(!thrown, "refuse.good", "sound options are refused"); }
   else if (bad == 8) { MC_CHECK(thrown, "refuse", "a malformed list of attributes was accepted"); }
   else { MC_CHECK(thrown == 1, "refuse", "" << "fault " << bad << " was accepted (" << thrown << ")"); }
   step();
}
void s_refuse()
{
   switch (choose(6, "instance"))
   {
   case 0: return refuse<1, false>();
   case 1: return refuse<1, true>();
   case 2: return refuse<2, false>();
   case 3: return refuse<2, true>();
   case 4: return refuse<3, false>();
   default: return refuse<3, true>();
   }
}
/// a preconditioner of every kind leads GMRES to the solution
void s_precond()
{
   fr::Quiet q;
   json o = base_options(2);
   auto type = pick(std::vector<S>{"hypreeuclid", "hypreilu", "hypreboomeramg", "blockilu"}, "type");
   o["lin-prec"]["type"] = type;
   o["bcs"] = {{"far-field", {1, 2, 3, 4}}};
   o["space-dis"]["lps-coeff"] = 0.4;
   Flow<2, false> F(1, 2, false);
   FlowResidual<2, false> R(o, *F.fes, F.fields, F.stack);
   auto *P = getPreconditioner(R);
   MC_CHECK(P && P == getPreconditioner(R), "precond", "no preconditioner, or a second one");
   bool kind = type == "hypreeuclid" ? dynamic_cast<mfem::HypreEuclid *>(P) != nullptr : type == "hypreilu" ? dynamic_cast<mfem::HypreILU *>(P) != nullptr : type == "blockilu" ? dynamic_cast<mfem::BlockILU *>(P) != nullptr : dynamic_cast<mfem::HypreBoomerAMG *>(P) != nullptr;
   MC_CHECK(kind, "precond.kind", "" << type);
   step();
}
/// histories on one residual
template <int d>
void history()
{
   fr::Quiet q;
   json o = base_options(d);
   bool visc = choose(2, "viscous");
   o["flow-param"]["viscous"] = visc;
   o["space-dis"]["lps-coeff"] = 0.4;
   if (d == 2 && !visc) { o["bcs"] = {{"pump", {1}}, {"control", {2, 3}}, {"far-field", {4}}}; }
   else if (d == 2) { o["bcs"] = {{"slip-wall", {1}}, {"control", {2, 3}}, {"far-field", {4}}}; }
   else { o["bcs"] = {{"slip-wall", {1}}, {"control", {2, 3}}, {"far-field", {4, 5}}}; }
   Flow<d, false> F(d == 2 ? 1 : 0, 1, false);
   FlowResidual<d, false> R(o, *F.fes, F.fields, F.stack);
   Vector X[3] = {Vector(d), Vector(d), Vector(d)};
   X[0] = 0.0;
   X[0](0) = 0.5;
   for (int k = 0; k < d; ++k)
   {
      X[1](k) = 0.52 + 0.1 * k;
      X[2](k) = 0.9 - 0.2 * k;
   }
   Vector U[2] = {F.state(SMOOTH, 2), F.state(ROUGH, 4)};
   double time = 0.3, control = 0;
   int at = 0;
   setInputs(R, MISOInputs({{"time", time}}));
   int len = thorough() ? 5 : 4;
   for (int k = 0; k < len; ++k)
   {
      switch (choose(5, "operation"))
      {
      case 0:
         time += 0.9;
         setInputs(R, MISOInputs({{"time", time}}));
         break;
      case 1:
         control = 0.2 * (k + 1);
         setInputs(R, MISOInputs({{"control", control}, {"x-actuator", X[1 + k % 2]}}));
         at = 1 + k % 2;
         break;
      case 2:
      {
         Vector &u = U[k % 2], r(u.Size());
         evaluate(R, MISOInputs({{"state", u}}), r);
         auto T = expected<d, false>(F, o, time, control, X[at]);
         same("history.residual", r, sum_residual(*F.fes, T, u));
         break;
      }
      case 3:
      {
         Vector &u = U[(k + 1) % 2];
         auto &J = getJacobian(R, MISOInputs({{"state", u}}), "state");
         auto T = expected<d, false>(F, o, time, control, X[at]);
         Vector v(u.Size()), a(u.Size()), b(u.Size());
         for (int i = 0; i < v.Size(); ++i) { v(i) = fr::irr(i, 3); }
         J.Mult(v, a);
         sum_jacobian(*F.fes, T, u).Mult(v, b);
         same("history.jacobian", a, b);
         break;
      }
      default:
      {
         Vector &u = U[k % 2], dot(u.Size());
         dot = 0.1;
         time += 0.4;
         double c = calcEntropyChange(R, MISOInputs({{"state", u}, {"state_dot", dot}, {"time", time}, {"dt", 0.25}}));
         auto T = expected<d, false>(F, o, time, control, X[at]);
         double want = sum_energy(*F.fes, T, u);
         MC_CHECK(fabs(c - want) <= 1e-9 * std::max(1.0, fabs(want)), "history.entropy_change", "" << c << " for " << want);
         double h = calcEntropy(R, MISOInputs({{"state", u}}));
         Terms E;
         E.push_back({std::make_unique<EntropyIntegrator<d, false>>(F.stack), 'D', {}});
         MC_CHECK(close(h, sum_energy(*F.fes, E, u), 1e-10), "history.entropy", "" << h);
      }
      }
   }
}
void s_history() { choose(2, "dim") ? history<3>() : history<2>(); }
}  // namespace
int main(int argc, char **argv)
{
   return run(argc, argv, "C36",
              [] { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
              {{"assembly1", s_assembly1},
               {"assembly2", s_assembly2},
               {"assembly3", s_assembly3},
               {"parameters", s_parameters},
               {"functionals", s_functionals},
               {"outputs", s_outputs},
               {"refuse", s_refuse},
               {"precond", s_precond},
               {"history", s_history}});
}
