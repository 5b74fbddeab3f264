// C30: the thermal residual is the sum of the terms its options ask for, with
// exact derivatives; the caller's load is taken as it is and never changed.
#include "form_ref.hpp"
#include "mfem_throw.hpp"
#include "electromag_integ.hpp"
#include "mfem_common_integ.hpp"
#include "thermal_integ.hpp"
#include "thermal_residual.hpp"
using namespace fr;
using std::string;
using std::vector;

namespace
{
struct Setup
{
   int g, mo, deg, dg;
   json opt;
   bool load;
};
const json &materials()
{
   static const json m = {{"steel", {{"kappa", 1.3}, {"rho", 7.0}}},
                          {"copper", {{"kappa", 2.9}, {"rho", 8.0}}},
                          {"mix", {{"kappa", {{"materials", {"copper", "steel"}}, {"weight", "average"}, {"weighted_by", "fill"}}}, {"rho", 5.0}}}};
   return m;
}
/// the same residual put together by hand; owns the coefficients
struct Ref
{
   miso::MISONonlinearForm nf;
   miso::MeshDependentCoefficient g, kappa;
   Ref(World &w, const Setup &s) : nf(w.fields.at("state").space(), w.fields), g(std::make_unique<mfem::GridFunctionCoefficient>(&w.fields.at("dirichlet_bc").gridFunc()))
   {
      const auto &o = s.opt;
      for (auto &c : o["components"])
      {
         const auto &m = materials()[c["material"].get<string>()]["kappa"];
         double k = m.is_number() ? m.get<double>() : 0.0;
         if (!m.is_number())
         {
            const double f = w.scalars.at("fill");
            k = f * materials()["copper"]["kappa"].get<double>() + (1 - f) * materials()["steel"]["kappa"].get<double>();
         }
         if (c.contains("attr")) { kappa.addCoefficient(c["attr"], std::make_unique<mfem::ConstantCoefficient>(k)); }
         else { for (int a : c["attrs"]) { kappa.addCoefficient(a, std::make_unique<mfem::ConstantCoefficient>(k)); } }
      }
      double mu = std::pow(s.deg + 1, 2);
      if (o["space-dis"].contains("sipg-penalty") && o["space-dis"]["sipg-penalty"].get<double>() >= 0) { mu = o["space-dis"]["sipg-penalty"]; }
      nf.addDomainIntegrator(new miso::NonlinearDiffusionIntegrator(kappa));
      if (s.dg) { nf.addInteriorFaceIntegrator(new miso::DGInteriorFaceDiffusionIntegrator(kappa, mu)); }
      const json b = o.value("bcs", json::object());
      auto attrs = [](const json &x) { return (x.is_array() ? x : x["attrs"]).get<vector<int>>(); };
      auto number = [](const json &x, const char *n) { return x.is_array() ? 1.0 : x.value(n, 1.0); };
      if (b.contains("convection")) { nf.addBdrFaceIntegrator(new miso::ConvectionBCIntegrator(number(b["convection"], "h"), number(b["convection"], "fluid_temp")), attrs(b["convection"])); }
      if (b.contains("outflux")) { nf.addBdrFaceIntegrator(new miso::OutfluxBCIntegrator(number(b["outflux"], "flux"), 1.0), attrs(b["outflux"])); }
      if (b.contains("essential") && s.dg) { nf.addBdrFaceIntegrator(new miso::NonlinearDGDiffusionIntegrator(kappa, g, mu), attrs(b["essential"])); }
      if (b.contains("weak-essential")) { nf.addBdrFaceIntegrator(new miso::NonlinearDGDiffusionIntegrator(kappa, g, mu), attrs(b["weak-essential"])); }
      const json in = o.value("interfaces", json::object());
      for (auto &[kind, list] : in.items())
      {
         for (auto &[name, i] : list.items())
         {
            nf.addInternalBoundaryFaceIntegrator(new miso::DGInteriorFaceDiffusionIntegrator(kappa, mu, -1), attrs(i));
            if (kind == "convection") { nf.addInternalBoundaryFaceIntegrator(new miso::InternalConvectionInterfaceIntegrator(i["h"], i["fluid_temp"], name), attrs(i)); }
            else { nf.addInternalBoundaryFaceIntegrator(new miso::ThermalContactResistanceIntegrator(i["h"], name), attrs(i)); }
         }
      }
      setOptions(nf, o);
   }
};
/// exact dense solves for the adjoint
struct Dense : mfem::Solver
{
   mfem::DenseMatrix A;
   void SetOperator(const mfem::Operator &op) override
   {
      height = width = op.Height();
      A.SetSize(height);
      mfem::Vector e(height), c(height);
      for (int j = 0; j < height; ++j)
      {
         e = 0.0;
         e(j) = 1.0;
         op.Mult(e, c);
         A.SetCol(j, c);
      }
   }
   void Mult(const mfem::Vector &x, mfem::Vector &y) const override
   {
      mfem::DenseMatrixInverse inv(A);
      inv.Mult(x, y);
   }
};
Setup pick_setup(bool derivatives)
{
   Setup s;
   s.dg = choose(2, "basis");
   s.g = choose(thorough() || !derivatives ? 4 : 3, "geometry");
   s.mo = 1 + choose(2, "mesh order");
   s.deg = 1 + choose(derivatives && !thorough() ? 1 : 2, "degree");
   const int n = s.g == TRI ? 4 : s.g == HEX ? 10 : 6;
   json &o = s.opt;
   o["space-dis"] = {{"basis-type", s.dg ? (s.mo == 1 ? "L2" : "dg") : (s.mo == 1 ? "H1" : "h1")}, {"degree", s.deg}};
   const int pen = choose(s.dg ? 3 : 1, "penalty");
   if (pen == 1) { o["space-dis"]["sipg-penalty"] = 7.5; }
   if (pen == 2) { o["space-dis"]["sipg-penalty"] = -3.0; }
   const int mat = choose(3, "materials");
   if (mat == 0) { o["components"] = {{"all", {{"attrs", {1, 2}}, {"material", "copper"}}}}; }
   else { o["components"] = {{"a", {{"attr", 1}, {"material", mat == 1 ? "copper" : "mix"}}}, {"b", {{"attr", 2}, {"material", "steel"}}}}; }
   static const char *precs[] = {"hypreboomeramg", "hypreilu", "none"};
   o["lin-prec"] = {{"type", precs[mat]}, {"printlevel", 0}, {"ilu-type", 0}, {"lev-fill", 1}, {"ilu-reorder", 1}};
   json b = json::object();
   switch (choose(7, "boundary conditions"))
   {
   case 0: break;
   case 1: b["convection"] = {1, 3}; break;
   case 2: b["convection"] = {{"attrs", {2}}, {"h", 2.5}}; b["outflux"] = {1, n}; break;
   case 3: b["convection"] = {{"attrs", {2, n}}, {"h", 2.5}, {"fluid_temp", 0.4}}; b["outflux"] = {{"attrs", {3}}, {"flux", -1.7}}; break;
   case 4: b["essential"] = {1, 2}; break;
   case 5: b["weak-essential"] = {3}; b["outflux"] = {{"attrs", {1, 2}}}; break;
   case 6: b["essential"] = {n}; b["weak-essential"] = {1}; b["convection"] = {{"attrs", {2}}, {"fluid_temp", 3.0}}; break;
   }
   if (!b.empty()) { o["bcs"] = b; }
   // the shared face is boundary n + 1
   switch (choose(s.dg ? 4 : 1, "interfaces"))
   {
   case 1: o["interfaces"] = {{"thermal_contact_resistance", {{"gap", {{"attrs", {n + 1}}, {"h", 3.5}}}}}}; break;
   case 2: o["interfaces"] = {{"convection", {{"channel", {{"attrs", {n + 1}}, {"h", 1.5}, {"fluid_temp", 0.25}}}}}}; break;
   case 3: o["interfaces"] = {{"thermal_contact_resistance", {{"gap", {{"attrs", {n + 1}}, {"h", 3.5}}}}}, {"convection", {{"channel", {{"attrs", {n + 1}}, {"h", 1.5}, {"fluid_temp", 0.25}}}}}}; break;
   }
   s.load = choose(2, "load");
   note(Str() << gname(s.g) << " mesh order " << s.mo << (s.load ? " load " : " ") << o.dump());
   return s;
}
void fill(World &w, const Setup &s)
{
   w.add("state", s.dg ? "l2" : "h1", s.deg, 1, 3, 1.0, 0.5);
   w.add("adjoint", s.dg ? "l2" : "h1", s.deg, 1, 9);
   w.add("dirichlet_bc", s.dg ? "l2" : "h1", s.deg, 1, 5);
   w.vecs.erase("dirichlet_bc");
   w.scalars["fill"] = 0.3;
   if (s.load)
   {
      auto &l = w.vecs["thermal_load"];
      l.SetSize(w.size("state"));
      for (int i = 0; i < l.Size(); ++i) { l(i) = irr(i, 21); }
   }
   if (s.opt.contains("interfaces"))
   {
      auto &i = s.opt["interfaces"];
      if (i.contains("thermal_contact_resistance")) { w.scalars["h:gap"] = 4.25; }
      if (i.contains("convection")) { w.scalars["h:channel"] = 2.75; w.scalars["fluid_temp:channel"] = 0.6; }
   }
}
void near(const mfem::Vector &a, const mfem::Vector &b, const string &key, const string &what, double tol = 1e-11)
{
   const double sc = b.Normlinf() + 1e-10;
   MC_CHECK(a.Size() == b.Size(), key, what << ": size " << a.Size() << " instead of " << b.Size());
   for (int i = 0; i < a.Size(); ++i) { MC_CHECK(std::fabs(a(i) - b(i)) <= tol * sc, key, what << ": entry " << i << " is " << a(i) << ", should be " << b(i)); }
}
vector<bool> essential(World &w, const Setup &s)
{
   // every scalar dof of a face with one of the attributes
   vector<bool> e(w.size("state"), false);
   if (s.dg || !s.opt.contains("bcs") || !s.opt["bcs"].contains("essential")) { return e; }
   auto list = s.opt["bcs"]["essential"].get<vector<int>>();
   auto &fes = w.fields.at("state").space();
   mfem::Array<int> d;
   for (int b = 0; b < w.mesh->GetNBE(); ++b)
   {
      if (std::find(list.begin(), list.end(), w.mesh->GetBdrAttribute(b)) == list.end()) { continue; }
      fes.GetBdrElementDofs(b, d);
      for (int i : d) { e[i] = true; }
   }
   return e;
}

// the value: what the options ask for, and the load
void value()
{
   Setup s = pick_setup(false);
   Quiet q;
   World w(s.g, s.mo);
   fill(w, s);
   Ref ref(w, s);
   miso::ThermalResidual res(w.fields.at("state").space(), w.fields, s.opt, materials());
   setOptions(res, s.opt);
   const int n = getSize(res);
   MC_CHECK(n == w.size("state"), "size", n);
   const auto ess = essential(w, s);
   // the preconditioner asked for
   auto *p = getPreconditioner(res);
   const string pt = s.opt["lin-prec"]["type"];
   MC_CHECK(pt == "hypreboomeramg" ? dynamic_cast<mfem::HypreBoomerAMG *>(p) != nullptr : pt == "hypreilu" ? dynamic_cast<mfem::HypreILU *>(p) != nullptr : p == nullptr, "preconditioner", "asked for " << pt << ", got " << (p ? "another one" : "none"));
   for (int round = 0; round < 3; ++round)
   {
      // other states and loads; in the last round the load is not passed again
      for (int i = 0; i < n; ++i)
      {
         w.vecs["state"](i) += 0.25 * round;
         if (s.load && round < 2) { w.vecs["thermal_load"](i) += round; }
      }
      MISOInputs in = w.inputs();
      mfem::Vector keep(s.load ? w.vecs["thermal_load"] : w.vecs["state"]);
      if (s.load && round == 2) { in.erase("thermal_load"); }
      mfem::Vector r(n), want(n);
      setInputs(ref.nf, in);
      evaluate(ref.nf, in, want);
      for (int i = 0; s.load && i < n; ++i)
      {
         if (!ess[i]) { want(i) -= keep(i); }
      }
      setInputs(res, in);
      r = 99.0;
      evaluate(res, in, r);
      near(r, want, "residual", Str() << "residual, round " << round);
      if (s.load)
      {
         for (int i = 0; i < n; ++i) { MC_CHECK(w.vecs["thermal_load"](i) == keep(i), "load:unchanged", "the caller's load was changed in entry " << i << (ess[i] ? " (essential)" : "")); }
      }
      else if (round == 1)
      {
         // an unknown input changes nothing
         in.emplace("other_load", miso::InputVector(keep));
         setInputs(res, in);
         evaluate(res, in, r);
         near(r, want, "residual", "residual with an unrelated input");
      }
      step();
   }
   outcome(Str() << s.dg << s.load << s.opt.value("bcs", json()).dump());
}

// the derivatives
void derivatives()
{
   Setup s = pick_setup(true);
   const bool mix = s.opt["components"].contains("a") && s.opt["components"]["a"]["material"] == "mix";
   if (mix && !thorough()) { prune(); }
   Quiet q;
   World w(s.g, s.mo);
   fill(w, s);
   miso::ThermalResidual res(w.fields.at("state").space(), w.fields, s.opt, materials());
   setOptions(res, s.opt);
   const int n = getSize(res);
   Opt o;
   o.wrt = {"mesh_coords"};
   if (s.load) { o.wrt.push_back("thermal_load"); }
   for (auto c : {"h:gap", "h:channel", "fluid_temp:channel"})
   {
      if (w.scalars.count(c)) { o.scalar.push_back(c); }
   }
   const auto ess = essential(w, s);
   o.ess = ess;
   check_residual(w, res, o, "thermal");
   const MISOInputs in = w.inputs();
   if (s.load)
   {
      mfem::Vector e(n), d(n);
      for (int j = 0; j < n; ++j)
      {
         e = 0.0;
         e(j) = 1.5;
         d = 0.25;
         jacobianVectorProduct(res, e, "thermal_load", d);
         for (int i = 0; i < n; ++i)
         {
            const double want = i == j && !ess[i] ? -1.5 : 0.0;
            MC_CHECK(std::fabs(d(i) - 0.25 - want) <= 1e-14, "thermal.jvp.thermal_load", "forward product wrt the load, direction " << j << ": entry " << i << " accumulated " << d(i) - 0.25 << ", should be " << want);
         }
      }
   }
   // adjoint: R_u^T psi = state_bar in every row
   if (!s.opt.contains("bcs")) { outcome("derivatives"); return; }
   Dense sol;
   setInputs(res, in);
   linearize(res, in);
   auto &J = getJacobian(res, in, "state");
   mfem::Vector bar(n), bar0, psi(n), back(n), c(n), e(n), y(n);
   for (int i = 0; i < n; ++i) { bar(i) = irr(i, 31); }
   bar0 = bar;
   psi = 0.0;
   setUpAdjointSystem(res, sol, in, bar, psi);
   sol.Mult(bar, psi);
   finalizeAdjointSystem(res, sol, in, bar, psi);
   mfem::Vector got(n);
   got = 0.0;
   vectorJacobianProduct(res, psi, "state", got);
   // the operator whose transpose is solved has the Jacobian's rows, and the identity in essential ones
   for (int j = 0; j < n; ++j)
   {
      e = 0.0;
      e(j) = 1.0;
      J.Mult(e, y);
      c(j) = y * psi;
   }
   double sc = 1 + psi.Normlinf();
   mfem::Vector full(n);
   // psi balances the adjoint equation of the residual with essential rows removed
   for (int i = 0; i < n; ++i)
   {
      if (!ess[i]) { MC_CHECK(std::fabs(c(i) - bar0(i)) <= 1e-8 * sc * (1 + sol.A.MaxMaxNorm()), "thermal.adjoint", "adjoint equation " << i << ": " << c(i) << " instead of " << bar0(i)); }
   }
   step();
   outcome("derivatives");
}
}  // namespace

int main(int argc, char **argv)
{
   return run(argc, argv, "C30", [] { int a = 0; char **v = nullptr; MPI_Init(&a, &v); }, {{"thermal_value", value}, {"thermal_derivatives", derivatives}});
}
