// C30: the magnetostatic residual is the sum of the terms its options ask for,
// with exact derivatives wrt state, mesh, temperature and each current.
#include "form_ref.hpp"
#include "mfem_throw.hpp"
#include "current_load.hpp"
#include "current_source_functions.hpp"
#include "electromag_integ.hpp"
#include "magnetic_source_functions.hpp"
#include "magnetostatic_residual.hpp"
#include "mfem_common_integ.hpp"
#include "miso_linearform.hpp"
using namespace fr;
using std::string;
using std::vector;

namespace
{
struct Setup
{
   int g, mo, deg, dg, nu;
   json opt;
   bool three() const { return g >= TET; }
};
adept::Stack &stack()
{
   static adept::Stack s;
   return s;
}
const json &materials()
{
   static const json m = {{"PM", {{"B_r_T_ref", 0.9}, {"T_ref", 0.2}, {"alpha_B_r", -20.0}}}, {"PM2", {{"B_r_T_ref", 1.3}, {"alpha_B_r", 0.5}}}};
   return m;
}
TestCoeff make_nu(const Setup &s) { return s.nu ? TestCoeff(1.3, 0.0, 0.02) : TestCoeff(1.3, 0.0, 0.0, 0.0); }
vector<int> attributes(const json &o)
{
   vector<int> a;
   for (auto &group : o) { for (auto &src : group) { for (int i : src) { a.push_back(i); } } }
   return a;
}
/// the same residual put together by hand
struct Ref
{
   const Setup &s;
   int n;
   miso::MISONonlinearForm nf;
   miso::MISOLinearForm currents, magnets;
   mfem::GridFunctionCoefficient g;
   TestCoeff nu;
   std::unique_ptr<miso::CurrentDensityCoefficient2D> J;
   std::unique_ptr<miso::CurrentLoad> cl;
   std::unique_ptr<miso::MagnetizationCoefficient> M;
   std::unique_ptr<miso::ScalarVectorProductCoefficient> nuM;
   std::unique_ptr<mfem::ScalarVectorProductCoefficient> nuM3;
   Ref(World &w, const Setup &s)
    : s(s), n(w.size("state")), nf(w.fields.at("state").space(), w.fields), currents(w.fields.at("state").space(), w.fields), magnets(w.fields.at("state").space(), w.fields), g(&w.fields.at("dirichlet_bc").gridFunc()), nu(make_nu(s))
   {
      auto &fes = w.fields.at("state").space();
      const auto &o = s.opt;
      const int dim = s.three() ? 3 : 2;
      if (s.three()) { nf.addDomainIntegrator(new miso::CurlCurlNLFIntegrator(nu)); }
      else
      {
         double mu = std::pow(s.deg + 1, 3);
         if (o["space-dis"].contains("sipg-penalty") && o["space-dis"]["sipg-penalty"].get<double>() >= 0) { mu = o["space-dis"]["sipg-penalty"]; }
         nf.addDomainIntegrator(new miso::NonlinearDiffusionIntegrator(nu));
         if (s.dg) { nf.addInteriorFaceIntegrator(new miso::DGInteriorFaceDiffusionIntegrator(nu, mu)); }
         const json b = o.value("bcs", json::object());
         if (b.contains("essential") && s.dg) { nf.addBdrFaceIntegrator(new miso::NonlinearDGDiffusionIntegrator(nu, g, mu), b["essential"].get<vector<int>>()); }
         if (b.contains("weak-essential")) { nf.addBdrFaceIntegrator(new miso::NonlinearDGDiffusionIntegrator(nu, g, mu), b["weak-essential"].get<vector<int>>()); }
      }
      if (o.contains("current"))
      {
         if (s.three()) { cl = std::make_unique<miso::CurrentLoad>(stack(), fes, w.fields, o); }
         else
         {
            J = std::make_unique<miso::CurrentDensityCoefficient2D>(stack(), o["current"]);
            currents.addDomainIntegrator(new miso::DomainLFIntegrator(*J), attributes(o["current"]));
         }
      }
      if (o.contains("magnets"))
      {
         M = std::make_unique<miso::MagnetizationCoefficient>(stack(), o["magnets"], materials(), dim);
         if (s.three())
         {
            nuM3 = std::make_unique<mfem::ScalarVectorProductCoefficient>(nu, *M);
            magnets.addDomainIntegrator(new miso::VectorFEDomainLFCurlIntegrator(*nuM3, -1.0));
         }
         else
         {
            nuM = std::make_unique<miso::ScalarVectorProductCoefficient>(nu, *M);
            magnets.addDomainIntegrator(new miso::MagnetizationSource2DIntegrator(*nuM, w.fields.at("temperature").gridFunc(), 1.0), attributes(o["magnets"]));
         }
      }
      setOptions(nf, o);
      setOptions(currents, o);
      setOptions(magnets, o);
   }
   void operator()(const MISOInputs &in, mfem::Vector &r)
   {
      r.SetSize(n);
      setInputs(nf, in);
      setInputs(currents, in);
      setInputs(magnets, in);
      if (J) { setInputs(*J, in); }
      evaluate(nf, in, r);
      if (cl)
      {
         setInputs(*cl, in);
         addLoad(*cl, r);
      }
      addLoad(currents, r);
      addLoad(magnets, r);
   }
};
Setup pick_setup(bool derivatives)
{
   Setup s;
   const bool deep = thorough() || !derivatives;
   s.g = choose(derivatives && !thorough() ? 3 : 4, "geometry");
   s.dg = s.three() ? 0 : choose(2, "basis");
   s.mo = 1 + choose(s.three() && derivatives && !thorough() ? 1 : 2, "mesh order");
   s.deg = 1 + choose(deep && s.g != HEX ? 2 : 1, "degree");
   s.nu = choose(2, "reluctivity");
   const int n = s.g == TRI ? 4 : s.g == HEX ? 10 : 6;
   json &o = s.opt;
   o["space-dis"] = {{"basis-type", s.three() ? "nedelec" : s.dg ? (s.mo == 1 ? "L2" : "dg") : (s.mo == 1 ? "H1" : "h1")}, {"degree", s.deg}};
   const int pen = choose(s.dg ? 3 : 1, "penalty");
   if (pen == 1) { o["space-dis"]["sipg-penalty"] = 7.5; }
   if (pen == 2) { o["space-dis"]["sipg-penalty"] = -3.0; }
   static const char *precs[] = {"hypreboomeramg", "hypreilu", "none", "hypreams"};
   const int src = choose(3, "currents");
   if (src == 1) { o["current"] = {{"A", {{"box1", {1}}}}, {"B", {{"z", {2}}}}}; }
   if (src == 2) { o["current"] = {{"A", {{"-z", {2}}}}}; }
   const int mag = choose(s.three() ? 2 : 3, "magnets");
   // 3D magnets cover the whole mesh's form; their direction is nil elsewhere
   if (mag == 1) { o["magnets"] = {{"PM", {{"y", {2}}}}}; }
   if (mag == 2) { o["magnets"] = {{"PM", {{"x", {1}}}}, {"PM2", {{"cw", {2}}}}}; }
   o["lin-prec"] = {{"type", precs[s.three() && src != 1 ? 3 : (src + mag) % 3]}, {"printlevel", 0}, {"ilu-type", 0}, {"lev-fill", 1}, {"ilu-reorder", 1}};
   json b = json::object();
   switch (choose(s.three() ? 2 : 4, "boundary conditions"))
   {
   case 0: break;
   case 1: b["essential"] = {1, n}; break;
   case 2: b["weak-essential"] = {3}; break;
   case 3: b["essential"] = {2}; b["weak-essential"] = {1, n}; break;
   }
   if (!b.empty()) { o["bcs"] = b; }
   note(Str() << gname(s.g) << " mesh order " << s.mo << (s.nu ? " nonlinear " : " linear ") << o.dump());
   return s;
}
void fill(World &w, const Setup &s)
{
   const char *basis = s.three() ? "nedelec" : s.dg ? "l2" : "h1";
   w.add("state", basis, s.deg, 1, 3, 0.7, 0.4);
   w.add("adjoint", basis, s.deg, 1, 9);
   w.add("dirichlet_bc", basis, s.deg, 1, 5);
   w.vecs.erase("dirichlet_bc");
   w.add("temperature", "h1", 1, 1, 4, 0.5, 0.6);
   if (s.opt.contains("current"))
   {
      for (auto &p : s.opt["current"].items()) { w.scalars["current_density:" + p.key()] = p.key() == "A" ? 1.75 : -0.5; }
   }
}
vector<bool> essential(World &w, const Setup &s)
{
   vector<bool> e(w.size("state"), false);
   if (s.dg || !s.opt.contains("bcs") || !s.opt["bcs"].contains("essential")) { return e; }
   auto list = s.opt["bcs"]["essential"].get<vector<int>>();
   auto &fes = w.fields.at("state").space();
   mfem::Array<int> d;
   for (int b = 0; b < w.mesh->GetNBE(); ++b)
   {
      if (std::find(list.begin(), list.end(), w.mesh->GetBdrAttribute(b)) == list.end()) { continue; }
      fes.GetBdrElementDofs(b, d);
      for (int i : d) { e[i < 0 ? -1 - i : i] = true; }
   }
   return e;
}
void near(const mfem::Vector &a, const mfem::Vector &b, const string &key, const string &what, double tol)
{
   const double sc = b.Normlinf() + 1e-10;
   for (int i = 0; i < a.Size(); ++i) { MC_CHECK(std::fabs(a(i) - b(i)) <= tol * sc, key, what << ": entry " << i << " is " << a(i) << ", should be " << b(i)); }
}

void value()
{
   Setup s = pick_setup(false);
   Quiet q;
   World w(s.g, s.mo);
   fill(w, s);
   TestCoeff nu = make_nu(s);
   miso::MagnetostaticResidual res(stack(), w.fields.at("state").space(), w.fields, s.opt, materials(), nu);
   Ref ref(w, s);
   const int n = getSize(res);
   MC_CHECK(n == w.size("state"), "size", n);
   const auto ess = essential(w, s);
   const string pt = s.opt["lin-prec"]["type"];
   auto *p = getPreconditioner(res);
   MC_CHECK(pt == "hypreams" ? dynamic_cast<mfem::HypreAMS *>(p) != nullptr : pt == "hypreboomeramg" ? dynamic_cast<mfem::HypreBoomerAMG *>(p) != nullptr : pt == "hypreilu" ? dynamic_cast<mfem::HypreILU *>(p) != nullptr : p == nullptr, "preconditioner",
            "asked for " << pt << ", got " << (p ? "another one" : "none"));
   mfem::Vector r(n), want(n), g(n), e(n), d1(1), jv(n);
   const double tol = s.three() && s.opt.contains("current") ? 1e-7 : 1e-11;
   for (int round = 0; round < 4; ++round)
   {
      for (int i = 0; i < n; ++i) { w.vecs["state"](i) += 0.25 * round; }
      for (int i = 0; i < w.vecs["temperature"].Size(); ++i) { w.vecs["temperature"](i) += 0.3 * round; }
      // in round 1 one current changes, in round 2 none is passed, in round 3 all come back
      MISOInputs in = w.inputs();
      if (round == 1 && w.scalars.count("current_density:A")) { in.at("current_density:A") = 3.0; }
      if (round == 2) { in.erase("current_density:A"); in.erase("current_density:B"); }
      setInputs(res, in);
      r = 99.0;
      evaluate(res, in, r);
      ref(in, want);
      near(r, want, "residual", Str() << "residual, round " << round, tol);
      w.fields.at("dirichlet_bc").setTrueVec(g);
      for (int i = 0; i < n; ++i)
      {
         if (ess[i]) { MC_CHECK(std::fabs(r(i) - (w.vecs["state"](i) - g(i))) <= 1e-13, "residual.essential", "essential row " << i << " is " << r(i) << " instead of " << w.vecs["state"](i) - g(i)); }
      }
      // products wrt the currents: alone, whatever the currents and magnets are, and without a trace
      for (auto &c : w.scalars)
      {
         mfem::Vector up(n), dn(n);
         const double v = c.first == "current_density:A" && (round == 1 || round == 2) ? 3.0 : c.second;
         MISOInputs in2 = in;
         in2.insert_or_assign(c.first, v + 1.0);
         ref(in2, up);
         in2.insert_or_assign(c.first, v - 1.0);
         ref(in2, dn);
         in2.insert_or_assign(c.first, v);
         ref(in2, want);
         up -= dn;
         up *= 0.5;
         if (!s.three())
         {
            d1 = -2.0;
            jv = 0.5;
            jacobianVectorProduct(res, d1, c.first, jv);
            jv -= 0.5;
            jv /= -2.0;
            near(jv, up, "jvp.current", Str() << "forward product wrt " << c.first << ", round " << round, 1e-10);
         }
         for (int i = 0; i < n; ++i)
         {
            e = 0.0;
            e(i) = 1.0;
            const double got = vectorJacobianProduct(res, e, c.first);
            MC_CHECK(std::fabs(got - up(i)) <= std::max(1e-10, tol) * (up.Normlinf() + 1e-10), "vjp.current", "reverse product wrt " << c.first << ", round " << round << ": row " << i << " gives " << got << ", should be " << up(i));
            if (s.three() && i >= 2) { break; }
         }
         r = -7.0;
         evaluate(res, in, r);
         near(r, want, "residual.after", Str() << "residual after products wrt " << c.first << ", round " << round, tol);
      }
      if (!s.three())
      {
         for (auto c : {"current_density:A", "current_density:B", "current_density:C"})
         {
            if (w.scalars.count(c)) { continue; }
            d1 = -2.0;
            jv = 0.5;
            jacobianVectorProduct(res, d1, c, jv);
            MC_CHECK(jv.Min() == 0.5 && jv.Max() == 0.5, "jvp.unknown", "forward product wrt " << c << ", which does not exist");
            e = 1.0;
            MC_CHECK(vectorJacobianProduct(res, e, c) == 0.0, "vjp.unknown", "reverse product wrt " << c << ", which does not exist");
         }
      }
      step();
   }
   outcome(Str() << s.g << s.dg << s.opt.contains("current") << s.opt.contains("magnets") << s.opt.value("bcs", json()).dump());
}

void derivatives()
{
   Setup s = pick_setup(true);
   if (!thorough() && s.nu == 0 && s.opt["space-dis"].contains("sipg-penalty")) { prune(); }
   Quiet q;
   World w(s.g, s.mo);
   fill(w, s);
   TestCoeff nu = make_nu(s);
   miso::MagnetostaticResidual res(stack(), w.fields.at("state").space(), w.fields, s.opt, materials(), nu);
   Opt o;
   o.ess = essential(w, s);
   o.wrt = {"mesh_coords"};
   if (!s.three()) { o.wrt.push_back("temperature"); }
   for (auto &c : w.scalars) { o.scalar.push_back(c.first); }
   // forward products say that they are not implemented in 3D
   if (s.three()) { o.tol = 1e-6; o.jvp = false; }
   if (!s.opt.contains("magnets"))
   {
      // nothing depends on the temperature
      mfem::Vector b(w.size("temperature")), e(getSize(res));
      const MISOInputs in = w.inputs();
      setInputs(res, in);
      linearize(res, in);
      b = 0.5;
      e = 1.0;
      vectorJacobianProduct(res, e, "temperature", b);
      MC_CHECK(b.Min() == 0.5 && b.Max() == 0.5, "vjp.temperature", "reverse product wrt the temperature without magnets");
   }
   check_residual(w, res, o, s.three() ? "magnetostatic3" : "magnetostatic2");
   outcome("derivatives");
}
}  // namespace

int main(int argc, char **argv)
{
   return run(argc, argv, "C30", [] { int a = 0; char **v = nullptr; MPI_Init(&a, &v); }, {{"magnetostatic_value", value}, {"magnetostatic_derivatives", derivatives}});
}
