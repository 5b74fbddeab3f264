// C28: magnetic energy, virtual work forces and torques, losses, heat sources
// and demagnetisation measures compute what they are named for, and every
// derivative they offer is the derivative of that value.
#include <algorithm>
#include <unordered_set>
#include "form_ref.hpp"
#include "cal2_ke_coefficient.hpp"
#include "cal2_kh_coefficient.hpp"
#include "common_outputs.hpp"
#include "electromag_integ.hpp"
#include "electromag_outputs.hpp"
#include "material_library.hpp"
#include "mfem_common_integ.hpp"
#include "pm_demag_constraint_coeff.hpp"

namespace
{
using namespace fr;
using std::string;
using std::vector;
using Trans = mfem::ElementTransformation;
using Point = mfem::IntegrationPoint;

const vector<vector<int>> ATTRS = {{}, {1}, {2}};
string astr(const vector<int> &a) { string s = "["; for (int i : a) { s += std::to_string(i) + " "; } return s + "]"; }
bool has(const vector<int> &a, int i) { return a.empty() || std::find(a.begin(), a.end(), i) != a.end(); }
json opts(const vector<int> &a)
{
   json o = json::object();
   if (!a.empty()) { o["attributes"] = a; }
   return o;
}
void put(World &w, const string &n) { w.fields.at(n).distributeSharedDofs(w.vecs.at(n)); }

double det(const mfem::DenseMatrix &J)
{
   return J.Height() == 2 ? J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0)
                          : J(0, 0) * (J(1, 1) * J(2, 2) - J(1, 2) * J(2, 1)) - J(0, 1) * (J(1, 0) * J(2, 2) - J(1, 2) * J(2, 0)) + J(0, 2) * (J(1, 0) * J(2, 1) - J(1, 1) * J(2, 0));
}
template <class F>
double integral(World &w, const vector<int> &attrs, F f, int order)
{
   double s = 0.0;
   for (int e = 0; e < w.mesh->GetNE(); ++e)
   {
      if (!has(attrs, w.mesh->GetAttribute(e))) { continue; }
      auto &t = *w.mesh->GetElementTransformation(e);
      auto &ir = mfem::IntRules.Get(t.GetGeometryType(), order);
      for (int i = 0; i < ir.GetNPoints(); ++i)
      {
         auto &ip = ir.IntPoint(i);
         t.SetIntPoint(&ip);
         s += ip.weight * det(t.Jacobian()) * f(t, ip);
      }
   }
   return s;
}
// The value is the integral up to the error of a quadrature rule of moderate
// order; which rule is the code's own business, so any of the usual ones will do.
template <class F>
void check_integral(World &w, const vector<int> &attrs, F f, double v, double scale, const string &key)
{
   double best = 1e300, ref = 0;
   for (int order = 0; order <= 14; ++order)
   {
      const double r = scale * integral(w, attrs, f, order);
      if (std::fabs(v - r) < best) { best = std::fabs(v - r); ref = r; }
   }
   MC_CHECK(best <= 1e-11 * std::max(std::fabs(ref), 1e-3 * std::fabs(scale)), key + ".value", key << ": " << v << ", closest quadrature of its definition " << ref);
}

// in 2D the field is the out of plane component of the potential, its curl the
// rotated gradient
double curl_mag(World &w, Trans &t, const string &name = "state")
{
   mfem::Vector c;
   auto &gf = w.fields.at(name).gridFunc();
   if (w.dim == 3) { gf.GetCurl(t, c); }
   else { gf.GetGradient(t, c); }
   return c.Norml2();
}
void add_curl_state(World &w, int d, int seed, const string &name = "state")
{
   auto &f = w.add(name, w.dim == 3 ? "nd" : "h1", d, 1, seed, 0.08);
   auto &v = w.vecs.at(name);
   mfem::Vector base(v.Size());
   if (w.dim == 3)
   {
      mfem::VectorFunctionCoefficient c(3, [](const mfem::Vector &x, mfem::Vector &y) { y(0) = -1.1 * x(1); y(1) = 1.3 * x(0); y(2) = 0.8 * x(1); });
      f.gridFunc().ProjectCoefficient(c);
   }
   else
   {
      mfem::FunctionCoefficient c([](const mfem::Vector &x) { return 1.2 * x(0) - 0.9 * x(1); });
      f.gridFunc().ProjectCoefficient(c);
   }
   f.setTrueVec(base);
   v += base;
   f.distributeSharedDofs(v);
}
double val(World &w, const string &n, Trans &t, const Point &ip) { return w.fields.at(n).gridFunc().GetValue(t, ip); }

struct Setup
{
   int g, mo, d;
   vector<int> attrs;
};
Setup setup(const string &what, int ndeg = 2, int nattr = 3)
{
   Setup s;
   s.g = choose(4, "geometry");
   s.mo = 1 + choose(2, "mesh order");
   s.d = 1 + choose(ndeg, "degree");
   s.attrs = ATTRS[choose(nattr, "attributes")];
   note(Str() << what << " " << gname(s.g) << " mesh order " << s.mo << " degree " << s.d << " attributes " << astr(s.attrs));
   return s;
}
// reluctivities: constant, varying in space, saturating, both
struct NuKind { double c0, cx, c2; };
const NuKind NU[] = {{1.3, 0, 0}, {1.3, 0.4, 0}, {0.9, 0, 0.35}, {0.9, 0.2, 0.35}};
double energy_density(TestCoeff &nu, Trans &t, const Point &ip, double b)
{
   return 0.5 * nu.Eval(t, ip, 0.0) * b * b + 0.25 * nu.c2 * b * b * b * b;
}

// ---- energy
void s_energy()
{
   Setup s = setup("magnetic energy");
   const int k = choose(4, "reluctivity"), zero = choose(2, "field");
   note(Str() << "reluctivity " << k << (zero ? " no field" : ""));
   Quiet q;
   World w(s.g, s.mo);
   add_curl_state(w, s.d, 4);
   TestCoeff nu(NU[k].c0, NU[k].cx, NU[k].c2);
   miso::FunctionalOutput out(w.fields.at("state").space(), w.fields);
   if (s.attrs.empty()) { out.addOutputDomainIntegrator(new miso::MagneticEnergyIntegrator(nu)); }
   else { out.addOutputDomainIntegrator(new miso::MagneticEnergyIntegrator(nu), s.attrs); }
   if (zero)
   {
      w.vecs.at("state") = 0.0;
      put(w, "state");
      const double v = calcOutput(out, w.inputs());
      MC_CHECK(v == 0.0, "energy.zero", "energy without a field " << v);
   }
   else
   {
      const double v = calcOutput(out, w.inputs());
      check_integral(w, s.attrs, [&](Trans &t, const Point &ip) { return energy_density(nu, t, ip, curl_mag(w, t)); }, v, 1.0, "energy");
   }
   Opt o;
   o.wrt = {"state", "mesh_coords"};
   if (nu.cx != 0.0) { o.wrt.pop_back(); }  // a material's reluctivity does not depend on where it is
   if (zero) { o.tol = 1e-6; }
   if (!zero) { check_output(w, out, o, "energy"); }
   else
   {
      // a minimum: every derivative vanishes
      const MISOInputs in = w.inputs();
      for (const char *n : {"state", "mesh_coords"})
      {
         setInputs(out, in);
         calcOutput(out, in);
         mfem::Vector bar(w.size(n)), ob(1);
         bar = 0.0;
         ob = 1.0;
         vectorJacobianProduct(out, ob, n, bar);
         MC_CHECK(bar.Normlinf() <= 1e-14, string("energy.zero.") + n, "derivative of the energy wrt " << n << " without a field: " << bar.Normlinf());
      }
   }
   outcome("energy");
}

// ---- forces and torques: minus the derivative of the energy outside the body
// as the body is displaced
void s_force()
{
   Setup s;
   s.g = choose(4, "geometry");
   s.mo = 1 + choose(2, "mesh order");
   s.d = 1 + choose(2, "degree");
   const int body = 1 + choose(2, "body"), k = choose(4, "reluctivity"), kind = choose(3, "force, torque, torque with air"), zero = choose(2, "field");
   note(Str() << (kind ? "torque " : "force ") << kind << " " << gname(s.g) << " mesh order " << s.mo << " degree " << s.d << " body " << body << " reluctivity " << k << (zero ? " no field" : ""));
   Quiet q;
   World w(s.g, s.mo);
   const string vn = kind ? "vtorque" : "vforce";
   add_curl_state(w, s.d, 4);
   w.add(vn, "h1", s.mo, w.dim, 6);
   w.vecs.erase(vn);
   if (zero) { w.vecs.at("state") = 0.0; }
   TestCoeff nu(NU[k].c0, NU[k].cx, NU[k].c2);
   const vector<double> axis = kind ? vector<double>{w.dim == 3 ? 0.6 : 0.0, w.dim == 3 ? -1.2 : 0.0, 1.5} : vector<double>{0.7, -0.4, 0.9};
   const vector<double> about = {0.3, -0.2, 0.5};
   json o{{"attributes", {body}}, {"axis", axis}};
   if (kind) { o["about"] = about; }
   const int other = 3 - body;
   if (kind == 2) { o["air_attributes"] = {other}; }
   std::unique_ptr<miso::ForceFunctional> F;
   std::unique_ptr<miso::TorqueFunctional> T;
   auto &fes = w.fields.at("state").space();
   if (kind) { T = std::make_unique<miso::TorqueFunctional>(fes, w.fields, o, nu); }
   else { F = std::make_unique<miso::ForceFunctional>(fes, w.fields, o, nu); }

   // the virtual displacement: that of a rigid body on the body, nothing away from it
   auto &vgf = w.fields.at(vn).gridFunc();
   {
      double nrm = 0.0;
      for (double a : axis) { nrm += a * a; }
      nrm = std::sqrt(nrm);
      mfem::GridFunction X(&w.fields.at(vn).space());
      mfem::VectorFunctionCoefficient id(w.dim, [](const mfem::Vector &x, mfem::Vector &y) { y = x; });
      X.ProjectCoefficient(id);
      vector<char> on(vgf.Size(), 0);
      mfem::Array<int> vd;
      for (int e = 0; e < 2; ++e)
      {
         if (w.mesh->GetAttribute(e) != body) { continue; }
         w.fields.at(vn).space().GetElementVDofs(e, vd);
         for (int i : vd) { on[i] = 1; }
      }
      auto &sp = w.fields.at(vn).space();
      for (int n = 0; n < sp.GetNDofs(); ++n)
      {
         double x[3] = {0, 0, 0}, want[3] = {0, 0, 0};
         for (int c = 0; c < w.dim; ++c) { x[c] = X(sp.DofToVDof(n, c)) - about[c]; }
         if (!kind) { for (int c = 0; c < 3; ++c) { want[c] = axis[c]; } }
         else
         {
            const double a[3] = {axis[0] / nrm, axis[1] / nrm, axis[2] / nrm};
            for (int c = 0; c < 3; ++c) { want[c] = a[(c + 1) % 3] * x[(c + 2) % 3] - a[(c + 2) % 3] * x[(c + 1) % 3]; }
         }
         for (int c = 0; c < w.dim; ++c)
         {
            const int i = sp.DofToVDof(n, c);
            const double ref = on[i] ? want[c] : 0.0;
            MC_CHECK(std::fabs(vgf(i) - ref) <= 1e-12, "force.displacement", "virtual displacement of node " << n << " component " << c << ": " << vgf(i) << ", expected " << ref);
         }
      }
   }
   auto run = [&](auto &out)
   {
      const double v = calcOutput(out, w.inputs());
      if (zero) { MC_CHECK(v == 0.0, "force.zero", "force without a field " << v); }
      else
      {
         miso::FunctionalOutput en(fes, w.fields);
         en.addOutputDomainIntegrator(new miso::MagneticEnergyIntegrator(nu), {other});
         const mfem::Vector X0(w.vecs.at("mesh_coords"));
         mfem::Vector dir(X0.Size());
         auto &from = w.fields.at(vn).space(), &to = w.fields.at("mesh_coords").space();
         for (int n = 0; n < to.GetNDofs(); ++n)
         {
            for (int c = 0; c < w.dim; ++c) { dir(to.DofToVDof(n, c)) = vgf(from.DofToVDof(n, c)); }
         }
         double eps = 0.0;
         auto W = [&]
         {
            add(X0, eps, dir, w.vecs.at("mesh_coords"));
            return calcOutput(en, w.inputs());
         };
         // the reluctivity is that of the material point: it moves along
         const double cx = nu.cx;
         const double ref = -fd(eps, W, 1e-3);
         eps = 0.0;
         W();
         w.vecs.at("mesh_coords") = X0;
         put(w, "mesh_coords");
         // a reluctivity that varies in space moves with neither
         if (cx == 0.0) { MC_CHECK(std::fabs(v - ref) <= 1e-7 * (std::fabs(ref) + 1e-2), "force.value", "force " << v << ", minus the change of the energy " << ref); }
      }
      Opt oo;
      oo.wrt = {"state", "mesh_coords"};
      if (nu.cx != 0.0) { oo.wrt.pop_back(); }
      oo.tol = 1e-6;
      if (zero)
      {
         const MISOInputs in = w.inputs();
         for (auto &n : oo.wrt)
         {
            setInputs(out, in);
            calcOutput(out, in);
            mfem::Vector bar(w.size(n)), ob(1);
            bar = 0.0;
            ob = 1.0;
            vectorJacobianProduct(out, ob, n, bar);
            MC_CHECK(bar.Normlinf() <= 1e-14, "force.zero." + n, "derivative of the force wrt " << n << " without a field: " << bar.Normlinf());
         }
      }
      else { check_output(w, out, oo, "force"); }
   };
   if (kind) { run(*T); }
   else { run(*F); }
   outcome("force");
}

const double TEMP = 1.5;
// fields of a loss: state, temperature, peak flux, thermal adjoint
void loss_fields(World &w, const Setup &s, int fb = 0)
{
   w.add("state", "h1", s.d, 1, 3);
   w.add("temperature", "h1", s.d, 1, 5, 0.4, TEMP);
   w.add("peak_flux", fb ? "l2" : "h1", s.d, 1, 8, 0.3, 1.1);
   w.add("thermal_adjoint", "h1", s.d, 1, 9);
   w.vecs.erase("thermal_adjoint");
}
void winding(World &w)
{
   w.scalars["wire_length"] = 2.3;
   w.scalars["rms_current"] = 1.7;
   w.scalars["strand_radius"] = 0.8;
   w.scalars["strands_in_hand"] = 3.0;
   w.scalars["stack_length"] = 1.4;
   w.scalars["frequency"] = 0.6;
   w.scalars["num_turns"] = 5.0;
   w.scalars["num_slots"] = 7.0;
}
double sc(World &w, const string &n) { return w.scalars.at(n); }

/// something the output does not depend on has no influence
template <class Out>
void check_unrelated(World &w, Out &out, const string &tag)
{
   for (auto wrt : {"unrelated", "no_such_field", "current"})
   {
      if (w.scalars.count(wrt)) { continue; }
      mfem::Vector d(1), ob(1), bar(3);
      d = 1.5;
      ob = -1.75;
      bar = 0.3;
      const double j = jacobianVectorProduct(out, d, wrt);
      MC_CHECK(j == 0, tag + ".unrelated", tag << ": forward product wrt " << wrt << " is " << j);
      vectorJacobianProduct(out, ob, wrt, bar);
      for (int i = 0; i < 3; ++i) { MC_CHECK(bar[i] == 0.3, tag + ".unrelated", tag << ": reverse product wrt " << wrt << " added " << bar[i] - 0.3); }
   }
}

// ---- losses as functionals
void s_dc()
{
   Setup s = setup("dc loss");
   const int k = choose(2, "conductivity");
   Quiet q;
   World w(s.g, s.mo);
   loss_fields(w, s);
   winding(w);
   TestCoeff sigma(1.3, 0.0, k ? 0.2 : 0.0);
   miso::DCLossFunctional out(w.fields, sigma, opts(s.attrs));
   const double v = calcOutput(out, w.inputs());
   for (auto &n : {"state", "temperature", "peak_flux", "mesh_coords"}) { put(w, n); }
   const double vol = integral(w, s.attrs, [](Trans &, const Point &) { return 1.0; }, 8);
   const double c = std::sqrt(2.0) * std::pow(sc(w, "rms_current"), 2) * sc(w, "wire_length") / (M_PI * std::pow(sc(w, "strand_radius"), 2) * sc(w, "strands_in_hand")) / vol;
   check_integral(w, s.attrs, [&](Trans &t, const Point &ip) { return 1.0 / sigma.Eval(t, ip, val(w, "temperature", t, ip)); }, v, c, "dc");
   Opt o;
   o.wrt = {"mesh_coords", "temperature"};
   o.scalar = {"wire_length", "rms_current", "strand_radius", "strands_in_hand"};
   check_output(w, out, o, "dc");
   check_output_scalar(w, out, o, "dc");
   check_unrelated(w, out, "dc");
   outcome("dc");
}
void s_ac()
{
   Setup s = setup("ac loss");
   const int k = choose(2, "conductivity"), fb = choose(2, "flux basis");
   note(Str() << "conductivity " << k << " flux " << (fb ? "L2" : "H1"));
   Quiet q;
   World w(s.g, s.mo);
   loss_fields(w, s, fb);
   winding(w);
   TestCoeff sigma(1.3, 0.0, k ? 0.2 : 0.0);
   miso::ACLossFunctional out(w.fields, sigma, opts(s.attrs));
   const double v = calcOutput(out, w.inputs());
   for (auto &n : {"state", "temperature", "peak_flux", "mesh_coords"}) { put(w, n); }
   const double vol = integral(w, s.attrs, [](Trans &, const Point &) { return 1.0; }, 8);
   const double c = 2 * sc(w, "strands_in_hand") * sc(w, "num_turns") * sc(w, "num_slots") * sc(w, "stack_length") * M_PI * std::pow(sc(w, "strand_radius"), 4) * std::pow(2 * M_PI * sc(w, "frequency"), 2) / 8 / vol;
   check_integral(w, s.attrs, [&](Trans &t, const Point &ip) { const double b = val(w, "peak_flux", t, ip); return b * b * sigma.Eval(t, ip, val(w, "temperature", t, ip)); }, v, c, "ac");
   Opt o;
   o.wrt = {"mesh_coords", "temperature", "peak_flux"};
   o.scalar = {"strand_radius", "frequency", "stack_length", "strands_in_hand", "num_turns", "num_slots"};
   check_output(w, out, o, "ac");
   check_output_scalar(w, out, o, "ac");
   check_unrelated(w, out, "ac");
   outcome("ac");
}

// k0 + kT T + kf f + kb b^2 (+ cross term)
struct LossCoeff : miso::ThreeStateCoefficient
{
   double k0, kT, kf, kb;
   LossCoeff(double k0, double kT, double kf, double kb) : k0(k0), kT(kT), kf(kf), kb(kb) { }
   using miso::ThreeStateCoefficient::Eval;
   double Eval(Trans &, const Point &, double T, double f, double b) override { return k0 + kT * T + kf * f + kb * b * b + 0.1 * kT * T * b; }
   double EvalDerivS1(Trans &, const Point &, double, double, double b) override { return kT + 0.1 * kT * b; }
   double EvalDerivS2(Trans &, const Point &, double, double, double) override { return kf; }
   double EvalDerivS3(Trans &, const Point &, double T, double, double b) override { return 2 * kb * b + 0.1 * kT * T; }
};
json loss_components(const vector<int> &)
{
   json m1{{"name", "hiperco50"}, {"core_loss", {{"model", "CAL2"}, {"T0", 0.5}, {"T1", 2.5}, {"kh_T0", {0.5, 0.2, 0.1}}, {"kh_T1", {0.7, -0.1}}, {"ke_T0", {0.3, 0.2}}, {"ke_T1", {0.4, 0.1, 0.3}}}}};
   json m2 = m1;
   m2["core_loss"]["kh_T0"] = {0.9, 0.1};
   m2["core_loss"]["ke_T1"] = {0.2, 0.4};
   m1["mass_density"] = m1["rho"] = 1.7;
   m2["mass_density"] = m2["rho"] = 2.6;
   return json{{"a", {{"attr", 1}, {"material", m1}}}, {"b", {{"attr", 2}, {"material", m2}}}};
}
struct Cal2
{
   std::unique_ptr<mfem::Coefficient> rho;
   miso::CAL2khCoefficient kh;
   miso::CAL2keCoefficient ke;
   Cal2() : rho(miso::constructMaterialCoefficient("rho", loss_components({}), miso::material_library)), kh(loss_components({}), miso::material_library), ke(loss_components({}), miso::material_library) { }
   double operator()(World &w, Trans &t, const Point &ip)
   {
      const double T = val(w, "temperature", t, ip), f = sc(w, "frequency"), b = val(w, "peak_flux", t, ip);
      return rho->Eval(t, ip) * b * b * (kh.Eval(t, ip, T, f, b) * f + ke.Eval(t, ip, T, f, b) * f * f);
   }
};
void s_core()
{
   Setup s = setup("core loss");
   const int own = choose(2, "coefficients: materials, dependent on everything"), fb = choose(2, "flux basis");
   note(Str() << "coefficients " << own << " flux " << (fb ? "L2" : "H1"));
   Quiet q;
   World w(s.g, s.mo);
   loss_fields(w, s, fb);
   w.scalars["frequency"] = 0.6;
   LossCoeff kh(0.5, 0.3, 0.2, 0.15), ke(0.4, -0.1, 0.3, 0.25);
   mfem::ConstantCoefficient rho(1.9);
   Cal2 mat;
   miso::CoreLossFunctional lib(w.fields, loss_components({}), miso::material_library, opts(s.attrs));
   miso::FunctionalOutput out(w.fields.at("state").space(), w.fields);
   auto *I = new miso::CAL2CoreLossIntegrator(rho, kh, ke, w.fields.at("peak_flux").gridFunc(), w.fields.at("temperature").gridFunc());
   if (s.attrs.empty()) { out.addOutputDomainIntegrator(I); }
   else { out.addOutputDomainIntegrator(I, s.attrs); }
   const double v = own ? calcOutput(out, w.inputs()) : calcOutput(lib, w.inputs());
   for (auto &n : {"state", "temperature", "peak_flux", "mesh_coords"}) { put(w, n); }
   check_integral(w, s.attrs, [&](Trans &t, const Point &ip)
   {
      if (!own) { return mat(w, t, ip); }
      const double T = val(w, "temperature", t, ip), f = sc(w, "frequency"), b = val(w, "peak_flux", t, ip);
      return 1.9 * b * b * (kh.Eval(t, ip, T, f, b) * f + ke.Eval(t, ip, T, f, b) * f * f);
   }, v, 1.0, "core");
   Opt o;
   o.wrt = {"mesh_coords", "temperature", "peak_flux"};
   o.scalar = {"frequency"};
   if (own) { check_output(w, out, o, "core"); check_output_scalar(w, out, o, "core"); }
   else { check_output(w, lib, o, "corelib"); check_output_scalar(w, lib, o, "corelib"); }
   outcome("core");
}
void s_steinmetz()
{
   Setup s = setup("Steinmetz loss");
   const int named = choose(2, "named"), dist = choose(2, "distribution"), a = choose(2, "exponents");
   note(Str() << (named ? "named" : "unnamed") << (dist ? " distribution" : "") << " exponents " << a);
   Quiet q;
   World w(s.g, s.mo);
   w.add("state", "h1", s.d, 1, 3);
   w.scalars["frequency"] = 0.6;
   w.scalars["max_flux_magnitude"] = 1.3;
   w.scalars["stack_length"] = 1.0;
   if (named) { w.scalars["max_flux_magnitude:stator"] = 1.7; }
   mfem::ConstantCoefficient rho(1.9), ks(0.7), al(a ? 1.3 : 1.0), be(a ? 1.8 : 2.0);
   const string name = named ? "stator" : "";
   const double c = 1.9 * 0.7 * std::pow(0.6, al.constant) * std::pow(named ? 1.7 : 1.3, be.constant);
   if (dist)
   {
      mfem::ParLinearForm lf(&w.fields.at("state").space());
      auto *I = new miso::SteinmetzLossDistributionIntegrator(rho, ks, al, be, name);
      setInputs(*I, w.inputs());
      mfem::Array<int> mk(2);
      mk = 0;
      for (int i : {1, 2}) { mk[i - 1] = has(s.attrs, i); }
      lf.AddDomainIntegrator(I, mk);
      lf.Assemble();
      mfem::LinearForm ref(&w.fields.at("state").space());
      mfem::ConstantCoefficient cc(c);
      double best = 1e300;
      for (int o = 0; o < 8; ++o)
      {
         mfem::LinearForm r(&w.fields.at("state").space());
         auto *J = new mfem::DomainLFIntegrator(cc);
         J->SetIntRule(&mfem::IntRules.Get(w.mesh->GetElementBaseGeometry(0), o));
         r.AddDomainIntegrator(J, mk);
         r.Assemble();
         r -= lf;
         best = std::min(best, r.Normlinf());
      }
      MC_CHECK(best <= 1e-12, "steinmetz.dist", "loss distribution differs from the density tested with the basis by " << best);
      outcome("steinmetz distribution");
      return;
   }
   miso::FunctionalOutput out(w.fields.at("state").space(), w.fields);
   auto *I = new miso::SteinmetzLossIntegrator(rho, ks, al, be, name);
   if (s.attrs.empty()) { out.addOutputDomainIntegrator(I); }
   else { out.addOutputDomainIntegrator(I, s.attrs); }
   const double v = calcOutput(out, w.inputs());
   check_integral(w, s.attrs, [](Trans &, const Point &) { return 1.0; }, v, c, "steinmetz");
   Opt o;
   o.wrt = {"mesh_coords"};
   o.scalar = {"frequency"};
   if (!named) { o.scalar.push_back("max_flux_magnitude"); }
   else { o.scalar.push_back("max_flux_magnitude:stator"); }
   check_output(w, out, o, "steinmetz");
   check_output_scalar(w, out, o, "steinmetz");
   outcome("steinmetz");
}

// ---- losses as distributions: the heat sources of the thermal problem
// the load tested with the constant one is the total
template <class F>
void check_distribution(World &w, const vector<int> &attrs, F f, const mfem::Vector &L, double scale, const string &key)
{
   auto &sp = w.fields.at("temperature").space();
   struct Fn : mfem::Coefficient
   {
      F &f;
      double c;
      Fn(F &f, double c) : f(f), c(c) { }
      double Eval(Trans &t, const Point &ip) override { return c * f(t, ip); }
   } fn(f, scale);
   mfem::Array<int> mk(2);
   for (int i : {1, 2}) { mk[i - 1] = has(attrs, i); }
   double best = 1e300;
   for (int o = 0; o <= 12; ++o)
   {
      mfem::LinearForm r(&sp);
      auto *J = new mfem::DomainLFIntegrator(fn);
      J->SetIntRule(&mfem::IntRules.Get(w.mesh->GetElementBaseGeometry(0), o));
      r.AddDomainIntegrator(J, mk);
      r.Assemble();
      mfem::Vector d(r);
      d -= L;
      best = std::min(best, d.Normlinf() / (1e-3 * std::fabs(scale) + r.Normlinf()));
   }
   MC_CHECK(best <= 1e-11, key + ".value", key << ": differs from the density tested with the basis by a factor " << best);
}
double volume_of(World &w, const vector<int> &a) { return integral(w, a, [](Trans &, const Point &) { return 1.0; }, 8); }
double dc_scale(World &w, double vol) { return std::sqrt(2.0) * std::pow(sc(w, "rms_current"), 2) * sc(w, "wire_length") / (M_PI * std::pow(sc(w, "strand_radius"), 2) * sc(w, "strands_in_hand")) / (vol * sc(w, "stack_length")); }
double ac_scale(World &w, double vol) { return M_PI * std::pow(sc(w, "strand_radius"), 4) * std::pow(2 * M_PI * sc(w, "frequency"), 2) / 8 * 2 * sc(w, "strands_in_hand") * sc(w, "num_turns") * sc(w, "num_slots") / vol; }

// reverse products of a distribution (wrt fields and scalars)
template <class Out>
void check_dist_products(World &w, Out &out, int n, const Opt &o, const string &tag)
{
   auto R = [&](mfem::Vector &r)
   {
      const MISOInputs in = w.inputs();
      setInputs(out, in);
      r.SetSize(n);
      r = 99.0;
      calcOutput(out, in, r);
   };
   mfem::Vector r0;
   R(r0);
   const MISOInputs base = w.inputs();
   auto at_base = [&](mfem::Vector &r) { setInputs(out, base); r.SetSize(n); calcOutput(out, base, r); };
   for (auto &wrt : o.wrt)
   {
      auto &x = w.vecs.at(wrt);
      const int m = x.Size();
      vector<mfem::Vector> col(m);
      for (int j = 0; j < m; ++j) { fdv(x(j), R, o.step(wrt, x(j)), col[j]); }
      const double scl = max_norm(col) + 1e-4 * r0.Normlinf() + 1e-300;
      mfem::Vector e(n), b(m), r;
      at_base(r);
      for (int k = 0; k < n; ++k)
      {
         e = 0.0;
         e(k) = -1.5;
         b = 0.25 * scl;
         vectorJacobianProduct(out, e, wrt, b);
         for (int j = 0; j < m; ++j)
         {
            const double got = (b(j) - 0.25 * scl) / -1.5;
            MC_CHECK(std::fabs(got - col[j](k)) <= o.tol * scl, tag + ".vjp." + wrt, tag << ": dF[" << k << "]/d" << wrt << "[" << j << "] by reverse product " << got << ", difference quotient " << col[j](k) << " (scale " << scl << ")");
         }
      }
   }
   for (auto &wrt : o.scalar)
   {
      double &s = w.scalars.at(wrt);
      mfem::Vector col, r;
      fdv(s, R, o.h * std::fabs(s), col);
      const double scl = col.Normlinf() + 1e-4 * r0.Normlinf() + 1e-300;
      at_base(r);
      mfem::Vector e(n);
      for (int k = 0; k < n; ++k)
      {
         e = 0.0;
         e(k) = -1.5;
         const double got = vectorJacobianProduct(out, e, wrt) / -1.5;
         MC_CHECK(std::fabs(got - col(k)) <= o.tol * scl, tag + ".vjp." + wrt, tag << ": dF[" << k << "]/d" << wrt << " by reverse product " << got << ", difference quotient " << col(k));
      }
   }
}
void s_dist()
{
   Setup s = setup("loss distribution");
   const int kind = choose(5, "dc, ac, core, all, core with coefficients of everything"), k = choose(2, "conductivity");
   note(Str() << "kind " << kind << " conductivity " << k);
   Quiet q;
   World w(s.g, s.mo);
   loss_fields(w, s, 0);
   winding(w);
   TestCoeff sigma(1.3, 0.0, k ? 0.2 : 0.0);
   Cal2 mat;
   const int n = w.fields.at("temperature").space().GetTrueVSize();
   // each loss has its own region
   const vector<int> A = s.attrs, B = kind == 3 ? ATTRS[(std::find(ATTRS.begin(), ATTRS.end(), A) - ATTRS.begin() + 1) % 3] : A;
   Opt o;
   o.wrt = {"mesh_coords", "temperature"};
   auto dc = [&](Trans &t, const Point &ip) { return 1.0 / sigma.Eval(t, ip, val(w, "temperature", t, ip)); };
   auto ac = [&](Trans &t, const Point &ip) { const double b = val(w, "peak_flux", t, ip); return b * b * sigma.Eval(t, ip, val(w, "temperature", t, ip)); };
   auto core = [&](Trans &t, const Point &ip) { return mat(w, t, ip); };
   auto fields = [&] { for (auto &f : {"state", "temperature", "peak_flux", "mesh_coords"}) { put(w, f); } };
   auto load = [&](auto &out, mfem::Vector &v)
   {
      const MISOInputs in = w.inputs();
      v.SetSize(n);
      v = 5.0;
      setInputs(out, in);
      calcOutput(out, in, v);
      MC_CHECK(getSize(out) == n, "dist.size", "size " << getSize(out) << ", temperature has " << n);
   };
   mfem::Vector v, v1, v2, v3;
   miso::DCLossDistribution D(w.fields, sigma, opts(A));
   miso::ACLossDistribution C(w.fields, sigma, opts(A));
   miso::CAL2CoreLossDistribution K(w.fields, loss_components({}), miso::material_library, opts(B));
   if (kind == 0)
   {
      load(D, v);
      fields();
      check_distribution(w, A, dc, v, dc_scale(w, volume_of(w, A)), "dcdist");
      o.scalar = {"wire_length", "rms_current", "strand_radius", "strands_in_hand", "stack_length"};
      check_dist_products(w, D, n, o, "dcdist");
   }
   else if (kind == 1)
   {
      load(C, v);
      fields();
      check_distribution(w, A, ac, v, ac_scale(w, volume_of(w, A)), "acdist");
      o.wrt.push_back("peak_flux");
      o.scalar = {"strand_radius", "frequency", "strands_in_hand", "num_turns", "num_slots"};
      check_dist_products(w, C, n, o, "acdist");
   }
   else if (kind == 2)
   {
      load(K, v);
      fields();
      check_distribution(w, B, core, v, 1.0, "coredist");
      o.wrt.push_back("peak_flux");
      o.scalar = {"frequency"};
      check_dist_products(w, K, n, o, "coredist");
   }
   else if (kind == 4)
   {
      LossCoeff kh(0.5, 0.3, 0.2, 0.15), ke(0.4, -0.1, 0.3, 0.25);
      mfem::ConstantCoefficient rho(1.9);
      w.scalars["frequency"] = 0.6;
      miso::MISOLinearForm lf(w.fields.at("temperature").space(), w.fields, "thermal_adjoint");
      auto *I = new miso::CAL2CoreLossDistributionIntegrator(rho, kh, ke, w.fields.at("peak_flux").gridFunc(), w.fields.at("temperature").gridFunc());
      if (A.empty()) { lf.addDomainIntegrator(I); }
      else { lf.addDomainIntegrator(I, A); }
      const MISOInputs in = w.inputs();
      setInputs(lf, in);
      v.SetSize(n);
      v = 0.0;
      addLoad(lf, v);
      fields();
      check_distribution(w, A, [&](Trans &t, const Point &ip) {
         const double T = val(w, "temperature", t, ip), f = sc(w, "frequency"), b = val(w, "peak_flux", t, ip);
         return 1.9 * b * b * (kh.Eval(t, ip, T, f, b) * f + ke.Eval(t, ip, T, f, b) * f * f);
      }, v, 1.0, "coredist2");
      o.wrt.push_back("peak_flux");
      o.scalar = {"frequency"};
      check_load(w, lf, o, "coredist2");
   }
   else
   {
      if (s.d == 2 && s.g == HEX) { outcome("skipped"); return; }
      json ho{{"dc_loss", opts(A)}, {"ac_loss", opts(A)}, {"core_loss", opts(B)}};
      miso::EMHeatSourceOutput H(w.fields, sigma, loss_components({}), miso::material_library, ho);
      load(H, v);
      load(D, v1);
      load(C, v2);
      load(K, v3);
      for (int i = 0; i < n; ++i)
      {
         const double sum = v1(i) + v2(i) + v3(i);
         MC_CHECK(std::fabs(v(i) - sum) <= 1e-12 * (1 + std::fabs(sum)), "heat.sum", "heat source[" << i << "] = " << v(i) << ", sum of the losses " << sum);
      }
      // the products are the sums of those of the parts
      const MISOInputs in = w.inputs();
      mfem::Vector t(n);
      setInputs(H, in);
      calcOutput(H, in, t);
      setInputs(D, in);
      calcOutput(D, in, t);
      setInputs(C, in);
      calcOutput(C, in, t);
      setInputs(K, in);
      calcOutput(K, in, t);
      mfem::Vector e(n);
      for (int j = 0; j < n; ++j) { e(j) = irr(j, 2); }
      for (const char *wrt : {"mesh_coords", "temperature", "peak_flux"})
      {
         mfem::Vector a(w.size(wrt)), b(w.size(wrt));
         a = 0.5;
         b = 0.5;
         vectorJacobianProduct(H, e, wrt, a);
         if (string(wrt) != "peak_flux") { vectorJacobianProduct(D, e, wrt, b); }
         vectorJacobianProduct(C, e, wrt, b);
         vectorJacobianProduct(K, e, wrt, b);
         const double m = b.Normlinf();
         b -= a;
         MC_CHECK(b.Normlinf() <= 1e-12 * (1 + m), string("heat.vjp.") + wrt, "reverse product of the heat source wrt " << wrt << " differs from the sum of its parts by " << b.Normlinf());
      }
      struct P { const char *n; bool d, c, k; };
      for (P p : {P{"wire_length", true, false, false}, P{"rms_current", true, false, false}, P{"strand_radius", true, true, false}, P{"strands_in_hand", true, true, false},
                  P{"stack_length", true, false, false}, P{"frequency", false, true, true}, P{"num_turns", false, true, false}, P{"num_slots", false, true, false}})
      {
         double sum = 0.0;
         if (p.d) { sum += vectorJacobianProduct(D, e, p.n); }
         if (p.c) { sum += vectorJacobianProduct(C, e, p.n); }
         if (p.k) { sum += vectorJacobianProduct(K, e, p.n); }
         const double got = vectorJacobianProduct(H, e, p.n);
         MC_CHECK(std::fabs(got - sum) <= 1e-12 * (1 + std::fabs(sum)), string("heat.vjp.") + p.n, "reverse product of the heat source wrt " << p.n << ": " << got << ", sum of its parts " << sum);
      }
   }
   outcome(Str() << "distribution " << kind);
}

// ---- demagnetisation
json demag_components()
{
   json m{{"name", "Nd2Fe14B"}, {"Demag", {{"T0", 0.5}, {"alpha_B_r", -0.01}, {"B_r_T0", 1.4}, {"alpha_H_ci", -0.02}, {"H_ci_T0", -900.0}, {"alpha_B_knee", 0.03}, {"beta_B_knee", 0.002}, {"alpha_H_knee", 0.05}, {"beta_H_knee", 0.001}}}};
   return json{{"magnets", {{"attrs", {1, 2}}, {"material", m}}}};
}
void s_demag()
{
   Setup s = setup("demagnetisation");
   const int temp = choose(2, "temperature field");
   note(Str() << "temperature field " << temp);
   Quiet q;
   World w(s.g, s.mo);
   w.add("state", "h1", s.d, 1, 3);
   w.add("peak_flux", "h1", s.d, 1, 8, 0.3, 1.1);
   if (temp) { w.add("temperature", "h1", s.d, 1, 5, 0.4, TEMP); }
   miso::PMDemagConstraintCoefficient c(demag_components(), miso::material_library);
   miso::PMDemagOutput out(w.fields, demag_components(), miso::material_library, opts(s.attrs));
   const double v = calcOutput(out, w.inputs());
   for (auto &p : w.vecs) { put(w, p.first); }
   // negated, so that the worst point is the maximum
   check_integral(w, s.attrs, [&](Trans &t, const Point &ip) { return c.Eval(t, ip, val(w, "peak_flux", t, ip), temp ? val(w, "temperature", t, ip) : 373.15); }, v, -1.0, "demag");
   outcome("demag");
}
// knee flux minus the flux along the magnetisation, aggregated
struct Mag : miso::VectorStateCoefficient
{
   Mag(int d) : miso::VectorStateCoefficient(d) { }
   using miso::VectorStateCoefficient::Eval;
   using miso::VectorStateCoefficient::EvalRevDiff;
   void Eval(mfem::Vector &v, Trans &t, const Point &ip, double s) override
   {
      double xb[3];
      mfem::Vector x(xb, vdim);
      t.Transform(ip, x);
      v.SetSize(vdim);
      v(0) = 2.0 + 0.5 * x(1) + 0.1 * s;
      v(1) = -1.0 + 0.3 * x(0);
      if (vdim == 3) { v(2) = 0.7; }
   }
   void EvalStateDeriv(mfem::Vector &v, Trans &, const Point &, double) override { v.SetSize(vdim); v = 0.0; v(0) = 0.1; }
   void EvalRevDiff(const mfem::Vector &, Trans &, const Point &, double, mfem::DenseMatrix &) override { }
};
void s_demag_agg()
{
   const int g = choose(2, "geometry"), mo = 1 + choose(2, "mesh order"), d = 1 + choose(2, "degree"), den = choose(2, "denominator"), temp = choose(2, "temperature field"), rk = choose(2, "rho"), ai = choose(3, "attributes");
   const double rho = rk ? 3.0 : 0.7, tmax = 0.4;
   note(Str() << "demagnetisation aggregate " << gname(g) << " mesh order " << mo << " degree " << d << " denominator " << den << " temperature " << temp << " rho " << rho << " attributes " << astr(ATTRS[ai]));
   Quiet q;
   World w(g, mo);
   w.add("state", "h1", d, 1, 3);
   w.add("flux_density", "h1", d, w.dim, 8, 0.5);
   w.add("temperature", "h1", d, 1, 5, 0.4, TEMP);
   w.scalars["true_max"] = tmax;
   TestCoeff knee(0.8, 0.2, temp ? 0.05 : 1e-6);
   Mag M(w.dim);
   auto *T = temp ? &w.fields.at("temperature").gridFunc() : nullptr;
   auto *B = &w.fields.at("flux_density").gridFunc();
   miso::FunctionalOutput out(w.fields.at("state").space(), w.fields);
   auto addi = [&](auto *I)
   {
      if (ai == 0) { out.addOutputDomainIntegrator(I); }
      else { out.addOutputDomainIntegrator(I, ATTRS[ai]); }
   };
   if (den) { addi(new miso::IEAggregateDemagIntegratorDenominator(rho, knee, M, T, B)); }
   else { addi(new miso::IEAggregateDemagIntegratorNumerator(rho, knee, M, T, B)); }
   const double v = calcOutput(out, w.inputs());
   for (auto &p : w.vecs) { put(w, p.first); }
   check_integral(w, ATTRS[ai], [&](Trans &t, const Point &ip)
   {
      const double th = temp ? val(w, "temperature", t, ip) : 373.15;
      mfem::Vector m, b;
      M.Eval(m, t, ip, th);
      w.fields.at("flux_density").gridFunc().GetVectorValue(t, ip, b);
      const double gg = knee.Eval(t, ip, th) - (b * m) / std::sqrt(m * m);
      return (den ? 1.0 : gg) * std::exp(rho * (gg - tmax));
   }, v, 1.0, "demagagg");
   outcome("demag aggregate");
}
}  // namespace

int main(int argc, char **argv)
{
   return run(argc, argv, "C28", [] { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
              {{"energy", s_energy}, {"force", s_force}, {"dc", s_dc}, {"ac", s_ac}, {"core", s_core}, {"steinmetz", s_steinmetz}, {"dist", s_dist}, {"demag", s_demag}, {"demag_agg", s_demag_agg}});
}
