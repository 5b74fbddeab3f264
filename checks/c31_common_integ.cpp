// C31: the volume, average, curl-magnitude, aggregate and bilinear/linear form
// integrators and the functionals built from them
#include <sstream>
#include "form_ref.hpp"
#include "common_outputs.hpp"
#include "mfem_common_integ.hpp"
#include "mfem_throw.hpp"
using namespace fr;
using std::string;
using std::vector;

namespace
{
const vector<vector<int>> ATTRS = {{}, {1}, {2}, {2, 1}};
string astr(const vector<int> &a) { string s = "["; for (int i : a) { s += std::to_string(i) + " "; } return s + "]"; }
bool has(const vector<int> &a, int i) { return a.empty() || std::find(a.begin(), a.end(), i) != a.end(); }

int pick_geom(int n = 4) { return choose(n, "geometry"); }
int pick_order() { return 1 + choose(2, "mesh order"); }

// reference integral with a rule of much higher order
template <class F>
double integral(World &w, const vector<int> &attrs, F f, int order = 14)
{
   double s = 0.0;
   for (int e = 0; e < w.mesh->GetNE(); ++e)
   {
      if (!has(attrs, w.mesh->GetAttribute(e))) { continue; }
      auto &t = *w.mesh->GetElementTransformation(e);
      auto &ir = mfem::IntRules.Get(t.GetGeometryType(), order);
      for (int i = 0; i < ir.GetNPoints(); ++i)
      {
         auto &ip = ir.IntPoint(i);
         t.SetIntPoint(&ip);
         // signed determinant of the Jacobian, written out
         const auto &J = t.Jacobian();
         double d = w.dim == 2 ? J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0)
                               : J(0, 0) * (J(1, 1) * J(2, 2) - J(1, 2) * J(2, 1)) - J(0, 1) * (J(1, 0) * J(2, 2) - J(1, 2) * J(2, 0)) + J(0, 2) * (J(1, 0) * J(2, 1) - J(1, 1) * J(2, 0));
         s += ip.weight * d * f(e, t, ip);
      }
   }
   return s;
}
void put(World &w, const string &n) { w.fields.at(n).distributeSharedDofs(w.vecs.at(n)); }
double rel(double a, double b) { return std::fabs(a - b) / (std::fabs(b) + 1e-300); }

// space dependent coefficient piecewise by attribute
struct Rho : mfem::Coefficient
{
   TestCoeff a{1.3, 0.4}, b{2.1, -0.3};
   TestCoeff &c(mfem::ElementTransformation &t) { return t.Attribute == 1 ? a : b; }
   double Eval(mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip) override { return c(t).Eval(t, ip, 0.0); }
   void EvalRevDiff(double q, mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip, mfem::DenseMatrix &P) override { c(t).EvalRevDiff(q, t, ip, 0.0, P); }
};

template <class I, class... A>
void domain(miso::FunctionalOutput &out, const vector<int> &attrs, A &&...a)
{
   if (attrs.empty()) { out.addOutputDomainIntegrator(new I(std::forward<A>(a)...)); }
   else { out.addOutputDomainIntegrator(new I(std::forward<A>(a)...), attrs); }
}

// ---- volume integrals
void s_volume()
{
   const int g = pick_geom(), mo = pick_order(), kind = choose(4, "density: none, null, constant, varying"), ai = choose(ATTRS.size(), "attributes");
   note(Str() << "volume " << gname(g) << " mesh order " << mo << " density kind " << kind << " attributes " << astr(ATTRS[ai]));
   Quiet q;
   World w(g, mo);
   w.add("state", "h1", 1, 1, 3);
   miso::FunctionalOutput out(w.fields.at("state").space(), w.fields);
   mfem::ConstantCoefficient cc(2.5);
   Rho rho;
   mfem::Coefficient *p = kind == 2 ? (mfem::Coefficient *)&cc : kind == 3 ? &rho : nullptr;
   if (kind == 0) { domain<miso::VolumeIntegrator>(out, ATTRS[ai]); }
   else { domain<miso::VolumeIntegrator>(out, ATTRS[ai], &p); }
   const double v = calcOutput(out, w.inputs());
   const double ref = integral(w, ATTRS[ai], [&](int, mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip) { return p ? p->Eval(t, ip) : 1.0; });
   // a varying density is integrated with the rule of the geometry only
   MC_CHECK(rel(v, ref) <= (kind == 3 ? 0.3 : 1e-12), "volume.value", "volume " << v << ", integral " << ref);
   Opt o;
   o.wrt = {"state", "mesh_coords"};
   o.partial = true;
   check_output(w, out, o, "volume");
   outcome("volume");
}

// ---- integral of the state
void s_state()
{
   const int g = pick_geom(), mo = pick_order(), d = 1 + choose(2, "degree"), b = choose(2, "basis"), ai = choose(ATTRS.size(), "attributes");
   note(Str() << "state integral " << gname(g) << " mesh order " << mo << " degree " << d << (b ? " L2" : " H1") << " attributes " << astr(ATTRS[ai]));
   Quiet q;
   World w(g, mo);
   w.add("state", b ? "l2" : "h1", d, 1, 3);
   miso::FunctionalOutput out(w.fields.at("state").space(), w.fields);
   domain<miso::StateIntegrator>(out, ATTRS[ai]);
   const double v = calcOutput(out, w.inputs());
   put(w, "state");
   const double ref = integral(w, ATTRS[ai], [&](int, mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip) { return w.fields.at("state").gridFunc().GetValue(t, ip); });
   MC_CHECK(std::fabs(v - ref) <= 1e-11, "state.value", "integral of the state " << v << ", reference " << ref);
   Opt o;
   o.wrt = {"state", "mesh_coords"};
   check_output(w, out, o, "state");
   outcome("state");
}

double curl_mag(World &w, mfem::ElementTransformation &t)
{
   mfem::Vector c;
   auto &gf = w.fields.at("state").gridFunc();
   if (w.dim == 3) { gf.GetCurl(t, c); }
   else { gf.GetGradient(t, c); }
   return c.Norml2();
}
// a state whose curl does not vanish anywhere on the rules used here
void add_curl_state(World &w, int d, int seed, const string &name = "state")
{
   auto &f = w.add(name, w.dim == 3 ? "nd" : "h1", d, 1, seed, 0.08);
   auto &v = w.vecs.at(name);
   mfem::Vector base(v.Size());
   if (w.dim == 3)
   {
      mfem::VectorFunctionCoefficient c(3, [](const mfem::Vector &x, mfem::Vector &y) { y(0) = -1.1 * x(1); y(1) = 1.3 * x(0); y(2) = 0.8 * x(1); });
      f.gridFunc().ProjectCoefficient(c);
   }
   else
   {
      mfem::FunctionCoefficient c([](const mfem::Vector &x) { return 1.2 * x(0) - 0.9 * x(1); });
      f.gridFunc().ProjectCoefficient(c);
   }
   f.setTrueVec(base);
   v += base;
   f.distributeSharedDofs(v);
}

void s_curl()
{
   const int g = pick_geom(), mo = pick_order(), d = 1 + choose(2, "degree"), ai = choose(ATTRS.size(), "attributes");
   note(Str() << "curl magnitude " << gname(g) << " mesh order " << mo << " degree " << d << " attributes " << astr(ATTRS[ai]));
   Quiet q;
   World w(g, mo);
   add_curl_state(w, d, 4);
   miso::FunctionalOutput out(w.fields.at("state").space(), w.fields);
   domain<miso::MagnitudeCurlStateIntegrator>(out, ATTRS[ai]);
   const double v = calcOutput(out, w.inputs());
   const double ref = integral(w, ATTRS[ai], [&](int, mfem::ElementTransformation &t, const mfem::IntegrationPoint &) { return curl_mag(w, t); });
   const bool exact = d == 1 && mo == 1 && (g == TRI || g == TET);
   MC_CHECK(rel(v, ref) <= (exact ? 1e-12 : 0.1), "curl.value", "integral of the curl magnitude " << v << ", reference " << ref);
   Opt o;
   o.wrt = {"state", "mesh_coords"};
   check_output(w, out, o, "curl");
   outcome("curl");
}

// ---- aggregates
void s_aggregate()
{
   const int g = pick_geom(), mo = pick_order(), d = 1 + choose(2, "degree"), den = choose(2, "denominator"), ai = choose(2, "attributes");
   const double rho = choose(2, "rho") ? 3.0 : 0.7, tmax = choose(2, "maximum") ? 0.6 : 2.0;
   note(Str() << "state aggregate " << (den ? "denominator " : "numerator ") << gname(g) << " mesh order " << mo << " degree " << d << " rho " << rho << " maximum " << tmax << " attributes " << astr(ATTRS[ai]));
   Quiet q;
   World w(g, mo);
   w.add("state", "h1", d, 1, 3, 0.5, 0.4);
   w.scalars["true_max"] = tmax;
   miso::FunctionalOutput out(w.fields.at("state").space(), w.fields);
   if (den) { domain<miso::IEAggregateIntegratorDenominator>(out, ATTRS[ai], rho); }
   else { domain<miso::IEAggregateIntegratorNumerator>(out, ATTRS[ai], rho); }
   auto f = [&](double s) { return (den ? 1.0 : s) * std::exp(rho * (s - tmax)); };
   auto refv = [&] { put(w, "state"); return integral(w, ATTRS[ai], [&](int, mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip) { return f(w.fields.at("state").gridFunc().GetValue(t, ip)); }); };
   const double v = calcOutput(out, w.inputs()), ref = refv();
   MC_CHECK(rel(v, ref) <= 0.15, "aggregate.value", "aggregate integral " << v << ", reference " << ref);
   {
      mfem::Vector keep(w.vecs.at("state"));
      w.vecs.at("state") = 0.45;
      const double c = calcOutput(out, w.inputs()), cr = f(0.45) * integral(w, ATTRS[ai], [](int, mfem::ElementTransformation &, const mfem::IntegrationPoint &) { return 1.0; });
      if (g == TRI || g == TET ? mo == 1 || g == TRI : mo == 1) { MC_CHECK(rel(c, cr) <= 1e-2, "aggregate.constant", "aggregate integral of a constant state " << c << ", reference " << cr); }
      w.vecs.at("state") = keep;
   }
   Opt o;
   o.wrt = {"state", "mesh_coords"};
   check_output(w, out, o, "aggregate");
   outcome("aggregate");
}
void s_curl_aggregate()
{
   const int g = pick_geom(), mo = pick_order(), d = 1 + choose(2, "degree"), den = choose(2, "denominator"), ai = choose(2, "attributes");
   const double rho = choose(2, "rho") ? 3.0 : 0.7, amax = choose(2, "maximum") ? 1.0 : 2.5;
   note(Str() << "curl magnitude aggregate " << (den ? "denominator " : "numerator ") << gname(g) << " mesh order " << mo << " degree " << d << " rho " << rho << " maximum " << amax << " attributes " << astr(ATTRS[ai]));
   Quiet q;
   World w(g, mo);
   add_curl_state(w, d, 5);
   miso::FunctionalOutput out(w.fields.at("state").space(), w.fields);
   if (den) { domain<miso::IECurlMagnitudeAggregateIntegratorDenominator>(out, ATTRS[ai], rho, amax); }
   else { domain<miso::IECurlMagnitudeAggregateIntegratorNumerator>(out, ATTRS[ai], rho, amax); }
   auto f = [&](double s) { return (den ? 1.0 : s) * std::exp(rho * s / amax); };
   const double v = calcOutput(out, w.inputs());
   const double ref = integral(w, ATTRS[ai], [&](int, mfem::ElementTransformation &t, const mfem::IntegrationPoint &) { return f(curl_mag(w, t)); });
   const bool exact = d == 1 && mo == 1 && (g == TRI || g == TET);
   MC_CHECK(rel(v, ref) <= (exact ? 1e-12 : 1.0), "curlagg.value", "aggregate integral " << v << ", reference " << ref);
   Opt o;
   o.wrt = {"state", "mesh_coords"};
   check_output(w, out, o, "curlagg");
   outcome("curlagg");
}

// ---- boundary flux
void s_bnormal()
{
   const int g = pick_geom(), mo = pick_order(), d = 1 + choose(2, "degree"), ai = choose(3, "boundary");
   const vector<vector<int>> B = {{}, {1}, {3, 2}};
   note(Str() << "boundary normal flux " << gname(g) << " mesh order " << mo << " degree " << d << " boundary " << astr(B[ai]));
   Quiet q;
   World w(g, mo, 0.05, false);
   w.add("state", "h1", d, 1, 3);
   miso::FunctionalOutput out(w.fields.at("state").space(), w.fields);
   TestCoeff k(1.3, 0.4);
   if (ai == 0) { out.addOutputBdrFaceIntegrator(new miso::BoundaryNormalIntegrator(k)); }
   else { out.addOutputBdrFaceIntegrator(new miso::BoundaryNormalIntegrator(k), B[ai]); }
   Opt o;
   o.wrt = {"state"};
   check_output(w, out, o, "bnormal");
   outcome("bnormal");
}

// ---- sensitivities of MFEM's own forms to the mesh
// F: value at the current mesh; L: linear form over the mesh space
template <class F>
void check_mesh(World &w, F f, mfem::ParLinearForm &lf, const string &tag, double tol = 1e-7)
{
   auto &x = w.vecs.at("mesh_coords");
   auto val = [&] { put(w, "mesh_coords"); return f(); };
   const int n = x.Size();
   const double f0 = val();
   mfem::Vector g(n), b(n);
   for (int i = 0; i < n; ++i) { g(i) = fd(x(i), val, 3e-4); }
   val();
   lf = 7.0;
   lf.Assemble();
   lf.ParallelAssemble(b);
   const double sc = g.Normlinf() + 1e-4 * std::fabs(f0) + 1e-300;
   for (int i = 0; i < n; ++i)
   {
      MC_CHECK(std::fabs(b(i) - g(i)) <= tol * sc, tag + ".mesh", tag << ": d/dmesh_coords[" << i << "] " << b(i) << ", difference quotient " << g(i) << " (scale " << sc << ")");
   }
}
// ψᵀ A(X) u assembled by MFEM
template <class I>
double bil(World &w, const string &trial, const string &test, I *integ)
{
   auto &u = w.fields.at(trial).gridFunc(), &p = w.fields.at(test).gridFunc();
   mfem::Vector y(p.Size());
   y = 0.0;
   if (trial == test || &w.fields.at(trial).space() == &w.fields.at(test).space())
   {
      mfem::BilinearForm a(&w.fields.at(trial).space());
      a.AddDomainIntegrator(integ);
      a.Assemble();
      a.Finalize();
      a.Mult(u, y);
   }
   else
   {
      mfem::MixedBilinearForm a(&w.fields.at(trial).space(), &w.fields.at(test).space());
      a.AddDomainIntegrator(integ);
      a.Assemble();
      a.Finalize();
      a.Mult(u, y);
   }
   return y * p;
}
void s_bilinear()
{
   const int g = pick_geom(), mo = pick_order(), d = 1 + choose(2, "degree"), kind = choose(4, "diffusion, weak divergence, vector mass, vector mass alpha");
   if (kind == 1 && g < TET) { }
   note(Str() << "bilinear form " << kind << " " << gname(g) << " mesh order " << mo << " degree " << d);
   Quiet q;
   World w(g, mo);
   const bool h1u = kind == 0, h1p = kind <= 1;
   w.add("u", h1u ? "h1" : "nd", d, 1, 3);
   w.add("p", h1p ? "h1" : "nd", d, 1, 8);
   auto &u = w.fields.at("u").gridFunc(), &p = w.fields.at("p").gridFunc();
   mfem::ParLinearForm lf(&w.fields.at("mesh_coords").space());
   std::function<double()> f;
   if (kind == 0)
   {
      auto *m = new miso::DiffusionIntegratorMeshSens;
      m->setState(u);
      m->setAdjoint(p);
      lf.AddDomainIntegrator(m);
      f = [&] {
         mfem::BilinearForm a(&w.fields.at("u").space());
         a.AddDomainIntegrator(new mfem::DiffusionIntegrator);
         a.Assemble();
         a.Finalize();
         mfem::Vector y(p.Size());
         a.Mult(u, y);
         return y * p;
      };
   }
   else if (kind == 1)
   {
      auto *m = new miso::VectorFEWeakDivergenceIntegratorMeshSens;
      m->setState(u);
      m->setAdjoint(p);
      lf.AddDomainIntegrator(m);
      f = [&] { return bil(w, "u", "p", new mfem::VectorFEWeakDivergenceIntegrator); };
   }
   else
   {
      const double al = kind == 2 ? 1.0 : -0.6;
      auto *m = kind == 2 ? new miso::VectorFEMassIntegratorMeshSens : new miso::VectorFEMassIntegratorMeshSens(al);
      m->setState(u);
      m->setAdjoint(p);
      lf.AddDomainIntegrator(m);
      f = [&w, &u, &p, al] {
         mfem::BilinearForm a(&w.fields.at("u").space());
         a.AddDomainIntegrator(new mfem::VectorFEMassIntegrator);
         a.Assemble();
         a.Finalize();
         mfem::Vector y(p.Size());
         a.Mult(u, y);
         return al * (y * p);
      };
   }
   check_mesh(w, f, lf, "bilinear" + std::to_string(kind));
   outcome("bilinear");
}

// a vector coefficient that depends on space
struct VCoef : mfem::VectorCoefficient
{
   explicit VCoef(int n) : mfem::VectorCoefficient(n) { }
   void Eval(mfem::Vector &V, mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip) override
   {
      double b[3];
      mfem::Vector x(b, t.GetSpaceDim());
      t.Transform(ip, x);
      V.SetSize(vdim);
      for (int i = 0; i < vdim; ++i) { V(i) = 0.8 - 0.3 * i + (0.5 + 0.2 * i) * std::sin(TestCoeff::arg(x) + i); }
   }
   void EvalRevDiff(const mfem::Vector &Vb, mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip, mfem::DenseMatrix &P) override
   {
      double b[3], k[3] = {0.7, 1.1, 0.5};
      mfem::Vector x(b, t.GetSpaceDim()), sh;
      t.Transform(ip, x);
      double s = 0.0;
      for (int i = 0; i < vdim; ++i) { s += Vb(i) * (0.5 + 0.2 * i) * std::cos(TestCoeff::arg(x) + i); }
      auto &fe = *dynamic_cast<mfem::IsoparametricTransformation &>(t).GetFE();
      sh.SetSize(fe.GetDof());
      fe.CalcShape(ip, sh);
      for (int j = 0; j < sh.Size(); ++j) { for (int i = 0; i < x.Size(); ++i) { P(i, j) += s * k[i] * sh(j); } }
   }
};
void s_linear()
{
   const int kind = choose(3, "vector load, curl load, scalar load");
   const int g = kind == 1 ? TET + choose(2, "geometry") : pick_geom(), mo = pick_order(), d = 1 + choose(2, "degree");
   const double al = choose(2, "alpha") ? -1.4 : 1.0;
   note(Str() << "linear form " << kind << " " << gname(g) << " mesh order " << mo << " degree " << d << " alpha " << al);
   Quiet q;
   World w(g, mo);
   w.add("adjoint", kind >= 2 ? "h1" : "nd", d, 1, 8);
   auto &p = w.fields.at("adjoint").gridFunc();
   mfem::ParLinearForm lf(&w.fields.at("mesh_coords").space());
   std::function<double()> f;
   VCoef V(w.dim);
   TestCoeff Q(0.7, 0.9);
   auto load = [&w, &p](mfem::LinearFormIntegrator *i) {
      mfem::LinearForm l(&w.fields.at("adjoint").space());
      l.AddDomainIntegrator(i);
      l.Assemble();
      return l * p;
   };
   std::unique_ptr<miso::VectorFEDomainLFCurlIntegrator> ci;
   std::unique_ptr<miso::DomainLFIntegrator> di;
   if (kind == 0)
   {
      auto *m = new miso::VectorFEDomainLFIntegratorMeshSens(V, al);
      m->setAdjoint(p);
      lf.AddDomainIntegrator(m);
      f = [&, al] { return al * load(new mfem::VectorFEDomainLFIntegrator(V)); };
   }
   else if (kind == 1)
   {
      ci = std::make_unique<miso::VectorFEDomainLFCurlIntegrator>(V, al);
      auto *m = new miso::VectorFEDomainLFCurlIntegratorMeshSens(*ci);
      m->setAdjoint(p);
      lf.AddDomainIntegrator(m);
      f = [&] { return load(new miso::VectorFEDomainLFCurlIntegrator(V, al)); };
      const double a = f(), b = al * load(new mfem::VectorFEDomainLFCurlIntegrator(V));
      MC_CHECK(close(a, b, 1e-13), "linear.alpha", "scaled load " << a << ", alpha times the load " << b);
   }
   else if (kind == 2)
   {
      di = std::make_unique<miso::DomainLFIntegrator>(Q, al);
      lf.AddDomainIntegrator(new miso::DomainLFIntegratorMeshRevSens(p, *di));
      f = [&] { return load(new miso::DomainLFIntegrator(Q, al)); };
      const double a = f(), b = al * load(new mfem::DomainLFIntegrator(Q, 2, -2));
      MC_CHECK(close(a, b, 1e-13), "linear.alpha", "scaled load " << a << ", alpha times the load " << b);
   }
   check_mesh(w, f, lf, "linear" + std::to_string(kind));
   outcome("linear");
}

// ---- functionals
const json MATS = json::parse(R"({"steel": {"rho": 7.5, "drho_df": 0.0}, "air": {"rho": 1.25, "drho_df": 1.25}, "copper": {"rho": 8.9, "drho_df": 8.9},
  "wire": {"rho": {"materials": ["copper", "air"], "weighted_by": "fill_factor", "weight": "average"},
           "drho_df": {"materials": ["copper", "air"], "weighted_by": "fill_factor", "weight": "daverage"}}})");
const json COMPS = json::parse(R"({"a": {"attr": 1, "material": "steel"}, "b": {"attrs": [2], "material": {"name": "wire"}}})");

json fopt(const vector<int> &attrs)
{
   json o = json::object();
   if (!attrs.empty()) { o["attributes"] = attrs; }
   return o;
}
void s_functional()
{
   const int kind = choose(6, "functional"), g = pick_geom(), mo = pick_order(), d = 1 + choose(2, "degree"), ai = choose(ATTRS.size(), "attributes");
   static const char *names[] = {"volume", "mass", "state average", "curl average", "aggregate", "curl aggregate"};
   note(Str() << names[kind] << " functional " << gname(g) << " mesh order " << mo << " degree " << d << " attributes " << astr(ATTRS[ai]));
   Quiet q;
   World w(g, mo);
   if (kind == 3 || kind == 5) { add_curl_state(w, d, 5); }
   else { w.add("state", "h1", d, 1, 3, 0.5, 0.4); }
   auto &fes = w.fields.at("state").space();
   json opt = fopt(ATTRS[ai]);
   Opt o;
   o.wrt = {"state", "mesh_coords"};
   auto vol = [&](auto f) { return integral(w, ATTRS[ai], f); };
   using T = mfem::ElementTransformation;
   using P = mfem::IntegrationPoint;
   const double V = vol([](int, T &, const P &) { return 1.0; });
   const bool affine = mo == 1 && (g == TRI || g == TET);
   switch (kind)
   {
   case 0:
   {
      miso::VolumeFunctional out(w.fields, opt);
      o.wrt = {"mesh_coords"};
      MC_CHECK(rel(calcOutput(out, w.inputs()), V) <= 1e-12, "functional.volume", "volume " << calcOutput(out, w.inputs()) << ", reference " << V);
      check_output(w, out, o, "functional.volume");
      break;
   }
   case 1:
   {
      miso::MassFunctional out(w.fields, COMPS, MATS, opt);
      o.wrt = {"mesh_coords"};
      o.scalar = {"fill_factor"};
      const double ff = choose(2, "fill factor") ? 0.35 : 0.8;
      w.scalars["fill_factor"] = ff;
      const double M = vol([&](int, T &t, const P &) { return t.Attribute == 1 ? 7.5 : ff * 8.9 + (1 - ff) * 1.25; });
      MC_CHECK(rel(calcOutput(out, w.inputs()), M) <= 1e-12, "functional.mass", "mass " << calcOutput(out, w.inputs()) << ", reference " << M);
      check_output(w, out, o, "functional.mass");
      check_output_scalar(w, out, o, "functional.mass");
      break;
   }
   case 2:
   {
      miso::StateAverageFunctional out(fes, w.fields, opt);
      put(w, "state");
      const double S = vol([&](int, T &t, const P &ip) { return w.fields.at("state").gridFunc().GetValue(t, ip); }) / V;
      MC_CHECK(std::fabs(calcOutput(out, w.inputs()) - S) <= 1e-11, "functional.average", "average " << calcOutput(out, w.inputs()) << ", reference " << S);
      check_output(w, out, o, "functional.average");
      break;
   }
   case 3:
   {
      miso::AverageMagnitudeCurlState out(fes, w.fields, opt);
      const double S = vol([&](int, T &t, const P &) { return curl_mag(w, t); }) / V;
      MC_CHECK(rel(calcOutput(out, w.inputs()), S) <= (affine && d == 1 ? 1e-12 : 0.1), "functional.curl", "average curl magnitude " << calcOutput(out, w.inputs()) << ", reference " << S);
      check_output(w, out, o, "functional.curl");
      break;
   }
   case 4:
   {
      const double rho = choose(2, "rho") ? 8.0 : 1.0;
      opt["rho"] = rho;
      miso::IEAggregateFunctional out(fes, w.fields, opt);
      put(w, "state");
      auto val = [&](T &t, const P &ip) { return w.fields.at("state").gridFunc().GetValue(t, ip); };
      const double S = vol([&](int, T &t, const P &ip) { return val(t, ip) * std::exp(rho * val(t, ip)); }) / vol([&](int, T &t, const P &ip) { return std::exp(rho * val(t, ip)); });
      const double v = calcOutput(out, w.inputs());
      MC_CHECK(rel(v, S) <= 0.15, "functional.aggregate", "aggregate " << v << ", reference " << S);
      // whatever the maximum used for scaling, the aggregate does not depend on it
      check_output(w, out, o, "functional.aggregate");
      // a constant state aggregates to itself
      w.vecs.at("state") = 0.375;
      MC_CHECK(close(calcOutput(out, w.inputs()), 0.375, 1e-13), "functional.aggregate.constant", "aggregate of a constant state is " << calcOutput(out, w.inputs()));
      // a large state does not overflow
      w.vecs.at("state") = 2000.0;
      MC_CHECK(close(calcOutput(out, w.inputs()), 2000.0, 1e-13), "functional.aggregate.large", "aggregate of a large constant state is " << calcOutput(out, w.inputs()));
      break;
   }
   default:
   {
      const double rho = choose(2, "rho") ? 5.0 : 1.0;
      opt["rho"] = rho;
      miso::IECurlMagnitudeAggregateFunctional out(fes, w.fields, opt);
      const double S = vol([&](int, T &t, const P &) { return curl_mag(w, t) * std::exp(rho * curl_mag(w, t)); }) / vol([&](int, T &t, const P &) { return std::exp(rho * curl_mag(w, t)); });
      const double v = calcOutput(out, w.inputs());
      MC_CHECK(rel(v, S) <= (affine && d == 1 ? 1e-12 : 1.0), "functional.curlaggregate", "aggregate " << v << ", reference " << S);
      check_output(w, out, o, "functional.curlaggregate");
   }
   }
   outcome(names[kind]);
}
// functionals of a field that is not called "state"
void s_named()
{
   const int kind = choose(3, "functional"), g = pick_geom(), d = 1 + choose(2, "degree"), same = choose(2, "same space"), ai = choose(ATTRS.size(), "attributes");
   note(Str() << "functional of a named field " << kind << " " << gname(g) << " degree " << d << (same ? " same space as the state" : "") << " attributes " << astr(ATTRS[ai]));
   Quiet q;
   World w(g, 1);
   w.add("state", "h1", same ? d : 3 - d, 1, 3, 0.5, -0.7);
   w.add("temperature", "h1", d, 1, 6, 0.5, 1.4);
   auto &fes = w.fields.at("temperature").space();
   json opt = fopt(ATTRS[ai]);
   opt["state"] = "temperature";
   Opt o;
   o.wrt = {"temperature", "mesh_coords", "state"};
   put(w, "temperature");
   auto val = [&](mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip) { return w.fields.at("temperature").gridFunc().GetValue(t, ip); };
   const double V = integral(w, ATTRS[ai], [](int, mfem::ElementTransformation &, const mfem::IntegrationPoint &) { return 1.0; });
   if (kind == 0)
   {
      miso::StateAverageFunctional out(fes, w.fields, opt);
      const double S = integral(w, ATTRS[ai], [&](int, mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip) { return val(t, ip); }) / V;
      const double v = calcOutput(out, w.inputs());
      MC_CHECK(std::fabs(v - S) <= 1e-11, "named.average", "average of the named field " << v << ", reference " << S);
      check_output(w, out, o, "named.average");
   }
   else if (kind == 1)
   {
      const double rho = choose(2, "rho") ? 8.0 : 1.0;
      opt["rho"] = rho;
      miso::IEAggregateFunctional out(fes, w.fields, opt);
      const double S = integral(w, ATTRS[ai], [&](int, mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip) { return val(t, ip) * std::exp(rho * val(t, ip)); }) /
                       integral(w, ATTRS[ai], [&](int, mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip) { return std::exp(rho * val(t, ip)); });
      const double v = calcOutput(out, w.inputs());
      MC_CHECK(rel(v, S) <= 0.15, "named.aggregate", "aggregate of the named field " << v << ", reference " << S);
      check_output(w, out, o, "named.aggregate");
      w.vecs.at("temperature") = 2000.0;
      MC_CHECK(close(calcOutput(out, w.inputs()), 2000.0, 1e-13), "named.large", "aggregate of a large constant field is " << calcOutput(out, w.inputs()));
   }
   else
   {
      miso::FunctionalOutput out(fes, w.fields, "temperature");
      domain<miso::StateIntegrator>(out, ATTRS[ai]);
      o.partial = true;
      check_output(w, out, o, "named.output");
   }
   outcome("named");
}
}  // namespace

int main(int argc, char **argv)
{
   return mc::run(argc, argv, "C31", [] { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
                  {{"volume", s_volume}, {"state", s_state}, {"curl", s_curl}, {"aggregate", s_aggregate},
                   {"curlagg", s_curl_aggregate}, {"bnormal", s_bnormal}, {"bilinear", s_bilinear},
                   {"linear", s_linear}, {"functional", s_functional}, {"named", s_named}});
}
