// C09: default options, the material library, and the material models built
// from them.
#include "mfem_throw.hpp"
#include "mfem.hpp"
#include "coefficient.hpp"
#include "default_options.hpp"
#include "material_library.hpp"
#include "mfem_extensions.hpp"
#include "ode.hpp"
#include "reluctivity_coefficient.hpp"
#include "conductivity_coefficient.hpp"
#include "remnant_flux_coefficient.hpp"
#include "demag_flux_coefficient.hpp"
#include "cal2_kh_coefficient.hpp"
#include "cal2_ke_coefficient.hpp"
#include "pm_demag_constraint_coeff.hpp"
#include "utils.hpp"
#include "mc.hpp"
using namespace mc;
using nlohmann::json;
using miso::material_library;
using namespace mfem;

namespace
{
/// equal up to a relative and an absolute tolerance
bool rclose(double a, double b, double rel, double e = 1e-300)
{
   fingerprint(a);
   return std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)) + e;
}
struct Null : std::streambuf { int overflow(int c) override { return c; } } nullbuf;
struct Quiet { std::streambuf *o; Quiet() : o(std::cout.rdbuf(&nullbuf)) { } ~Quiet() { std::cout.rdbuf(o); } };

Mesh &mesh()
{
   static Mesh m = []() {
      Mesh q = Mesh::MakeCartesian2D(2, 2, Element::QUADRILATERAL, true, 1.0, 1.0);
      q.EnsureNodes();
      for (int e = 0; e < 4; ++e) { q.SetAttribute(e, e + 1); }
      return q;
   }();
   return m;
}
ElementTransformation &elem(int attr, IntegrationPoint &ip)
{
   auto *T = mesh().GetElementTransformation(attr - 1);
   ip.Set2(0.3, 0.6);
   T->SetIntPoint(&ip);
   return *T;
}
// ---- B-splines, independently
double spline(const std::vector<double> &c, const std::vector<double> &t, int p, double x)
{
   int n = (int)c.size(), k = p;
   while (k < n - 1 && x >= t[k + 1]) { ++k; }
   std::vector<double> d(p + 1);
   for (int j = 0; j <= p; ++j) { d[j] = c[k - p + j]; }
   for (int r = 1; r <= p; ++r)
   {
      for (int j = p; j >= r; --j)
      {
         double lo = t[j + k - p], hi = t[j + 1 + k - r], a = hi == lo ? 0 : (x - lo) / (hi - lo);
         d[j] = (1 - a) * d[j - 1] + a * d[j];
      }
   }
   return d[p];
}
void derive(std::vector<double> &c, std::vector<double> &t, int &p)
{
   std::vector<double> q;
   for (size_t i = 0; i + 1 < c.size(); ++i)
   {
      double w = t[i + p + 1] - t[i + 1];
      q.push_back(w > 0 ? p * (c[i + 1] - c[i]) / w : 0.0);
   }
   c = q;
   t = std::vector<double>(t.begin() + 1, t.end() - 1);
   --p;
}
double spline_d(std::vector<double> c, std::vector<double> t, int p, double x, int order)
{
   for (int o = 0; o < order; ++o)
   {
      if (p == 0) { return 0; }
      derive(c, t, p);
   }
   return spline(c, t, p, x);
}
const double mu0 = 4e-7 * M_PI, nu0 = 1 / mu0;

// ---- options
void defaults()
{
   const auto &d = miso::default_options;
   static const std::vector<std::string> solvers = {"lin-solver", "adj-solver"}, precs = {"lin-prec", "adj-prec"};
   const auto &ls = pick(solvers, "solver");
   const auto &lp = pick(precs, "prec");
   Quiet q;
   // a system those options must be able to solve
   // (convection-diffusion on a square: ILU is not exact)
   int m = 12, n = m * m;
   SparseMatrix sp(n, n);
   for (int i = 0; i < n; ++i)
   {
      sp.Set(i, i, 4.0);
      if (i % m) { sp.Set(i, i - 1, -1.3); }
      if ((i + 1) % m) { sp.Set(i, i + 1, -0.7); }
      if (i >= m) { sp.Set(i, i - m, -1.1); }
      if (i + m < n) { sp.Set(i, i + m, -0.9); }
   }
   sp.Finalize();
   HYPRE_BigInt rows[2] = {0, n};
   HypreParMatrix A(MPI_COMM_WORLD, n, rows, &sp);
   MC_CHECK(d[lp]["type"].get<std::string>() == "hypreilu", "defaults:prec", lp << " is " << d[lp].dump());
   // built the way the residuals build it
   auto prec = std::make_unique<HypreILU>();
   HYPRE_ILUSetType(*prec, d[lp]["ilu-type"].get<int>());
   HYPRE_ILUSetLevelOfFill(*prec, d[lp]["lev-fill"].get<int>());
   HYPRE_ILUSetLocalReordering(*prec, d[lp]["ilu-reorder"].get<int>());
   HYPRE_ILUSetPrintLevel(*prec, d[lp]["printlevel"].get<int>());
   auto lin = miso::constructLinearSolver(MPI_COMM_WORLD, d[ls], prec.get());
   MC_CHECK(lin != nullptr, "defaults:lin", ls << " builds nothing");
   Vector b(n), x(n), r(n);
   for (int i = 0; i < n; ++i) { b[i] = 1 + i % 3; }
   lin->SetOperator(A);
   x = 0.0;
   lin->Mult(b, x);
   A.Mult(x, r);
   r -= b;
   MC_CHECK(r.Norml2() < 1e-6 * b.Norml2(), "defaults:solve", ls << " with " << lp << " leaves " << r.Norml2());
   // a nonlinear solver from the defaults finds a root of A x = b
   auto nl = miso::constructNonlinearSolver(MPI_COMM_WORLD, d["nonlin-solver"], *lin);
   MC_CHECK(nl != nullptr, "defaults:nonlin", "no nonlinear solver");
   struct Op : Operator
   {
      HypreParMatrix &A;
      Op(HypreParMatrix &a) : Operator(a.Height()), A(a) { }
      void Mult(const Vector &x, Vector &y) const override { A.Mult(x, y); }
      Operator &GetGradient(const Vector &) const override { return A; }
   } op(A);
   nl->SetOperator(op);
   x = 0.0;
   nl->Mult(b, x);
   A.Mult(x, r);
   r -= b;
   MC_CHECK(r.Norml2() < 1e-6 * b.Norml2(), "defaults:root", "nonlinear residual " << r.Norml2());
   for (auto &k : {"lin-solver", "adj-solver", "nonlin-solver", "petscsolver"})
   {
      MC_CHECK(d[k]["reltol"].get<double>() >= 0 && d[k]["abstol"].get<double>() >= 0 && d[k]["maxiter"].get<int>() > 0, "defaults:ranges", k);
   }
   auto &t = d["time-dis"];
   MC_CHECK(t["t-final"].get<double>() > t["t-initial"].get<double>() && t["dt"].get<double>() > 0 && t["max-iter"].get<int>() > 0, "defaults:time", t.dump());
   step(3);
}

// ---- entries shared by every material
void composites()
{
   std::vector<std::string> names;
   for (auto &m : material_library.items()) { names.push_back(m.key()); }
   const auto &mat = names[choose((int)names.size(), "material")];
   static const std::vector<std::string> props = {"rho", "kappa", "cv", "drho_df", "dkappa_df", "mu_r", "sigma", "B_r", "max-temp"};
   const auto &prop = pick(props, "property");
   int how = choose(3, "attr");
   int named = choose(2, "material by name or object");
   int fi = choose(7, "fill factor");
   static const std::vector<double> ffs = {0.5, 0.0, 0.1, 0.25, 0.7, 1.0, 0.5};
   double ff = ffs[fi];
   note(Str() << mat << "." << prop << " attr " << how << " obj " << named << " ff " << ff);
   const auto &entry = material_library[mat];
   json comp;
   if (named) { comp["material"] = {{"name", mat}}; }
   else { comp["material"] = mat; }
   std::vector<int> attrs;
   if (how == 0) { comp["attr"] = named ? 1 : 2; attrs = {named ? 1 : 2}; }
   else if (how == 1) { comp["attrs"] = {1, 3}; attrs = {1, 3}; }
   else { comp["attrs"] = json::array(); }
   json comps;
   comps["part"] = comp;
   auto c = miso::constructMaterialCoefficient(prop, comps, material_library, 0.0);
   std::string other;
   if (fi && entry.contains(prop) && entry[prop].is_object())
   {
      other = entry[prop]["weighted_by"].get<std::string>();
      // (fi == 6) inputs that do not hold the weight leave the default one half
      miso::MISOInputs in{{fi == 6 ? "unrelated" : other, fi == 6 ? 0.9 : ff}};
      c->setInputs(in);
   }
   for (int a = 1; a <= 4; ++a)
   {
      IntegrationPoint ip;
      auto &T = elem(a, ip);
      bool in = std::find(attrs.begin(), attrs.end(), a) != attrs.end();
      double got = c->Eval(T, ip), want = 0;
      std::string key = "composite:" + prop;
      if (in && entry.contains(prop))
      {
         const auto &e = entry[prop];
         if (e.is_number()) { want = e.get<double>(); }
         else
         {
            MC_CHECK(e.is_object() && e["materials"].size() == 2 && e["weighted_by"].is_string(), key, mat << " is not a composite of two materials");
            double v[2];
            for (int i = 0; i < 2; ++i)
            {
               std::string s = e["materials"][i];
               MC_CHECK(material_library.contains(s) && material_library[s].contains(prop) && material_library[s][prop].is_number(), key + ":reference", mat << " refers to " << s);
               v[i] = material_library[s][prop];
            }
            std::string w = e["weight"];
            bool hs = w.find("Hashin") != std::string::npos, dv = w[0] == 'd';
            MC_CHECK(w == "average" || w == "daverage" || w == "Hashin-Shtrikman" || w == "dHashin-Shtrikman", key + ":weight", w);
            MC_CHECK(dv == (prop[0] == 'd'), key + ":weight", mat << ": " << prop << " is weighted by " << w);
            auto f = [&](double x)
            {
               if (!hs) { return x * v[0] + (1 - x) * v[1]; }
               return v[1] * ((1 + x) * v[0] + (1 - x) * v[1]) / ((1 - x) * v[0] + (1 + x) * v[1]);
            };
            if (!dv)
            {
               want = f(ff);
               if (ff == 0 || ff == 1) { MC_CHECK(rclose(got, v[ff == 0], 1e-12), key + ":pure", mat << ": " << got); }
            }
            else
            {
               double h = 1e-4;
               want = (8 * (f(ff + h) - f(ff - h)) - (f(ff + 2 * h) - f(ff - 2 * h))) / (12 * h);
            }
            if (dv)
            {
               // the derivative belongs to the very property it is named after
               const auto base = prop.substr(1, prop.size() - 4);
               for (int i = 0; i < 2; ++i)
               {
                  std::string s = e["materials"][i];
                  MC_CHECK(material_library[s][base] == material_library[s][prop] && entry[base]["materials"] == e["materials"] && entry[base]["weighted_by"] == e["weighted_by"], key + ":pair", mat << ": " << base << " and " << prop << " disagree about " << s);
               }
               MC_CHECK("d" + entry[base]["weight"].get<std::string>() == w, key + ":pair", mat << ": weights of " << base << " and " << prop);
            }
         }
         if (prop[0] != 'd') { MC_CHECK(std::isfinite(got) && got > 0, key + ":positive", mat << ": " << got); }
      }
      MC_CHECK(rclose(got, want, 1e-6), key, mat << " attr " << a << ": " << got << ", wanted " << want);
      MC_CHECK(c->EvalStateDeriv(T, ip, 1.0) == 0.0 && c->Eval(T, ip, 3.0) == got, key + ":state", "depends on the state");
      step();
   }
   outcome(Str() << mat << prop << c->Eval(*mesh().GetElementTransformation(attrs.empty() ? 0 : attrs[0] - 1), IntRules.Get(Geometry::SQUARE, 1).IntPoint(0)));
}

// ---- reluctivity
struct Nu { int kind = 0; double mu_r = 1; std::vector<double> c, t; int p = 3; };
double nu_of(const Nu &n, double B, int d)
{
   if (n.kind == 0) { return d ? 0.0 : 1 / (n.mu_r * mu0); }
   if (n.kind == 1)
   {
      if (B > n.t.back()) { return d ? 0.0 : nu0; }
      double s0 = spline(n.c, n.t, n.p, B), s1 = spline_d(n.c, n.t, n.p, B, 1), s2 = spline_d(n.c, n.t, n.p, B, 2);
      return std::exp(s0) * (d == 0 ? 1 : d == 1 ? s1 : s2 + s1 * s1);
   }
   double bm = n.t.back(), hm = n.c.back();
   if (B > bm)
   {
      double k = hm - nu0 * bm;
      return d == 0 ? k / B + nu0 : -k / (B * B);
   }
   double H = spline(n.c, n.t, n.p, B), dH = spline_d(n.c, n.t, n.p, B, 1);
   if (B <= 1e-14) { return dH; }
   return d == 0 ? H / B : dH / B - H / (B * B);
}
void reluctivity()
{
   static const std::vector<std::string> mats = {"hiperco50", "team13", "Nd2Fe14B", "air", "copperwire"};
   const auto &mat = pick(mats, "material");
   static const std::vector<std::string> models = {"string", "none", "linear", "lognu", "bh", "team13", "nonsense"};
   const auto &model = pick(models, "model");
   int over = choose(4, "own data");
   int single = choose(2, "attr");
   bool nonlin = model == "lognu" || model == "bh";
   if (!nonlin && over) { prune(); }
   const auto &lib = material_library[mat];
   bool has = nonlin && lib.contains("reluctivity") && lib["reluctivity"].contains(model);
   if (nonlin && !has && over != 3) { prune(); }
   note(Str() << mat << " " << model << " own " << over << " attr " << single);
   json m{{"name", mat}};
   if (model != "string" && model != "none") { m["reluctivity"]["model"] = model; }
   Nu want;
   want.mu_r = lib.value("mu_r", 1.0);
   if (nonlin)
   {
      want.kind = model == "lognu" ? 1 : 2;
      if (over != 3)
      {
         auto &l = lib["reluctivity"][model];
         want.c = l["cps"].get<std::vector<double>>();
         want.t = l["knots"].get<std::vector<double>>();
         want.p = l.value("degree", 3);
      }
      if (over == 1)
      {
         for (auto &c : want.c) { c *= 1.25; }
         m["reluctivity"]["cps"] = want.c;
      }
      if (over == 2)
      {
         for (auto &t : want.t) { t *= 0.5; }
         m["reluctivity"]["knots"] = want.t;
      }
      if (over == 3)
      {
         want.p = 2;
         want.c = {0.0, 3.0, 5.0, 9.0, 20.0};
         want.t = {0, 0, 0, 0.5, 1.25, 2, 2, 2};
         m["reluctivity"]["cps"] = want.c;
         m["reluctivity"]["knots"] = want.t;
         m["reluctivity"]["degree"] = 2;
      }
      MC_CHECK(want.t.size() == want.c.size() + want.p + 1 && std::is_sorted(want.t.begin(), want.t.end()), "reluctivity:data", mat << " " << model << ": " << want.c.size() << " control points, " << want.t.size() << " knots, degree " << want.p);
      MC_CHECK(want.t.front() == 0.0, "reluctivity:data", mat << ": curve does not start at zero flux");
   }
   json o, comp;
   if (model == "string") { comp["material"] = mat; }
   else { comp["material"] = m; }
   if (single) { comp["attr"] = 2; }
   else { comp["attrs"] = {2, 3}; }
   o["components"]["a"] = comp;
   o["components"]["b"] = {{"material", "team13"}, {"attrs", {4}}};
   Quiet q;
   std::unique_ptr<miso::ReluctivityCoefficient> nu;
   bool threw = false;
   try { nu = std::make_unique<miso::ReluctivityCoefficient>(o, material_library); }
   catch (const miso::MISOException &) { threw = true; }
   MC_CHECK(threw == (model == "team13" || model == "nonsense"), "reluctivity:refusal", model);
   if (threw) { outcome("refused"); return; }
   std::vector<double> Bs = {1e-15, 1e-12, 1e-3, 0.05, 0.2, 0.21, 0.3333, 0.7, 1.0, 1.15, 1.55, 1.9, 2.19, 2.3, 2.45, 2.5, 2.6, 3.4, 3.6, 10.0};
   if (!has && nonlin) { Bs.push_back(2.0); }
   for (double B : Bs)
   {
      for (int a = 1; a <= 4; ++a)
      {
         IntegrationPoint ip;
         auto &T = elem(a, ip);
         Nu w;
         if (a == 2 || (a == 3 && !single)) { w = want; }
         if (a == 4) { w.mu_r = material_library["team13"]["mu_r"]; }
         std::string key = Str() << "reluctivity:" << (a == 2 ? model : "others");
         double v = nu->Eval(T, ip, B);
         MC_CHECK(std::isfinite(v), key, "nu(" << B << ") = " << v);
         if (!over) { MC_CHECK(v > 0, key + ":positive", mat << ": nu(" << B << ") = " << v); }
         MC_CHECK(rclose(v, nu_of(w, B, 0), 1e-9), key + ":value", mat << " attr " << a << ": nu(" << B << ") = " << v << ", wanted " << nu_of(w, B, 0));
         if (B > 1e-6)
         {
            double d = nu->EvalStateDeriv(T, ip, B);
            MC_CHECK(rclose(d, nu_of(w, B, 1), 1e-7), key + ":deriv", mat << ": dnu(" << B << ") = " << d << ", wanted " << nu_of(w, B, 1));
            if (w.kind == 1) { MC_CHECK(rclose(nu->EvalState2ndDeriv(T, ip, B), nu_of(w, B, 2), 1e-7), key + ":2nd", mat << ": d2nu(" << B << ")"); }
         }
         step();
      }
   }
   IntegrationPoint ip;
   auto &T = elem(2, ip);
   if (nonlin)
   {
      // the reluctivity has no jump where the data end (bh), and is that of
      // free space beyond (lognu)
      double bm = want.t.back();
      if (model == "bh") { MC_CHECK(rclose(nu->Eval(T, ip, bm), nu->Eval(T, ip, bm * (1 + 1e-13)), 1e-9, 1e-6), "reluctivity:bh:end", "jump at the end of the data"); }
      else { MC_CHECK(rclose(nu->Eval(T, ip, bm * 1.001), nu0, 1e-12), "reluctivity:lognu:end", "beyond the data"); }
      if (has && !over && model == "lognu") { MC_CHECK(rclose(std::log(nu->Eval(T, ip, bm * 0.999999)), std::log(nu0), 0.2), "reluctivity:saturation", mat << ": saturated reluctivity " << nu->Eval(T, ip, bm)); }
   }
   outcome(Str() << mat << model << nu->Eval(T, ip, 1.0));
}

// ---- temperature models and losses
const std::vector<double> Ts = {253.15, 293.15, 300.0, 373.15, 453.15};
void conductivity()
{
   static const std::vector<std::string> mats = {"copperwire", "aluminumwire", "silverwire", "magnesiumwire", "ironwire", "air", "hiperco50"};
   const auto &mat = pick(mats, "material");
   int model = choose(5, "model");   // string, none, constant, linear, nonsense
   int over = model == 3 ? choose(8, "own data") : 0;
   int single = choose(2, "attr");
   const auto &lib = material_library[mat];
   bool has = lib.contains("conductivity");
   if (model == 3 && !has && over != 7) { prune(); }
   note(Str() << mat << " model " << model << " own " << over);
   json m{{"name", mat}};
   double al = 2e-3, tr = 300, s0 = 1e7;
   if (has)
   {
      auto &l = lib["conductivity"]["linear"];
      al = over & 1 ? al : l["alpha_resistivity"].get<double>();
      tr = over & 2 ? tr : l["T_ref"].get<double>();
      s0 = over & 4 ? s0 : l["sigma_T_ref"].get<double>();
      // the library's constant model is that of the same metal
      MC_CHECK(std::abs(lib["sigma"].get<double>() / l["sigma_T_ref"].get<double>() - 1) < 0.05, "conductivity:library", mat << ": sigma and sigma_T_ref disagree");
   }
   if (model == 2) { m["conductivity"]["model"] = "constant"; }
   if (model == 3)
   {
      m["conductivity"]["model"] = "linear";
      if (over & 1) { m["conductivity"]["alpha_resistivity"] = al; }
      if (over & 2) { m["conductivity"]["T_ref"] = tr; }
      if (over & 4) { m["conductivity"]["sigma_T_ref"] = s0; }
   }
   if (model == 4) { m["conductivity"]["model"] = "cubic"; }
   json comp, o;
   if (model == 0) { comp["material"] = mat; }
   else { comp["material"] = m; }
   if (single) { comp["attr"] = 2; }
   else { comp["attrs"] = {2, 3}; }
   o["components"]["a"] = comp;
   bool threw = false;
   std::unique_ptr<miso::ConductivityCoefficient> c;
   try { c = std::make_unique<miso::ConductivityCoefficient>(o, material_library); }
   catch (const miso::MISOException &) { threw = true; }
   MC_CHECK(threw == (model == 4), "conductivity:refusal", "model " << model);
   if (threw) { outcome("refused"); return; }
   for (double T : Ts)
   {
      for (int a = 1; a <= 4; ++a)
      {
         bool in = a == 2 || (a == 3 && !single);
         IntegrationPoint ip;
         auto &tr_ = elem(a, ip);
         double r = 1 + al * (T - tr);
         double v = in ? (model == 3 ? s0 / r : lib.value("sigma", 58.14e6)) : 58.14e6;
         double d = in && model == 3 ? -s0 * al / (r * r) : 0, d2 = in && model == 3 ? 2 * s0 * al * al / (r * r * r) : 0;
         std::string key = Str() << "conductivity:" << (in ? "in" : "out");
         MC_CHECK(rclose(c->Eval(tr_, ip, T), v, 1e-12), key, mat << " at " << T << ": " << c->Eval(tr_, ip, T) << ", wanted " << v);
         MC_CHECK(rclose(c->EvalStateDeriv(tr_, ip, T), d, 1e-11), key + ":deriv", mat << " at " << T);
         MC_CHECK(rclose(c->EvalState2ndDeriv(tr_, ip, T), d2, 1e-10), key + ":2nd", mat << " at " << T);
         step();
      }
   }
   outcome(Str() << mat << model << over);
}

void remnant()
{
   int over = choose(8, "data");
   json m = material_library["Nd2Fe14B"];
   if (over == 0 && choose(2, "from the library"))
   {
      // the magnet in the library has the models' default values
   }
   else
   {
      m = json{{"name", "magnet"}};
      if (over & 1) { m["alpha_B_r"] = -0.2; }
      if (over & 2) { m["T_ref"] = 310.0; }
      if (over & 4) { m["B_r_T_ref"] = 1.1; }
   }
   double al = over & 1 ? -0.2 : -0.12, tr = over & 2 ? 310.0 : 293.15, b = over & 4 ? 1.1 : 1.39;
   if (over == 0) { auto &l = material_library["Nd2Fe14B"]; MC_CHECK(l["alpha_B_r"] == al && l["T_ref"] == tr && l["B_r"] == b, "remnant:library", "the library's magnet is not the default one"); }
   miso::RemnantFluxCoefficient c(m);
   for (double T : Ts)
   {
      IntegrationPoint ip;
      auto &t = elem(1 + (int)(T) % 4, ip);
      double v = b * (1 + al / 100 * (T - tr));
      MC_CHECK(rclose(c.Eval(t, ip, T), v, 1e-12), "remnant", "B_r(" << T << ") = " << c.Eval(t, ip, T) << ", wanted " << v);
      MC_CHECK(rclose(c.EvalStateDeriv(t, ip, T), b * al / 100, 1e-12) && c.EvalState2ndDeriv(t, ip, T) == 0, "remnant:deriv", "at " << T);
      step();
   }
}

// how the components are passed in: options or the components alone
json wrapped(const json &comp, int how)
{
   json o;
   if (how) { o["a"] = comp; }
   else { o["components"]["a"] = comp; }
   return o;
}
void demag()
{
   int kind = choose(3, "material");   // string, object without Demag, with
   int over = kind == 2 ? choose(512, "own data") : 0;
   if (!thorough() && over && __builtin_popcount(over) != 1 && over != 511 && over != 8 + 256) { prune(); }
   int single = choose(2, "attr"), how = choose(2, "options");
   static const std::vector<std::string> ks = {"T0", "alpha_B_r", "B_r_T0", "alpha_H_ci", "H_ci_T0", "alpha_B_knee", "beta_B_knee", "alpha_H_knee", "beta_H_knee"};
   static const std::vector<double> own = {280.0, -0.2, 1.2, -0.4, -1100.0, 0.006, -1.5, 5.0, -2400.0};
   json m{{"name", "Nd2Fe14B"}};
   std::map<std::string, double> p;
   const auto &lib = material_library["Nd2Fe14B"];
   MC_CHECK(lib["Demag"]["B_r_T0"] == lib["B_r"] && lib["Demag"]["alpha_B_r"] == lib["alpha_B_r"] && lib["Demag"]["T0"] == lib["T_ref"], "demag:library", "the magnet's demagnetization data disagree with its remnant flux");
   if (kind == 2) { m["Demag"] = json::object(); }
   for (int i = 0; i < 9; ++i)
   {
      p[ks[i]] = lib["Demag"][ks[i]];
      if (over >> i & 1) { p[ks[i]] = own[i]; m["Demag"][ks[i]] = own[i]; }
   }
   json comp;
   if (kind == 0) { comp["material"] = "Nd2Fe14B"; }
   else { comp["material"] = m; }
   if (single) { comp["attr"] = 2; }
   else { comp["attrs"] = {2, 3}; }
   note(Str() << "kind " << kind << " own " << over << " single " << single << " how " << how);
   auto o = wrapped(comp, how);
   miso::DemagFluxCoefficient flux(o, material_library);
   miso::PMDemagConstraintCoefficient con(o, material_library);
   auto C = [&](double B, double T)
   {
      double Bk = p["alpha_B_knee"] * T + p["beta_B_knee"], Hk = p["alpha_H_knee"] * T + p["beta_H_knee"];
      double Br = p["B_r_T0"] * (1 + p["alpha_B_r"] / 100 * (T - p["T0"])), Hci = p["H_ci_T0"] * (1 + p["alpha_H_ci"] / 100 * (T - p["T0"]));
      // distance of two lines: remanence - knee and knee - intrinsic coercivity
      double h1 = Hk * (B - Br) / (Bk - Br), h2 = Hci + (Hk - Hci) * B / Bk;
      return h1 - h2;
   };
   for (double T : Ts)
   {
      for (int a = 1; a <= 4; ++a)
      {
         bool in = kind == 2 && (a == 2 || (a == 3 && !single));
         IntegrationPoint ip;
         auto &t = elem(a, ip);
         std::string key = Str() << "demag:" << (in ? "in" : "out") << (single ? ":attr" : ":attrs");
         double bk = p["alpha_B_knee"] * T + p["beta_B_knee"];
         MC_CHECK(rclose(flux.Eval(t, ip, T), in ? bk : 0.0, 1e-12), key + ":knee", "B_knee(" << T << ") = " << flux.Eval(t, ip, T) << ", wanted " << (in ? bk : 0.0));
         MC_CHECK(rclose(flux.EvalStateDeriv(t, ip, T), in ? p["alpha_B_knee"] : 0.0, 1e-12) && flux.EvalState2ndDeriv(t, ip, T) == 0, key + ":knee:deriv", "at " << T);
         if (std::abs(bk) < 0.05) { continue; }
         for (double B : {-0.5, 0.0, 0.3, 1.0})
         {
            double v = con.Eval(t, ip, B, T), w = in ? C(B, T) : 0;
            MC_CHECK(rclose(v, w, 1e-9, 1e-9), key + ":constraint", "C(" << B << ", " << T << ") = " << v << ", wanted " << w);
            double h = 1e-3, hT = 0.05;
            auto dB = [&](double b, double T_) { return in ? (C(b + h, T_) - C(b - h, T_)) / (2 * h) : 0; };
            auto d5 = [&](auto f, double e) { return (8 * (f(e) - f(-e)) - (f(2 * e) - f(-2 * e))) / (12 * e); };
            double s = 1 + std::abs(w);
            double wT = in ? d5([&](double e) { return C(B, T + e); }, hT) : 0;
            double wTT = in ? d5([&](double e) { return d5([&](double g) { return C(B, T + e + g); }, hT); }, hT) : 0;
            double wBT = in ? d5([&](double e) { return dB(B, T + e); }, hT) : 0;
            MC_CHECK(rclose(con.EvalDerivS1(t, ip, B, T), dB(B, T), 1e-7, 1e-7 * s), key + ":dB", con.EvalDerivS1(t, ip, B, T) << ", wanted " << dB(B, T));
            MC_CHECK(rclose(con.EvalDerivS2(t, ip, B, T), wT, 1e-6, 1e-7 * s), key + ":dT", "at B " << B << " T " << T << ": " << con.EvalDerivS2(t, ip, B, T) << ", wanted " << wT);
            MC_CHECK(con.Eval2ndDerivS1(t, ip, B, T) == 0, key + ":dBB", "");
            MC_CHECK(rclose(con.Eval2ndDerivS2(t, ip, B, T), wTT, 1e-5, 1e-6 * s), key + ":dTT", "at B " << B << " T " << T << ": " << con.Eval2ndDerivS2(t, ip, B, T) << ", wanted " << wTT);
            MC_CHECK(rclose(con.Eval2ndDerivS1S2(t, ip, B, T), wBT, 1e-6, 1e-6 * s), key + ":dBT", con.Eval2ndDerivS1S2(t, ip, B, T) << ", wanted " << wBT);
            MC_CHECK(rclose(con.Eval2ndDerivS2S1(t, ip, B, T), wBT, 1e-6, 1e-6 * s), key + ":dTB", con.Eval2ndDerivS2S1(t, ip, B, T) << ", wanted " << wBT);
            step();
         }
      }
   }
   outcome(Str() << kind << over);
}

template <class Coef>
void cal2_one(const char *nm, const json &o, const std::function<std::vector<double>(double)> &poly0, const std::function<std::vector<double>(double)> &poly1, double T0, double T1, bool model, double plain, bool single)
{
   Coef c(o, material_library);
   for (double T : Ts)
   {
      for (double B : {0.0, 0.4, 1.0, 1.7, 2.2})
      {
         for (double f : {0.0, 500.0})
         {
            for (int a = 1; a <= 4; ++a)
            {
               bool in = a == 2 || (a == 3 && !single);
               bool on = in && model;
               IntegrationPoint ip;
               auto &t = elem(a, ip);
               auto p0 = poly0(B), p1 = poly1(B);   // value and two derivatives
               double th = (T - T0) / (T1 - T0);
               std::string key = Str() << "cal2:" << nm << (on ? ":in" : ":out") << (single ? ":attr" : ":attrs");
               auto want = [&](int i) { return on ? p0[i] + th * (p1[i] - p0[i]) : (i ? 0.0 : in ? plain : 1.0); };
               auto cross = [&](int i) { return on ? (p1[i] - p0[i]) / (T1 - T0) : 0.0; };
               double e = 1e-14;
               MC_CHECK(rclose(c.Eval(t, ip, T, f, B), want(0), 1e-11, e), key, "k(" << T << ", " << f << ", " << B << ") = " << c.Eval(t, ip, T, f, B) << ", wanted " << want(0));
               MC_CHECK(rclose(c.EvalDerivS1(t, ip, T, f, B), cross(0), 1e-10, e), key + ":dT", "at B " << B << ": " << c.EvalDerivS1(t, ip, T, f, B) << ", wanted " << cross(0));
               MC_CHECK(c.EvalDerivS2(t, ip, T, f, B) == 0, key + ":df", "");
               MC_CHECK(rclose(c.EvalDerivS3(t, ip, T, f, B), want(1), 1e-10, e), key + ":dB", "at B " << B << ": " << c.EvalDerivS3(t, ip, T, f, B) << ", wanted " << want(1));
               MC_CHECK(c.Eval2ndDerivS1(t, ip, T, f, B) == 0 && c.Eval2ndDerivS2(t, ip, T, f, B) == 0, key + ":dTT", "");
               MC_CHECK(rclose(c.Eval2ndDerivS3(t, ip, T, f, B), want(2), 1e-10, e), key + ":dBB", "at B " << B << ": " << c.Eval2ndDerivS3(t, ip, T, f, B) << ", wanted " << want(2));
               MC_CHECK(rclose(c.Eval2ndDerivS1S3(t, ip, T, f, B), cross(1), 1e-10, e) && rclose(c.Eval2ndDerivS3S1(t, ip, T, f, B), cross(1), 1e-10, e), key + ":dTB", "at B " << B);
               MC_CHECK(c.Eval2ndDerivS1S2(t, ip, T, f, B) == 0 && c.Eval2ndDerivS2S1(t, ip, T, f, B) == 0 && c.Eval2ndDerivS2S3(t, ip, T, f, B) == 0 && c.Eval2ndDerivS3S2(t, ip, T, f, B) == 0, key + ":dTf", "");
               step();
            }
         }
      }
   }
}
void cal2()
{
   int which = choose(2, "kh or ke");
   int kind = choose(4, "material");   // string, no model, model, material without data
   int over = kind == 2 ? choose(16, "own data") : 0;
   int single = choose(2, "attr"), how = choose(2, "options");
   std::string k = which ? "ke" : "kh";
   std::string mat = kind == 3 ? "air" : "hiperco50";
   json m{{"name", mat}};
   const auto &l = material_library["hiperco50"]["core_loss"]["CAL2"];
   double T0 = over & 1 ? 280.0 : l["T0"].get<double>(), T1 = over & 4 ? 500.0 : l["T1"].get<double>();
   std::vector<double> a0 = l[k + "_T0"], a1 = l[k + "_T1"];
   if (over & 2) { a0 = {0.5, 0.25}; }
   if (over & 8) { a1 = {0.75, -0.1, 0.2, 0.3, 0.01}; }
   if (kind == 2)
   {
      m["core_loss"] = json::object();
      if (over & 1) { m["core_loss"]["T0"] = T0; }
      if (over & 2) { m["core_loss"][k + "_T0"] = a0; }
      if (over & 4) { m["core_loss"]["T1"] = T1; }
      if (over & 8) { m["core_loss"][k + "_T1"] = a1; }
   }
   json comp;
   if (kind == 0) { comp["material"] = mat; }
   else { comp["material"] = m; }
   if (single) { comp["attr"] = 2; }
   else { comp["attrs"] = {2, 3}; }
   note(Str() << k << " kind " << kind << " own " << over << " single " << single << " how " << how);
   auto o = wrapped(comp, how);
   auto poly = [](const std::vector<double> &a, double B)
   {
      std::vector<double> r(3, 0.0);
      for (int i = (int)a.size() - 1; i >= 0; --i)
      {
         r[2] = r[2] * B + 2 * r[1];
         r[1] = r[1] * B + r[0];
         r[0] = r[0] * B + a[i];
      }
      return r;
   };
   auto p0 = [&](double B) { return poly(a0, B); };
   auto p1 = [&](double B) { return poly(a1, B); };
   double plain = material_library[mat].value(k, 1.0);
   if (which) { cal2_one<miso::CAL2keCoefficient>("ke", o, p0, p1, T0, T1, kind == 2, plain, single); }
   else { cal2_one<miso::CAL2khCoefficient>("kh", o, p0, p1, T0, T1, kind == 2, plain, single); }
   outcome(Str() << k << kind << over);
}
}  // namespace

int main(int argc, char **argv)
{
   return run(argc, argv, "C09", []() { int a = 0; char **v = nullptr; MPI_Init(&a, &v); Hypre::Init(); },
              {{"defaults", defaults}, {"composites", composites}, {"reluctivity", reluctivity}, {"conductivity", conductivity}, {"remnant", remnant}, {"demag", demag}, {"cal2", cal2}});
}
