// C34: current density and magnetisation sources are the formulas they are
// named for, scaled by what was set last, with derivatives wrt the nodes.
#include "mfem_throw.hpp"
#include "mfem.hpp"
#include "coefficient.hpp"
#include "current_source_functions.hpp"
#include "magnetic_source_functions.hpp"
#include "remnant_flux_coefficient.hpp"
#include "mc.hpp"
using namespace mc;
using namespace mfem;
using json = nlohmann::json;

namespace
{
typedef std::vector<double> V3;
adept::Stack &stack()
{
   static adept::Stack s;
   return s;
}
/// one element of the given shape around c, straight or curved
struct Elem
{
   int dim;
   std::unique_ptr<Mesh> mesh;
   IsoparametricTransformation T;
   Elem(int shape, int order, const V3 &c, double size, int attr)
   {
      static const Element::Type type[] = {Element::TRIANGLE, Element::QUADRILATERAL, Element::TETRAHEDRON, Element::HEXAHEDRON};
      dim = shape < 2 ? 2 : 3;
      mesh = std::make_unique<Mesh>(dim == 2 ? Mesh::MakeCartesian2D(1, 1, type[shape], true, 1.0, 1.0) : Mesh::MakeCartesian3D(1, 1, 1, type[shape], 1.0, 1.0, 1.0));
      mesh->SetCurvature(order);
      int a = attr, n = dim;
      V3 cc = c;
      std::function<void(const Vector &, Vector &)> place = [&](const Vector &x, Vector &y) {
         y.SetSize(n);
         for (int i = 0; i < n; ++i) { y[i] = cc[i] + size * (x[i] - 0.5 + 0.13 * x[(i + 1) % n] * x[(i + 1) % n] - 0.07 * x[i] * x[(i + 1) % n]); }
      };
      VectorFunctionCoefficient f(n, place);
      mesh->Transform(f);
      for (int e = 0; e < mesh->GetNE(); ++e) { mesh->SetAttribute(e, a); }
      mesh->GetElementTransformation(0, &T);
   }
   void at(const IntegrationPoint &ip) { T.SetIntPoint(&ip); }
   V3 x(const IntegrationPoint &ip)
   {
      Vector y;
      T.Transform(ip, y);
      return V3(y.GetData(), y.GetData() + y.Size());
   }
};
std::vector<IntegrationPoint> points(int shape)
{
   std::vector<IntegrationPoint> r;
   static const double p[4][3] = {{0.2, 0.3, 0.1}, {0.55, 0.15, 0.25}, {0.1, 0.6, 0.2}, {0.0, 0.0, 0.0}};
   for (auto &q : p)
   {
      IntegrationPoint ip;
      if (shape < 2) { ip.Set2(q[0], q[1]); }
      else { ip.Set3(q[0], q[1], q[2]); }
      r.push_back(ip);
   }
   return r;
}

struct Ref
{
   V3 v;
   int region = 0;   // where the formula is smooth
   bool ok = true;   // away from the lines where it jumps
};
int sign(double v) { return (v > 0) - (v < 0); }
Ref stator(const V3 &x, double n, double length, int s)
{
   Ref r;
   n = (int)n;
   double tw = 2 * M_PI / n, tha = std::atan2(x[1], x[0]), w = std::round(tha / tw), th = tha - w * tw;
   r.v = {0, 0, 0};
   r.ok = std::fabs(std::fabs(x[2]) - length / 2) > 1e-9 && std::fabs(std::fabs(th) - tw / 2) > 1e-9 && std::fabs(th) > 1e-9 && std::fabs(tha) < M_PI - 1e-9;
   int z = x[2] > length / 2 ? 1 : x[2] < -length / 2 ? -1 : 0;
   r.region = ((int)w + 500) * 9 + (z + 1) * 3 + (z ? 1 : sign(th) + 1);
   if (!z) { r.v[2] = s * (th > 0 ? 1.0 : -1.0); }
   else
   {
      double a[2] = {std::cos(w * tw), std::sin(w * tw)}, zz = x[2] - z * length / 2;
      // - s * (x cross a)
      double j[3] = {-zz * a[1], zz * a[0], x[0] * a[1] - x[1] * a[0]};
      double m = std::sqrt(j[0] * j[0] + j[1] * j[1] + j[2] * j[2]);
      for (int i = 0; i < 3; ++i) { r.v[i] = -s * j[i] / m; }
   }
   return r;
}
Ref team13(const V3 &x)
{
   // a rounded square loop: unit vector, counterclockwise
   Ref r;
   const double h = 0.075;
   double cx = std::max(-h, std::min(h, x[0])), cy = std::max(-h, std::min(h, x[1]));
   double a = -(x[1] - cy), b = x[0] - cx;
   if (x[1] >= -h && x[1] <= h) { a = 0; b = sign(x[0]); r.region = 10 + (x[0] > 0); }
   else if (x[0] >= -h && x[0] <= h) { a = -sign(x[1]); b = 0; r.region = 20 + (x[1] > 0); }
   else { r.region = 30 + 2 * (x[0] > 0) + (x[1] > 0); }
   double m = std::hypot(a, b);
   r.v = {a / m, b / m, 0};
   r.ok = std::fabs(std::fabs(x[0]) - h) > 1e-9 && std::fabs(std::fabs(x[1]) - h) > 1e-9 && x[0] != 0;
   return r;
}
const std::vector<std::string> src3 = {"cwStator", "ccwStator", "x", "y", "z", "-z", "ring", "box1", "box2", "team13"};
const std::vector<std::string> src2 = {"z", "-z", "box1", "box2"};
const std::vector<std::string> mags = {"north", "south", "cw", "ccw", "x", "y", "z"};
Ref current(const std::string &s, const V3 &x, double n, double length)
{
   if (s == "cwStator") { return stator(x, n, length, 1); }
   if (s == "ccwStator") { return stator(x, n, length, -1); }
   if (s == "team13") { return team13(x); }
   Ref r;
   r.v = {0, 0, 0};
   if (s == "x") { r.v[0] = 1; }
   else if (s == "y") { r.v[1] = 1; }
   else if (s == "z") { r.v[2] = 1; }
   else if (s == "-z") { r.v[2] = -1; }
   else if (s == "box1") { r.v[2] = -6 * (x[1] - 0.5); }
   else if (s == "box2") { r.v[2] = 6 * (x[1] - 0.5); }
   else if (s == "ring")
   {
      double m = std::hypot(x[0], x[1]);
      r.v = {-x[1] / m, x[0] / m, 0};
   }
   return r;
}
V3 magnet(const std::string &s, const V3 &x)
{
   V3 v(x.size(), 0.0);
   double m = std::hypot(x[0], x[1]);
   if (s == "north") { v[0] = x[0] / m; v[1] = x[1] / m; }
   else if (s == "south") { v[0] = -x[0] / m; v[1] = -x[1] / m; }
   else if (s == "cw") { v[0] = -x[1] / m; v[1] = x[0] / m; }
   else if (s == "ccw") { v[0] = x[1] / m; v[1] = -x[0] / m; }
   else if (s == "x") { v[0] = 1; }
   else if (s == "y") { v[1] = 1; }
   else if (s == "z") { v[2] = 1; }
   return v;
}
void same(double got, double want, const std::string &key, const std::string &what, double tol = 1e-12)
{
   MC_CHECK(close(got, want, tol), key, what << " is " << got << ", should be " << want);
}
/// sensitivities wrt the nodes against differences of the value; `region` tells
/// on which smooth piece a point lies
void check_nodes(Elem &E, const IntegrationPoint &ip, const std::function<double()> &value, const std::function<void(DenseMatrix &)> &rev, const std::function<int()> &region,
                 const std::string &key)
{
   DenseMatrix &P = E.T.GetPointMat();
   DenseMatrix G(P.Height(), P.Width());
   G = 0.5;
   E.at(ip);
   rev(G);
   int r0 = region();
   const double h = 2e-5;
   for (int j = 0; j < P.Width(); ++j)
   {
      for (int i = 0; i < P.Height(); ++i)
      {
         double p0 = P(i, j), f[4];
         bool smooth = true;
         int n = 0;
         for (double k : {-2.0, -1.0, 1.0, 2.0})
         {
            P(i, j) = p0 + k * h;
            E.T.Reset();
            E.at(ip);
            smooth &= region() == r0;
            f[n++] = value();
         }
         P(i, j) = p0;
         E.T.Reset();
         E.at(ip);
         if (!smooth) { continue; }
         double d = (f[0] - 8 * f[1] + 8 * f[2] - f[3]) / (12 * h);
         MC_CHECK(std::fabs(G(i, j) - 0.5 - d) <= 1e-6 * (1 + std::fabs(d)), key + ":nodes", "derivative wrt node " << j << " component " << i << " is " << G(i, j) - 0.5 << ", differences of the value give " << d);
      }
   }
}
const std::vector<V3> &centres()
{
   static const std::vector<V3> c = [] {
      std::vector<V3> r;
      static const double xy[][2] = {{0.3, 0.05}, {0.31, -0.02}, {0.05, 0.2}, {-0.03, 0.25}, {-0.2, 0.013}, {-0.21, -0.03}, {0.02, -0.3}, {-0.04, -0.2}, {0.16, 0.17}, {-0.15, 0.19}, {-0.14, -0.16}, {0.2, -0.13}, {0.03, 0.03}};
      for (auto &p : xy)
      {
         for (double z : {0.02, 0.31, -0.29}) { r.push_back({p[0], p[1], z}); }
      }
      return r;
   }();
   return c;
}
V3 eval(miso::CurrentDensityCoefficient &c, Elem &E, const IntegrationPoint &ip)
{
   Vector v(3);
   v = 7.0;
   c.Eval(v, E.T, ip);
   MC_CHECK(v.Size() == 3, "current:size", v.Size());
   return V3(v.GetData(), v.GetData() + 3);
}

void currents3()
{
   auto s = pick(src3, "source");
   int shape = 2 + choose(2, "shape"), order = 1 + choose(2, "order");
   auto c = pick(centres(), "centre");
   bool st = s == "cwStator" || s == "ccwStator";
   int set = choose(st ? 3 : 1, "stator inputs");
   static const std::vector<double> js = {1.0, -2.5e3, 0.0};
   double J = pick(js, "current density");
   double n = set == 1 ? 12 : 24, length = set == 2 ? 0.7 : 0.345;
   std::string key = Str() << "current:" << s;
   note(Str() << key << " shape " << shape << " order " << order << " at " << c[0] << "," << c[1] << "," << c[2] << " slots " << n << " length " << length << " J " << J);
   Elem E(shape, order, c, 0.02, 2);
   json o = {{"phase", {{s, {2}}}}};
   miso::CurrentDensityCoefficient cd(stack(), o, 3);
   MC_CHECK(cd.GetVDim() == 3, key + ":dim", cd.GetVDim());
   miso::MISOInputs in;
   if (set == 1) { in.emplace("n_slots", n); }
   if (set == 2) { in.emplace("stack_length", length); }
   if (J != 1.0) { in.emplace("current_density:phase", J); }
   bool up = setInputs(cd, in);
   MC_CHECK(up == !in.empty(), key + ":updated", "said updated " << up);
   for (auto &ip : points(shape))
   {
      E.at(ip);
      auto r = current(s, E.x(ip), n, length);
      if (!r.ok) { continue; }
      step();
      auto v = eval(cd, E, ip);
      for (int i = 0; i < 3; ++i) { same(v[i], J * r.v[i], key, Str() << "component " << i); }
      Vector vb(3);
      for (int i = 0; i < 3; ++i) { vb[i] = 0.7 - 1.1 * i; }
      if (J != 0)
      {
         vb /= J;
      }
      check_nodes(
          E, ip, [&] { auto w = eval(cd, E, ip); return w[0] * vb[0] + w[1] * vb[1] + w[2] * vb[2]; }, [&](DenseMatrix &G) { cd.EvalRevDiff(vb, E.T, ip, G); },
          [&] { auto q = current(s, E.x(ip), n, length); return q.ok ? q.region : -1; }, key);
   }
   outcome(Str() << s << set);
}

void currents2()
{
   auto s = pick(src2, "source");
   int shape = choose(2, "shape"), order = 1 + choose(2, "order");
   static const std::vector<V3> cs = {{0.3, 0.05}, {0.4, 0.5}, {-0.2, 0.9}, {-1.0, -3.0}};
   auto c = pick(cs, "centre");
   static const std::vector<double> js = {1.0, -2.5, 0.0};
   double J = pick(js, "current density");
   std::string key = Str() << "current2:" << s;
   note(Str() << key << " shape " << shape << " order " << order << " at " << c[0] << "," << c[1] << " J " << J);
   Elem E(shape, order, c, 0.3, 2);
   json o = {{"phase", {{s, {2}}}}};
   miso::CurrentDensityCoefficient2D cd(stack(), o);
   miso::MISOInputs in;
   if (J != 1.0) { in.emplace("current_density:phase", J); }
   bool up = setInputs(cd, in);
   MC_CHECK(up == !in.empty(), key + ":updated", "said updated " << up);
   for (auto &ip : points(shape))
   {
      E.at(ip);
      step();
      auto x = E.x(ip);
      x.push_back(0);
      // the weak form of the 2D problem needs the opposite sign
      same(cd.Eval(E.T, ip), -J * current(s, x, 1, 1).v[2], key, "value");
      check_nodes(
          E, ip, [&] { return 1.7 * cd.Eval(E.T, ip); }, [&](DenseMatrix &G) { cd.EvalRevDiff(1.7, E.T, ip, G); }, [] { return 0; }, key);
   }
   outcome(Str() << s);
}

/// groups and attributes: each attribute gets the source and the density of its group
void groups()
{
   int dim = 2 + choose(2, "dim");
   auto &src = dim == 2 ? src2 : src3;
   auto a = pick(src, "source of A"), b = pick(src, "second source of A"), c = pick(src, "source of B");
   if (a == b) { prune(); }
   note(Str() << dim << " A " << a << "," << b << " B " << c);
   json o = {{"A", {{a, {1, 4}}, {b, {2}}}}, {"B", {{c, {3}}}}};
   miso::CurrentDensityCoefficient c3(stack(), o, 3);
   miso::CurrentDensityCoefficient2D c2(stack(), o);
   double va = 2.0, vb = -0.75;
   miso::MISOInputs in{{"current_density:A", va}, {"current_density:B", vb}};
   bool up = dim == 2 ? setInputs(c2, in) : setInputs(c3, in);
   MC_CHECK(up, "groups:updated", "two new densities reported as no update");
   MC_CHECK(!(dim == 2 ? setInputs(c2, in) : setInputs(c3, in)), "groups:updated", "the same densities reported as an update");
   for (int attr = 1; attr <= 5; ++attr)
   {
      int shape = dim == 2 ? 1 : 3;
      Elem E(shape, 1, V3{0.28, 0.05, 0.31}, 0.02, attr);
      for (auto &ip : points(shape))
      {
         E.at(ip);
         step();
         auto x = E.x(ip);
         x.resize(3);
         double f = attr == 5 ? 0.0 : attr == 3 ? vb : va;
         auto r = current(attr == 3 ? c : attr == 2 ? b : a, x, 24, 0.345).v;
         if (dim == 2) { same(c2.Eval(E.T, ip), -f * r[2], "groups:2", Str() << "attribute " << attr); }
         else
         {
            auto v = eval(c3, E, ip);
            for (int i = 0; i < 3; ++i) { same(v[i], f * r[i], "groups:3", Str() << "attribute " << attr << " component " << i); }
         }
      }
   }
   outcome(Str() << dim);
}

/// sequences of set, cache, zero and reset against a model
template <typename C>
void history_of(C &cd, bool stator, const std::function<void(double, double, double, double)> &look)
{
   std::map<std::string, double> now{{"A", 1.0}, {"B", 1.0}}, cache{{"A", 0.0}, {"B", 0.0}}, geo{{"n_slots", 24.0}, {"stack_length", 0.345}};
   int len = thorough() ? 6 : 4;
   std::string h;
   look(1, 1, 24, 0.345);
   for (int s = 0; s < len; ++s)
   {
      int op = choose(stator ? 9 : 7, "operation");
      miso::MISOInputs in;
      std::map<std::string, double> set;
      switch (op)
      {
      case 0: cd.cacheCurrentDensity(); cache = now; break;
      case 1:
         cd.zeroCurrentDensity();
         now["A"] = now["B"] = 0;
         break;
      case 2: cd.resetCurrentDensityFromCache(); now = cache; break;
      case 3: set = {{"current_density:A", 2.0}}; break;
      case 4: set = {{"current_density:B", -3.0}, {"current_density:C", 4.0}, {"unrelated", 5.0}}; break;
      case 5: set = {{"current_density:A", -3.0}, {"current_density:B", 2.0}}; break;
      case 6: set = {{"current_density:B", 0.0}}; break;
      case 7: set = {{"n_slots", 10.0}}; break;
      case 8: set = {{"stack_length", 0.9}, {"current_density:A", 2.0}}; break;
      }
      if (!set.empty())
      {
         bool want = false;
         for (auto &[k, v] : set)
         {
            in.emplace(k, v);
            for (auto m : {&now, &geo})
            {
               std::string name = k.rfind("current_density:", 0) == 0 ? k.substr(16) : m == &geo ? k : "";
               if (m == &geo && name != k) { continue; }
               auto it = m->find(name);
               if (it != m->end() && it->second != v)
               {
                  want = true;
                  it->second = v;
               }
            }
         }
         bool up = setInputs(cd, in);
         MC_CHECK(up == want, "history:updated", h << op << ": said updated " << up << ", should be " << want);
      }
      h += Str() << op << " ";
      step();
      look(now["A"], now["B"], geo["n_slots"], geo["stack_length"]);
   }
   note(h);
   outcome(Str() << now["A"] << cache["A"] << now["B"] << cache["B"] << geo["n_slots"] << geo["stack_length"]);
}
void history3()
{
   bool st = choose(2, "stator");
   json o = st ? json{{"A", {{"cwStator", {1}}}}, {"B", {{"ccwStator", {2}}}}} : json{{"A", {{"ring", {1}}}}, {"B", {{"x", {2}}}}};
   miso::CurrentDensityCoefficient cd(stack(), o, 3);
   static Elem E1(3, 1, V3{0.28, 0.05, 0.31}, 0.02, 1), E2(3, 1, V3{0.28, 0.05, 0.31}, 0.02, 2);
   static auto ip = points(3)[1];
   history_of(cd, st, [&](double a, double b, double n, double l) {
      for (auto *E : {&E1, &E2})
      {
         E->at(ip);
         auto v = eval(cd, *E, ip);
         auto r = current(st ? E == &E1 ? "cwStator" : "ccwStator" : E == &E1 ? "ring" : "x", E->x(ip), n, l).v;
         for (int i = 0; i < 3; ++i) { same(v[i], (E == &E1 ? a : b) * r[i], st ? "history:stator" : "history:3", Str() << "group " << (E == &E1 ? "A" : "B") << " component " << i); }
      }
   });
}
void history2()
{
   json o{{"A", {{"box1", {1}}}}, {"B", {{"-z", {2}}}}};
   miso::CurrentDensityCoefficient2D cd(stack(), o);
   static Elem E1(1, 1, V3{0.28, 0.05}, 0.02, 1), E2(1, 1, V3{0.28, 0.05}, 0.02, 2);
   static auto ip = points(1)[1];
   history_of(cd, false, [&](double a, double b, double, double) {
      E1.at(ip);
      same(cd.Eval(E1.T, ip), a * 6 * (E1.x(ip)[1] - 0.5), "history:2", "group A");
      E2.at(ip);
      same(cd.Eval(E2.T, ip), b, "history:2", "group B");
   });
}

json magnet_material(int kind, double &alpha, double &ref, double &br)
{
   json m = {{"mu_r", 1.03}};
   if (kind & 1) { m["alpha_B_r"] = alpha = 0.35; }
   if (kind & 2) { m["T_ref"] = ref = 310.0; }
   if (kind & 4) { m["B_r_T_ref"] = br = 1.1; }
   return m;
}
void magnets()
{
   auto s = pick(mags, "direction");
   int shape = choose(s == "z" ? 2 : 4, "shape") + (s == "z" ? 2 : 0), order = 1 + choose(2, "order"), kind = choose(8, "material");
   static const std::vector<V3> cs = {{0.3, 0.05, 0.0}, {-0.2, 0.4, 0.5}, {-0.3, -0.1, -0.2}, {0.1, -0.35, 0.7}};
   auto c = pick(cs, "centre");
   double alpha = -0.12, ref = 293.15, br = 1.39;
   json m = magnet_material(kind, alpha, ref, br);
   int dim = shape < 2 ? 2 : 3;
   std::string key = Str() << "magnet:" << s;
   note(Str() << key << " shape " << shape << " order " << order << " material " << m.dump() << " at " << c[0] << "," << c[1]);
   Elem E(shape, order, c, 0.05, 3);
   json o = {{"PM", {{s, {3}}}}}, mats = {{"PM", m}, {"other", json::object()}};
   miso::MagnetizationCoefficient mc_(stack(), o, mats, dim);
   MC_CHECK(mc_.GetVDim() == dim, key + ":dim", mc_.GetVDim());
   miso::RemnantFluxCoefficient rf(m);
   for (auto &ip : points(shape))
   {
      auto x = E.x(ip);
      auto d = magnet(s, x);
      for (double t : {293.15, 400.0, 0.0, -40.0})
      {
         E.at(ip);
         step();
         double B = br * (1 + alpha / 100 * (t - ref));
         same(rf.Eval(E.T, ip, t), B, "remnant", "remnant flux");
         same(rf.EvalStateDeriv(E.T, ip, t), br * alpha / 100, "remnant:deriv", "derivative of the remnant flux");
         MC_CHECK(rf.EvalState2ndDeriv(E.T, ip, t) == 0, "remnant:deriv2", "second derivative of the linear remnant flux");
         Vector v(dim), vb(dim);
         v = 7.0;
         mc_.Eval(v, E.T, ip, t);
         for (int i = 0; i < dim; ++i) { same(v[i], B * d[i], key, Str() << "component " << i << " at temperature " << t); }
         v = 7.0;
         mc_.EvalStateDeriv(v, E.T, ip, t);
         for (int i = 0; i < dim; ++i) { same(v[i], br * alpha / 100 * d[i], key + ":deriv", Str() << "temperature derivative of component " << i); }
         if (t == 0.0)
         {
            v = 7.0;
            mc_.Eval(v, E.T, ip);
            for (int i = 0; i < dim; ++i) { same(v[i], B * d[i], key, Str() << "component " << i << " without a temperature"); }
            same(rf.Eval(E.T, ip), B, "remnant", "remnant flux without a temperature");
         }
         for (int i = 0; i < dim; ++i) { vb[i] = 0.7 - 1.1 * i; }
         check_nodes(
             E, ip,
             [&] {
                Vector w(dim);
                mc_.Eval(w, E.T, ip, t);
                return w * vb;
             },
             [&](DenseMatrix &G) { mc_.EvalRevDiff(vb, E.T, ip, t, G); }, [] { return 0; }, key);
         DenseMatrix G(dim, 3);
         G = 0.5;
         rf.EvalRevDiff(1.0, E.T, ip, t, G);
         for (int i = 0; i < dim * 3; ++i) { MC_CHECK(G.Data()[i] == 0.5, "remnant:nodes", "the remnant flux does not depend on the nodes"); }
      }
   }
   outcome(Str() << s << dim);
}
/// each attribute gets the direction and the material it was listed for
void magnet_groups()
{
   int dim = 2 + choose(2, "dim"), n = dim == 2 ? 6 : 7;
   auto a = mags[choose(n, "first of P")], b = mags[choose(n, "second of P")], c = mags[choose(n, "of Q")];
   if (a == b) { prune(); }
   note(Str() << dim << " P " << a << "," << b << " Q " << c);
   json o = {{"P", {{a, {1, 4}}, {b, {2}}}}, {"Q", {{c, {3}}}}}, mats = {{"P", {{"B_r_T_ref", 0.9}}}, {"Q", {{"alpha_B_r", 0.5}}}, {"R", {{"B_r_T_ref", 0.1}}}};
   miso::MagnetizationCoefficient m(stack(), o, mats, dim);
   for (int attr = 1; attr <= 5; ++attr)
   {
      int shape = dim == 2 ? 1 : 3;
      Elem E(shape, 1, V3{0.28, 0.05, 0.31}, 0.02, attr);
      for (auto &ip : points(shape))
      {
         E.at(ip);
         step();
         for (double t : {293.15, 350.0})
         {
            double B = attr == 5 ? 0.0 : attr == 3 ? 1.39 * (1 + 0.005 * (t - 293.15)) : 0.9 * (1 - 0.0012 * (t - 293.15));
            auto d = magnet(attr == 3 ? c : attr == 2 ? b : a, E.x(ip));
            Vector v(dim);
            v = 7.0;
            m.Eval(v, E.T, ip, t);
            for (int i = 0; i < dim; ++i) { same(v[i], B * d[i], "magnet:groups", Str() << "attribute " << attr << " component " << i); }
         }
      }
   }
   outcome(Str() << dim);
}
}  // namespace

int main(int argc, char **argv)
{
   return run(argc, argv, "C34", [] { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
              {{"currents3", currents3}, {"currents2", currents2}, {"groups", groups}, {"history3", history3}, {"history2", history2}, {"magnets", magnets}, {"magnet_groups", magnet_groups}});
}
