// C32: the integrators of the heat equation: contact resistance, internal
// convection, convection and outflux boundary conditions, L2 projection
#include "form_ref.hpp"
#include "thermal_integ.hpp"
#include "mfem_throw.hpp"
using namespace fr;
using std::string;
using std::vector;

namespace
{
string astr(const vector<int> &a) { string s = "["; for (int i : a) { s += std::to_string(i) + " "; } return s + "]"; }
void put(World &w, const string &n) { w.fields.at(n).distributeSharedDofs(w.vecs.at(n)); }

// measure of the face at the point the transformation is set to
double face_weight(mfem::ElementTransformation &f)
{
   const auto &J = f.Jacobian();
   if (J.Width() == 1) { return std::hypot(J(0, 0), J(1, 0)); }
   const double c[3] = {J(1, 0) * J(2, 1) - J(2, 0) * J(1, 1), J(2, 0) * J(0, 1) - J(0, 0) * J(2, 1), J(0, 0) * J(1, 1) - J(1, 0) * J(0, 1)};
   return std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]);
}
// sum over the boundary elements with one of the attributes; f(weight, value on side 1, value on side 2)
// calls g(w, T, eip1, eip2) in every point
template <class G>
void face_points(World &w, bool inner, const vector<int> &attrs, G g)
{
   auto &m = *w.mesh;
   for (int b = 0; b < m.GetNBE(); ++b)
   {
      const int a = m.GetBdrAttribute(b), f = m.GetBdrElementEdgeIndex(b);
      if (m.FaceIsInterior(f) != inner || !(attrs.empty() || std::find(attrs.begin(), attrs.end(), a) != attrs.end())) { continue; }
      auto &T = *m.GetFaceElementTransformations(f);
      auto &ir = mfem::IntRules.Get(T.GetGeometryType(), 10);
      for (int i = 0; i < ir.GetNPoints(); ++i)
      {
         const auto &ip = ir.IntPoint(i);
         T.SetAllIntPoints(&ip);
         g(ip.weight * face_weight(*T.Face), T, T.GetElement1IntPoint(), inner ? T.GetElement2IntPoint() : ip);
      }
   }
}
// residual by the formula: flux(u1, u2) -> (q1, q2) tested on both sides
template <class Q>
mfem::Vector face_residual(World &w, bool inner, const vector<int> &attrs, Q flux)
{
   put(w, "state");
   auto &fes = w.fields.at("state").space();
   auto &u = w.fields.at("state").gridFunc();
   mfem::Vector r(fes.GetTrueVSize());
   r = 0.0;
   mfem::Array<int> d;
   mfem::Vector sh;
   auto add = [&](int e, const mfem::IntegrationPoint &ip, double q) {
      fes.GetElementDofs(e, d);
      sh.SetSize(d.Size());
      fes.GetFE(e)->CalcShape(ip, sh);
      for (int i = 0; i < d.Size(); ++i) { r(d[i]) += q * sh(i); }
   };
   face_points(w, inner, attrs, [&](double wt, mfem::FaceElementTransformations &T, const mfem::IntegrationPoint &p1, const mfem::IntegrationPoint &p2) {
      const int e1 = T.Elem1No, e2 = T.Elem2No;
      const mfem::IntegrationPoint a = p1, b = p2;
      const double u1 = u.GetValue(e1, a), u2 = inner ? u.GetValue(e2, b) : 0.0;
      double q1 = 0.0, q2 = 0.0;
      flux(u1, u2, q1, q2);
      add(e1, a, wt * q1);
      if (inner) { add(e2, b, wt * q2); }
   });
   return r;
}
void compare(miso::MISONonlinearForm &nf, World &w, const mfem::Vector &ref, const string &tag, double tol)
{
   mfem::Vector r(ref.Size());
   const MISOInputs in = w.inputs();
   setInputs(nf, in);
   evaluate(nf, in, r);
   const double sc = ref.Normlinf() + 1e-300;
   for (int i = 0; i < r.Size(); ++i) { MC_CHECK(std::fabs(r(i) - ref(i)) <= tol * sc, tag + ".residual", tag << ": residual[" << i << "] = " << r(i) << ", formula gives " << ref(i)); }
}

struct Case { int g, mo, d; bool l2; };
Case pick_case()
{
   Case c;
   c.g = choose(4, "geometry");
   c.mo = 1 + choose(2, "mesh order");
   c.d = 1 + choose(2, "degree");
   c.l2 = choose(2, "basis");
   return c;
}
string describe(const Case &c) { return Str() << gname(c.g) << " mesh order " << c.mo << " degree " << c.d << (c.l2 ? " L2" : " H1"); }
bool straight(const Case &c) { return c.mo == 1 && c.g != HEX; }
void add_state(World &w, const Case &c)
{
   w.add("state", c.l2 ? "l2" : "h1", c.d, 1, 3, 1.0, 0.5);
   w.add("adjoint", c.l2 ? "l2" : "h1", c.d, 1, 9);
}

void s_interface()
{
   const int kind = choose(2, "contact, convection"), where = choose(3, "internal boundary, its attribute, interior faces"), named = choose(2, "name");
   const Case c = pick_case();
   const double alpha = choose(2, "alpha") ? -0.5 : 1.0;
   note(Str() << (kind ? "internal convection " : "contact resistance ") << describe(c) << (where == 0 ? " all internal boundaries" : where == 1 ? " by attribute" : " interior faces") << (named ? " named" : "") << " alpha " << alpha);
   Quiet q;
   World w(c.g, c.mo);
   add_state(w, c);
   const string suffix = named ? ":gap" : "", name = named ? "gap" : "";
   w.scalars["h" + suffix] = 2.5;
   if (named) { w.scalars["h"] = 77.0; w.scalars["fluid_temp"] = 55.0; }
   Opt o;
   o.scalar = {"h" + suffix};
   if (kind == 1) { w.scalars["fluid_temp" + suffix] = 0.75; o.scalar.push_back("fluid_temp" + suffix); }
   o.wrt = {"mesh_coords"};
   // a continuous state has no jump: everything is zero
   if (kind == 0 && !c.l2) { o.floor = 1e-3; }
   miso::MISONonlinearForm nf(w.fields.at("state").space(), w.fields);
   const int ia = w.mesh->bdr_attributes.Max();
   auto add = [&](auto *i) {
      if (where == 0) { nf.addInternalBoundaryFaceIntegrator(i); }
      else if (where == 1) { nf.addInternalBoundaryFaceIntegrator(i, vector<int>{ia}); }
      else { nf.addInteriorFaceIntegrator(i); }
   };
   if (kind == 0) { add(new miso::ThermalContactResistanceIntegrator(1.0, name, alpha)); }
   else { add(new miso::InternalConvectionInterfaceIntegrator(1.0, 1.0, name, alpha)); }
   const double h = 2.5, tf = 0.75;
   const auto ref = face_residual(w, true, {}, [&](double u1, double u2, double &q1, double &q2) {
      if (kind == 0) { q1 = alpha * h * (u1 - u2); q2 = -q1; }
      else { q1 = alpha * h * (u1 - tf); q2 = alpha * h * (u2 - tf); }
   });
   if (c.l2 || kind == 1) { compare(nf, w, ref, kind ? "internalconvection" : "contact", straight(c) ? 1e-11 : 2e-2); }
   check_residual(w, nf, o, kind ? "internalconvection" : "contact");
   outcome(kind ? "internal convection" : "contact");
}

void s_boundary()
{
   const int kind = choose(2, "convection, outflux"), ctor = choose(2, "constructor"), ai = choose(5, "boundary");
   const Case c = pick_case();
   const double alpha = choose(2, "alpha") ? -0.5 : 1.0;
   const vector<vector<int>> B = {{}, {1}, {3, 2}, {1, 4}, {}};
   const bool inner = ai >= 3;
   note(Str() << (kind ? "outflux " : "convection ") << describe(c) << " boundary " << astr(B[ai]) << (inner ? " with an internal boundary" : "") << (ctor ? " values given to the constructor" : "") << " alpha " << alpha);
   Quiet q;
   World w(c.g, c.mo, 0.05, inner);
   add_state(w, c);
   Opt o;
   o.wrt = {"mesh_coords"};
   miso::MISONonlinearForm nf(w.fields.at("state").space(), w.fields);
   const double h = 2.5, tf = 0.75, fl = 3.25;
   auto add = [&](auto *i) {
      if (B[ai].empty()) { nf.addBdrFaceIntegrator(i); }
      else { nf.addBdrFaceIntegrator(i, B[ai]); }
   };
   if (kind == 0)
   {
      if (ctor) { add(new miso::ConvectionBCIntegrator(h, tf, alpha)); }
      else
      {
         w.scalars["h"] = h;
         w.scalars["fluid_temp"] = tf;
         o.scalar = {"h", "fluid_temp"};
         add(new miso::ConvectionBCIntegrator(alpha));
      }
   }
   else
   {
      if (ctor) { add(new miso::OutfluxBCIntegrator(fl, alpha)); }
      else { w.scalars["outflux"] = fl; add(alpha == 1.0 ? new miso::OutfluxBCIntegrator : new miso::OutfluxBCIntegrator(10.0, alpha)); }
   }
   const auto ref = face_residual(w, false, B[ai], [&](double u1, double, double &q1, double &) { q1 = alpha * (kind ? fl : h * (u1 - tf)); });
   compare(nf, w, ref, kind ? "outflux" : "convection", straight(c) ? 1e-11 : 2e-2);
   check_residual(w, nf, o, kind ? "outflux" : "convection");
   outcome(kind ? "outflux" : "convection");
}

template <class F>
void check_mesh(World &w, F f, mfem::ParLinearForm &lf, const string &tag, double tol = 1e-7)
{
   auto &x = w.vecs.at("mesh_coords");
   auto val = [&] { put(w, "mesh_coords"); return f(); };
   const int n = x.Size();
   const double f0 = val();
   mfem::Vector g(n), b(n);
   for (int i = 0; i < n; ++i) { g(i) = fd(x(i), val, 3e-4); }
   val();
   lf = 7.0;
   lf.Assemble();
   lf.ParallelAssemble(b);
   const double sc = g.Normlinf() + 1e-4 * std::fabs(f0) + 1e-300;
   for (int i = 0; i < n; ++i)
   {
      MC_CHECK(std::fabs(b(i) - g(i)) <= tol * sc, tag + ".mesh", tag << ": d/dmesh_coords[" << i << "] " << b(i) << ", difference quotient " << g(i) << " (scale " << sc << ")");
   }
}

struct G : mfem::Coefficient
{
   TestCoeff c{0.7, 0.9};
   double Eval(mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip) override { return c.Eval(t, ip, 0.0); }
   void EvalRevDiff(double q, mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip, mfem::DenseMatrix &P) override { c.EvalRevDiff(q, t, ip, 0.0, P); }
};

void s_projection()
{
   const int kind = choose(2, "projection, boundary");
   const bool inner = kind == 1 && choose(2, "internal boundary");
   const Case c = pick_case();
   const double alpha = kind == 0 && choose(2, "alpha") ? -0.5 : 1.0;
   note(Str() << (kind ? "boundary mass " : "projection ") << describe(c) << " alpha " << alpha);
   Quiet q;
   World w(c.g, c.mo, 0.05, inner);
   add_state(w, c);
   G g;
   put(w, "state");
   put(w, "adjoint");
   auto &u = w.fields.at("state").gridFunc(), &p = w.fields.at("adjoint").gridFunc();
   mfem::ParNonlinearForm nf(&w.fields.at("state").space());
   mfem::ParLinearForm lf(&w.fields.at("mesh_coords").space());
   mfem::Vector r(w.vecs.at("state").Size());
   auto f = [&] { nf.Mult(w.vecs.at("state"), r); return r * w.vecs.at("adjoint"); };
   if (kind == 0)
   {
      auto *in = new miso::L2ProjectionIntegrator(g, alpha);
      nf.AddDomainIntegrator(in);
      lf.AddDomainIntegrator(new miso::L2ProjectionIntegratorMeshRevSens(u, p, *in));
      // the residual vanishes for the projection of a function in the space, and its Jacobian is a mass matrix
      auto &x = w.vecs.at("state");
      const int n = x.Size();
      auto R = [&](mfem::Vector &y) { y.SetSize(n); nf.Mult(x, y); };
      mfem::Vector col, e(n), y(n);
      for (int j = 0; j < n; ++j)
      {
         fdv(x(j), R, 3e-4, col);
         e = 0.0;
         e(j) = 1.0;
         nf.GetGradient(x).Mult(e, y);
         for (int i = 0; i < n; ++i) { MC_CHECK(std::fabs(y(i) - col(i)) <= 1e-9, "projection.jac", "projection: dR[" << i << "]/du[" << j << "] = " << y(i) << ", difference quotient " << col(i)); }
      }
      mfem::ParNonlinearForm n2(&w.fields.at("state").space());
      mfem::ConstantCoefficient k(1.75);
      n2.AddDomainIntegrator(new miso::L2ProjectionIntegrator(k, alpha));
      x = 1.75;
      n2.Mult(x, r);
      MC_CHECK(r.Normlinf() <= 1e-13, "projection.exact", "residual of the exact projection is " << r.Normlinf());
      x = 2.75;
      n2.Mult(x, r);
      double vol = 0.0;
      for (int e = 0; e < w.mesh->GetNE(); ++e) 
      {
         auto &T = *w.mesh->GetElementTransformation(e);
         auto &ir = mfem::IntRules.Get(T.GetGeometryType(), 12);
         for (int i = 0; i < ir.GetNPoints(); ++i)
         {
            T.SetIntPoint(&ir.IntPoint(i));
            vol += ir.IntPoint(i).weight * std::fabs(T.Jacobian().Det());
         }
      }
      MC_CHECK(close(r.Sum(), alpha * vol, 1e-9), "projection.mass", "unit excess gives total residual " << r.Sum() << ", volume times alpha " << alpha * vol);
   }
   else
   {
      auto *in = new miso::TestBCIntegrator;
      nf.AddBdrFaceIntegrator(in);
      lf.AddBoundaryIntegrator(new miso::TestBCIntegratorMeshRevSens(u, p, *in));
   }
   for (int i = 0; i < w.vecs.at("state").Size(); ++i) { w.vecs.at("state")(i) = irr(i, 3) + 0.5; }
   put(w, "state");
   check_mesh(w, f, lf, kind ? "boundarymass" : "projection");
   outcome("projection");
}
}  // namespace

int main(int argc, char **argv)
{
   return mc::run(argc, argv, "C32", [] { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
                  {{"interface", s_interface}, {"boundary", s_boundary}, {"projection", s_projection}});
}
