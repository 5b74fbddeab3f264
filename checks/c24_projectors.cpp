// C24: the irrotational and divergence free projections of Nedelec fields, and
// the divergence free current load built from them.
#include "form_ref.hpp"
#include "adept.h"
#include "current_load.hpp"
#include "div_free_projector.hpp"
#include "irrotational_projector.hpp"
using namespace fr;
using std::string;
using std::vector;
using mfem::DenseMatrix;
using mfem::ParGridFunction;
using mfem::Vector;

namespace
{
// a mesh with at least one interior vertex
struct Space
{
   int g, mo, p, dim;
   std::unique_ptr<mfem::ParMesh> mesh;
   std::unique_ptr<mfem::FiniteElementCollection> nd_c, h1_c;
   std::unique_ptr<mfem::ParFiniteElementSpace> nd, h1;
   mfem::ParGridFunction *x;  // the mesh nodes
   Vector x0;
   int order;
   Space(int g, int mo, int p) : g(g), mo(mo), p(p), dim(gdim(g))
   {
      mfem::Mesh m = g == TRI ? mfem::Mesh::MakeCartesian2D(2, 2, mfem::Element::TRIANGLE, true, 1.0, 1.0)
                     : g == QUAD ? mfem::Mesh::MakeCartesian2D(2, 2, mfem::Element::QUADRILATERAL, true, 1.0, 1.0)
                     : g == TET ? mfem::Mesh::MakeCartesian3D(2, 2, p > 1 ? 1 : 2, mfem::Element::TETRAHEDRON, 1.0, 1.0, 1.0)
                                : mfem::Mesh::MakeCartesian3D(2, 2, p > 1 ? 1 : 2, mfem::Element::HEXAHEDRON, 1.0, 1.0, 1.0);
      for (int i = 0; i < m.GetNE(); ++i) { m.SetAttribute(i, 1 + (i >= m.GetNE() / 2)); }
      m.SetAttributes();
      mesh = std::make_unique<mfem::ParMesh>(MPI_COMM_WORLD, m);
      mesh->SetCurvature(mo, false, -1, mfem::Ordering::byNODES);
      x = dynamic_cast<mfem::ParGridFunction *>(mesh->GetNodes());
      const double b = mo > 1 ? 0.02 : 0.05;
      for (int i = 0; i < x->Size(); ++i) { (*x)(i) += b * irr(i, 7); }
      x0 = *x;
      nd_c = std::make_unique<mfem::ND_FECollection>(p, dim);
      h1_c = std::make_unique<mfem::H1_FECollection>(p, dim);
      nd = std::make_unique<mfem::ParFiniteElementSpace>(mesh.get(), nd_c.get());
      h1 = std::make_unique<mfem::ParFiniteElementSpace>(mesh.get(), h1_c.get());
      order = h1->GetElementTransformation(0)->OrderW() + 2 * p;
   }
   int n() const { return nd->GetVSize(); }
   void move(int k)
   {
      for (int i = 0; i < x->Size(); ++i) { (*x)(i) = x0(i) + 0.03 * k * irr(i, 17); }
      moved();
   }
   void moved() { mesh->DeleteGeometricFactors(); }
   // reference: the weak gradient form (grad phi_i, v_j), the stiffness
   // (grad phi_i, grad phi_j) and the discrete gradient, by explicit quadrature
   DenseMatrix G, K, D;
   mfem::Array<int> in;  // interior H1 unknowns
   void reference()
   {
      const int nh = h1->GetVSize();
      G.SetSize(nh, n());
      K.SetSize(nh, nh);
      D.SetSize(n(), nh);
      G = 0.0;
      K = 0.0;
      mfem::Array<int> hd, vd;
      DenseMatrix dh, vn;
      for (int e = 0; e < mesh->GetNE(); ++e)
      {
         auto &he = *h1->GetFE(e), &ve = *nd->GetFE(e);
         auto &t = *mesh->GetElementTransformation(e);
         auto &ir = mfem::IntRules.Get(he.GetGeomType(), order);
         auto *ht = h1->GetElementDofs(e, hd);
         (void)ht;
         mfem::DofTransformation *vt = nd->GetElementDofs(e, vd);
         DenseMatrix lg(he.GetDof(), ve.GetDof());
         lg = 0.0;
         dh.SetSize(he.GetDof(), dim);
         vn.SetSize(ve.GetDof(), dim);
         for (int q = 0; q < ir.GetNPoints(); ++q)
         {
            auto &ip = ir.IntPoint(q);
            t.SetIntPoint(&ip);
            const double w = ip.weight * t.Weight();
            he.CalcPhysDShape(t, dh);
            ve.CalcPhysVShape(t, vn);
            for (int i = 0; i < dh.Height(); ++i)
            {
               for (int j = 0; j < vn.Height(); ++j) { for (int k = 0; k < dim; ++k) { lg(i, j) += w * dh(i, k) * vn(j, k); } }
               for (int j = 0; j < dh.Height(); ++j) { for (int k = 0; k < dim; ++k) { K(hd[i], hd[j]) += w * dh(i, k) * dh(j, k); } }
            }
         }
         if (vt) { vt->TransformDualRows(lg); }
         for (int i = 0; i < lg.Height(); ++i)
         {
            for (int j = 0; j < lg.Width(); ++j)
            {
               const int J = vd[j] >= 0 ? vd[j] : -1 - vd[j];
               G(hd[i], J) += vd[j] >= 0 ? lg(i, j) : -lg(i, j);
            }
         }
      }
      // the Nedelec representation of the gradient of each basis function
      ParGridFunction f(h1.get()), v(nd.get());
      for (int j = 0; j < nh; ++j)
      {
         f = 0.0;
         f(j) = 1.0;
         mfem::GradientGridFunctionCoefficient c(&f);
         v.ProjectCoefficient(c);
         for (int i = 0; i < n(); ++i) { D(i, j) = v(i); }
      }
      mfem::Array<int> bdr(mesh->bdr_attributes.Max()), ess, mark;
      bdr = 1;
      h1->GetEssentialVDofs(bdr, mark);
      in.SetSize(0);
      for (int i = 0; i < nh; ++i) { if (!mark[i]) { in.Append(i); } }
   }
   // D (D^T M D)^-1 G on the interior unknowns: the projection itself
   void irrotational(DenseMatrix &P)
   {
      const int m = in.Size();
      DenseMatrix Ki(m), Gi(m, n()), S(m, n());
      for (int i = 0; i < m; ++i)
      {
         for (int j = 0; j < m; ++j) { Ki(i, j) = K(in[i], in[j]); }
         for (int j = 0; j < n(); ++j) { Gi(i, j) = G(in[i], j); }
      }
      Ki.Invert();
      mfem::Mult(Ki, Gi, S);
      P.SetSize(n());
      P = 0.0;
      for (int i = 0; i < n(); ++i) { for (int k = 0; k < m; ++k) { const double d = D(i, in[k]); if (d != 0.0) { for (int j = 0; j < n(); ++j) { P(i, j) += d * S(k, j); } } } }
   }
};

Space make(const string &what, bool three = false)
{
   const int g = three ? TET + choose(2, "geometry") : choose(4, "geometry");
   const int mo = 1 + choose(2, "mesh order"), p = 1 + choose(gdim(g) == 2 && thorough() ? 3 : 2, "degree");
   note(Str() << what << " " << gname(g) << " mesh order " << mo << " degree " << p);
   return Space(g, mo, p);
}

// one of the two projectors behind one face
struct Proj
{
   bool free;
   std::unique_ptr<miso::IrrotationalProjector> a;
   std::unique_ptr<miso::DivergenceFreeProjector> b;
   Proj(Space &s, bool free) : free(free)
   {
      if (free) { b = std::make_unique<miso::DivergenceFreeProjector>(*s.h1, *s.nd, s.order); }
      else { a = std::make_unique<miso::IrrotationalProjector>(*s.h1, *s.nd, s.order); }
   }
   void mult(const Vector &x, Vector &y)
   {
      y = 1e6;
      if (free) { b->Mult(x, y); }
      else { a->Mult(x, y); }
   }
   void vjp(const Vector &x, const Vector &bar, const string &wrt, Vector &g)
   {
      if (free) { b->vectorJacobianProduct(x, bar, wrt, g); }
      else { a->vectorJacobianProduct(x, bar, wrt, g); }
   }
   void set(const MISOInputs &in)
   {
      if (free) { setInputs(*b, in); }
      else { setInputs(*a, in); }
   }
};
const double TOL = 1e-9;

// the operator is the projection its definition says, on every basis field
void s_projection()
{
   Space s = make("projection");
   const bool free = choose(2, "projector");
   note(free ? "divergence free part" : "irrotational part");
   Quiet q;
   s.reference();
   DenseMatrix P, A(s.n());
   s.irrotational(P);
   Proj pr(s, free);
   ParGridFunction x(s.nd.get()), y(s.nd.get()), z(s.nd.get());
   for (int j = 0; j < s.n(); ++j)
   {
      x = 0.0;
      x(j) = 1.0;
      pr.mult(x, y);
      MC_CHECK(x.Norml2() == 1.0 && x(j) == 1.0, "input", "the field to project was changed");
      for (int i = 0; i < s.n(); ++i)
      {
         A(i, j) = y(i);
         const double ref = free ? (i == j) - P(i, j) : P(i, j);
         MC_CHECK(std::fabs(y(i) - ref) <= TOL, "projection", "entry " << i << " of the projected basis field " << j << " is " << y(i) << ", by its definition " << ref);
      }
      // a second application changes nothing
      pr.mult(y, z);
      z -= y;
      MC_CHECK(z.Normlinf() <= TOL, "idempotent", "projecting basis field " << j << " twice differs from projecting it once by " << z.Normlinf());
   }
   // what is left is weakly divergence free / what is taken is a gradient
   for (int j = 0; j < s.n(); ++j)
   {
      for (int k = 0; k < s.in.Size(); ++k)
      {
         double d = 0;
         for (int i = 0; i < s.n(); ++i) { d += s.G(s.in[k], i) * (free ? A(i, j) : (i == j) - A(i, j)); }
         MC_CHECK(std::fabs(d) <= TOL, "divergence", "weak divergence of the " << (free ? "projection" : "remainder") << " of basis field " << j << " is " << d << " at interior function " << k);
      }
      for (int i = 0; i < s.n(); ++i) { y(i) = free ? (i == j) - A(i, j) : A(i, j); }
      Vector c;
      for (int e = 0; e < s.mesh->GetNE(); ++e)
      {
         auto &t = *s.mesh->GetElementTransformation(e);
         auto &ir = mfem::IntRules.Get(s.nd->GetFE(e)->GetGeomType(), 3);
         for (int k = 0; k < ir.GetNPoints(); ++k)
         {
            t.SetIntPoint(&ir.IntPoint(k));
            y.GetCurl(t, c);
            MC_CHECK(c.Normlinf() <= 1e-7, "curl", "the irrotational part of basis field " << j << " has curl " << c.Normlinf());
         }
      }
   }
   outcome(free ? "free" : "irrot");
}

// products with the transpose of the derivative
void s_in()
{
   Space s = make("product wrt in");
   const bool free = choose(2, "projector");
   Quiet q;
   s.reference();
   DenseMatrix P;
   s.irrotational(P);
   Proj pr(s, free);
   ParGridFunction x(s.nd.get()), bar(s.nd.get());
   for (int i = 0; i < s.n(); ++i) { x(i) = irr(i, 3); }
   for (int j = 0; j < s.n(); ++j)
   {
      bar = 0.0;
      bar(j) = -1.5;
      ParGridFunction g(s.nd.get());
      g = 0.25;
      pr.vjp(x, bar, "in", g);
      for (int i = 0; i < s.n(); ++i)
      {
         const double ref = free ? (i == j) - P(j, i) : P(j, i), got = (g(i) - 0.25) / -1.5;
         MC_CHECK(std::fabs(got - ref) <= TOL, "vjp.in", "derivative of output " << j << " wrt input " << i << ": " << got << ", exact " << ref);
      }
      Vector u(s.n());
      u = 0.25;
      pr.vjp(x, bar, "something else", u);
      MC_CHECK(u.Max() == 0.25 && u.Min() == 0.25, "vjp.other", "a product with respect to something else changed the sensitivity");
   }
   outcome("in");
}
void s_mesh()
{
   Space s = make("product wrt mesh_coords");
   const bool free = choose(2, "projector");
   const int kx = choose(2, "field"), kb = choose(2, "weights");
   Quiet q;
   ParGridFunction x(s.nd.get()), bar(s.nd.get()), y(s.nd.get());
   for (int i = 0; i < s.n(); ++i)
   {
      x(i) = irr(i, 3 + kx);
      bar(i) = irr(i, 13 + kb);
   }
   Proj pr(s, free);
   const int nx = s.x->Size();
   Vector g(nx), d(nx);
   g = 0.25;
   pr.vjp(x, bar, "mesh_coords", g);
   auto f = [&] { s.moved(); Proj r(s, free); r.mult(x, y); return y * bar; };
   for (int i = 0; i < nx; ++i) { d(i) = fd((*s.x)(i), f, 1e-3); }
   const double sc = d.Normlinf();
   for (int i = 0; i < nx; ++i)
   {
      MC_CHECK(std::fabs(g(i) - 0.25 - d(i)) <= 2e-7 * sc, "vjp.mesh_coords", "derivative wrt mesh coordinate " << i << ": " << g(i) - 0.25 << ", difference quotient " << d(i) << " (scale " << sc << ")");
   }
   outcome("mesh");
}

// every history of uses gives what a projector built for the occasion gives
void s_history()
{
   const int g = choose(2, "geometry") ? TET : QUAD, mo = g == TET ? 1 : 2;
   const bool free = choose(2, "projector");
   note(Str() << "history " << gname(g) << (free ? " free" : " irrotational"));
   Quiet q;
   Space s(g, mo, g == TET ? 1 : 2);
   Proj pr(s, free);
   const int depth = thorough() ? 6 : 4;
   ParGridFunction x[2] = {ParGridFunction(s.nd.get()), ParGridFunction(s.nd.get())}, bar(s.nd.get());
   for (int i = 0; i < s.n(); ++i)
   {
      x[0](i) = irr(i, 3);
      x[1](i) = 1 + irr(i, 4);
      bar(i) = irr(i, 5);
   }
   const MISOInputs unrelated{{"state", miso::InputVector(bar)}, {"alpha", 2.0}};
   int at = 0;
   string hist;
   for (int k = 0; k < depth; ++k)
   {
      const int op = choose(6, "operation");
      step();
      hist += "amnuij"[op];
      if (op == 2)
      {
         s.move(at = (at + 1) % 3);
         pr.set({{"mesh_coords", miso::InputVector(*s.x)}});
         continue;
      }
      if (op == 3)
      {
         pr.set(unrelated);
         continue;
      }
      Proj fresh(s, free);
      if (op < 2)
      {
         ParGridFunction a(s.nd.get()), b(s.nd.get());
         pr.mult(x[op], a);
         fresh.mult(x[op], b);
         b -= a;
         MC_CHECK(b.Normlinf() <= TOL, "history.mult", "after " << hist << " the projection differs from that of a new projector by " << b.Normlinf());
         continue;
      }
      const string wrt = op == 4 ? "in" : "mesh_coords";
      Vector a(op == 4 ? s.n() : s.x->Size()), b(a.Size());
      a = 0.5;
      b = 0.5;
      pr.vjp(x[1], bar, wrt, a);
      fresh.vjp(x[1], bar, wrt, b);
      b -= a;
      MC_CHECK(b.Normlinf() <= 1e-8, "history.vjp", "after " << hist << " the product differs from that of a new projector by " << b.Normlinf());
   }
   outcome(hist.substr(hist.size() - 1));
}

// ---- the current load
adept::Stack &stack()
{
   static adept::Stack s;
   return s;
}
const json CUR[] = {json::parse(R"({"A": {"box1": [1]}, "B": {"z": [2]}})"), json::parse(R"({"A": {"-z": [1, 2]}})"), json::parse(R"({"A": {"z": [1], "x": [2]}})")};
struct Load
{
   std::map<string, FiniteElementState> none;
   miso::CurrentLoad l;
   Load(Space &s, const json &o) : l(stack(), *s.nd, none, o) { }
};
struct Cur
{
   json opt;
   std::map<string, double> in;
   MISOInputs inputs(Space &s) const
   {
      MISOInputs r;
      for (auto &p : in) { r.emplace("current_density:" + p.first, p.second); }
      r.emplace("mesh_coords", miso::InputVector(*s.x));
      return r;
   }
};
Cur current(int k, int bc)
{
   Cur c;
   c.opt["current"] = CUR[k];
   for (auto &p : c.opt["current"].items()) { c.in[p.key()] = p.key() == "A" ? 1.75 : -0.5; }
   if (bc == 1) { c.opt["bcs"] = {{"essential", {1, 3}}}; }
   if (bc == 2) { c.opt["bcs"] = {{"essential", {1, 2, 3, 4, 5, 6}}}; }
   return c;
}
void load_of(Space &s, const Cur &c, Vector &v)
{
   Load l(s, c.opt);
   setInputs(l.l, c.inputs(s));
   v.SetSize(s.nd->GetTrueVSize());
   v = 0.0;
   addLoad(l.l, v);
}
// a load is minus the moments of the divergence free part of the L2
// projection of the current density onto the Nedelec space
void s_load()
{
   Space s = make("current load", true);
   const int k = choose(3, "currents"), bc = choose(3, "boundary");
   note(Str() << "currents " << CUR[k].dump() << " essential " << bc);
   Quiet q;
   Cur c = current(k, bc);
   s.reference();
   DenseMatrix P;
   s.irrotational(P);
   miso::CurrentDensityCoefficient jc(stack(), c.opt["current"]);
   setInputs(jc, c.inputs(s));
   mfem::ParLinearForm J(s.nd.get());
   J.AddDomainIntegrator(new mfem::VectorFEDomainLFIntegrator(jc));
   J.Assemble();
   mfem::ParBilinearForm m(s.nd.get());
   m.AddDomainIntegrator(new mfem::VectorFEMassIntegrator);
   m.Assemble();
   m.Finalize();
   DenseMatrix M;
   m.SpMat().ToDenseMatrix(M);
   DenseMatrix Mi(M);
   Mi.Invert();
   Vector j(s.n()), t(s.n()), ref(s.n());
   Mi.Mult(J, j);
   P.Mult(j, t);
   j -= t;
   M.Mult(j, ref);
   mfem::Array<int> ess;
   if (bc)
   {
      mfem::Array<int> b(s.mesh->bdr_attributes.Max());
      b = 0;
      for (int a : c.opt["bcs"]["essential"]) { b[a - 1] = 1; }
      s.nd->GetEssentialTrueDofs(b, ess);
      ref.SetSubVector(ess, 0.0);
   }
   Load l(s, c.opt);
   setInputs(l.l, c.inputs(s));
   MC_CHECK(getSize(l.l) == s.nd->GetTrueVSize(), "load.size", "size of the load " << getSize(l.l));
   Vector v(s.n());
   for (int rep = 0; rep < 2; ++rep)
   {
      v = 3.0;
      addLoad(l.l, v);
      for (int i = 0; i < s.n(); ++i)
      {
         MC_CHECK(std::fabs(3.0 - v(i) - ref(i)) <= 1e-9 * (1 + ref.Normlinf()), "load.value", "load " << i << " is " << 3.0 - v(i) << ", by its definition " << ref(i));
      }
   }
   outcome(Str() << k << bc);
}
void s_load_vjp()
{
   Space s = make("current load products", true);
   const int k = choose(3, "currents"), bc = choose(3, "boundary");
   note(Str() << "currents " << CUR[k].dump() << " essential " << bc);
   Quiet q;
   Cur c = current(k, bc);
   Load l(s, c.opt);
   setInputs(l.l, c.inputs(s));
   Vector bar(s.n()), v;
   for (int i = 0; i < s.n(); ++i) { bar(i) = irr(i, 5); }
   auto f = [&] { s.moved(); load_of(s, c, v); return v * bar; };
   Vector t(s.n());
   t = 0.0;
   addLoad(l.l, t);
   for (auto &p : c.in)
   {
      const double d = fd(p.second, f, 0.5);
      const double r = vectorJacobianProduct(l.l, bar, "current_density:" + p.first);
      MC_CHECK(std::fabs(r - d) <= 1e-8 * (1 + std::fabs(d)), "load.vjp.current", "derivative wrt current density " << p.first << " is " << r << ", difference quotient " << d);
   }
   MC_CHECK(vectorJacobianProduct(l.l, bar, "alpha") == 0.0, "load.vjp.other", "derivative wrt something unrelated is not zero");
   // all coordinates at once is expensive: directions that move one node
   const int nx = s.x->Size();
   Vector g(nx), w(nx);
   g = 0.25;
   vectorJacobianProduct(l.l, bar, "mesh_coords", g);
   g -= 0.25;
   const int stride = thorough() ? 1 : (s.dim == 3 && nx > 90 ? 1 + nx / 60 : 1);
   const int off = stride > 1 ? choose(2, "offset") : 0;
   const double sc = g.Normlinf();
   for (int i = off; i < nx; i += stride)
   {
      const double d = fd((*s.x)(i), f, 1e-3);
      MC_CHECK(std::fabs(g(i) - d) <= 1e-6 * sc, "load.vjp.mesh_coords", "derivative wrt mesh coordinate " << i << " is " << g(i) << ", difference quotient " << d << " (scale " << sc << ")");
   }
   outcome(Str() << "vjp" << k << bc);
}
void s_load_history()
{
   const int g = TET + choose(2, "geometry");
   const int bc = choose(2, "boundary");
   note(Str() << "load history " << gname(g) << " essential " << bc);
   Quiet q;
   Space s(g, 1, 1);
   Cur c = current(0, bc);
   Load l(s, c.opt);
   setInputs(l.l, c.inputs(s));
   const int depth = thorough() ? 5 : 3;
   Vector bar(s.n());
   for (int i = 0; i < s.n(); ++i) { bar(i) = irr(i, 5); }
   int at = 0;
   string hist;
   for (int k = 0; k < depth; ++k)
   {
      const int op = choose(8, "operation");
      step();
      hist += "abmulsti"[op];
      if (op < 2)
      {
         auto &v = c.in[op ? "B" : "A"];
         v = v > 1 ? -0.75 : v + 2.0;
         setInputs(l.l, {{op ? "current_density:B" : "current_density:A", v}});
         continue;
      }
      if (op == 2)
      {
         s.move(at = (at + 1) % 3);
         setInputs(l.l, {{"mesh_coords", miso::InputVector(*s.x)}});
         continue;
      }
      if (op == 3)
      {
         setInputs(l.l, {{"state", miso::InputVector(bar)}, {"alpha", 2.0}, {"current_density:A", c.in["A"]}});
         continue;
      }
      Load fresh(s, c.opt);
      setInputs(fresh.l, c.inputs(s));
      if (op == 4)
      {
         Vector a(s.n()), b(s.n());
         a = 0.5;
         b = 0.5;
         addLoad(l.l, a);
         addLoad(fresh.l, b);
         b -= a;
         MC_CHECK(b.Normlinf() <= 1e-9, "load.history", "after " << hist << " the load differs from that of a new one by " << b.Normlinf());
         continue;
      }
      if (op == 7)
      {
         Vector a(s.x->Size()), b(s.x->Size());
         a = 0.5;
         b = 0.5;
         vectorJacobianProduct(l.l, bar, "mesh_coords", a);
         vectorJacobianProduct(fresh.l, bar, "mesh_coords", b);
         b -= a;
         MC_CHECK(b.Normlinf() <= 1e-8, "load.history.mesh", "after " << hist << " the mesh product differs from that of a new one by " << b.Normlinf());
         continue;
      }
      const string n = op == 5 ? "current_density:A" : "current_density:B";
      const double a = vectorJacobianProduct(l.l, bar, n), b = vectorJacobianProduct(fresh.l, bar, n);
      MC_CHECK(std::fabs(a - b) <= 1e-8, "load.history.current", "after " << hist << " the product wrt " << n << " is " << a << ", of a new load " << b);
   }
   outcome(Str() << "load" << hist.substr(hist.size() - 1));
}
}  // namespace

int main(int argc, char **argv)
{
   return run(argc, argv, "C24", [] { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
              {{"projection", s_projection},
               {"product wrt the field", s_in},
               {"product wrt the mesh", s_mesh},
               {"history of a projector", s_history},
               {"current load", s_load},
               {"current load products", s_load_vjp},
               {"history of a current load", s_load_history}});
}
