// Small worlds (mesh, spaces, fields) for forms, functionals and integrators,
// and the checks every one of them has to satisfy: each derivative it offers
// is the derivative of the value it computes.  All basis directions and all
// basis adjoints are enumerated; derivatives of the value come from fourth
// order central differences of the public evaluation.
#ifndef FORM_REF_HPP
#define FORM_REF_HPP
#include <cmath>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "mfem.hpp"
#include "coefficient.hpp"
#include "finite_element_state.hpp"
#include "functional_output.hpp"
#include "miso_input.hpp"
#include "miso_linearform.hpp"
#include "miso_nonlinearform.hpp"
#include "mc.hpp"

namespace fr
{
using json = nlohmann::json;
using miso::FiniteElementState;
using miso::MISOInputs;
using namespace mc;

// what the code under test prints is dropped
struct Quiet
{
   struct B : std::streambuf { int overflow(int c) override { return c; } };
   std::streambuf *o;
   Quiet() : o(std::cout.rdbuf(buf())) { mfem::out.Disable(); }
   ~Quiet() { std::cout.rdbuf(o); mfem::out.Enable(); }
   static std::streambuf *buf() { static B b; return &b; }
};

// a fixed, irregular sequence in (-1, 1)
inline double irr(int i, int seed)
{
   double s = std::sin(12.9898 * (i + 1) + 78.233 * (seed + 1)) * 43758.5453;
   return 2.0 * (s - std::floor(s)) - 1.0;
}

enum Geom { TRI, QUAD, TET, HEX, NGEOM };
inline const char *gname(int g)
{
   static const char *n[] = {"tri", "quad", "tet", "hex"};
   return n[g];
}
inline int gdim(int g) { return g < TET ? 2 : 3; }

// Two elements sharing one face; the elements have attributes 1 and 2, every
// outer face its own attribute 1..n, the shared face the attribute n + 1.
inline mfem::Mesh two_elements(int g, bool inner = true)
{
   using mfem::Mesh;
   auto in = [&](int n) { return inner ? n + 1 : n; };
   if (g == TRI)
   {
      Mesh m(2, 4, 2, in(4), 2);
      double v[4][2] = {{0, 0}, {1.1, 0.1}, {0.9, 1.2}, {-0.1, 0.8}};
      for (auto &p : v) { m.AddVertex(p[0], p[1]); }
      m.AddTriangle(0, 1, 2, 1);
      m.AddTriangle(0, 2, 3, 2);
      m.AddBdrSegment(0, 1, 1);
      m.AddBdrSegment(1, 2, 2);
      m.AddBdrSegment(2, 3, 3);
      m.AddBdrSegment(3, 0, 4);
      if (inner) { m.AddBdrSegment(0, 2, 5); }
      m.FinalizeTopology();
      m.Finalize(false, false);
      return m;
   }
   if (g == QUAD)
   {
      Mesh m(2, 6, 2, in(6), 2);
      double v[6][2] = {{0, 0}, {1.1, 0.1}, {2.0, -0.1}, {-0.1, 0.9}, {1.0, 1.1}, {2.1, 1.2}};
      for (auto &p : v) { m.AddVertex(p[0], p[1]); }
      m.AddQuad(0, 1, 4, 3, 1);
      m.AddQuad(1, 2, 5, 4, 2);
      m.AddBdrSegment(0, 1, 1);
      m.AddBdrSegment(1, 2, 2);
      m.AddBdrSegment(2, 5, 3);
      m.AddBdrSegment(5, 4, 4);
      m.AddBdrSegment(4, 3, 5);
      m.AddBdrSegment(3, 0, 6);
      if (inner) { m.AddBdrSegment(1, 4, 7); }
      m.FinalizeTopology();
      m.Finalize(false, false);
      return m;
   }
   if (g == TET)
   {
      Mesh m(3, 5, 2, in(6), 3);
      double v[5][3] = {{0, 0, 0}, {1.1, 0.1, 0}, {0.2, 0.9, -0.1}, {0.1, 0.2, 1.0}, {0.9, 1.0, 0.8}};
      for (auto &p : v) { m.AddVertex(p[0], p[1], p[2]); }
      m.AddTet(0, 1, 2, 3, 1);
      m.AddTet(1, 2, 3, 4, 2);
      m.AddBdrTriangle(0, 2, 1, 1);
      m.AddBdrTriangle(0, 1, 3, 2);
      m.AddBdrTriangle(0, 3, 2, 3);
      m.AddBdrTriangle(1, 2, 4, 4);
      m.AddBdrTriangle(2, 3, 4, 5);
      m.AddBdrTriangle(3, 1, 4, 6);
      if (inner) { m.AddBdrTriangle(1, 2, 3, 7); }
      m.FinalizeTopology();
      m.Finalize(false, true);
      return m;
   }
   Mesh m(3, 12, 2, in(10), 3);
   for (int k = 0; k < 2; ++k)
   {
      for (int j = 0; j < 2; ++j)
      {
         for (int i = 0; i < 3; ++i) { m.AddVertex(i + 0.1 * j, j - 0.05 * i, k + 0.07 * i * j); }
      }
   }
   int h1[8] = {0, 1, 4, 3, 6, 7, 10, 9}, h2[8] = {1, 2, 5, 4, 7, 8, 11, 10};
   m.AddHex(h1, 1);
   m.AddHex(h2, 2);
   int f[11][4] = {{0, 3, 4, 1}, {1, 4, 5, 2}, {6, 7, 10, 9}, {7, 8, 11, 10}, {0, 1, 7, 6}, {1, 2, 8, 7},
                   {3, 9, 10, 4}, {4, 10, 11, 5}, {0, 6, 9, 3}, {2, 5, 11, 8}, {1, 4, 10, 7}};
   for (int i = 0; i < in(10); ++i) { m.AddBdrQuad(f[i], i + 1); }
   m.FinalizeTopology();
   m.Finalize(false, false);
   return m;
}

struct World
{
   int geom, morder, dim;
   std::unique_ptr<mfem::ParMesh> mesh;
   std::map<std::string, FiniteElementState> fields;
   // what a caller passes as inputs
   std::map<std::string, mfem::Vector> vecs;
   std::map<std::string, double> scalars;

   /// morder 1: straight (affine simplices, bilinear quads); >1: curved nodes
   World(int geom, int morder, double bend = 0.05, bool inner = true) : geom(geom), morder(morder), dim(gdim(geom))
   {
      mfem::Mesh s = two_elements(geom, inner);
      mesh = std::make_unique<mfem::ParMesh>(MPI_COMM_WORLD, s);
      mesh->SetCurvature(morder, false, -1, mfem::Ordering::byNODES);
      auto &gf = *dynamic_cast<mfem::ParGridFunction *>(mesh->GetNodes());
      fields.emplace(std::piecewise_construct, std::forward_as_tuple("mesh_coords"),
                     std::forward_as_tuple(*mesh, *gf.ParFESpace(), "mesh_coords"));
      auto &mc = fields.at("mesh_coords");
      mc.gridFunc() = gf;
      // the field holds a reference to the mesh's own space: keep the old nodes alive
      old_nodes = &gf;
      mesh->SetNodesOwner(false);
      mesh->NewNodes(mc.gridFunc(), false);
      mfem::Vector x(mc.space().GetTrueVSize());
      mc.setTrueVec(x);
      for (int i = 0; i < x.Size(); ++i) { x(i) += (morder > 1 ? bend : 0.3 * bend) * irr(i, 7); }
      mc.distributeSharedDofs(x);
      vecs["mesh_coords"] = x;
   }
   ~World()
   {
      fields.clear();
      // the mesh does not own its nodes any more and must not touch them
      delete old_nodes;
   }
   mfem::GridFunction *old_nodes = nullptr;

   FiniteElementState &add(const std::string &name, const std::string &basis, int degree, int vdim, int seed, double scale = 1.0, double shift = 0.0)
   {
      auto it = fields.emplace(std::piecewise_construct, std::forward_as_tuple(name),
                               std::forward_as_tuple(*mesh, json{{"basis-type", basis}, {"degree", degree}}, vdim, name)).first;
      auto &v = vecs[name];
      v.SetSize(it->second.space().GetTrueVSize());
      for (int i = 0; i < v.Size(); ++i) { v(i) = shift + scale * irr(i, seed); }
      it->second.distributeSharedDofs(v);
      return it->second;
   }
   MISOInputs inputs() const
   {
      MISOInputs in;
      for (auto &p : vecs) { in.emplace(p.first, miso::InputVector(p.second)); }
      for (auto &p : scalars) { in.emplace(p.first, p.second); }
      return in;
   }
   int size(const std::string &n) const { return vecs.at(n).Size(); }
};

/// fourth order central difference
template <class F>
double fd(double &x, F f, double h)
{
   const double x0 = x;
   x = x0 + h; double p1 = f();
   x = x0 - h; double m1 = f();
   x = x0 + 2 * h; double p2 = f();
   x = x0 - 2 * h; double m2 = f();
   x = x0;
   f();
   return (8 * (p1 - m1) - (p2 - m2)) / (12 * h);
}
template <class F>
void fdv(double &x, F f, double h, mfem::Vector &d)
{
   const double x0 = x;
   mfem::Vector p1, m1, p2, m2;
   x = x0 + h; f(p1);
   x = x0 - h; f(m1);
   x = x0 + 2 * h; f(p2);
   x = x0 - 2 * h; f(m2);
   x = x0;
   d.SetSize(p1.Size());
   for (int i = 0; i < d.Size(); ++i) { d(i) = (8 * (p1(i) - m1(i)) - (p2(i) - m2(i))) / (12 * h); }
}
inline double step_for(double x, double rel = 1e-3) { return rel * std::max(std::fabs(x), 1.0); }

struct Opt
{
   double tol = 1e-7, h = 3e-4;
   std::vector<std::string> wrt;      // fields
   double floor = 0;  // derivatives smaller than this are noise
   std::vector<std::string> scalar;   // scalar inputs
   std::map<std::string, double> hs;  // steps of particular inputs
   bool jvp = true, partial = false;
   std::string state = "state";
   std::vector<bool> ess;  // essential unknowns of a residual
   double step(const std::string &n, double x) const
   {
      auto it = hs.find(n);
      return it != hs.end() ? it->second : step_for(x, h);
   }
};

/// A functional: value, partials, forward and reverse products.
template <class Out>
void check_output(World &w, Out &out, const Opt &o, const std::string &tag)
{
   auto f = [&] { return calcOutput(out, w.inputs()); };
   // callers keep their inputs alive between setting them and asking for products
   const MISOInputs base = w.inputs();
   setInputs(out, base);
   const double f0 = calcOutput(out, base);
   MC_CHECK(std::isfinite(f0), tag + ".value", tag << ": value " << f0);
   for (auto &wrt : o.wrt)
   {
      auto &x = w.vecs.at(wrt);
      const int n = x.Size();
      mfem::Vector g(n);
      for (int i = 0; i < n; ++i) { g(i) = fd(x(i), f, o.step(wrt, x(i))); }
      const double sc = g.Normlinf() + 1e-4 * std::fabs(f0) + 1e-300;
      setInputs(out, base);
      calcOutput(out, base);
      mfem::Vector bar(n), ob(1);
      bar = 0.25 * sc;
      ob = -1.75;
      vectorJacobianProduct(out, ob, wrt, bar);
      for (int i = 0; i < n; ++i)
      {
         const double got = (bar(i) - 0.25 * sc) / -1.75;
         MC_CHECK(std::fabs(got - g(i)) <= o.tol * sc, tag + ".vjp." + wrt,
                  tag << ": d/d" << wrt << "[" << i << "] by reverse product " << got << ", difference quotient " << g(i) << " (scale " << sc << ")");
      }
      if (o.jvp && n > 1)
      {
         for (int i = 0; i < n; ++i)
         {
            mfem::Vector e(n);
            e = 0.0;
            e(i) = 1.5;
            const double got = jacobianVectorProduct(out, e, wrt) / 1.5;
            MC_CHECK(std::fabs(got - g(i)) <= o.tol * sc, tag + ".jvp." + wrt,
                     tag << ": d/d" << wrt << "[" << i << "] by forward product " << got << ", difference quotient " << g(i));
         }
      }
      if constexpr (std::is_same<Out, miso::FunctionalOutput>::value)
      {
         mfem::Vector p(n);
         p = 77.0;
         calcOutputPartial(out, wrt, base, p);
         for (int i = 0; i < n; ++i)
         {
            MC_CHECK(std::fabs(p(i) - g(i)) <= o.tol * sc, tag + ".partial." + wrt,
                     tag << ": partial wrt " << wrt << "[" << i << "] " << p(i) << ", difference quotient " << g(i));
         }
      }
   }
}
/// scalar inputs of a functional
template <class Out>
void check_output_scalar(World &w, Out &out, const Opt &o, const std::string &tag)
{
   auto f = [&] { return calcOutput(out, w.inputs()); };
   for (auto &wrt : o.scalar)
   {
      double &s = w.scalars.at(wrt);
      const double f0 = f();
      const double h = o.hs.count(wrt) ? o.hs.at(wrt) : o.h * std::fabs(s);
      const double g = fd(s, f, h), sc = std::fabs(g) + 1e-4 * std::fabs(f0) + 1e-300;
      const MISOInputs base = w.inputs();
      setInputs(out, base);
      calcOutput(out, base);
      mfem::Vector ob(1), e(1);
      ob = -1.75;
      const double r = vectorJacobianProduct(out, ob, wrt) / -1.75;
      MC_CHECK(std::fabs(r - g) <= o.tol * sc, tag + ".vjp." + wrt, tag << ": d/d" << wrt << " by reverse product " << r << ", difference quotient " << g);
      if (o.jvp)
      {
         e = 1.5;
         const double j = jacobianVectorProduct(out, e, wrt) / 1.5;
         MC_CHECK(std::fabs(j - g) <= o.tol * sc, tag + ".jvp." + wrt, tag << ": d/d" << wrt << " by forward product " << j << ", difference quotient " << g);
      }
   }
}

inline double max_norm(const std::vector<mfem::Vector> &c)
{
   double m = 0.0;
   for (auto &v : c) { m = std::max(m, v.Normlinf()); }
   return m;
}

/// A residual: state Jacobian, its products, and reverse products wrt inputs.
template <class NF>
void check_residual(World &w, NF &nf, const Opt &o, const std::string &tag)
{
   const int n = getSize(nf);
   auto R = [&](mfem::Vector &r)
   {
      const MISOInputs in = w.inputs();
      setInputs(nf, in);
      r.SetSize(n);
      r = 99.0;
      evaluate(nf, in, r);
   };
   mfem::Vector r0;
   R(r0);
   for (int i = 0; i < n; ++i) { MC_CHECK(std::isfinite(r0(i)), tag + ".value", tag << ": residual[" << i << "] = " << r0(i)); }
   const MISOInputs base = w.inputs();
   // state Jacobian
   {
      auto &u = w.vecs.at(o.state);
      std::vector<mfem::Vector> col(n);
      for (int j = 0; j < n; ++j) { fdv(u(j), R, o.step(o.state, u(j)), col[j]); }
      const double sc = max_norm(col) + 1e-4 * r0.Normlinf() + o.floor + 1e-300;
      setInputs(nf, base);
      linearize(nf, base);
      auto &J = getJacobian(nf, base, o.state);
      auto &JT = getJacobianTranspose(nf, base, o.state);
      mfem::Vector e(n), y(n), yt(n), p(n), q(n);
      for (int j = 0; j < n; ++j)
      {
         e = 0.0;
         e(j) = 1.0;
         J.Mult(e, y);
         JT.Mult(e, yt);
         p = 0.25 * sc;
         if (o.jvp) { jacobianVectorProduct(nf, e, "state", p); }
         q = 0.25 * sc;
         vectorJacobianProduct(nf, e, "state", q);
         for (int i = 0; i < n; ++i)
         {
            // rows and columns of essential unknowns are the identity's in the matrix
            const bool ei = !o.ess.empty() && o.ess[i], ej = !o.ess.empty() && o.ess[j];
            const double jij = ei || ej ? (i == j) : col[j](i), jji = ei || ej ? (i == j) : col[i](j);
            MC_CHECK(std::fabs(y(i) - jij) <= o.tol * sc, tag + ".jac", tag << ": dR[" << i << "]/du[" << j << "] = " << y(i) << ", difference quotient " << jij << " (scale " << sc << ")");
            MC_CHECK(std::fabs(yt(i) - jji) <= o.tol * sc, tag + ".jact", tag << ": transposed Jacobian (" << i << "," << j << ") = " << yt(i) << ", difference quotient " << jji);
            // the products leave out an essential row's own condition, or both have it
            if ((ei || ej) && i == j)
            {
               MC_CHECK(!o.jvp || std::fabs(p(i) - q(i)) <= o.tol * sc, tag + ".products.state", tag << ": forward and reverse products disagree in the essential row " << i);
               continue;
            }
            MC_CHECK(!o.jvp || std::fabs(p(i) - 0.25 * sc - col[j](i)) <= o.tol * sc, tag + ".jvp.state", tag << ": forward product row " << i << " direction " << j);
            MC_CHECK(std::fabs(q(i) - 0.25 * sc - col[i](j)) <= o.tol * sc, tag + ".vjp.state", tag << ": reverse product entry " << i << " adjoint " << j);
         }
      }
   }
   for (auto &wrt : o.wrt)
   {
      auto &x = w.vecs.at(wrt);
      const int m = x.Size();
      std::vector<mfem::Vector> col(m);
      for (int j = 0; j < m; ++j) { fdv(x(j), R, o.step(wrt, x(j)), col[j]); }
      const double sc = max_norm(col) + 1e-4 * r0.Normlinf() + o.floor + 1e-300;
      setInputs(nf, base);
      linearize(nf, base);
      mfem::Vector e(n), b(m);
      for (int k = 0; k < n; ++k)
      {
         e = 0.0;
         e(k) = -1.5;
         b = 0.25 * sc;
         vectorJacobianProduct(nf, e, wrt, b);
         for (int j = 0; j < m; ++j)
         {
            const double got = (b(j) - 0.25 * sc) / -1.5;
            MC_CHECK(std::fabs(got - col[j](k)) <= o.tol * sc, tag + ".vjp." + wrt,
                     tag << ": dR[" << k << "]/d" << wrt << "[" << j << "] by reverse product " << got << ", difference quotient " << col[j](k) << " (scale " << sc << ")");
         }
      }
   }
   for (auto &wrt : o.scalar)
   {
      double &s = w.scalars.at(wrt);
      mfem::Vector col;
      fdv(s, R, o.hs.count(wrt) ? o.hs.at(wrt) : o.h * std::fabs(s), col);
      const double sc = col.Normlinf() + 1e-4 * r0.Normlinf() + o.floor + 1e-300;
      setInputs(nf, base);
      linearize(nf, base);
      mfem::Vector e(n);
      for (int k = 0; k < n; ++k)
      {
         e = 0.0;
         e(k) = -1.5;
         const double got = vectorJacobianProduct(nf, e, wrt) / -1.5;
         MC_CHECK(std::fabs(got - col(k)) <= o.tol * sc, tag + ".vjp." + wrt,
                  tag << ": dR[" << k << "]/d" << wrt << " by reverse product " << got << ", difference quotient " << col(k));
      }
   }
}

/// A load: reverse products wrt fields and scalars.
template <class LF>
void check_load(World &w, LF &lf, const Opt &o, const std::string &tag, int size = 0)
{
   const int n = size ? size : getSize(lf);
   auto R = [&](mfem::Vector &r)
   {
      const MISOInputs in = w.inputs();
      setInputs(lf, in);
      r.SetSize(n);
      r = 0.0;
      addLoad(lf, r);
   };
   mfem::Vector r0;
   R(r0);
   for (int i = 0; i < n; ++i) { MC_CHECK(std::isfinite(r0(i)), tag + ".value", tag << ": load[" << i << "] = " << r0(i)); }
   // the load is added
   {
      mfem::Vector r(n);
      r = 0.5;
      addLoad(lf, r);
      for (int i = 0; i < n; ++i) { MC_CHECK(std::fabs(r(i) - 0.5 - r0(i)) <= 1e-12 * (1 + std::fabs(r0(i))), tag + ".add", tag << ": load is not added to the vector it is given"); }
   }
   const MISOInputs base = w.inputs();
   for (auto &wrt : o.wrt)
   {
      auto &x = w.vecs.at(wrt);
      const int m = x.Size();
      std::vector<mfem::Vector> col(m);
      for (int j = 0; j < m; ++j) { fdv(x(j), R, o.step(wrt, x(j)), col[j]); }
      const double sc = max_norm(col) + 1e-4 * r0.Normlinf() + o.floor + 1e-300;
      setInputs(lf, base);
      mfem::Vector e(n), b(m);
      for (int k = 0; k < n; ++k)
      {
         e = 0.0;
         e(k) = -1.5;
         b = 0.25 * sc;
         vectorJacobianProduct(lf, e, wrt, b);
         for (int j = 0; j < m; ++j)
         {
            const double got = (b(j) - 0.25 * sc) / -1.5;
            MC_CHECK(std::fabs(got - col[j](k)) <= o.tol * sc, tag + ".vjp." + wrt,
                     tag << ": dF[" << k << "]/d" << wrt << "[" << j << "] by reverse product " << got << ", difference quotient " << col[j](k) << " (scale " << sc << ")");
         }
      }
   }
   for (auto &wrt : o.scalar)
   {
      double &s = w.scalars.at(wrt);
      mfem::Vector col;
      fdv(s, R, o.hs.count(wrt) ? o.hs.at(wrt) : o.h * std::fabs(s), col);
      const double sc = col.Normlinf() + 1e-4 * r0.Normlinf() + o.floor + 1e-300;
      setInputs(lf, base);
      mfem::Vector e(n);
      for (int k = 0; k < n; ++k)
      {
         e = 0.0;
         e(k) = -1.5;
         const double got = vectorJacobianProduct(lf, e, wrt) / -1.5;
         MC_CHECK(std::fabs(got - col(k)) <= o.tol * sc, tag + ".vjp." + wrt,
                  tag << ": dF[" << k << "]/d" << wrt << " by reverse product " << got << ", difference quotient " << col(k));
      }
   }
}

// ---- coefficients with known derivatives
/// c0 + c1 sin(k.x) + c2 s^2 + c3 s: every combination of constant, space and state dependence
class TestCoeff : public miso::StateCoefficient
{
public:
   double c0, cx, c2, c1;
   TestCoeff(double c0 = 1.3, double cx = 0.0, double c2 = 0.0, double c1 = 0.0) : c0(c0), cx(cx), c2(c2), c1(c1) { }
   static double arg(const mfem::Vector &x) { return 0.7 * x(0) + 1.1 * x(1) + (x.Size() > 2 ? 0.5 * x(2) : 0.0); }
   double Eval(mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip, double s) override
   {
      double xb[3];
      mfem::Vector x(xb, t.GetSpaceDim());
      t.Transform(ip, x);
      return c0 + cx * std::sin(arg(x)) + c2 * s * s + c1 * s;
   }
   double EvalStateDeriv(mfem::ElementTransformation &, const mfem::IntegrationPoint &, double s) override { return 2 * c2 * s + c1; }
   double EvalState2ndDeriv(mfem::ElementTransformation &, const mfem::IntegrationPoint &, const double) override { return 2 * c2; }
   using miso::StateCoefficient::EvalRevDiff;
   void EvalRevDiff(double b, mfem::ElementTransformation &t, const mfem::IntegrationPoint &ip, double, mfem::DenseMatrix &P) override
   {
      double xb[3];
      mfem::Vector x(xb, t.GetSpaceDim()), sh;
      t.Transform(ip, x);
      const double d = b * cx * std::cos(arg(x)), k[3] = {0.7, 1.1, 0.5};
      auto &fe = *dynamic_cast<mfem::IsoparametricTransformation &>(t).GetFE();
      sh.SetSize(fe.GetDof());
      fe.CalcShape(ip, sh);
      for (int j = 0; j < sh.Size(); ++j) { for (int i = 0; i < x.Size(); ++i) { P(i, j) += d * k[i] * sh(j); } }
   }
};
}  // namespace fr
#endif
