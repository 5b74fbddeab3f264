// Small curved meshes with SBP elements, states on them, and the nodes of their faces
#ifndef VERIF_SBP_DISC_HPP
#define VERIF_SBP_DISC_HPP
#include <array>
#include <cmath>
#include <memory>
#include "mc.hpp"
#include "mfem.hpp"
#include "mpi.h"
#include "sbp_fe.hpp"
#include "gas_ref.hpp"
#include "form_ref.hpp"

using namespace mc;
using mfem::DenseMatrix;
using mfem::Vector;
typedef std::string S;

namespace
{
template <int d>
struct Mix
{
   // one smooth and one rough family, both clear of the kinks of the fluxes
   static gas::Prim<d> smooth(const Vector &x, int seed)
   {
      gas::Prim<d> s;
      double a = 0.3 * seed;
      double sx = 0;
      for (int k = 0; k < d; ++k) { sx += (k + 1) * 0.7 * x(k); }
      s.rho = 1.1 + 0.15 * sin(sx + a);
      s.p = 0.8 + 0.1 * cos(1.3 * sx - a);
      for (int k = 0; k < d; ++k) { s.u[k] = 0.35 - 0.12 * k + 0.1 * sin(sx * (k + 1) + k); }
      return s;
   }
   static gas::Prim<d> rough(int i, int seed)
   {
      gas::Prim<d> s;
      s.rho = 1.3 + 0.8 * fr::irr(5 * i, seed);
      s.p = 1.2 + 0.7 * fr::irr(5 * i + 1, seed);
      for (int k = 0; k < d; ++k) { s.u[k] = 1.4 * fr::irr(5 * i + 2 + k, seed); }
      return s;
   }
   static gas::Prim<d> uniform()
   {
      gas::Prim<d> s;
      s.rho = 1.2;
      s.p = 0.9;
      for (int k = 0; k < d; ++k) { s.u[k] = 0.4 - 0.25 * k; }
      return s;
   }
};
enum { SMOOTH, ROUGH, UNIFORM };
uint64_t hash_of(const double *p, size_t bytes)
{
   uint64_t h = 1469598103934665603ull;
   const unsigned char *c = (const unsigned char *)p;
   for (size_t i = 0; i < bytes; ++i) { h = (h ^ c[i]) * 1099511628211ull; }
   return h;
}

template <int d>
struct Disc
{
   static constexpr int ns = d + 2;
   std::unique_ptr<mfem::Mesh> mesh;
   std::unique_ptr<mfem::FiniteElementCollection> fec;
   std::unique_ptr<mfem::FiniteElementSpace> fes;

   Disc(int p, int order, bool dg, double bend = 0.06)
   {
      if (d == 1) { mesh = std::make_unique<mfem::Mesh>(mfem::Mesh::MakeCartesian1D(2, 1.3)); }
      else { mesh = std::make_unique<mfem::Mesh>(fr::two_elements(d == 2 ? fr::TRI : fr::TET, false)); }
      mesh->SetCurvature(order, false, -1, mfem::Ordering::byNODES);
      auto &x = *mesh->GetNodes();
      for (int i = 0; i < x.Size(); ++i) { x(i) += (order > 1 ? bend : 0.3 * bend) * fr::irr(i, 7); }
      // discontinuous collections exist in two dimensions only
      if (dg && d == 2) { fec = std::make_unique<mfem::DSBPCollection>(p, d); }
      else { fec = std::make_unique<mfem::SBPCollection>(p, d); }
      fes = std::make_unique<mfem::FiniteElementSpace>(mesh.get(), fec.get(), ns, mfem::Ordering::byNODES);
   }
   const mfem::SBPFiniteElement &el(int e) const { return dynamic_cast<const mfem::SBPFiniteElement &>(*fes->GetFE(e)); }
   mfem::ElementTransformation &tr(int e) const { return *mesh->GetElementTransformation(e); }
   int nn(int e) const { return el(e).GetDof(); }
   Vector node_x(int e, int i) const
   {
      Vector x(d);
      tr(e).Transform(el(e).GetNodes().IntPoint(i), x);
      return x;
   }
   gas::Prim<d> prim(int e, int i, int kind, int seed) const
   {
      if (kind == SMOOTH) { return Mix<d>::smooth(node_x(e, i), seed); }
      if (kind == ROUGH) { return Mix<d>::rough(100 * e + i, seed + 11); }
      return Mix<d>::uniform();
   }
   Vector state(int e, int kind, int seed, bool ent) const
   {
      int n = nn(e);
      Vector u(ns * n);
      for (int i = 0; i < n; ++i)
      {
         auto s = prim(e, i, kind, seed);
         auto q = ent ? s.entv() : s.cons();
         for (int k = 0; k < ns; ++k) { u(k * n + i) = (double)q[k]; }
      }
      return u;
   }
   /// adjugate of the mapping Jacobian at a node, from its definition
   DenseMatrix adj(int e, int i) const
   {
      auto &t = tr(e);
      t.SetIntPoint(&el(e).GetNodes().IntPoint(i));
      DenseMatrix J(t.Jacobian()), A(d);
      if (d == 1) { A(0, 0) = 1; }
      else if (d == 2)
      {
         A(0, 0) = J(1, 1);
         A(0, 1) = -J(0, 1);
         A(1, 0) = -J(1, 0);
         A(1, 1) = J(0, 0);
      }
      else
      {
         for (int r = 0; r < 3; ++r)
         {
            for (int c = 0; c < 3; ++c)
            {
               int a = (c + 1) % 3, b = (c + 2) % 3, s = (r + 1) % 3, v = (r + 2) % 3;
               A(r, c) = J(a, s) * J(b, v) - J(a, v) * J(b, s);
            }
         }
      }
      return A;
   }
   double detJ(int e, int i) const
   {
      auto &t = tr(e);
      t.SetIntPoint(&el(e).GetNodes().IntPoint(i));
      return t.Jacobian().Det();
   }
};

template <int d>
struct FaceNode
{
   int left = -1, right = -1;
   double w = 0;
   Vector x, n;
};
/// the nodes of a face, found by where they are
template <int d>
std::vector<FaceNode<d>> face_nodes(const Disc<d> &D, mfem::FaceElementTransformations &t)
{
   std::vector<FaceNode<d>> r;
   auto *fe = D.fec->FiniteElementForGeometry(d == 2 ? mfem::Geometry::SEGMENT : mfem::Geometry::TRIANGLE);
   Vector c(d);
   {
      mfem::IntegrationPoint ip;
      ip.Set3(1.0 / (d + 1), 1.0 / (d + 1), d == 3 ? 1.0 / (d + 1) : 0.0);
      D.tr(t.Elem1No).Transform(ip, c);
   }
   double sum = 0;
   for (int i = 0; i < fe->GetDof(); ++i)
   {
      FaceNode<d> f;
      const auto &ip = fe->GetNodes().IntPoint(i);
      t.Face->SetIntPoint(&ip);
      f.x.SetSize(d);
      t.Face->Transform(ip, f.x);
      const auto &J = t.Face->Jacobian();
      f.n.SetSize(d);
      if (d == 2)
      {
         f.n(0) = J(1, 0);
         f.n(1) = -J(0, 0);
      }
      else
      {
         for (int k = 0; k < 3; ++k)
         {
            int a = (k + 1) % 3, b = (k + 2) % 3;
            f.n(k) = J(a, 0) * J(b, 1) - J(b, 0) * J(a, 1);
         }
      }
      Vector o(f.x);
      o -= c;
      if (o * f.n <= 0) { fail("face.outward", "normal points into the element"); }
      f.w = ip.weight;
      sum += f.w;
      auto find = [&](int e)
      {
         for (int j = 0; j < D.nn(e); ++j)
         {
            Vector y = D.node_x(e, j);
            y -= f.x;
            if (y.Norml2() < 1e-9) { return j; }
         }
         fail("face.node", "no element node at a face node");
      };
      f.left = find(t.Elem1No);
      if (t.Elem2No >= 0) { f.right = find(t.Elem2No); }
      r.push_back(f);
   }
   MC_CHECK(close(sum, d == 2 ? 1.0 : 0.5, 1e-9), "face.weights", "" << "face weights sum to " << sum);
   return r;
}
void same(const S &key, const Vector &got, const Vector &want, double tol = 1e-10)
{
   MC_CHECK(got.Size() == want.Size(), key + ".size", "" << got.Size() << " for " << want.Size());
   double sc = std::max(1e-3, want.Normlinf());
   for (int i = 0; i < got.Size(); ++i)
   {
      MC_CHECK(std::isfinite(got(i)) && fabs(got(i) - want(i)) <= tol * sc, key, "" << "entry " << i << " is " << got(i) << ", expected " << want(i) << " (largest " << sc << ")");
   }
   step(got.Size());
}
/// the matrix must be the derivative of f, column by column
template <class F>
void derivative(const S &key, const DenseMatrix &A, const Vector &u0, F f, double tol = 3e-7)
{
   Vector u(u0);
   MC_CHECK(A.Width() == u.Size(), key + ".size", "" << A.Height() << " x " << A.Width() << " for " << u.Size());
   double sc = std::max(1e-3, A.MaxMaxNorm());
   std::vector<Vector> cols;
   for (int c = 0; c < u.Size(); ++c)
   {
      double x0 = u(c), h = 2e-4 * std::max(0.3, fabs(x0));
      Vector r[4];
      static const double st[4] = {-2, -1, 1, 2};
      for (int k = 0; k < 4; ++k)
      {
         u(c) = x0 + st[k] * h;
         f(u, r[k]);
      }
      u(c) = x0;
      MC_CHECK(A.Height() == r[0].Size(), key + ".size", "" << A.Height() << " x " << A.Width());
      Vector g(r[0].Size());
      for (int i = 0; i < g.Size(); ++i) { g(i) = (r[0](i) - 8 * r[1](i) + 8 * r[2](i) - r[3](i)) / (12 * h); }
      sc = std::max(sc, g.Normlinf());
      cols.push_back(g);
   }
   for (int c = 0; c < u.Size(); ++c)
   {
      for (int i = 0; i < A.Height(); ++i)
      {
         MC_CHECK(std::isfinite(A(i, c)) && fabs(A(i, c) - cols[c](i)) <= tol * sc, key, "" << "entry (" << i << "," << c << ") is " << A(i, c) << ", difference quotient " << cols[c](i) << " (largest " << sc << ")");
      }
   }
   step(u.Size());
}
template <int d>
std::array<double, d + 2> row(const Vector &u, int nn, int i)
{
   std::array<double, d + 2> r;
   for (int k = 0; k < d + 2; ++k) { r[k] = u(k * nn + i); }
   return r;
}
double dotp(const Vector &a, const Vector &b) { return a * b; }

/// degree/mesh order pairs that are explored
struct Size
{
   int p, order;
};
template <int d>
std::vector<Size> sizes(bool grad)
{
   if (d == 1) { return {{0, 1}, {1, 1}, {2, 1}, {3, 1}}; }
   if (d == 2)
   {
      if (thorough()) { return {{0, 1}, {1, 1}, {2, 1}, {3, 1}, {4, 1}, {0, 2}, {1, 2}, {2, 2}, {3, 2}, {4, 2}, {2, 3}, {4, 3}}; }
      if (grad) { return {{0, 1}, {1, 2}, {2, 2}, {3, 1}}; }
      return {{0, 1}, {1, 1}, {2, 2}, {3, 2}, {4, 1}};
   }
   if (thorough()) { return {{0, 1}, {1, 1}, {0, 2}, {1, 2}}; }
   return {{0, 1}, {1, 2}};
}
std::vector<double> alphas() { return {1.0, -1.0, 0.7}; }
}  // namespace
#endif
