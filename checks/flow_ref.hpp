// Flow solvers and residuals on small meshes: options, states, and a march of
// a residual that is not the solver's
#ifndef VERIF_FLOW_REF_HPP
#define VERIF_FLOW_REF_HPP
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <functional>
#include <unistd.h>
#include "sbp_disc.hpp"
#include "mfem_throw.hpp"
#include "adept.h"
#include "nlohmann/json.hpp"
#include "default_options.hpp"
#include "euler_fluxes.hpp"
#include "flow_residual.hpp"
#include "miso_residual.hpp"

using json = nlohmann::json;
using namespace miso;
namespace fs = std::filesystem;

namespace
{
typedef void (*Fun)(const Vector &, Vector &);
json base_options(int d)
{
   return {{"silent", true},
           {"print-options", false},
           {"mesh", {{"file", "given.mesh"}}},
           {"paraview", {{"directory", "out"}, {"each-timestep", false}}},
           {"flow-param", {{"entropy-state", false}, {"mach", 0.4}, {"aoa", 12.0}, {"roll-axis", 0}, {"pitch-axis", d == 3 ? 2 : 1}}},
           {"space-dis", {{"degree", 1}, {"lps-coeff", 0.0}, {"iface-coeff", 0.6}, {"basis-type", "csbp"}, {"flux-fun", "IR"}}},
           {"time-dis", {{"type", "RK4"}, {"steady", false}, {"t-initial", 0.0}, {"t-final", 0.05}, {"dt", 0.02}, {"entropy-log", false}}},
           {"nonlin-solver", {{"type", "newton"}, {"printlevel", -1}, {"maxiter", 30}, {"reltol", 1e-13}, {"abstol", 1e-14}, {"abort", false}}},
           {"lin-solver", {{"type", "gmres"}, {"printlevel", -1}, {"maxiter", 400}, {"reltol", 1e-14}, {"abstol", 1e-16}, {"kdim", 200}}},
           {"lin-prec", {{"type", "hypreilu"}, {"lev-fill", 1}, {"ilu-type", 0}, {"ilu-reorder", 0}, {"printlevel", 0}}}};
}
template <int d>
std::unique_ptr<mfem::Mesh> box(bool periodic)
{
   using namespace mfem;
   int n = periodic ? 3 : 2;
   Mesh m;
   if constexpr (d == 1) { m = Mesh::MakeCartesian1D(n + 1, 1.0); }
   else if constexpr (d == 2) { m = Mesh::MakeCartesian2D(n, n, Element::TRIANGLE, true, 1.0, 1.0); }
   else { m = Mesh::MakeCartesian3D(1, 1, 1, Element::TETRAHEDRON, 1.0, 1.0, 1.0); }
   if (!periodic) { return std::make_unique<Mesh>(m); }
   std::vector<Vector> tr;
   for (int k = 0; k < d; ++k)
   {
      Vector t(d);
      t = 0.0;
      t(k) = 1;
      tr.push_back(t);
   }
   return std::make_unique<Mesh>(Mesh::MakePeriodic(m, m.CreatePeriodicVertexMapping(tr)));
}
/// a quarter of an annulus made of few triangles, for the vortex
std::unique_ptr<mfem::Mesh> annulus()
{
   auto m = mfem::Mesh::MakeCartesian2D(2, 2, mfem::Element::TRIANGLE, true, 2.0, M_PI * 0.5, true);
   m.SetCurvature(2);
   auto map = [](const Vector &rt, Vector &xy)
   {
      double r = rt(0) + 1.0;
      xy(0) = r * cos(rt(1));
      xy(1) = r * sin(rt(1));
   };
   m.Transform(map);
   return std::make_unique<mfem::Mesh>(m);
}
template <int d, bool ent>
void wave(const Vector &x, Vector &q)
{
   gas::Prim<d> s;
   double ph = 0;
   for (int k = 0; k < d; ++k) { ph += 2 * M_PI * x(k); }
   s.rho = 1 + 0.1 * sin(ph);
   s.p = 0.9 + 0.08 * cos(ph);
   for (int k = 0; k < d; ++k) { s.u[k] = 0.3 - 0.1 * k + 0.06 * sin(2 * M_PI * x(k) + k); }
   auto v = ent ? s.entv() : s.cons();
   q.SetSize(d + 2);
   for (int i = 0; i < d + 2; ++i) { q(i) = (double)v[i]; }
}
template <int d, bool ent>
void calm(const Vector &x, Vector &q)
{
   Vector y(x);
   y *= 0.05;
   wave<d, ent>(y, q);
}
template <bool ent>
void vortex(const Vector &x, Vector &q)
{
   double Ma = 0.5, rhoi = 2, prsi = 1 / 1.4, ri = 1;
   double r = sqrt(x(0) * x(0) + x(1) * x(1)), th = atan2(x(1), x(0));
   double rho = rhoi * pow(1 + 0.5 * 0.4 * Ma * Ma * (1 - ri * ri / (r * r)), 1 / 0.4);
   double press = prsi * pow(rho / rhoi, 1.4);
   double U = sqrt(1.4 * press / rho) * sqrt(2 / 0.4 * (pow(rhoi / rho, 0.4) * (1 + 0.5 * 0.4 * Ma * Ma) - 1));
   gas::Prim<2> s;
   s.rho = rho;
   s.p = press;
   s.u[0] = U * sin(th);
   s.u[1] = -U * cos(th);
   auto v = ent ? s.entv() : s.cons();
   q.SetSize(4);
   for (int i = 0; i < 4; ++i) { q(i) = (double)v[i]; }
}
/// the residual and mass matrix of the same options, by themselves
template <int d, bool ent>
struct Ref
{
   static constexpr int ns = d + 2;
   json o;
   std::unique_ptr<mfem::ParMesh> mesh;
   std::map<S, FiniteElementState> fields;
   std::ostringstream os;
   std::unique_ptr<FlowResidual<d, ent>> R;
   DenseMatrix M, Mi;
   Ref(const json &opt, const mfem::Mesh &m) : o(default_options)
   {
      o.merge_patch(opt);
      mfem::Mesh c(m);
      mesh = std::make_unique<mfem::ParMesh>(MPI_COMM_WORLD, c);
      mesh->EnsureNodes();
      fields.emplace("state", FiniteElementState(*mesh, o["space-dis"], ns, "state"));
      R = std::make_unique<FlowResidual<d, ent>>(o, fes(), fields, getDiffStack(), os);
   }
   mfem::ParFiniteElementSpace &fes() { return fields.at("state").space(); }
   int size() { return getSize(*R); }
   void mass()
   {
      auto &A = *getMassMatrix(*R, o);
      int n = A.Height();
      M.SetSize(n);
      Vector e(n), c(n);
      for (int j = 0; j < n; ++j)
      {
         e = 0.0;
         e(j) = 1;
         A.Mult(e, c);
         M.SetCol(j, c);
      }
      Mi = M;
      Mi.Invert();
   }
   Vector res(const Vector &u)
   {
      MISOInputs in({{"state", u}});
      Vector r(u.Size());
      setInputs(*R, in);
      evaluate(*R, in, r);
      return r;
   }
   double norm(const Vector &u) { return res(u).Norml2(); }
   Vector rate(const Vector &u)
   {
      Vector r = res(u), k(u.Size());
      Mi.Mult(r, k);
      k.Neg();
      return k;
   }
   double entropy(const Vector &u, double t)
   {
      MISOInputs in({{"time", t}, {"state", u}});
      return calcEntropy(*R, in);
   }
   mfem::ParGridFunction gf(const Vector &u)
   {
      mfem::ParGridFunction g(&fes());
      g.SetFromTrueDofs(u);
      return g;
   }
   double cfl_step(double cfl, const Vector &u) { return R->minCFLTimeStep(cfl, gf(u)); }
   double error(Fun ex, int entry, const Vector &u) { return R->calcConservativeVarsL2Error(gf(u), ex, entry); }
   Vector step(const S &type, const Vector &u, double dt)
   {
      Vector x(u);
      if (type == "RK1") { x.Add(dt, rate(u)); }
      else
      {
         Vector k1 = rate(u), y(u);
         y.Add(dt / 2, k1);
         Vector k2 = rate(y);
         y = u;
         y.Add(dt / 2, k2);
         Vector k3 = rate(y);
         y = u;
         y.Add(dt, k3);
         Vector k4 = rate(y);
         x.Add(dt / 6, k1);
         x.Add(dt / 3, k2);
         x.Add(dt / 3, k3);
         x.Add(dt / 6, k4);
      }
      return x;
   }
   /// integral of each conservative variable
   Vector total(const Vector &u)
   {
      Vector Mu(u.Size());
      M.Mult(u, Mu);
      // the true dofs of each variable, from a field that is one in it only
      Vector s(ns);
      for (int k = 0; k < ns; ++k)
      {
         mfem::ParGridFunction g(&fes());
         for (int i = 0; i < g.Size() / ns; ++i) { for (int j = 0; j < ns; ++j) { g(i * ns + j) = j == k; } }
         Vector one(u.Size());
         g.GetTrueDofs(one);
         s(k) = one * Mu;
      }
      return s;
   }
};
struct Here
{
   S old = fs::current_path().string();
   Here(const S &dir)
   {
      fs::create_directories(dir);
      fs::current_path(dir);
   }
   ~Here() { fs::current_path(old); }
};
S where()
{
   S dir = scratch() + "/run";
   fs::remove_all(dir);
   return dir;
}
void same_vec(const S &key, const Vector &a, const Vector &b, double tol)
{
   MC_CHECK(a.Size() == b.Size(), key + ".size", "" << a.Size() << " entries instead of " << b.Size());
   double sc = std::max(1e-3, b.Normlinf());
   for (int i = 0; i < a.Size(); ++i)
   {
      MC_CHECK(std::isfinite(a(i)) && fabs(a(i) - b(i)) <= tol * sc, key, "" << "entry " << i << " is " << a(i) << ", expected " << b(i));
   }
   step(a.Size());
}
void same_num(const S &key, double a, double b, double tol, const S &what = "value")
{
   MC_CHECK(std::isfinite(a) && fabs(a - b) <= tol * std::max(fabs(b), 1e-14), key, "" << what << " is " << a << ", expected " << b);
   step();
}
std::vector<std::pair<double, double>> read_log(const S &file)
{
   std::vector<std::pair<double, double>> v;
   std::ifstream f(file);
   double a, b;
   while (f >> a >> b) { v.emplace_back(a, b); }
   return v;
}

}  // namespace
#endif
