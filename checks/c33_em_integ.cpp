// C33: the terms of the magnetostatic equations: nonlinear diffusion (strong,
// symmetric interior penalty on boundary and interfaces), curl-curl, and the
// magnetization source
#include "form_ref.hpp"
#include "electromag_integ.hpp"
#include "mfem_throw.hpp"
using namespace fr;
using std::string;
using std::vector;
using mfem::Vector;
using mfem::DenseMatrix;

namespace
{
string astr(const vector<int> &a) { string s = "["; for (int i : a) { s += std::to_string(i) + " "; } return s + "]"; }
void put(World &w, const string &n) { w.fields.at(n).distributeSharedDofs(w.vecs.at(n)); }
bool in(const vector<int> &a, int x) { return a.empty() || std::find(a.begin(), a.end(), x) != a.end(); }

// reluctivity of the field strength
struct Nu
{
   double c0, c2;
   double operator()(double b) const { return c0 + c2 * b * b; }
};
// values and physical gradients of the basis in a point of an element (the reference does not use the transformation's inverse)
void shapes(mfem::FiniteElementSpace &fes, int e, mfem::ElementTransformation &T, const mfem::IntegrationPoint &ip, Vector &sh, DenseMatrix &gr)
{
   auto &fe = *fes.GetFE(e);
   const int n = fe.GetDof(), d = fe.GetDim();
   sh.SetSize(n);
   gr.SetSize(n, d);
   DenseMatrix r(n, d), ji(d);
   fe.CalcShape(ip, sh);
   fe.CalcDShape(ip, r);
   T.SetIntPoint(&ip);
   mfem::CalcInverse(T.Jacobian(), ji);
   mfem::Mult(r, ji, gr);
}
double detJ(mfem::ElementTransformation &T, const mfem::IntegrationPoint &ip) { T.SetIntPoint(&ip); return std::fabs(T.Jacobian().Det()); }

void residual_is(miso::MISONonlinearForm &nf, World &w, const Vector &ref, const string &tag, double tol)
{
   Vector r(ref.Size());
   const MISOInputs ins = w.inputs();
   setInputs(nf, ins);
   evaluate(nf, ins, r);
   const double sc = ref.Normlinf() + 1e-3;
   for (int i = 0; i < r.Size(); ++i) { MC_CHECK(std::fabs(r(i) - ref(i)) <= tol * sc, tag + ".residual", tag << ": residual[" << i << "] = " << r(i) << ", formula gives " << ref(i)); }
}

struct Case { int g, mo, d; bool l2; };
// (fields of degree 2 have large gradients; rules are inexact for them)
Nu nu_of(int i, const Case &c) { return i == 0 ? Nu{1.3, 0.0} : Nu{0.9, c.d > 1 ? 0.002 : c.mo == 1 && (c.g == TRI || c.g == TET) ? 0.15 : 0.02}; }

Case pick_case(bool dg)
{
   Case c;
   c.g = choose(4, "geometry");
   c.mo = 1 + choose(2, "mesh order");
   c.d = 1 + choose(c.g == HEX && !thorough() ? 1 : 2, "degree");
   c.l2 = dg ? !choose(2, "basis") : choose(2, "basis");
   return c;
}
string describe(const Case &c) { return Str() << gname(c.g) << " mesh order " << c.mo << " degree " << c.d << (c.l2 ? " L2" : " H1"); }
// all integrands are polynomials the integrators' rules must get right
bool exact(const Case &c, const Nu &nu) { return c.mo == 1 && (c.g == TRI || c.g == TET) && (nu.c2 == 0.0 || c.d == 1); }
double tol_of(const Case &c, const Nu &nu) { return exact(c, nu) ? 1e-11 : 0.3; }

void add_state(World &w, const Case &c)
{
   w.add("state", c.l2 ? "l2" : "h1", c.d, 1, 3, 0.7, 0.4);
   w.add("adjoint", c.l2 ? "l2" : "h1", c.d, 1, 9);
}

// ---- diffusion
Vector diffusion(World &w, const Nu &nu, double alpha, const vector<int> &attrs)
{
   put(w, "mesh_coords");
   auto &fes = w.fields.at("state").space();
   auto &u = w.vecs.at("state");
   Vector r(fes.GetTrueVSize()), sh, g(3);
   DenseMatrix gr;
   mfem::Array<int> d;
   r = 0.0;
   for (int e = 0; e < w.mesh->GetNE(); ++e)
   {
      if (!in(attrs, w.mesh->GetAttribute(e))) { continue; }
      fes.GetElementDofs(e, d);
      auto &T = *w.mesh->GetElementTransformation(e);
      auto &ir = mfem::IntRules.Get(T.GetGeometryType(), 14);
      for (int q = 0; q < ir.GetNPoints(); ++q)
      {
         auto &ip = ir.IntPoint(q);
         shapes(fes, e, T, ip, sh, gr);
         const double wt = ip.weight * detJ(T, ip);
         double b2 = 0.0;
         g = 0.0;
         for (int k = 0; k < w.dim; ++k)
         {
            for (int i = 0; i < d.Size(); ++i) { g(k) += u(d[i]) * gr(i, k); }
            b2 += g(k) * g(k);
         }
         for (int i = 0; i < d.Size(); ++i) { for (int k = 0; k < w.dim; ++k) { r(d[i]) += alpha * wt * nu(std::sqrt(b2)) * g(k) * gr(i, k); } }
      }
   }
   return r;
}
void s_diffusion()
{
   const Case c = pick_case(false);
   const int ai = choose(3, "attributes"), ni = choose(2, "reluctivity"), zero = choose(2, "zero state");
   const double alpha = choose(2, "alpha") ? -0.5 : 1.0;
   const vector<vector<int>> A = {{}, {2}, {1, 2}};
   note(Str() << "diffusion " << describe(c) << " attributes " << astr(A[ai]) << (ni ? " nonlinear" : " linear") << " alpha " << alpha << (zero ? " zero state" : ""));
   Quiet q;
   World w(c.g, c.mo);
   add_state(w, c);
   if (zero) { w.vecs["state"] = 0.0; }
   const Nu nu = nu_of(ni, c);
   TestCoeff m(nu.c0, 0.0, nu.c2, 0.0);
   miso::MISONonlinearForm nf(w.fields.at("state").space(), w.fields);
   auto *i = new miso::NonlinearDiffusionIntegrator(m, alpha);
   if (A[ai].empty()) { nf.addDomainIntegrator(i); }
   else { nf.addDomainIntegrator(i, A[ai]); }
   Opt o;
   o.wrt = {"mesh_coords"};
   o.floor = zero ? 1e-2 : 0.0;
   if (!zero) { residual_is(nf, w, diffusion(w, nu, alpha, A[ai]), "diffusion", tol_of(c, nu)); }
   check_residual(w, nf, o, "diffusion");
   outcome(ni ? "nonlinear" : "linear");
}

// ---- interior penalty
// outward normal of element 1 with the measure of the face as length
void normal(mfem::FaceElementTransformations &T, int dim, double *n)
{
   const auto &J = T.Face->Jacobian();
   if (dim == 2) { n[0] = J(1, 0); n[1] = -J(0, 0); n[2] = 0.0; }
   else
   {
      n[0] = J(1, 0) * J(2, 1) - J(2, 0) * J(1, 1);
      n[1] = J(2, 0) * J(0, 1) - J(0, 0) * J(2, 1);
      n[2] = J(0, 0) * J(1, 1) - J(1, 0) * J(0, 1);
   }
   double c[3] = {0, 0, 0}, x[3] = {0, 0, 0}, s = 0.0;
   Vector cv(c, dim), xv(x, dim);
   const auto fip = T.Face->GetIntPoint();
   T.Elem1->Transform(mfem::Geometries.GetCenter(T.Elem1->GetGeometryType()), cv);
   T.Face->Transform(fip, xv);
   for (int k = 0; k < dim; ++k) { s += n[k] * (x[k] - c[k]); }
   if (s < 0) { for (int k = 0; k < 3; ++k) { n[k] = -n[k]; } }
}
// sum over faces: which(f, attribute or 0 for no boundary element) says whether it takes part
template <class W>
Vector penalty(World &w, const Nu &nu, double mu, double alpha, mfem::Coefficient *g, W which)
{
   put(w, "mesh_coords");
   auto &m = *w.mesh;
   auto &fes = w.fields.at("state").space();
   auto &u = w.vecs.at("state");
   Vector r(fes.GetTrueVSize());
   r = 0.0;
   std::map<int, int> battr;
   for (int b = 0; b < m.GetNBE(); ++b) { battr[m.GetBdrElementEdgeIndex(b)] = m.GetBdrAttribute(b); }
   for (int f = 0; f < m.GetNumFaces(); ++f)
   {
      if (!which(m.FaceIsInterior(f), battr.count(f) ? battr[f] : 0)) { continue; }
      auto &T = *m.GetFaceElementTransformations(f);
      const bool two = m.FaceIsInterior(f);
      auto &ir = mfem::IntRules.Get(T.GetGeometryType(), 14);
      for (int q = 0; q < ir.GetNPoints(); ++q)
      {
         auto &ip = ir.IntPoint(q);
         T.SetAllIntPoints(&ip);
         double n[3];
         normal(T, w.dim, n);
         const double nn = n[0] * n[0] + n[1] * n[1] + n[2] * n[2];
         // both sides
         Vector sh[2];
         DenseMatrix gr[2];
         mfem::Array<int> d[2];
         double uv[2] = {0, 0}, nv[2] = {0, 0}, fl[2] = {0, 0}, h[2] = {0, 0};
         const int e[2] = {T.Elem1No, T.Elem2No};
         const mfem::IntegrationPoint p1 = T.GetElement1IntPoint(), p2 = two ? T.GetElement2IntPoint() : p1;
         const mfem::IntegrationPoint pp[2] = {p1, p2};
         double gv = 0.0;
         for (int s = 0; s < (two ? 2 : 1); ++s)
         {
            auto &E = s ? *T.Elem2 : *T.Elem1;
            fes.GetElementDofs(e[s], d[s]);
            shapes(fes, e[s], E, pp[s], sh[s], gr[s]);
            h[s] = detJ(E, pp[s]);
            double b2 = 0.0;
            for (int k = 0; k < w.dim; ++k)
            {
               double gk = 0.0;
               for (int i = 0; i < d[s].Size(); ++i) { gk += u(d[s][i]) * gr[s](i, k); }
               b2 += gk * gk;
               fl[s] += gk * n[k];
            }
            for (int i = 0; i < d[s].Size(); ++i) { uv[s] += u(d[s][i]) * sh[s](i); }
            nv[s] = nu(std::sqrt(b2));
            if (g) { gv = g->Eval(E, pp[s]); }
         }
         const double wt = alpha * ip.weight;
         auto dn = [&](int s, int i) { double x = 0.0; for (int k = 0; k < w.dim; ++k) { x += gr[s](i, k) * n[k]; } return x; };
         if (!two)
         {
            for (int i = 0; i < d[0].Size(); ++i)
            {
               r(d[0][i]) += wt * (-nv[0] * fl[0] * sh[0](i) - (uv[0] - gv) * nv[0] * dn(0, i) + mu * nn / h[0] * nv[0] * (uv[0] - gv) * sh[0](i));
            }
         }
         else
         {
            // -{nu du/dn}[v] - [u]{nu dv/dn} + mu {nu/h}[u][v]
            const double avg = 0.5 * (nv[0] * fl[0] + nv[1] * fl[1]), jump = uv[0] - uv[1], pen = 0.5 * mu * nn * (nv[0] / h[0] + nv[1] / h[1]);
            for (int s = 0; s < 2; ++s)
            {
               const double sg = s ? -1 : 1;
               for (int i = 0; i < d[s].Size(); ++i) { r(d[s][i]) += wt * (-avg * sg * sh[s](i) - jump * 0.5 * nv[s] * dn(s, i) + pen * jump * sg * sh[s](i)); }
            }
         }
      }
   }
   return r;
}
void s_boundary()
{
   const Case c = pick_case(true);
   const int ai = choose(5, "boundary"), ni = choose(2, "reluctivity");
   const double alpha = choose(2, "alpha") ? -0.5 : 1.0;
   const vector<vector<int>> B = {{}, {1}, {3, 2}, {1, 4}, {}};
   const bool inner = ai >= 3;
   note(Str() << "boundary penalty " << describe(c) << " boundary " << astr(B[ai]) << (inner ? " with an internal boundary" : "") << (ni ? " nonlinear" : " linear") << " alpha " << alpha);
   Quiet q;
   World w(c.g, c.mo, 0.05, inner);
   add_state(w, c);
   const Nu nu = nu_of(ni, c);
   TestCoeff m(nu.c0, 0.0, nu.c2, 0.0);
   mfem::ConstantCoefficient g(0.35);
   const double mu = 4.5;
   miso::MISONonlinearForm nf(w.fields.at("state").space(), w.fields);
   auto *i = new miso::NonlinearDGDiffusionIntegrator(m, g, mu, alpha);
   if (B[ai].empty()) { nf.addBdrFaceIntegrator(i); }
   else { nf.addBdrFaceIntegrator(i, B[ai]); }
   Opt o;
   o.wrt = {"mesh_coords"};
   residual_is(nf, w, penalty(w, nu, mu, alpha, &g, [&](bool two, int a) { return !two && a > 0 && in(B[ai], a); }), "boundarypenalty", tol_of(c, nu));
   check_residual(w, nf, o, "boundarypenalty");
   outcome("boundary");
}
void s_interior()
{
   const int where = choose(3, "internal boundary, its attribute, interior faces");
   const Case c = pick_case(true);
   const int ni = choose(2, "reluctivity");
   const double alpha = choose(2, "alpha") ? -0.5 : 1.0;
   note(Str() << "interior penalty " << describe(c) << (where == 0 ? " all internal boundaries" : where == 1 ? " by attribute" : " interior faces") << (ni ? " nonlinear" : " linear") << " alpha " << alpha);
   Quiet q;
   World w(c.g, c.mo);
   add_state(w, c);
   const Nu nu = nu_of(ni, c);
   TestCoeff m(nu.c0, 0.0, nu.c2, 0.0);
   const double mu = 4.5;
   miso::MISONonlinearForm nf(w.fields.at("state").space(), w.fields);
   auto *i = new miso::DGInteriorFaceDiffusionIntegrator(m, mu, alpha);
   if (where == 0) { nf.addInternalBoundaryFaceIntegrator(i); }
   else if (where == 1) { nf.addInternalBoundaryFaceIntegrator(i, vector<int>{w.mesh->bdr_attributes.Max()}); }
   else { nf.addInteriorFaceIntegrator(i); }
   Opt o;
   o.wrt = {"mesh_coords"};
   // a continuous state has no jump: parts vanish
   if (!c.l2) { o.floor = 1e-3; }
   residual_is(nf, w, penalty(w, nu, mu, alpha, nullptr, [&](bool two, int) { return two; }), "interiorpenalty", tol_of(c, nu));
   check_residual(w, nf, o, "interiorpenalty");
   outcome("interior");
}

// ---- curl-curl
Vector curlcurl(World &w, const Nu &nu, double alpha, const vector<int> &attrs)
{
   put(w, "mesh_coords");
   auto &fes = w.fields.at("state").space();
   auto &u = w.vecs.at("state");
   Vector r(fes.GetTrueVSize());
   mfem::Array<int> d;
   DenseMatrix cs;
   r = 0.0;
   for (int e = 0; e < w.mesh->GetNE(); ++e)
   {
      if (!in(attrs, w.mesh->GetAttribute(e))) { continue; }
      auto *tr = fes.GetElementVDofs(e, d);
      Vector ul(d.Size()), rl(d.Size());
      u.GetSubVector(d, ul);
      if (tr) { tr->InvTransformPrimal(ul); }
      rl = 0.0;
      auto &T = *w.mesh->GetElementTransformation(e);
      auto &fe = *fes.GetFE(e);
      auto &ir = mfem::IntRules.Get(T.GetGeometryType(), 14);
      const int nc = w.dim == 3 ? 3 : 1;
      cs.SetSize(d.Size(), nc);
      for (int q = 0; q < ir.GetNPoints(); ++q)
      {
         auto &ip = ir.IntPoint(q);
         T.SetIntPoint(&ip);
         const double det = T.Jacobian().Det();
         fe.CalcCurlShape(ip, cs);
         // physical curls: J c / det (3D), c / det (2D)
         DenseMatrix pc(d.Size(), nc);
         for (int i = 0; i < d.Size(); ++i)
         {
            for (int k = 0; k < nc; ++k)
            {
               double x = 0.0;
               if (nc == 1) { x = cs(i, 0); }
               else { for (int j = 0; j < 3; ++j) { x += T.Jacobian()(k, j) * cs(i, j); } }
               pc(i, k) = x / det;
            }
         }
         double b[3] = {0, 0, 0}, b2 = 0.0;
         for (int k = 0; k < nc; ++k)
         {
            for (int i = 0; i < d.Size(); ++i) { b[k] += pc(i, k) * ul(i); }
            b2 += b[k] * b[k];
         }
         for (int i = 0; i < d.Size(); ++i) { for (int k = 0; k < nc; ++k) { rl(i) += alpha * ip.weight * std::fabs(det) * nu(std::sqrt(b2)) * b[k] * pc(i, k); } }
      }
      if (tr) { tr->TransformDual(rl); }
      r.AddElementVector(d, rl);
   }
   return r;
}
void s_curlcurl()
{
   Case c;
   c.g = choose(4, "geometry");
   c.mo = 1 + choose(2, "mesh order");
   c.d = 1 + choose(c.g == HEX && !thorough() ? 1 : 2, "degree");
   c.l2 = false;
   const int ai = choose(3, "attributes"), ni = choose(2, "reluctivity"), zero = choose(2, "zero state");
   const double alpha = choose(2, "alpha") ? -0.5 : 1.0;
   const bool named = choose(2, "adjoint name");
   const vector<vector<int>> A = {{}, {2}, {1, 2}};
   note(Str() << "curl curl " << gname(c.g) << " mesh order " << c.mo << " degree " << c.d << " attributes " << astr(A[ai]) << (ni ? " nonlinear" : " linear") << " alpha " << alpha << (zero ? " zero state" : "") << (named ? " named adjoint" : ""));
   Quiet q;
   World w(c.g, c.mo);
   w.add("state", "nedelec", c.d, 1, 3, 0.7, 0.1);
   if (zero) { w.vecs["state"] = 0.0; }
   const Nu nu = nu_of(ni, c);
   TestCoeff m(nu.c0, 0.0, nu.c2, 0.0);
   miso::MISONonlinearForm nf(w.fields.at("state").space(), w.fields, named ? "psi" : "adjoint");
   auto *i = new miso::CurlCurlNLFIntegrator(m, alpha);
   if (A[ai].empty()) { nf.addDomainIntegrator(i); }
   else { nf.addDomainIntegrator(i, A[ai]); }
   Opt o;
   o.wrt = {"mesh_coords"};
   o.floor = zero ? 1e-2 : 0.0;
   if (!zero) { residual_is(nf, w, curlcurl(w, nu, alpha, A[ai]), "curlcurl", tol_of(c, nu)); }
   check_residual(w, nf, o, "curlcurl");
   outcome("curl curl");
}

// ---- magnetization
struct Mag : miso::VectorStateCoefficient
{
   double c2;
   Mag(double c2) : miso::VectorStateCoefficient(2), c2(c2) { }
   static double a(int k) { return k ? -0.8 : 1.2; }
   using miso::VectorStateCoefficient::Eval;
   void Eval(Vector &V, mfem::ElementTransformation &, const mfem::IntegrationPoint &, double s) override
   {
      V.SetSize(2);
      for (int k = 0; k < 2; ++k) { V(k) = a(k) + 0.4 * (k + 1) * s + c2 * s * s; }
   }
   void EvalStateDeriv(Vector &V, mfem::ElementTransformation &, const mfem::IntegrationPoint &, double s) override
   {
      V.SetSize(2);
      for (int k = 0; k < 2; ++k) { V(k) = 0.4 * (k + 1) + 2 * c2 * s; }
   }
   void EvalRevDiff(const Vector &, mfem::ElementTransformation &, const mfem::IntegrationPoint &, double, DenseMatrix &) override { }
};
void s_magnet()
{
   Case c;
   c.g = choose(2, "geometry");
   c.mo = 1 + choose(2, "mesh order");
   c.d = 1 + choose(2, "degree");
   const int td = 1 + choose(2, "temperature degree"), tl2 = choose(2, "temperature basis"), ai = choose(3, "attributes"), ci = choose(2, "temperature dependence"), named = choose(2, "adjoint name");
   c.l2 = choose(2, "basis");
   const double alpha = choose(2, "alpha") ? -0.5 : 1.0;
   const vector<vector<int>> A = {{}, {2}, {1, 2}};
   note(Str() << "magnetization " << describe(c) << " temperature degree " << td << (tl2 ? " L2" : " H1") << " attributes " << astr(A[ai]) << " alpha " << alpha << (named ? " named adjoint" : "") << (ci ? " quadratic" : " linear"));
   Quiet q;
   World w(c.g, c.mo);
   w.add("state", c.l2 ? "l2" : "h1", c.d, 1, 3, 0.7, 0.4);
   w.add("temperature", tl2 ? "l2" : "h1", td, 1, 4, 0.5, 0.6);
   Mag M(ci ? 0.1 : 0.0);
   miso::MISOLinearForm lf(w.fields.at("state").space(), w.fields, named ? "psi" : "adjoint");
   auto *i = new miso::MagnetizationSource2DIntegrator(M, w.fields.at("temperature").gridFunc(), alpha);
   if (A[ai].empty()) { lf.addDomainIntegrator(i); }
   else { lf.addDomainIntegrator(i, A[ai]); }
   // the formula
   {
      const MISOInputs ins = w.inputs();
      setInputs(lf, ins);
      auto &fes = w.fields.at("state").space();
      auto &tg = w.fields.at("temperature").gridFunc();
      Vector r(fes.GetTrueVSize()), ref(r.Size()), sh, m(2);
      DenseMatrix gr;
      mfem::Array<int> d;
      r = 0.0;
      ref = 0.0;
      addLoad(lf, r);
      for (int e = 0; e < w.mesh->GetNE(); ++e)
      {
         if (!in(A[ai], w.mesh->GetAttribute(e))) { continue; }
         fes.GetElementDofs(e, d);
         auto &T = *w.mesh->GetElementTransformation(e);
         auto &ir = mfem::IntRules.Get(T.GetGeometryType(), 12);
         for (int p = 0; p < ir.GetNPoints(); ++p)
         {
            auto &ip = ir.IntPoint(p);
            shapes(fes, e, T, ip, sh, gr);
            M.Eval(m, T, ip, tg.GetValue(e, ip));
            for (int k = 0; k < d.Size(); ++k) { ref(d[k]) += alpha * ip.weight * detJ(T, ip) * (m(1) * gr(k, 0) - m(0) * gr(k, 1)); }
         }
      }
      // degrees the rule of the integrator is exact for
      const bool ex = c.mo == 1 && (c.g == TRI ? (td * (ci + 1) + c.d - 1 <= 2 * c.d - 1) : false);
      const double sc = ref.Normlinf() + 1e-300;
      for (int k = 0; k < r.Size(); ++k) { MC_CHECK(std::fabs(r(k) - ref(k)) <= (ex ? 1e-11 : 0.4) * sc, "magnetization.load", "magnetization: load[" << k << "] = " << r(k) << ", formula gives " << ref(k)); }
   }
   Opt o;
   o.wrt = {"mesh_coords", "temperature"};
   check_load(w, lf, o, "magnetization");
   outcome("magnetization");
}
}  // namespace

int main(int argc, char **argv)
{
   return mc::run(argc, argv, "C33", [] { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
                  {{"diffusion", s_diffusion}, {"boundary", s_boundary}, {"interior", s_interior}, {"curlcurl", s_curlcurl}, {"magnetization", s_magnet}});
}
