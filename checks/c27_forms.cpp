// C27: nonlinear and linear forms: every history of setting inputs and
// options, evaluating, linearizing, products and adjoint solves gives what the
// equations r_i = R(u, p, s)_i, r_e = u_e - bc_e give; the integrators are
// algebraic ones whose assembled values are known in closed form.
#include "form_ref.hpp"
#include "miso_load.hpp"
#include "miso_residual.hpp"
#include "mfem_throw.hpp"
using namespace fr;
using std::string;
using std::vector;
using mfem::DenseMatrix;
using mfem::Vector;

namespace
{
enum Where { DOMAIN, BDR, INTERIOR, INTERNAL, NWHERE };
const char *wname[] = {"domain", "boundary", "interior faces", "internal boundary"};

// position dependent factor of an element or a face
double where_factor(mfem::ElementTransformation &T)
{
   double xb[3] = {0, 0, 0};
   Vector x(xb, T.GetSpaceDim());
   T.Transform(mfem::Geometries.GetCenter(T.GetGeometryType()), x);
   return 1.0 + 0.4 * std::sin(1.7 * xb[0] + 2.9 * xb[1] + 0.9 * xb[2]);
}
// the term: r_i = f (sum_j K_ij u_j + a u_i^3 + s w_i u_i^2 + sum_k M_ik p_k^2 u_i), K and M fixed per term
struct Term
{
   int id;
   double a = 0.4;
   double K(int i, int j) const { return irr(i * 17 + j * 5, 40 + id); }
   double M(int i, int j) const { return irr(i * 13 + j * 7, 60 + id); }
   double w(int i) const { return 0.5 + irr(i, 80 + id); }
   double value(double f, double s, const Vector &u, const Vector &p, int i) const
   {
      double r = a * u(i) * u(i) * u(i) + s * w(i) * u(i) * u(i);
      for (int j = 0; j < u.Size(); ++j) { r += K(i, j) * u(j); }
      for (int k = 0; k < p.Size(); ++k) { r += M(i, k) * p(k) * p(k) * u(i); }
      return f * r;
   }
   double du(double f, double s, const Vector &u, const Vector &p, int i, int j) const
   {
      double r = K(i, j);
      if (i == j)
      {
         r += 3 * a * u(i) * u(i) + 2 * s * w(i) * u(i);
         for (int k = 0; k < p.Size(); ++k) { r += M(i, k) * p(k) * p(k); }
      }
      return f * r;
   }
   double dp(double f, const Vector &u, const Vector &p, int i, int k) const { return f * M(i, k) * 2 * p(k) * u(i); }
   double ds(double f, const Vector &u, int i) const { return f * w(i) * u(i) * u(i); }
   double energy(double f, double s, const Vector &u, const Vector &p) const { double e = 0; for (int i = 0; i < u.Size(); ++i) { e += 0.3 * value(f, s, u, p, i) * (1 + 0.1 * i); } return e; }
};

// the p entries of an element
void local_p(FiniteElementState &p, int e, Vector &v)
{
   mfem::Array<int> d;
   p.space().GetElementVDofs(e, d);
   p.gridFunc().GetSubVector(d, v);
}
struct Integ : mfem::NonlinearFormIntegrator
{
   Term t;
   std::map<string, FiniteElementState> &fields;
   double s = 0.25, opt = 1.0;
   Integ(int id, std::map<string, FiniteElementState> &f) : t{id}, fields(f) { }
   void AssembleElementVector(const mfem::FiniteElement &, mfem::ElementTransformation &T, const Vector &u, Vector &r) override
   {
      Vector p;
      local_p(fields.at("p"), T.ElementNo, p);
      r.SetSize(u.Size());
      for (int i = 0; i < u.Size(); ++i) { r(i) = t.value(opt * where_factor(T), s, u, p, i); }
   }
   void AssembleElementGrad(const mfem::FiniteElement &, mfem::ElementTransformation &T, const Vector &u, DenseMatrix &J) override
   {
      Vector p;
      local_p(fields.at("p"), T.ElementNo, p);
      J.SetSize(u.Size());
      for (int i = 0; i < u.Size(); ++i) { for (int j = 0; j < u.Size(); ++j) { J(i, j) = t.du(opt * where_factor(T), s, u, p, i, j); } }
   }
   double GetElementEnergy(const mfem::FiniteElement &, mfem::ElementTransformation &T, const Vector &u) override
   {
      Vector p;
      local_p(fields.at("p"), T.ElementNo, p);
      return t.energy(opt * where_factor(T), s, u, p);
   }
   void AssembleFaceVector(const mfem::FiniteElement &, const mfem::FiniteElement &, mfem::FaceElementTransformations &T, const Vector &u, Vector &r) override
   {
      Vector p;
      local_p(fields.at("p"), T.Elem1No, p);
      r.SetSize(u.Size());
      for (int i = 0; i < u.Size(); ++i) { r(i) = t.value(opt * where_factor(*T.Face), s, u, p, i); }
   }
   void AssembleFaceGrad(const mfem::FiniteElement &, const mfem::FiniteElement &, mfem::FaceElementTransformations &T, const Vector &u, DenseMatrix &J) override
   {
      Vector p;
      local_p(fields.at("p"), T.Elem1No, p);
      J.SetSize(u.Size());
      for (int i = 0; i < u.Size(); ++i) { for (int j = 0; j < u.Size(); ++j) { J(i, j) = t.du(opt * where_factor(*T.Face), s, u, p, i, j); } }
   }
};
void setInputs(Integ &g, const MISOInputs &in) { miso::setValueFromInputs(in, "s", g.s); }
void setOptions(Integ &g, const json &o) { if (o.contains("opt")) { g.opt = o["opt"].get<double>(); } }
// the same load on elements and boundary: depends on p and s only (u is replaced by ones)
struct Load : mfem::LinearFormIntegrator
{
   Term t;
   std::map<string, FiniteElementState> &fields;
   double s = 0.25, opt = 1.0;
   Load(int id, std::map<string, FiniteElementState> &f) : t{id}, fields(f) { }
   void vec(int e, double f, int n, Vector &r)
   {
      Vector p, one(n);
      one = 1.0;
      local_p(fields.at("p"), e, p);
      r.SetSize(n);
      for (int i = 0; i < n; ++i) { r(i) = t.value(opt * f, s, one, p, i); }
   }
   void AssembleRHSElementVect(const mfem::FiniteElement &el, mfem::ElementTransformation &T, Vector &r) override
   {
      vec(T.ElementNo, where_factor(T), fields.at("state").space().GetVDim() * el.GetDof(), r);
   }
   void AssembleRHSElementVect(const mfem::FiniteElement &el, mfem::FaceElementTransformations &T, Vector &r) override
   {
      vec(T.Elem1No, where_factor(*T.Face), fields.at("state").space().GetVDim() * el.GetDof(), r);
   }
};
void setInputs(Load &g, const MISOInputs &in) { miso::setValueFromInputs(in, "s", g.s); }
void setOptions(Load &g, const json &o) { if (o.contains("opt")) { g.opt = o["opt"].get<double>(); } }

// reads a field on an element or on both sides of a face
void local(FiniteElementState &f, int e1, int e2, Vector &v)
{
   mfem::Array<int> d, d2;
   f.space().GetElementVDofs(e1, d);
   if (e2 >= 0) { f.space().GetElementVDofs(e2, d2); d.Append(d2); }
   f.gridFunc().GetSubVector(d, v);
}
// reverse sensitivities of Integ and Load
template <class G>
struct PSens : mfem::LinearFormIntegrator
{
   G &g;
   std::map<string, FiniteElementState> &fields;
   string adj;
   bool two;
   PSens(G &g, std::map<string, FiniteElementState> &f, string adj, bool two) : g(g), fields(f), adj(adj), two(two) { }
   // contribution of one element or face; entries of p live on element 1
   void bar(int e1, int e2, double f, Vector &b)
   {
      Vector u, p, psi;
      local(fields.at(adj), e1, e2, psi);
      local(fields.at("state"), e1, e2, u);
      if (std::is_same<G, Load>::value) { u = 1.0; }
      local_p(fields.at("p"), e1, p);
      b.SetSize(p.Size());
      b = 0.0;
      for (int i = 0; i < u.Size(); ++i) { for (int k = 0; k < p.Size(); ++k) { b(k) += psi(i) * g.t.dp(g.opt * f, u, p, i, k); } }
   }
   void AssembleRHSElementVect(const mfem::FiniteElement &, mfem::ElementTransformation &T, Vector &b) override { bar(T.ElementNo, -1, where_factor(T), b); }
   void AssembleRHSElementVect(const mfem::FiniteElement &, mfem::FaceElementTransformations &T, Vector &b) override { bar(T.Elem1No, -1, where_factor(*T.Face), b); }
   void AssembleRHSElementVect(const mfem::FiniteElement &, const mfem::FiniteElement &, mfem::FaceElementTransformations &T, Vector &b) override
   {
      // two sided: entries of both elements' p
      bar(T.Elem1No, T.Elem2No, where_factor(*T.Face), b);
      const int n = b.Size();
      Vector c(2 * n);
      c = 0.0;
      for (int i = 0; i < n; ++i) { c(i) = b(i); }
      b = c;
   }
};
template <class G>
struct SSens : mfem::NonlinearFormIntegrator
{
   G &g;
   std::map<string, FiniteElementState> &fields;
   string adj;
   SSens(G &g, std::map<string, FiniteElementState> &f, string adj) : g(g), fields(f), adj(adj) { }
   double bar(int e1, int e2, double f)
   {
      Vector u, psi;
      local(fields.at(adj), e1, e2, psi);
      local(fields.at("state"), e1, e2, u);
      if (std::is_same<G, Load>::value) { u = 1.0; }
      double r = 0.0;
      for (int i = 0; i < u.Size(); ++i) { r += psi(i) * g.t.ds(g.opt * f, u, i); }
      return r;
   }
   double GetElementEnergy(const mfem::FiniteElement &, mfem::ElementTransformation &T, const Vector &) override { return bar(T.ElementNo, -1, where_factor(T)); }
   double GetFaceEnergy(const mfem::FiniteElement &, const mfem::FiniteElement &, mfem::FaceElementTransformations &T, const Vector &) override
   {
      return bar(T.Elem1No, T.Elem2No >= 0 ? T.Elem2No : -1, where_factor(*T.Face));
   }
};
using Fields = std::map<string, FiniteElementState>;
using LF = std::map<string, mfem::ParLinearForm>;
using NF = std::map<string, mfem::ParNonlinearForm>;
void make(Fields &f, LF &lf, NF &nf)
{
   if (lf.count("p") == 0) { lf.emplace("p", &f.at("p").space()); }
   if (nf.count("s") == 0) { nf.emplace("s", &f.at("state").space()); }
}
template <class G>
void domainSens(G &g, Fields &f, LF &lf, NF &nf, mfem::Array<int> *m, const string &adj)
{
   make(f, lf, nf);
   if (m)
   {
      lf.at("p").AddDomainIntegrator(new PSens<G>(g, f, adj, false), *m);
      nf.at("s").AddDomainIntegrator(new SSens<G>(g, f, adj), *m);
   }
   else
   {
      lf.at("p").AddDomainIntegrator(new PSens<G>(g, f, adj, false));
      nf.at("s").AddDomainIntegrator(new SSens<G>(g, f, adj));
   }
}
template <class G>
void bdrSens(G &g, Fields &f, LF &lf, NF &nf, mfem::Array<int> *m, const string &adj)
{
   make(f, lf, nf);
   if (m)
   {
      lf.at("p").AddBdrFaceIntegrator(new PSens<G>(g, f, adj, false), *m);
      nf.at("s").AddBdrFaceIntegrator(new SSens<G>(g, f, adj), *m);
   }
   else
   {
      lf.at("p").AddBdrFaceIntegrator(new PSens<G>(g, f, adj, false));
      nf.at("s").AddBdrFaceIntegrator(new SSens<G>(g, f, adj));
   }
}
template <class G>
void internalSens(G &g, Fields &f, LF &lf, NF &nf, mfem::Array<int> *m, const string &adj)
{
   make(f, lf, nf);
   if (m)
   {
      lf.at("p").AddInternalBoundaryFaceIntegrator(new PSens<G>(g, f, adj, true), *m);
      nf.at("s").AddInternalBoundaryFaceIntegrator(new SSens<G>(g, f, adj), *m);
   }
   else
   {
      lf.at("p").AddInternalBoundaryFaceIntegrator(new PSens<G>(g, f, adj, true));
      nf.at("s").AddInternalBoundaryFaceIntegrator(new SSens<G>(g, f, adj));
   }
}
void addDomainSensitivityIntegrator(Integ &g, Fields &f, LF &lf, NF &nf, LF &, NF &, mfem::Array<int> *m, string adj) { domainSens(g, f, lf, nf, m, adj); }
void addBdrSensitivityIntegrator(Integ &g, Fields &f, LF &lf, NF &nf, LF &, NF &, mfem::Array<int> *m, string adj) { bdrSens(g, f, lf, nf, m, adj); }
void addInternalBoundarySensitivityIntegrator(Integ &g, Fields &f, LF &lf, NF &nf, LF &, NF &, mfem::Array<int> *m, string adj) { internalSens(g, f, lf, nf, m, adj); }
void addInteriorFaceSensitivityIntegrator(Integ &g, Fields &f, LF &lf, NF &nf, LF &, NF &, string adj)
{
   make(f, lf, nf);
   lf.at("p").AddInteriorFaceIntegrator(new PSens<Integ>(g, f, adj, true));
   nf.at("s").AddInteriorFaceIntegrator(new SSens<Integ>(g, f, adj));
}
void addDomainSensitivityIntegrator(Load &g, Fields &f, LF &lf, NF &nf, LF &, NF &, mfem::Array<int> *m, string adj) { domainSens(g, f, lf, nf, m, adj); }
void addBdrSensitivityIntegrator(Load &g, Fields &f, LF &lf, NF &nf, LF &, NF &, mfem::Array<int> *m, string adj) { bdrSens(g, f, lf, nf, m, adj); }

// ---- the reference
struct Piece { int where; vector<int> attrs; Term t; };  // attrs empty: everywhere
struct Ref
{
   World &w;
   vector<Piece> pieces;
   bool load = false;
   double opt = 1.0;
   mfem::ParFiniteElementSpace &fes() { return w.fields.at("state").space(); }
   static bool in(const vector<int> &a, int x) { return a.empty() || std::find(a.begin(), a.end(), x) != a.end(); }
   // g(term, factor, dofs of the state, dofs of p)
   template <class G>
   void each(G g)
   {
      auto &m = *w.mesh;
      auto &pf = w.fields.at("p").space();
      mfem::Array<int> d, d2, dp;
      for (auto &pc : pieces)
      {
         if (pc.where == DOMAIN)
         {
            for (int e = 0; e < m.GetNE(); ++e)
            {
               if (!in(pc.attrs, m.GetAttribute(e))) { continue; }
               fes().GetElementVDofs(e, d);
               pf.GetElementVDofs(e, dp);
               g(pc.t, opt * where_factor(*m.GetElementTransformation(e)), d, dp, true);
            }
            continue;
         }
         if (pc.where == INTERIOR)
         {
            for (int f = 0; f < m.GetNumFaces(); ++f) { if (m.FaceIsInterior(f)) { face(pc, f, d, d2, dp, g); } }
            continue;
         }
         for (int b = 0; b < m.GetNBE(); ++b)
         {
            const int f = m.GetBdrElementEdgeIndex(b);
            if (m.FaceIsInterior(f) == (pc.where == INTERNAL) && in(pc.attrs, m.GetBdrAttribute(b))) { face(pc, f, d, d2, dp, g); }
         }
      }
   }
   template <class G>
   void face(Piece &pc, int f, mfem::Array<int> &d, mfem::Array<int> &d2, mfem::Array<int> &dp, G g)
   {
      auto *T = w.mesh->GetFaceElementTransformations(f);
      const double c = opt * where_factor(*T->Face);
      const int e1 = T->Elem1No, e2 = T->Elem2No;
      fes().GetElementVDofs(e1, d);
      if (pc.where != BDR && !load) { fes().GetElementVDofs(e2, d2); d.Append(d2); }
      w.fields.at("p").space().GetElementVDofs(e1, dp);
      g(pc.t, c, d, dp, false);
   }
   static double get(const Vector &v, int d) { return d >= 0 ? v(d) : -v(-1 - d); }
   static void add(Vector &v, int d, double x) { if (d >= 0) { v(d) += x; } else { v(-1 - d) -= x; } }
   struct Point { Vector u, p; double s; };
   void loc(const Point &x, const mfem::Array<int> &d, const mfem::Array<int> &dp, Vector &u, Vector &p)
   {
      u.SetSize(d.Size());
      p.SetSize(dp.Size());
      for (int i = 0; i < d.Size(); ++i) { u(i) = load ? 1.0 : get(x.u, d[i]); }
      for (int i = 0; i < dp.Size(); ++i) { p(i) = get(x.p, dp[i]); }
   }
   Vector residual(const Point &x)
   {
      Vector r(fes().GetTrueVSize()), u, p;
      r = 0.0;
      each([&](Term &t, double f, mfem::Array<int> &d, mfem::Array<int> &dp, bool) {
         loc(x, d, dp, u, p);
         for (int i = 0; i < d.Size(); ++i) { add(r, d[i], t.value(f, x.s, u, p, i)); }
      });
      return r;
   }
   DenseMatrix jac(const Point &x)
   {
      const int n = fes().GetTrueVSize();
      DenseMatrix J(n);
      J = 0.0;
      Vector u, p;
      each([&](Term &t, double f, mfem::Array<int> &d, mfem::Array<int> &dp, bool) {
         loc(x, d, dp, u, p);
         for (int i = 0; i < d.Size(); ++i)
         {
            for (int j = 0; j < d.Size(); ++j)
            {
               const int a = d[i] >= 0 ? d[i] : -1 - d[i], b = d[j] >= 0 ? d[j] : -1 - d[j];
               J(a, b) += (d[i] >= 0 ? 1 : -1) * (d[j] >= 0 ? 1 : -1) * t.du(f, x.s, u, p, i, j);
            }
         }
      });
      return J;
   }
   DenseMatrix dp(const Point &x)
   {
      DenseMatrix J(fes().GetTrueVSize(), x.p.Size());
      J = 0.0;
      Vector u, p;
      each([&](Term &t, double f, mfem::Array<int> &d, mfem::Array<int> &dp, bool) {
         loc(x, d, dp, u, p);
         for (int i = 0; i < d.Size(); ++i)
         {
            for (int k = 0; k < dp.Size(); ++k) { J(d[i] >= 0 ? d[i] : -1 - d[i], dp[k]) += (d[i] >= 0 ? 1 : -1) * t.dp(f, u, p, i, k); }
         }
      });
      return J;
   }
   Vector ds(const Point &x)
   {
      Vector r(fes().GetTrueVSize()), u, p;
      r = 0.0;
      each([&](Term &t, double f, mfem::Array<int> &d, mfem::Array<int> &dp, bool) {
         loc(x, d, dp, u, p);
         for (int i = 0; i < d.Size(); ++i) { add(r, d[i], t.ds(f, u, i)); }
      });
      return r;
   }
   double energy(const Point &x)
   {
      double e = 0.0;
      Vector u, p;
      each([&](Term &t, double f, mfem::Array<int> &d, mfem::Array<int> &dp, bool domain) {
         if (!domain) { return; }
         loc(x, d, dp, u, p);
         e += t.energy(f, x.s, u, p);
      });
      return e;
   }
   vector<char> essential(const vector<int> &attrs)
   {
      vector<char> m(fes().GetTrueVSize(), 0);
      mfem::Array<int> d;
      for (int b = 0; b < w.mesh->GetNBE(); ++b)
      {
         if (std::find(attrs.begin(), attrs.end(), w.mesh->GetBdrAttribute(b)) == attrs.end()) { continue; }
         fes().GetBdrElementVDofs(b, d);
         for (int i : d) { m[i >= 0 ? i : -1 - i] = 1; }
      }
      return m;
   }
};

// exact dense solves for the adjoint
struct Direct : mfem::Solver
{
   DenseMatrix A;
   int sets = 0;
   void SetOperator(const mfem::Operator &op) override
   {
      ++sets;
      const int n = op.Height();
      width = height = n;
      A.SetSize(n);
      Vector e(n), c;
      for (int j = 0; j < n; ++j) { e = 0.0; e(j) = 1.0; A.GetColumnReference(j, c); op.Mult(e, c); }
   }
   void Mult(const Vector &b, Vector &x) const override
   {
      mfem::DenseMatrixInverse inv(A);
      inv.Mult(b, x);
   }
};

// a residual that holds the form by reference, so that the interface of MISOResidual forwards to it
struct Hold { miso::MISONonlinearForm *f; };
int getSize(const Hold &h) { return getSize(*h.f); }
void setInputs(Hold &h, const MISOInputs &in) { setInputs(*h.f, in); }
void setOptions(Hold &h, const json &o) { setOptions(*h.f, o); }
void evaluate(Hold &h, const MISOInputs &in, Vector &r) { evaluate(*h.f, in, r); }
void linearize(Hold &h, const MISOInputs &in) { linearize(*h.f, in); }
mfem::Operator &getJacobian(Hold &h, const MISOInputs &in, const string &wrt) { return getJacobian(*h.f, in, wrt); }
mfem::Operator &getJacobianTranspose(Hold &h, const MISOInputs &in, const string &wrt) { return getJacobianTranspose(*h.f, in, wrt); }
void setUpAdjointSystem(Hold &h, mfem::Solver &s, const MISOInputs &in, Vector &a, Vector &b) { setUpAdjointSystem(*h.f, s, in, a, b); }
void finalizeAdjointSystem(Hold &h, mfem::Solver &s, const MISOInputs &in, Vector &a, Vector &b) { finalizeAdjointSystem(*h.f, s, in, a, b); }
double jacobianVectorProduct(Hold &h, const Vector &d, const string &wrt) { return jacobianVectorProduct(*h.f, d, wrt); }
void jacobianVectorProduct(Hold &h, const Vector &d, const string &wrt, Vector &r) { jacobianVectorProduct(*h.f, d, wrt, r); }
double vectorJacobianProduct(Hold &h, const Vector &d, const string &wrt) { return vectorJacobianProduct(*h.f, d, wrt); }
void vectorJacobianProduct(Hold &h, const Vector &d, const string &wrt, Vector &r) { vectorJacobianProduct(*h.f, d, wrt, r); }
struct HoldLoad { miso::MISOLinearForm *f; };
int getSize(const HoldLoad &h) { return getSize(*h.f); }
void setInputs(HoldLoad &h, const MISOInputs &in) { setInputs(*h.f, in); }
void setOptions(HoldLoad &h, const json &o) { setOptions(*h.f, o); }
void addLoad(HoldLoad &h, Vector &v) { addLoad(*h.f, v); }
double jacobianVectorProduct(HoldLoad &h, const Vector &d, const string &wrt) { return jacobianVectorProduct(*h.f, d, wrt); }
void jacobianVectorProduct(HoldLoad &h, const Vector &d, const string &wrt, Vector &r) { jacobianVectorProduct(*h.f, d, wrt, r); }
double vectorJacobianProduct(HoldLoad &h, const Vector &d, const string &wrt) { return vectorJacobianProduct(*h.f, d, wrt); }
void vectorJacobianProduct(HoldLoad &h, const Vector &d, const string &wrt, Vector &r) { vectorJacobianProduct(*h.f, d, wrt, r); }

void same(const Vector &a, const Vector &b, const string &key, const string &what)
{
   const double sc = 1.0 + b.Normlinf();
   for (int i = 0; i < b.Size(); ++i) { MC_CHECK(std::fabs(a(i) - b(i)) <= 1e-11 * sc, key, what << ": entry " << i << " is " << a(i) << ", expected " << b(i)); }
}

struct Space { const char *name, *basis; int geom, degree, vdim; };
const Space spaces[] = {{"H1 quad", "h1", QUAD, 1, 1}, {"H1 tri degree 2, two components", "h1", TRI, 2, 2}, {"ND tet", "nedelec", TET, 1, 1}, {"L2 tri", "l2", TRI, 1, 1}, {"ND quad degree 2", "nedelec", QUAD, 2, 1}};

// which terms: subsets with their attributes
vector<Piece> pick_pieces(bool load)
{
   vector<Piece> p;
   const int k = choose(load ? 5 : 7, "terms");
   if (load)
   {
      if (k == 0) { p = {{DOMAIN, {}, {1}}}; }
      if (k == 1) { p = {{DOMAIN, {2}, {1}}}; }
      if (k == 2) { p = {{BDR, {}, {2}}}; }
      if (k == 3) { p = {{BDR, {1, 3}, {2}}, {DOMAIN, {1}, {1}}}; }
      if (k == 4) { p = {{DOMAIN, {}, {1}}, {DOMAIN, {2}, {3}}, {BDR, {2}, {2}}, {BDR, {4}, {4}}}; }
      return p;
   }
   if (k == 0) { p = {{DOMAIN, {}, {1}}}; }
   if (k == 1) { p = {{DOMAIN, {2}, {1}}, {DOMAIN, {}, {5}}}; }
   if (k == 2) { p = {{DOMAIN, {}, {1}}, {BDR, {}, {2}}}; }
   if (k == 3) { p = {{DOMAIN, {1}, {1}}, {DOMAIN, {2}, {5}}, {BDR, {1, 3}, {2}}, {BDR, {2}, {6}}}; }
   if (k == 4) { p = {{DOMAIN, {}, {1}}, {INTERIOR, {}, {3}}}; }
   if (k == 5) { p = {{DOMAIN, {}, {1}}, {INTERNAL, {}, {4}}}; }
   if (k == 6) { p = {{DOMAIN, {}, {1}}, {BDR, {4}, {2}}, {INTERNAL, {0}, {4}}}; }  // 0: the internal attribute
   return p;
}
string describe(const vector<Piece> &p)
{
   string s;
   for (auto &x : p) { s += string(s.empty() ? "" : " + ") + wname[x.where]; for (int a : x.attrs) { s += " " + std::to_string(a); } }
   return s;
}

// ---- nonlinear form: histories
template <class R>
void history(R &res, World &w, Ref &ref, bool dirichlet, const string &adj, int depth)
{
   const int n = ref.fes().GetTrueVSize(), np = w.size("p");
   const int inner = w.mesh->bdr_attributes.Max();
   Ref::Point pt[2];
   Vector bc[2];
   for (int k = 0; k < 2; ++k)
   {
      pt[k].u.SetSize(n);
      pt[k].p.SetSize(np);
      bc[k].SetSize(n);
      pt[k].s = k ? -0.6 : 0.8;
      for (int i = 0; i < n; ++i) { pt[k].u(i) = irr(i, 200 + k); bc[k](i) = irr(i, 220 + k); }
      for (int i = 0; i < np; ++i) { pt[k].p(i) = irr(i, 210 + k); }
   }
   auto inputs = [&](int k) {
      MISOInputs in;
      in.emplace("state", miso::InputVector(pt[k].u));
      in.emplace("p", miso::InputVector(pt[k].p));
      in.emplace("s", pt[k].s);
      if (dirichlet) { in.emplace("dirichlet_bc", miso::InputVector(bc[k])); }
      return in;
   };
   // what the form has been told
   int set = -1, lin = -1;
   vector<char> ess(n, 0);
   double lin_opt = 1.0;
   enum { SET, EVAL, LIN, JAC, STATE, INPUT, ADJ, OPT, NOPS };
   // each step: an operation and one of two arguments
   string hist;
   auto constrained = [&](DenseMatrix J) {
      for (int i = 0; i < n; ++i)
      {
         for (int j = 0; j < n; ++j)
         {
            if (ess[i] || ess[j]) { J(i, j) = i == j; }
         }
      }
      return J;
   };
   auto full = [&](DenseMatrix J) {
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { if (ess[i]) { J(i, j) = i == j; } } }
      return J;
   };
   auto at = [&](int k) { ref.opt = lin_opt; DenseMatrix J = ref.jac(pt[k]); return J; };
   double opt = 1.0;
   for (int t = 0; t < depth; ++t)
   {
      // operations that make sense now
      vector<int> ops = {SET * 4, SET * 4 + 1, LIN * 4, LIN * 4 + 1, OPT * 4, OPT * 4 + 1, OPT * 4 + 2};
      if (set >= 0) { ops.insert(ops.end(), {EVAL * 4, JAC * 4, INPUT * 4}); }
      if (lin >= 0) { ops.insert(ops.end(), {STATE * 4, ADJ * 4}); }
      const int o = pick(ops, "operation"), op = o / 4, a = o % 4;
      switch (op)
      {
         case SET:
            hist += a ? " set1" : " set0";
            setInputs(res, inputs(a));
            set = a;
            break;
         case EVAL:
         {
            hist += " evaluate";
            Vector r(n);
            r = 77.0;
            evaluate(res, inputs(set), r);
            ref.opt = opt;
            Vector e = ref.residual(pt[set]);
            for (int i = 0; i < n; ++i) { if (ess[i]) { e(i) = dirichlet ? pt[set].u(i) - bc[set](i) : 0.0; } }
            same(r, e, "evaluate", hist);
            break;
         }
         case LIN:
            hist += a ? " linearize1" : " linearize0";
            linearize(res, inputs(a));
            lin = set = a;
            lin_opt = opt;
            break;
         case JAC:
         {
            hist += " jacobian";
            auto &J = getJacobian(res, inputs(set), "state");
            lin = set;
            lin_opt = opt;
            const DenseMatrix E = constrained(at(set));
            Vector e(n), y(n), c(n);
            for (int j = 0; j < n; ++j)
            {
               e = 0.0;
               e(j) = 1.0;
               J.Mult(e, y);
               E.Mult(e, c);
               same(y, c, "jacobian", hist + ": column " + std::to_string(j));
            }
            break;
         }
         case STATE:
         {
            hist += " products";
            const DenseMatrix J = at(lin), C = constrained(J), F = full(J);
            auto &JT = getJacobianTranspose(res, inputs(lin), "state");
            Vector e(n), y(n), z(n), c(n), d(n);
            vector<char> own(n, 1);
            for (int j = 0; j < n; ++j)
            {
               e = 0.0;
               e(j) = 1.0;
               JT.Mult(e, y);
               C.MultTranspose(e, c);
               same(y, c, "transpose", hist + ": transposed Jacobian column " + std::to_string(j));
               z = 0.5;
               jacobianVectorProduct(res, e, "state", z);
               z -= 0.5;
               // the condition's own row u_e - bc_e may be left to the caller, in both products
               F.Mult(e, d);
               if (ess[j] && std::fabs(z(j)) < 1e-14) { d(j) = 0.0; own[j] = 0; }
               same(z, d, "jvp", hist + ": forward product, direction " + std::to_string(j) + (ess[j] ? " (essential)" : ""));
               z = 0.5;
               vectorJacobianProduct(res, e, "state", z);
               z -= 0.5;
               F.MultTranspose(e, d);
               if (!own[j]) { d(j) = 0.0; }
               same(z, d, "vjp", hist + ": reverse product, adjoint " + std::to_string(j) + (ess[j] ? " (essential)" : ""));
            }
            break;
         }
         case INPUT:
         {
            hist += " input-products";
            ref.opt = opt;
            const DenseMatrix P = ref.dp(pt[set]);
            const Vector S = ref.ds(pt[set]);
            Vector e(n), b(np), c(np);
            for (int i = 0; i < n; ++i)
            {
               e = 0.0;
               e(i) = -2.0;
               b = 0.5;
               vectorJacobianProduct(res, e, "p", b);
               b -= 0.5;
               for (int k = 0; k < np; ++k) { c(k) = ess[i] ? 0.0 : -2.0 * P(i, k); }
               same(b, c, "vjp.p", hist + ": reverse product wrt a field, adjoint " + std::to_string(i) + (ess[i] ? " (essential)" : ""));
               const double g = vectorJacobianProduct(res, e, "s"), x = ess[i] ? 0.0 : -2.0 * S(i);
               MC_CHECK(std::fabs(g - x) <= 1e-11 * (1 + S.Normlinf()), "vjp.s", hist << ": reverse product wrt a scalar, adjoint " << i << (ess[i] ? " (essential)" : "") << " gives " << g << ", expected " << x);
            }
            // nothing depends on an unknown input
            e = 1.0;
            b = 0.5;
            vectorJacobianProduct(res, e, "nothing", b);
            for (int k = 0; k < np; ++k) { MC_CHECK(b(k) == 0.5, "vjp.unknown", hist << ": reverse product wrt an input the form does not depend on"); }
            MC_CHECK(vectorJacobianProduct(res, e, "nothing") == 0.0, "vjp.unknown", hist << ": reverse product wrt a scalar the form does not depend on");
            Vector dd(1), rr(n);
            dd = 1.0;
            rr = 0.5;
            jacobianVectorProduct(res, dd, "nothing", rr);
            for (int i = 0; i < n; ++i) { MC_CHECK(rr(i) == 0.5, "jvp.unknown", hist << ": forward product wrt an input the form does not depend on"); }
            MC_CHECK(jacobianVectorProduct(res, dd, "nothing") == 0.0, "jvp.unknown", hist << ": forward product wrt a scalar the form does not depend on");
            break;
         }
         case ADJ:
         {
            hist += " adjoint";
            Vector bar(n), psi(n), bar0(n);
            for (int i = 0; i < n; ++i) { bar(i) = irr(i, 300); psi(i) = irr(i, 301); }
            bar0 = bar;
            Direct sol;
            setUpAdjointSystem(res, sol, inputs(lin), bar, psi);
            MC_CHECK(sol.sets > 0, "adjoint.operator", hist << ": the adjoint solver got no operator");
            sol.Mult(bar, psi);
            finalizeAdjointSystem(res, sol, inputs(lin), bar, psi);
            // psi^T dr/du = bar
            const DenseMatrix F = full(at(lin));
            Vector c(n);
            F.MultTranspose(psi, c);
            double sc = 1.0;
            for (int i = 0; i < n; ++i) { sc = std::max(sc, std::fabs(psi(i))); }
            for (int i = 0; i < n; ++i) { MC_CHECK(std::fabs(c(i) - bar0(i)) <= 1e-9 * sc * (1 + F.MaxMaxNorm()), "adjoint", hist << ": adjoint equation " << i << (ess[i] ? " (essential)" : "") << ": " << c(i) << " instead of " << bar0(i)); }
            break;
         }
         case OPT:
         {
            vector<int> at_b = {{1, 3}};
            if (a == 0)
            {
               hist += " bcs{1,3}";
               setOptions(res, json{{"bcs", {{"essential", at_b}}}});
               ess = ref.essential(at_b);
            }
            else if (a == 1)
            {
               hist += " bcs-all";
               setOptions(res, json{{"bcs", {{"essential", "all"}}}, {"opt", 0.7}});
               vector<int> al;
               for (int i = 1; i <= inner; ++i) { al.push_back(i); }
               ess = ref.essential(al);
               opt = 0.7;
            }
            else
            {
               hist += " bcs-none";
               setOptions(res, json{{"bcs", {{"essential", "none"}}}, {"opt", 1.3}});
               ess.assign(n, 0);
               opt = 1.3;
            }
            // products are of the last linearization, which must be repeated
            lin = -1;
            break;
         }
      }
      note(hist);
   }
   // whatever happened, one more evaluation
   setInputs(res, inputs(1));
   Vector r(n);
   evaluate(res, inputs(1), r);
   ref.opt = opt;
   Vector e = ref.residual(pt[1]);
   for (int i = 0; i < n; ++i) { if (ess[i]) { e(i) = dirichlet ? pt[1].u(i) - bc[1](i) : 0.0; } }
   same(r, e, "evaluate", hist + " and a final evaluation");
   (void)adj;
}

template <class Form>
void add_pieces(Form &nf, World &w, vector<Piece> &p, Ref &ref);
template <>
void add_pieces(miso::MISONonlinearForm &nf, World &w, vector<Piece> &p, Ref &ref)
{
   for (auto &x : p)
   {
      for (int &a : x.attrs) { if (x.where == INTERNAL && a == 0) { a = w.mesh->bdr_attributes.Max(); } }
      auto *g = new Integ(x.t.id, w.fields);
      if (x.where == DOMAIN) { if (x.attrs.empty()) { nf.addDomainIntegrator(g); } else { nf.addDomainIntegrator(g, x.attrs); } }
      if (x.where == BDR) { if (x.attrs.empty()) { nf.addBdrFaceIntegrator(g); } else { nf.addBdrFaceIntegrator(g, x.attrs); } }
      if (x.where == INTERIOR) { nf.addInteriorFaceIntegrator(g); }
      if (x.where == INTERNAL) { if (x.attrs.empty()) { nf.addInternalBoundaryFaceIntegrator(g); } else { nf.addInternalBoundaryFaceIntegrator(g, x.attrs); } }
      ref.pieces.push_back(x);
   }
}

void s_nonlinear()
{
   const int ns = 5, si = choose(ns, "space");
   const Space &sp = spaces[si];
   vector<Piece> pieces = pick_pieces(false);
   const bool dirichlet = choose(2, "Dirichlet data"), wrapped = choose(2, "form, residual interface"), named = choose(2, "adjoint name");
   const int depth = thorough() ? 4 : (si == 0 && !wrapped ? 3 : 2);
   note(Str() << sp.name << ": " << describe(pieces) << (dirichlet ? ", Dirichlet data" : "") << (wrapped ? ", wrapped" : "") << (named ? ", named adjoint" : ""));
   Quiet q;
   World w(sp.geom, 1);
   const string adj = named ? "my_adjoint" : "adjoint";
   w.add("state", sp.basis, sp.degree, sp.vdim, 3);
   w.add("p", "h1", 1, 1, 5);
   if (dirichlet) { w.add("dirichlet_bc", sp.basis, sp.degree, sp.vdim, 6); }
   Ref ref{w, {}};
   miso::MISONonlinearForm nf(w.fields.at("state").space(), w.fields, adj);
   MC_CHECK(w.fields.count(adj) == 1 && w.fields.at(adj).space().GetTrueVSize() == getSize(nf), "adjoint.field", "the form has no adjoint field named " << adj);
   MC_CHECK(getSize(nf) == w.size("state"), "size", "size " << getSize(nf));
   add_pieces(nf, w, pieces, ref);
   if (wrapped)
   {
      miso::MISOResidual res(Hold{&nf});
      MC_CHECK(getSize(res) == w.size("state"), "size", "size " << getSize(res));
      history(res, w, ref, dirichlet, adj, depth);
   }
   else { history(nf, w, ref, dirichlet, adj, depth); }
}

void s_energy()
{
   const int si = choose(5, "space");
   const Space &sp = spaces[si];
   vector<Piece> pieces = pick_pieces(false);
   note(Str() << sp.name << ": " << describe(pieces));
   // energies come from elements only in the integrator of this harness
   Quiet q;
   World w(sp.geom, 1);
   w.add("state", sp.basis, sp.degree, sp.vdim, 3);
   w.add("p", "h1", 1, 1, 5);
   w.scalars["s"] = 0.9;
   Ref ref{w, {}};
   miso::MISONonlinearForm nf(w.fields.at("state").space(), w.fields);
   vector<Piece> dom;
   for (auto &x : pieces) { if (x.where == DOMAIN) { dom.push_back(x); } }
   add_pieces(nf, w, dom, ref);
   const MISOInputs in = w.inputs();
   setInputs(nf, in);
   const double got = calcFormOutput(nf, in), e = ref.energy({w.vecs.at("state"), w.vecs.at("p"), 0.9});
   MC_CHECK(std::fabs(got - e) <= 1e-11 * (1 + std::fabs(e)), "energy", "output " << got << ", expected " << e);
}

// products without a linearization are refused, not wrong
void s_unready()
{
   const int k = choose(3, "product");
   note(Str() << "product " << k << " before any linearization");
   Quiet q;
   World w(QUAD, 1);
   w.add("state", "h1", 1, 1, 3);
   w.add("p", "h1", 1, 1, 5);
   miso::MISONonlinearForm nf(w.fields.at("state").space(), w.fields);
   nf.addDomainIntegrator(new Integ(1, w.fields));
   const MISOInputs in = w.inputs();
   setInputs(nf, in);
   Vector a(w.size("state")), b(w.size("state"));
   a = 1.0;
   b = 0.0;
   bool threw = false;
   try
   {
      if (k == 0) { jacobianVectorProduct(nf, a, "state", b); }
      if (k == 1) { vectorJacobianProduct(nf, a, "state", b); }
      if (k == 2) { getJacobianTranspose(nf, in, "state"); }
   }
   catch (const miso::MISOException &) { threw = true; }
   MC_CHECK(threw, "unready", "no Jacobian yet, but no complaint");
}

// two forms over the same fields keep to themselves
void s_two()
{
   const Space &sp = spaces[choose(3, "space")];
   const int first = choose(2, "order"), wrt = choose(2, "product");
   note(Str() << sp.name << ": two forms on the same fields, " << (first ? "second" : "first") << " linearized last");
   Quiet q;
   World w(sp.geom, 1);
   w.add("state", sp.basis, sp.degree, sp.vdim, 3);
   w.add("p", "h1", 1, 1, 5);
   w.scalars["s"] = 0.9;
   Ref ra{w, {}}, rb{w, {}};
   miso::MISONonlinearForm a(w.fields.at("state").space(), w.fields), b(w.fields.at("state").space(), w.fields, "other");
   vector<Piece> pa = {{DOMAIN, {}, {1}}}, pb = {{DOMAIN, {2}, {2}}, {BDR, {}, {3}}};
   add_pieces(a, w, pa, ra);
   add_pieces(b, w, pb, rb);
   const MISOInputs in = w.inputs();
   const Ref::Point x{w.vecs.at("state"), w.vecs.at("p"), 0.9};
   linearize(first ? a : b, in);
   linearize(first ? b : a, in);
   const int n = getSize(a), np = w.size("p");
   for (int f = 0; f < 2; ++f)
   {
      auto &nf = f ? b : a;
      auto &r = f ? rb : ra;
      Vector e(n), y(n), c(n), bar(np);
      const DenseMatrix J = r.jac(x), P = r.dp(x);
      for (int j = 0; j < n; ++j)
      {
         e = 0.0;
         e(j) = 1.0;
         if (wrt == 0)
         {
            y = 0.0;
            jacobianVectorProduct(nf, e, "state", y);
            J.Mult(e, c);
            same(y, c, "two.jvp", Str() << "form " << f << " direction " << j);
         }
         else
         {
            bar = 0.0;
            vectorJacobianProduct(nf, e, "p", bar);
            Vector cp(np);
            P.MultTranspose(e, cp);
            same(bar, cp, "two.vjp", Str() << "form " << f << " adjoint " << j);
         }
      }
   }
}

// ---- linear form: histories
template <class L>
void load_history(L &lf, World &w, Ref &ref, int depth)
{
   const int n = ref.fes().GetTrueVSize(), np = w.size("p");
   Ref::Point pt[2];
   for (int k = 0; k < 2; ++k)
   {
      pt[k].u.SetSize(n);
      pt[k].u = 1.0;
      pt[k].p.SetSize(np);
      pt[k].s = k ? -0.6 : 0.8;
      for (int i = 0; i < np; ++i) { pt[k].p(i) = irr(i, 210 + k); }
   }
   auto inputs = [&](int k) {
      MISOInputs in;
      in.emplace("p", miso::InputVector(pt[k].p));
      in.emplace("s", pt[k].s);
      return in;
   };
   int set = -1;
   double opt = 1.0;
   vector<char> ess(n, 0);
   string hist;
   enum { SET, ADD, PROD, OPT };
   for (int t = 0; t < depth; ++t)
   {
      vector<int> ops = {SET * 4, SET * 4 + 1, OPT * 4, OPT * 4 + 1, OPT * 4 + 2};
      if (set >= 0) { ops.insert(ops.end(), {ADD * 4, PROD * 4}); }
      const int o = pick(ops, "operation"), op = o / 4, a = o % 4;
      if (op == SET)
      {
         hist += a ? " set1" : " set0";
         setInputs(lf, inputs(a));
         set = a;
      }
      if (op == ADD)
      {
         hist += " add";
         Vector v(n);
         for (int i = 0; i < n; ++i) { v(i) = irr(i, 400); }
         ref.opt = opt;
         Vector e = ref.residual(pt[set]);
         for (int i = 0; i < n; ++i) { e(i) = v(i) + (ess[i] ? 0.0 : e(i)); }
         addLoad(lf, v);
         same(v, e, "load.add", hist);
      }
      if (op == PROD)
      {
         hist += " products";
         ref.opt = opt;
         const DenseMatrix P = ref.dp(pt[set]);
         const Vector S = ref.ds(pt[set]);
         Vector e(n), b(np), c(np);
         for (int i = 0; i < n; ++i)
         {
            e = 0.0;
            e(i) = -2.0;
            b = 0.5;
            vectorJacobianProduct(lf, e, "p", b);
            b -= 0.5;
            for (int k = 0; k < np; ++k) { c(k) = ess[i] ? 0.0 : -2.0 * P(i, k); }
            same(b, c, "load.vjp.p", hist + ": reverse product wrt a field, adjoint " + std::to_string(i) + (ess[i] ? " (essential)" : ""));
            const double g = vectorJacobianProduct(lf, e, "s"), x = ess[i] ? 0.0 : -2.0 * S(i);
            MC_CHECK(std::fabs(g - x) <= 1e-11 * (1 + S.Normlinf()), "load.vjp.s", hist << ": reverse product wrt a scalar, adjoint " << i << (ess[i] ? " (essential)" : "") << " gives " << g << ", expected " << x);
         }
         e = 1.0;
         b = 0.5;
         vectorJacobianProduct(lf, e, "nothing", b);
         for (int k = 0; k < np; ++k) { MC_CHECK(b(k) == 0.5, "load.unknown", hist << ": reverse product wrt an input the load does not depend on"); }
         MC_CHECK(vectorJacobianProduct(lf, e, "nothing") == 0.0 && jacobianVectorProduct(lf, e, "nothing") == 0.0, "load.unknown", hist << ": product wrt a scalar the load does not depend on");
      }
      if (op == OPT)
      {
         const vector<int> at_b = {1, 3};
         if (a == 0) { hist += " bcs{1,3}"; setOptions(lf, json{{"bcs", {{"essential", at_b}}}}); ess = ref.essential(at_b); }
         if (a == 1)
         {
            hist += " bcs-all";
            setOptions(lf, json{{"bcs", {{"essential", "all"}}}, {"opt", 0.7}});
            vector<int> al;
            for (int i = 1; i <= w.mesh->bdr_attributes.Max(); ++i) { al.push_back(i); }
            ess = ref.essential(al);
            opt = 0.7;
         }
         if (a == 2) { hist += " options without bcs"; setOptions(lf, json{{"opt", 1.3}}); opt = 1.3; }
      }
      note(hist);
   }
}
void s_linear()
{
   const int si = choose(5, "space");
   const Space &sp = spaces[si];
   vector<Piece> pieces = pick_pieces(true);
   const bool wrapped = choose(2, "form, load interface"), named = choose(2, "adjoint name");
   note(Str() << sp.name << ": load " << describe(pieces) << (wrapped ? ", wrapped" : "") << (named ? ", named adjoint" : ""));
   Quiet q;
   World w(sp.geom, 1);
   w.add("state", sp.basis, sp.degree, sp.vdim, 3);
   w.add("p", "h1", 1, 1, 5);
   Ref ref{w, {}, true};
   miso::MISOLinearForm lf(w.fields.at("state").space(), w.fields, named ? "my_adjoint" : "adjoint");
   MC_CHECK(getSize(lf) == w.size("state"), "size", "size " << getSize(lf));
   for (auto &x : pieces)
   {
      auto *g = new Load(x.t.id, w.fields);
      if (x.where == DOMAIN) { if (x.attrs.empty()) { lf.addDomainIntegrator(g); } else { lf.addDomainIntegrator(g, x.attrs); } }
      if (x.where == BDR) { if (x.attrs.empty()) { lf.addBdrFaceIntegrator(g); } else { lf.addBdrFaceIntegrator(g, x.attrs); } }
      ref.pieces.push_back(x);
   }
   const int depth = thorough() ? 5 : 3;
   if (wrapped)
   {
      miso::MISOLoad load(HoldLoad{&lf});
      load_history(load, w, ref, depth);
   }
   else { load_history(lf, w, ref, depth); }
}
}  // namespace

int main(int argc, char **argv)
{
   return run(argc, argv, "C27", [] { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
              {{"nonlinear form", s_nonlinear}, {"energy", s_energy}, {"unready", s_unready}, {"two forms", s_two}, {"linear form", s_linear}});
}
