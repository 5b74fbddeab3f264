// The sandbox has MFEM 4.5.2; MISO is written against the fork of the
// OptimalDesignLab, which adds reverse-mode derivatives of the element
// mappings, derivatives of coefficients, energies of face integrators, domain
// markers and internal boundary integrators.  This header adds these features
// on top of the installed MFEM, so that more of MISO compiles.  Only the
// /verif harnesses see it.
//
//  - member functions that are not virtual are declared inside the classes of
//    the installed headers (a macro expands a declaration that occurs once),
//    which leaves their layout alone;
//  - virtual ones live in classes derived from MFEM's (suffix X), and the
//    names MISO uses are mapped to these by macros at the end.
#ifndef MISO_VERIF_OVERLAY_MFEM
#define MISO_VERIF_OVERLAY_MFEM

#include <cmath>
#include <functional>
#include <list>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>

#define SetIdentityTransformation(X)                                          \
   WeightRevDiff(DenseMatrix &PointMat_bar);                                  \
   void WeightRevDiff(double w_bar, DenseMatrix &PointMat_bar);               \
   void JacobianRevDiff(const DenseMatrix &J_bar, DenseMatrix &PointMat_bar); \
   void AdjugateJacobianRevDiff(const DenseMatrix &A_bar,                     \
                                DenseMatrix &PointMat_bar);                   \
   void InverseJacobianRevDiff(const DenseMatrix &I_bar,                      \
                               DenseMatrix &PointMat_bar);                    \
   void SetIdentityTransformation(X)
#define CalcPhysLinLaplacian(A, B)                                            \
   CalcPhysLinLaplacian(A, B) const;                                          \
   void CalcPhysShapeRevDiff(ElementTransformation &Trans,                    \
                             const Vector &shape_bar,                         \
                             DenseMatrix &PointMat_bar) const;                \
   void CalcVShapeRevDiff(ElementTransformation &Trans,                       \
                          const DenseMatrix &shape_bar,                       \
                          DenseMatrix &PointMat_bar) const;                   \
   void CalcPhysCurlShapeRevDiff(ElementTransformation &Trans,                \
                                 const DenseMatrix &curl_bar,                 \
                                 DenseMatrix &PointMat_bar)
#include_next <mfem.hpp>
#undef SetIdentityTransformation
#undef CalcPhysLinLaplacian

namespace mfem
{

// ---- reverse mode of the element mappings: every function ADDS to its result
inline void IsoparametricTransformation::JacobianRevDiff(const DenseMatrix &J_bar, DenseMatrix &P_bar)
{
   const FiniteElement &fe = *GetFE();
   DenseMatrix ds(fe.GetDof(), fe.GetDim());
   fe.CalcDShape(GetIntPoint(), ds);
   AddMultABt(J_bar, ds, P_bar);
}
inline void IsoparametricTransformation::WeightRevDiff(double w_bar, DenseMatrix &P_bar)
{
   const DenseMatrix &J = Jacobian();
   DenseMatrix Jb(J.Height(), J.Width());
   if (J.Height() == J.Width())
   {
      DenseMatrix a(AdjugateJacobian());
      for (int i = 0; i < J.Height(); ++i)
         for (int j = 0; j < J.Width(); ++j) { Jb(i, j) = w_bar * a(j, i); }
   }
   else
   {
      // w = sqrt(det(J^T J)), dw/dJ = w J (J^T J)^-1
      DenseMatrix g(J.Width()), gi(J.Width());
      MultAtB(J, J, g);
      CalcInverse(g, gi);
      ::mfem::Mult(J, gi, Jb);
      Jb *= w_bar * Weight();
   }
   JacobianRevDiff(Jb, P_bar);
}
inline void IsoparametricTransformation::WeightRevDiff(DenseMatrix &P_bar) { WeightRevDiff(1.0, P_bar); }
inline void IsoparametricTransformation::InverseJacobianRevDiff(const DenseMatrix &I_bar, DenseMatrix &P_bar)
{
   const DenseMatrix &J = Jacobian();
   MFEM_VERIFY(J.Height() == J.Width(), "overlay: square mappings only");
   const int n = J.Height();
   DenseMatrix inv(InverseJacobian()), t(n), Jb(n);
   MultAtB(inv, I_bar, t);
   MultABt(t, inv, Jb);
   Jb *= -1.0;
   JacobianRevDiff(Jb, P_bar);
}
inline void IsoparametricTransformation::AdjugateJacobianRevDiff(const DenseMatrix &A_bar, DenseMatrix &P_bar)
{
   const DenseMatrix &J = Jacobian();
   MFEM_VERIFY(J.Height() == J.Width(), "overlay: square mappings only");
   const int n = J.Height();
   DenseMatrix Jb(n);
   Jb = 0.0;
   if (n == 2)
   {
      // adj = [[d, -b], [-c, a]]
      Jb(0, 0) = A_bar(1, 1);
      Jb(0, 1) = -A_bar(0, 1);
      Jb(1, 0) = -A_bar(1, 0);
      Jb(1, 1) = A_bar(0, 0);
   }
   else if (n == 3)
   {
      // adj(i,j) = J(j1,i1) J(j2,i2) - J(j1,i2) J(j2,i1), indices cyclic
      for (int i = 0; i < 3; ++i)
      {
         for (int j = 0; j < 3; ++j)
         {
            const int i1 = (i + 1) % 3, i2 = (i + 2) % 3, j1 = (j + 1) % 3, j2 = (j + 2) % 3;
            Jb(j1, i1) += A_bar(i, j) * J(j2, i2);
            Jb(j2, i2) += A_bar(i, j) * J(j1, i1);
            Jb(j1, i2) -= A_bar(i, j) * J(j2, i1);
            Jb(j2, i1) -= A_bar(i, j) * J(j1, i2);
         }
      }
   }
   JacobianRevDiff(Jb, P_bar);
}
/// J_bar = (d nor / d J)^T nor_bar for CalcOrtho(J, nor); every caller but one clears
/// J_bar first, BoundaryMeshSensIntegrator (and the unit test of it) needs this form
inline void CalcOrthoRevDiff(const DenseMatrix &J, const Vector &n, DenseMatrix &Jb)
{
   Jb = 0.0;
   if (J.Height() == 2 && J.Width() == 1)
   {
      Jb(1, 0) += n(0);
      Jb(0, 0) -= n(1);
   }
   else
   {
      MFEM_VERIFY(J.Height() == 3 && J.Width() == 2, "overlay: CalcOrthoRevDiff");
      for (int k = 0; k < 3; ++k)
      {
         const int a = (k + 1) % 3, b = (k + 2) % 3;
         Jb(a, 0) += n(k) * J(b, 1);
         Jb(b, 1) += n(k) * J(a, 0);
         Jb(b, 0) -= n(k) * J(a, 1);
         Jb(a, 1) -= n(k) * J(b, 0);
      }
   }
}
inline void FiniteElement::CalcPhysShapeRevDiff(ElementTransformation &T, const Vector &sb, DenseMatrix &P_bar) const
{
   if (GetMapType() == INTEGRAL)
   {
      Vector s(GetDof());
      CalcShape(T.GetIntPoint(), s);
      const double w = T.Weight();
      dynamic_cast<IsoparametricTransformation &>(T).WeightRevDiff(-(s * sb) / (w * w), P_bar);
   }
}
inline void FiniteElement::CalcVShapeRevDiff(ElementTransformation &T, const DenseMatrix &sb, DenseMatrix &P_bar) const
{
   auto &iso = dynamic_cast<IsoparametricTransformation &>(T);
   DenseMatrix v(GetDof(), GetDim());
   CalcVShape(T.GetIntPoint(), v);
   if (GetMapType() == H_CURL)
   {
      // shape = v J^-1
      DenseMatrix ib(GetDim());
      MultAtB(v, sb, ib);
      iso.InverseJacobianRevDiff(ib, P_bar);
   }
   else
   {
      // shape = v J^T / w
      MFEM_VERIFY(GetMapType() == H_DIV, "overlay: CalcVShapeRevDiff");
      const double w = T.Weight();
      DenseMatrix jb(GetDim()), phys(GetDof(), GetDim());
      MultAtB(sb, v, jb);
      jb *= 1.0 / w;
      iso.JacobianRevDiff(jb, P_bar);
      MultABt(v, T.Jacobian(), phys);
      double d = 0.0;
      for (int i = 0; i < phys.Height(); ++i)
         for (int j = 0; j < phys.Width(); ++j) { d += phys(i, j) * sb(i, j); }
      iso.WeightRevDiff(-d / (w * w), P_bar);
   }
}
inline void FiniteElement::CalcPhysCurlShapeRevDiff(ElementTransformation &T, const DenseMatrix &cb, DenseMatrix &P_bar) const
{
   auto &iso = dynamic_cast<IsoparametricTransformation &>(T);
   const int cd = GetDim() == 3 ? 3 : 1;
   MFEM_VERIFY(GetMapType() == H_CURL && GetDim() >= 2, "overlay: CalcPhysCurlShapeRevDiff");
   DenseMatrix c(GetDof(), cd), phys(GetDof(), cd);
   CalcCurlShape(T.GetIntPoint(), c);
   const double w = T.Weight();
   if (cd == 3)
   {
      DenseMatrix jb(3);
      MultAtB(cb, c, jb);
      jb *= 1.0 / w;
      iso.JacobianRevDiff(jb, P_bar);
      MultABt(c, T.Jacobian(), phys);
   }
   else { phys = c; }
   double d = 0.0;
   for (int i = 0; i < phys.Height(); ++i)
      for (int j = 0; j < cd; ++j) { d += phys(i, j) * cb(i, j); }
   iso.WeightRevDiff(-d / (w * w), P_bar);
}

// ---- coefficients with derivatives with respect to the element's nodes
class CoefficientX : public Coefficient
{
public:
   /// PointMat_bar += Q_bar * dQ/dPointMat; nothing unless overridden
   virtual void EvalRevDiff(double, ElementTransformation &, const IntegrationPoint &, DenseMatrix &) { }
};
class VectorCoefficientX : public VectorCoefficient
{
public:
   using VectorCoefficient::VectorCoefficient;
   virtual void EvalRevDiff(const Vector &, ElementTransformation &, const IntegrationPoint &, DenseMatrix &) { }
};
/// an MFEM coefficient behind the extended interface
template <typename C>
class WrapCoefficient : public CoefficientX, public C
{
public:
   using C::C;
};
class ConstantCoefficientX : public CoefficientX
{
public:
   double constant;
   explicit ConstantCoefficientX(double c = 1.0) : constant(c) { }
   double Eval(ElementTransformation &, const IntegrationPoint &) override { return constant; }
};
class FunctionCoefficientX : public CoefficientX
{
   FunctionCoefficient c;
   std::function<void(const Vector &, double, Vector &)> rev;
public:
   explicit FunctionCoefficientX(std::function<double(const Vector &)> F) : c(std::move(F)) { }
   explicit FunctionCoefficientX(std::function<double(const Vector &, double)> F) : c(std::move(F)) { }
   FunctionCoefficientX(std::function<double(const Vector &)> F, std::function<void(const Vector &, double, Vector &)> R)
    : c(std::move(F)), rev(std::move(R)) { }
   void SetTime(double t) override { Coefficient::SetTime(t); c.SetTime(t); }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { return c.Eval(T, ip); }
   void EvalRevDiff(double q, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P_bar) override
   {
      MFEM_VERIFY(rev, "overlay: function coefficient without a derivative");
      Vector x, xb(P_bar.Height()), s;
      T.Transform(ip, x);
      xb = 0.0;
      rev(x, q, xb);
      const FiniteElement &fe = *dynamic_cast<IsoparametricTransformation &>(T).GetFE();
      s.SetSize(fe.GetDof());
      fe.CalcShape(ip, s);
      AddMultVWt(xb, s, P_bar);
   }
};
class GridFunctionCoefficientX : public CoefficientX
{
   GridFunctionCoefficient c;
public:
   GridFunctionCoefficientX() { }
   GridFunctionCoefficientX(const GridFunction *gf, int comp = 1) : c(gf, comp) { }
   void SetGridFunction(const GridFunction *gf) { c.SetGridFunction(gf); }
   const GridFunction *GetGridFunction() const { return c.GetGridFunction(); }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { return c.Eval(T, ip); }
};
class ProductCoefficientX : public CoefficientX
{
   double ac;
   CoefficientX *a, *b;
public:
   ProductCoefficientX(double A, CoefficientX &B) : ac(A), a(nullptr), b(&B) { }
   ProductCoefficientX(CoefficientX &A, CoefficientX &B) : ac(0.0), a(&A), b(&B) { }
   void SetTime(double t) override { if (a) { a->SetTime(t); } b->SetTime(t); Coefficient::SetTime(t); }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override
   { return (a == nullptr ? ac : a->Eval(T, ip)) * b->Eval(T, ip); }
   void EvalRevDiff(double q, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P_bar) override
   {
      const double av = a == nullptr ? ac : a->Eval(T, ip), bv = b->Eval(T, ip);
      if (a) { a->EvalRevDiff(q * bv, T, ip, P_bar); }
      b->EvalRevDiff(q * av, T, ip, P_bar);
   }
};
class VectorConstantCoefficientX : public VectorCoefficientX
{
   Vector vec;
public:
   explicit VectorConstantCoefficientX(const Vector &v) : VectorCoefficientX(v.Size()), vec(v) { }
   using VectorCoefficient::Eval;
   void Eval(Vector &V, ElementTransformation &, const IntegrationPoint &) override { V = vec; }
   const Vector &GetVec() const { return vec; }
};
class VectorFunctionCoefficientX : public VectorCoefficientX
{
   VectorFunctionCoefficient c;
   std::function<void(const Vector &, const Vector &, Vector &)> rev;
public:
   VectorFunctionCoefficientX(int dim, std::function<void(const Vector &, Vector &)> F) : VectorCoefficientX(dim), c(dim, std::move(F)) { }
   VectorFunctionCoefficientX(int dim, std::function<void(const Vector &, double, Vector &)> F) : VectorCoefficientX(dim), c(dim, std::move(F)) { }
   /// with its reverse mode: rev(x, V_bar, x_bar)
   VectorFunctionCoefficientX(int dim, std::function<void(const Vector &, Vector &)> F,
                              std::function<void(const Vector &, const Vector &, Vector &)> R)
    : VectorCoefficientX(dim), c(dim, std::move(F)), rev(std::move(R)) { }
   void SetTime(double t) override { VectorCoefficient::SetTime(t); c.SetTime(t); }
   using VectorCoefficient::Eval;
   void Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip) override { c.Eval(V, T, ip); }
   void EvalRevDiff(const Vector &vb, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P_bar) override
   {
      MFEM_VERIFY(rev, "overlay: vector function coefficient without a derivative");
      Vector x, xb(P_bar.Height()), s;
      T.Transform(ip, x);
      xb = 0.0;
      rev(x, vb, xb);
      const FiniteElement &fe = *dynamic_cast<IsoparametricTransformation &>(T).GetFE();
      s.SetSize(fe.GetDof());
      fe.CalcShape(ip, s);
      AddMultVWt(xb, s, P_bar);
   }
};
class VectorGridFunctionCoefficientX : public VectorCoefficientX
{
   VectorGridFunctionCoefficient c;
public:
   VectorGridFunctionCoefficientX() : VectorCoefficientX(0) { }
   VectorGridFunctionCoefficientX(const GridFunction *gf) : VectorCoefficientX(gf->VectorDim()), c(gf) { }
   void SetGridFunction(const GridFunction *gf) { c.SetGridFunction(gf); vdim = gf->VectorDim(); }
   const GridFunction *GetGridFunction() const { return c.GetGridFunction(); }
   using VectorCoefficient::Eval;
   void Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip) override { c.Eval(V, T, ip); }
   void Eval(DenseMatrix &M, ElementTransformation &T, const IntegrationRule &ir) override { c.Eval(M, T, ir); }
};
class ScalarVectorProductCoefficientX : public VectorCoefficientX
{
   double ac;
   CoefficientX *a;
   VectorCoefficientX *b;
public:
   ScalarVectorProductCoefficientX(double A, VectorCoefficientX &B) : VectorCoefficientX(B.GetVDim()), ac(A), a(nullptr), b(&B) { }
   ScalarVectorProductCoefficientX(CoefficientX &A, VectorCoefficientX &B) : VectorCoefficientX(B.GetVDim()), ac(0), a(&A), b(&B) { }
   void SetTime(double t) override { if (a) { a->SetTime(t); } b->SetTime(t); VectorCoefficient::SetTime(t); }
   using VectorCoefficient::Eval;
   void Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip) override
   {
      const double sa = a == nullptr ? ac : a->Eval(T, ip);
      b->Eval(V, T, ip);
      V *= sa;
   }
   void EvalRevDiff(const Vector &vb, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P_bar) override
   {
      const double sa = a == nullptr ? ac : a->Eval(T, ip);
      Vector bv(vdim), bb(vb);
      b->Eval(bv, T, ip);
      if (a) { a->EvalRevDiff(vb * bv, T, ip, P_bar); }
      bb *= sa;
      b->EvalRevDiff(bb, T, ip, P_bar);
   }
};

// ---- forms
class NonlinearFormIntegratorX : public NonlinearFormIntegrator
{
public:
   NonlinearFormIntegratorX(const IntegrationRule *ir = nullptr) : NonlinearFormIntegrator(ir) { }
   virtual double GetFaceEnergy(const FiniteElement &, const FiniteElement &, FaceElementTransformations &, const Vector &)
   {
      mfem_error("NonlinearFormIntegrator::GetFaceEnergy(...)\n   is not implemented for this class.");
      return 0.0;
   }
};

class ParNonlinearFormX : public ParNonlinearForm
{
   /// any integrator, restricted to elements with a marked attribute
   struct Marked : NonlinearFormIntegrator
   {
      std::unique_ptr<NonlinearFormIntegrator> in;
      Array<int> *marker;
      Marked(NonlinearFormIntegrator *i, Array<int> *m) : in(i), marker(m) { }
      bool on(ElementTransformation &T) const { return (*marker)[T.Attribute - 1] != 0; }
      void AssembleElementVector(const FiniteElement &el, ElementTransformation &T, const Vector &u, Vector &v) override
      {
         if (on(T)) { in->AssembleElementVector(el, T, u, v); }
         else { v.SetSize(u.Size()); v = 0.0; }
      }
      void AssembleElementGrad(const FiniteElement &el, ElementTransformation &T, const Vector &u, DenseMatrix &m) override
      {
         if (on(T)) { in->AssembleElementGrad(el, T, u, m); }
         else { m.SetSize(u.Size()); m = 0.0; }
      }
      double GetElementEnergy(const FiniteElement &el, ElementTransformation &T, const Vector &u) override
      { return on(T) ? in->GetElementEnergy(el, T, u) : 0.0; }
   };
   std::vector<std::unique_ptr<NonlinearFormIntegrator>> ibf;
   std::vector<Array<int> *> ibf_marker;
   mutable std::unique_ptr<HypreParMatrix> ibf_grad;

   // the mesh hands out one shared face transformation for interior faces
   template <typename F>
   void eachInternal(F f) const
   {
      auto *pmesh = ParFESpace()->GetParMesh();
      for (int i = 0; i < pmesh->GetNBE(); ++i)
      {
         const int attr = pmesh->GetBdrAttribute(i);
         int e1, e2, face = pmesh->GetBdrElementEdgeIndex(i);
         if (pmesh->Dimension() == 1) { continue; }
         pmesh->GetFaceElements(face, &e1, &e2);
         if (e2 < 0) { continue; }
         for (size_t k = 0; k < ibf.size(); ++k)
         {
            if (ibf_marker[k] && (*ibf_marker[k])[attr - 1] == 0) { continue; }
            auto *tr = pmesh->GetInteriorFaceTransformations(face);
            tr->Attribute = attr;
            f(*ibf[k], *tr);
         }
      }
   }
   // ParNonlinearForm::GetGradient, which gives up when there are interior face
   // integrators; the faces shared between ranks are what it does not know about
   Operator &base_gradient(const Vector &x) const
   {
      if (fnfi.Size() == 0) { return ParNonlinearForm::GetGradient(x); }
      auto *pf = ParFESpace();
      MFEM_VERIFY(pf->GetNRanks() == 1, "overlay: interior face integrators on one rank only");
      pGrad.Clear();
      NonlinearForm::GetGradient(x);
      OperatorHandle dA(pGrad.Type()), Ph(pGrad.Type());
      dA.MakeSquareBlockDiag(pf->GetComm(), pf->GlobalVSize(), pf->GetDofOffsets(), Grad);
      Ph.ConvertFrom(pf->Dof_TrueDof_Matrix());
      pGrad.MakePtAP(dA, Ph);
      OperatorHandle pe;
      pe.EliminateRowsCols(pGrad, ess_tdof_list);
      return *pGrad.Ptr();
   }
   void local(FaceElementTransformations &tr, const Vector &x, Array<int> &vd, Vector &u) const
   {
      Array<int> vd2;
      fes->GetElementVDofs(tr.Elem1No, vd);
      fes->GetElementVDofs(tr.Elem2No, vd2);
      vd.Append(vd2);
      x.GetSubVector(vd, u);
   }

public:
   using ParNonlinearForm::ParNonlinearForm;
   // integrators move; what was assembled is built again
   ParNonlinearFormX(ParNonlinearFormX &&o) : ParNonlinearForm(o.ParFESpace())
   {
      mfem::Swap(dnfi, o.dnfi);
      mfem::Swap(fnfi, o.fnfi);
      mfem::Swap(bfnfi, o.bfnfi);
      mfem::Swap(bfnfi_marker, o.bfnfi_marker);
      mfem::Swap(ess_tdof_list, o.ess_tdof_list);
      std::swap(ibf, o.ibf);
      std::swap(ibf_marker, o.ibf_marker);
   }
   using ParNonlinearForm::AddDomainIntegrator;
   void AddDomainIntegrator(NonlinearFormIntegrator *nlfi, Array<int> &marker)
   { NonlinearForm::AddDomainIntegrator(new Marked(nlfi, &marker)); }
   void AddInternalBoundaryFaceIntegrator(NonlinearFormIntegrator *nlfi) { ibf.emplace_back(nlfi); ibf_marker.push_back(nullptr); }
   void AddInternalBoundaryFaceIntegrator(NonlinearFormIntegrator *nlfi, Array<int> &m) { ibf.emplace_back(nlfi); ibf_marker.push_back(&m); }

   void Mult(const Vector &x, Vector &y) const override
   {
      ParNonlinearForm::Mult(x, y);
      if (ibf.empty()) { return; }
      Vector px(fes->GetVSize()), py(fes->GetVSize()), ty(y.Size());
      ParFESpace()->GetProlongationMatrix()->Mult(x, px);
      py = 0.0;
      eachInternal([&](NonlinearFormIntegrator &in, FaceElementTransformations &tr)
      {
         Array<int> vd;
         Vector u, v;
         local(tr, px, vd, u);
         in.AssembleFaceVector(*fes->GetFE(tr.Elem1No), *fes->GetFE(tr.Elem2No), tr, u, v);
         py.AddElementVector(vd, v);
      });
      ParFESpace()->GetProlongationMatrix()->MultTranspose(py, ty);
      for (int i = 0; i < ess_tdof_list.Size(); ++i) { ty(ess_tdof_list[i]) = 0.0; }
      y += ty;
   }
   Operator &GetGradient(const Vector &x) const override
   {
      Operator &g = base_gradient(x);
      if (ibf.empty()) { return g; }
      Vector px(fes->GetVSize());
      ParFESpace()->GetProlongationMatrix()->Mult(x, px);
      SparseMatrix loc(fes->GetVSize());
      eachInternal([&](NonlinearFormIntegrator &in, FaceElementTransformations &tr)
      {
         Array<int> vd;
         Vector u;
         DenseMatrix m;
         local(tr, px, vd, u);
         in.AssembleFaceGrad(*fes->GetFE(tr.Elem1No), *fes->GetFE(tr.Elem2No), tr, u, m);
         loc.AddSubMatrix(vd, vd, m, 0);
      });
      loc.Finalize(0);
      auto *pf = ParFESpace();
      OperatorHandle dA(Operator::Hypre_ParCSR), Ph(Operator::Hypre_ParCSR), A(Operator::Hypre_ParCSR);
      dA.MakeSquareBlockDiag(pf->GetComm(), pf->GlobalVSize(), pf->GetDofOffsets(), &loc);
      Ph.ConvertFrom(pf->Dof_TrueDof_Matrix());
      A.MakePtAP(dA, Ph);
      auto *extra = A.As<HypreParMatrix>();
      // rows and columns of essential dofs: the base matrix has the identity there
      std::unique_ptr<HypreParMatrix> ae(extra->EliminateRowsCols(ess_tdof_list));
      SparseMatrix dg;
      extra->GetDiag(dg);
      for (int i = 0; i < ess_tdof_list.Size(); ++i)
      {
         const int r = ess_tdof_list[i];
         for (int j = dg.GetI()[r]; j < dg.GetI()[r + 1]; ++j) { if (dg.GetJ()[j] == r) { dg.GetData()[j] = 0.0; } }
      }
      ibf_grad.reset(ParAdd(dynamic_cast<HypreParMatrix *>(&g), extra));
      return *ibf_grad;
   }
   double GetEnergy(const Vector &x) const override
   {
      Vector px(fes->GetVSize());
      ParFESpace()->GetProlongationMatrix()->Mult(x, px);
      return GetParGridFunctionEnergy(px);
   }
   double GetEnergy(const ParGridFunction &x) const { return GetParGridFunctionEnergy(x); }
   double GetParGridFunctionEnergy(const Vector &px) const
   {
      double e = GetGridFunctionEnergy(px), all = 0.0;
      MPI_Allreduce(&e, &all, 1, MPI_DOUBLE, MPI_SUM, ParFESpace()->GetComm());
      return all;
   }
   double GetGridFunctionEnergy(const Vector &px) const
   {
      // domain, boundary and face integrators (MFEM 4.5 knows only domain ones)
      auto *pmesh = ParFESpace()->GetParMesh();
      double e = 0.0;
      Array<int> vd;
      Vector u;
      auto fe = [](NonlinearFormIntegrator *in) -> NonlinearFormIntegratorX &
      {
         auto *p = dynamic_cast<NonlinearFormIntegratorX *>(in);
         MFEM_VERIFY(p, "overlay: face integrator without an energy");
         return *p;
      };
      for (int i = 0; i < fes->GetNE() && dnfi.Size(); ++i)
      {
         DofTransformation *dt = fes->GetElementVDofs(i, vd);
         px.GetSubVector(vd, u);
         if (dt) { dt->InvTransformPrimal(u); }
         for (int k = 0; k < dnfi.Size(); ++k) { e += dnfi[k]->GetElementEnergy(*fes->GetFE(i), *fes->GetElementTransformation(i), u); }
      }
      for (int f = 0; f < pmesh->GetNumFaces() && fnfi.Size(); ++f)
      {
         auto *tr = pmesh->GetInteriorFaceTransformations(f);
         if (!tr) { continue; }
         local(*tr, px, vd, u);
         for (int k = 0; k < fnfi.Size(); ++k) { e += fe(fnfi[k]).GetFaceEnergy(*fes->GetFE(tr->Elem1No), *fes->GetFE(tr->Elem2No), *tr, u); }
      }
      for (int i = 0; i < pmesh->GetNBE() && bfnfi.Size(); ++i)
      {
         auto *tr = pmesh->GetBdrFaceTransformations(i);
         if (!tr) { continue; }
         for (int k = 0; k < bfnfi.Size(); ++k)
         {
            if (bfnfi_marker[k] && (*bfnfi_marker[k])[pmesh->GetBdrAttribute(i) - 1] == 0) { continue; }
            fes->GetElementVDofs(tr->Elem1No, vd);
            px.GetSubVector(vd, u);
            const FiniteElement &el = *fes->GetFE(tr->Elem1No);
            e += fe(bfnfi[k]).GetFaceEnergy(el, el, *tr, u);
         }
      }
      if (!ibf.empty())
      {
         eachInternal([&](NonlinearFormIntegrator &in, FaceElementTransformations &tr)
         {
            Vector v;
            Array<int> d;
            local(tr, px, d, v);
            e += fe(&in).GetFaceEnergy(*fes->GetFE(tr.Elem1No), *fes->GetFE(tr.Elem2No), tr, v);
         });
      }
      return e;
   }
};

class ParLinearFormX : public ParLinearForm
{
   std::vector<std::shared_ptr<LinearFormIntegrator>> ibf;
   std::vector<Array<int> *> ibf_marker;
   void take(ParLinearFormX &o)
   {
      std::swap(extern_lfs, o.extern_lfs);
      mfem::Swap(domain_integs, o.domain_integs);
      mfem::Swap(domain_integs_marker, o.domain_integs_marker);
      mfem::Swap(domain_delta_integs, o.domain_delta_integs);
      mfem::Swap(boundary_integs, o.boundary_integs);
      mfem::Swap(boundary_integs_marker, o.boundary_integs_marker);
      mfem::Swap(boundary_face_integs, o.boundary_face_integs);
      mfem::Swap(boundary_face_integs_marker, o.boundary_face_integs_marker);
      mfem::Swap(interior_face_integs, o.interior_face_integs);
      std::swap(ibf, o.ibf);
      std::swap(ibf_marker, o.ibf_marker);
      Vector::operator=(o);
   }

public:
   using ParLinearForm::ParLinearForm;
   using ParLinearForm::operator=;
   ParLinearFormX() = default;
   // the fork's linear forms can be moved
   ParLinearFormX(ParLinearFormX &&o) : ParLinearForm(o.pfes) { take(o); }
   ParLinearFormX &operator=(ParLinearFormX &&o)
   {
      if (this != &o) { Update(o.pfes); take(o); }
      return *this;
   }
   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator *lfi) { ibf.emplace_back(lfi); ibf_marker.push_back(nullptr); }
   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator *lfi, Array<int> &m) { ibf.emplace_back(lfi); ibf_marker.push_back(&m); }
   void Assemble()
   {
      ParLinearForm::Assemble();
      if (ibf.empty()) { return; }
      auto *pmesh = pfes->GetParMesh();
      for (int i = 0; i < pmesh->GetNBE(); ++i)
      {
         const int attr = pmesh->GetBdrAttribute(i);
         int e1, e2, face = pmesh->GetBdrElementEdgeIndex(i);
         pmesh->GetFaceElements(face, &e1, &e2);
         if (e2 < 0) { continue; }
         for (size_t k = 0; k < ibf.size(); ++k)
         {
            if (ibf_marker[k] && (*ibf_marker[k])[attr - 1] == 0) { continue; }
            auto *tr = pmesh->GetInteriorFaceTransformations(face);
            tr->Attribute = attr;
            Array<int> vd, vd2;
            Vector v;
            pfes->GetElementVDofs(tr->Elem1No, vd);
            pfes->GetElementVDofs(tr->Elem2No, vd2);
            vd.Append(vd2);
            ibf[k]->AssembleRHSElementVect(*pfes->GetFE(tr->Elem1No), *pfes->GetFE(tr->Elem2No), *tr, v);
            AddElementVector(vd, v);
         }
      }
   }
};

/// the fork's bilinear forms can be moved
class ParBilinearFormX : public ParBilinearForm
{
   // integrators and local matrices move
   void take(ParBilinearFormX &o)
   {
      MFEM_VERIFY(!o.p_mat.Ptr(), "overlay: moving a bilinear form with its system matrix");
      std::swap(mat, o.mat);
      std::swap(mat_e, o.mat_e);
      std::swap(height, o.height);
      std::swap(width, o.width);
      std::swap(extern_bfs, o.extern_bfs);
      mfem::Swap(domain_integs, o.domain_integs);
      mfem::Swap(domain_integs_marker, o.domain_integs_marker);
      mfem::Swap(boundary_integs, o.boundary_integs);
      mfem::Swap(boundary_integs_marker, o.boundary_integs_marker);
      mfem::Swap(interior_face_integs, o.interior_face_integs);
      mfem::Swap(boundary_face_integs, o.boundary_face_integs);
      mfem::Swap(boundary_face_integs_marker, o.boundary_face_integs_marker);
   }

public:
   using ParBilinearForm::ParBilinearForm;
   ParBilinearFormX(ParBilinearFormX &&o) : ParBilinearForm(o.pfes) { take(o); }
};
}  // namespace mfem

#ifndef MISO_VERIF_NO_RENAME
#define Coefficient CoefficientX
#define VectorCoefficient VectorCoefficientX
#define ConstantCoefficient ConstantCoefficientX
#define FunctionCoefficient FunctionCoefficientX
#define GridFunctionCoefficient GridFunctionCoefficientX
#define ProductCoefficient ProductCoefficientX
#define VectorConstantCoefficient VectorConstantCoefficientX
#define VectorFunctionCoefficient VectorFunctionCoefficientX
#define VectorGridFunctionCoefficient VectorGridFunctionCoefficientX
#define ScalarVectorProductCoefficient ScalarVectorProductCoefficientX
#define NonlinearFormIntegrator NonlinearFormIntegratorX
#define ParNonlinearForm ParNonlinearFormX
#define ParLinearForm ParLinearFormX
#define ParBilinearForm ParBilinearFormX
#endif

#endif
