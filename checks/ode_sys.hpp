// A small time-dependent spatial residual R(u,t), wrapped by the real
// TimeDependentResidual/MISOResidual, with all mass-matrix kinds.
#ifndef ODE_SYS_HPP
#define ODE_SYS_HPP
#include <cmath>
#include <memory>
#include "mfem.hpp"
#include "nlohmann/json.hpp"
#include "miso_residual.hpp"
#include "ode.hpp"
#include "mc.hpp"
using mfem::DenseMatrix;
using mfem::Vector;
namespace odesys
{
typedef long double L;
typedef std::vector<L> LV;
typedef std::vector<LV> LM;

struct Data
{
   int n = 1;
   std::vector<double> A;   // n*n
   double q = 0;            // quadratic term
   double g = 0;            // forcing g*(i+1)*(0.5+t+t^2)
   int entropy = 0;         // 0: quadratic, 1: exponential
   LM M;                    // mass matrix (for references)
   bool hypre_jac = false;
   int jac_pattern = 0;     // 0: full pattern, 1: only nonzeros
   // log
   mutable std::vector<double> eval_times;
   mutable std::vector<Vector> eval_states;

   template <class T>
   void R(const T *u, T t, T *r) const
   {
      for (int i = 0; i < n; ++i)
      {
         T s = T(g) * T(i + 1) * (T(0.5) + t + t * t);
         for (int j = 0; j < n; ++j) { s += T(A[i * n + j]) * u[j]; }
         s += T(q) * u[i] * u[(i + 1) % n];
         r[i] = s;
      }
   }
   template <class T>
   void J(const T *u, T *m) const
   {
      for (int i = 0; i < n; ++i)
      {
         for (int j = 0; j < n; ++j) { m[i * n + j] = T(A[i * n + j]); }
         m[i * n + i] += T(q) * u[(i + 1) % n];
         m[i * n + (i + 1) % n] += T(q) * u[i];
      }
   }
   template <class T>
   T S(const T *u) const
   {
      T s = 0;
      for (int i = 0; i < n; ++i) { s += entropy == 0 ? T(0.5) * (i + 1) * u[i] * u[i] : std::exp(u[i]); }
      return s;
   }
   template <class T>
   void w(const T *u, T *v) const
   {
      for (int i = 0; i < n; ++i) { v[i] = entropy == 0 ? T(i + 1) * u[i] : std::exp(u[i]); }
   }
};

inline bool lu(LM A, LV b, LV &x)
{
   int n = (int)b.size();
   for (int k = 0; k < n; ++k)
   {
      int p = k;
      for (int i = k + 1; i < n; ++i) { if (fabsl(A[i][k]) > fabsl(A[p][k])) { p = i; } }
      if (!(fabsl(A[p][k]) > 1e-10L)) { return false; }
      std::swap(A[p], A[k]);
      std::swap(b[p], b[k]);
      for (int i = k + 1; i < n; ++i)
      {
         L f = A[i][k] / A[k][k];
         for (int j = k; j < n; ++j) { A[i][j] -= f * A[k][j]; }
         b[i] -= f * b[k];
      }
   }
   x.assign(n, 0);
   for (int i = n - 1; i >= 0; --i)
   {
      L s = b[i];
      for (int j = i + 1; j < n; ++j) { s -= A[i][j] * x[j]; }
      x[i] = s / A[i][i];
   }
   return true;
}

// solves M k + R(u + dt k, t) = 0 for k (Newton in long double, from k = 0)
inline bool implicit_k(const Data &d, const LV &u, L dt, L t, LV &k)
{
   int n = d.n;
   k.assign(n, 0);
   for (int it = 0; it < 60; ++it)
   {
      LV x(n), r(n), jm(n * n), dk;
      for (int i = 0; i < n; ++i) { x[i] = u[i] + dt * k[i]; }
      d.R(x.data(), t, r.data());
      d.J(x.data(), jm.data());
      LM A(n, LV(n));
      for (int i = 0; i < n; ++i)
      {
         for (int j = 0; j < n; ++j)
         {
            r[i] += d.M[i][j] * k[j];
            A[i][j] = d.M[i][j] + dt * jm[i * n + j];
         }
      }
      if (!lu(A, r, dk)) { return false; }
      L s = 0, m = 0;
      for (int i = 0; i < n; ++i)
      {
         k[i] -= dk[i];
         s += fabsl(dk[i]);
         m += fabsl(k[i]);
      }
      if (!(m < 1e6L)) { return false; }
      if (s <= 1e-17L * (1 + m)) { return true; }
   }
   return false;
}

/// the concrete spatial residual
class Res
{
public:
   Res(std::shared_ptr<Data> d) : d(std::move(d)), dense(std::make_unique<DenseMatrix>(this->d->n)) { }
   friend int getSize(const Res &r) { return r.d->n; }
   friend MPI_Comm getMPIComm(const Res &) { return MPI_COMM_SELF; }
   friend void setInputs(Res &r, const miso::MISOInputs &in)
   {
      auto it = in.find("time");
      if (it != in.end()) { r.time = std::get<double>(it->second); }
   }
   friend void setOptions(Res &r, const nlohmann::json &o) { r.opts = o; }
   friend void evaluate(Res &r, const miso::MISOInputs &in, Vector &out)
   {
      auto it = in.find("state");
      if (it == in.end()) { mc::fail("no-state", "spatial residual evaluated without a state"); }
      const auto &iv = std::get<miso::InputVector>(it->second);
      if (iv.size != r.d->n) { mc::fail("state-size", "spatial residual got a state of the wrong size"); }
      std::vector<double> u(iv.data, iv.data + iv.size), f(iv.size);
      r.d->R(u.data(), r.time, f.data());
      r.d->eval_times.push_back(r.time);
      Vector s(iv.size);
      for (int i = 0; i < iv.size; ++i) { s(i) = u[i]; }
      r.d->eval_states.push_back(s);
      out.SetSize(iv.size);
      for (int i = 0; i < iv.size; ++i) { out(i) = f[i]; }
   }
   friend mfem::Operator &getJacobian(Res &r, const miso::MISOInputs &in, const std::string &wrt)
   {
      if (wrt != "state") { mc::fail("wrt", "spatial Jacobian requested with respect to " + wrt); }
      auto it = in.find("state");
      if (it == in.end()) { mc::fail("no-state", "spatial Jacobian evaluated without a state"); }
      const auto &iv = std::get<miso::InputVector>(it->second);
      int n = r.d->n;
      std::vector<double> j(n * n);
      r.d->J((const double *)iv.data, j.data());
      for (int a = 0; a < n; ++a) { for (int b = 0; b < n; ++b) { (*r.dense)(a, b) = j[a * n + b]; } }
      if (!r.d->hypre_jac) { return *r.dense; }
      mfem::SparseMatrix sp(n, n);
      for (int a = 0; a < n; ++a) { for (int b = 0; b < n; ++b) { if (r.d->jac_pattern == 0 || j[a * n + b] != 0) { sp.Set(a, b, j[a * n + b]); } } }
      sp.Finalize(0);
      HYPRE_BigInt rows[2] = {0, n};
      mfem::HypreParMatrix tmp(MPI_COMM_SELF, n, rows, &sp);
      r.hyp = std::make_unique<mfem::HypreParMatrix>(tmp);
      return *r.hyp;
   }
   friend double calcEntropy(Res &r, const miso::MISOInputs &in)
   {
      const auto &iv = std::get<miso::InputVector>(in.at("state"));
      return r.d->S((const double *)iv.data);
   }
   // w(state)^T R with R = -M state_dot
   friend double calcEntropyChange(Res &r, const miso::MISOInputs &in)
   {
      const auto &u = std::get<miso::InputVector>(in.at("state"));
      const auto &k = std::get<miso::InputVector>(in.at("state_dot"));
      int n = r.d->n;
      LV w(n), uu(u.data, u.data + n);
      r.d->w(uu.data(), w.data());
      L s = 0;
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { s -= w[i] * r.d->M[i][j] * k.data[j]; } }
      r.last_change = in;
      return (double)s;
   }
   friend double calcSupplyRate(Res &r, const miso::MISOInputs &in)
   {
      const auto &u = std::get<miso::InputVector>(in.at("state"));
      return 100 * r.d->S((const double *)u.data) + std::get<double>(in.at("dt")) + 10 * std::get<double>(in.at("time"));
   }
   friend mfem::Solver *getPreconditioner(Res &r) { return r.prec; }

   std::shared_ptr<Data> d;
   double time = NAN;
   nlohmann::json opts;
   mfem::Solver *prec = nullptr;
   miso::MISOInputs last_change;

private:
   std::unique_ptr<DenseMatrix> dense;
   std::unique_ptr<mfem::HypreParMatrix> hyp;
};

// mass matrices: 0 none (identity), 1 hypre identity, 2 hypre diagonal, 3 hypre full, 4 block (diagonal blocks of size 1)
struct Mass
{
   std::unique_ptr<mfem::Operator> op;
   std::vector<std::unique_ptr<mfem::Operator>> owned;
   mfem::Array<int> offsets;
};
inline void make_mass(int kind, int pattern, Data &d, Mass &m)
{
   int n = d.n;
   d.M.assign(n, LV(n, 0));
   for (int i = 0; i < n; ++i)
   {
      d.M[i][i] = kind <= 1 ? 1.0 : 2.0 + i;
      if (kind == 3) { for (int j = 0; j < n; ++j) { if (i != j) { d.M[i][j] = 0.25; } } }
   }
   d.hypre_jac = kind >= 1 && kind <= 3;
   if (kind == 0) { return; }
   if (kind == 4)
   {
      m.offsets.SetSize(n + 1);
      for (int i = 0; i <= n; ++i) { m.offsets[i] = i; }
      auto b = std::make_unique<mfem::BlockOperator>(m.offsets);
      for (int i = 0; i < n; ++i)
      {
         auto e = std::make_unique<DenseMatrix>(1);
         (*e)(0, 0) = (double)d.M[i][i];
         b->SetBlock(i, i, e.get());
         m.owned.push_back(std::move(e));
      }
      m.op = std::move(b);
      return;
   }
   mfem::SparseMatrix sp(n, n);
   for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { if (pattern == 0 || d.M[i][j] != 0) { sp.Set(i, j, (double)d.M[i][j]); } } }
   sp.Finalize(0);
   HYPRE_BigInt rows[2] = {0, n};
   mfem::HypreParMatrix tmp(MPI_COMM_SELF, n, rows, &sp);
   m.op = std::make_unique<mfem::HypreParMatrix>(tmp);
}

// direct solver for any operator
struct Direct : mfem::Solver
{
   const mfem::Operator *op = nullptr;
   int sets = 0;
   Direct(int n) : mfem::Solver(n) { }
   void SetOperator(const mfem::Operator &o) override
   {
      op = &o;
      ++sets;
   }
   void Mult(const Vector &r, Vector &c) const override
   {
      int n = r.Size();
      LM A(n, LV(n));
      Vector e(n), a(n);
      for (int j = 0; j < n; ++j)
      {
         e = 0.0;
         e(j) = 1.0;
         a = NAN;
         op->Mult(e, a);
         for (int i = 0; i < n; ++i) { A[i][j] = a(i); }
      }
      LV b(n), x;
      for (int i = 0; i < n; ++i) { b[i] = r(i); }
      if (!lu(A, b, x)) { mc::fail("singular", "the Newton matrix is singular"); }
      c.SetSize(n);
      for (int i = 0; i < n; ++i) { c(i) = (double)x[i]; }
   }
};

inline void pick_system(Data &d, int n)
{
   d.n = n;
   typedef std::vector<double> V;
   static const std::vector<V> m1{{1.5}, {-0.75}, {0.0}}, m2{{0, 1, -1, 0}, {2, 0.5, -0.25, 1}, {0.5, -3, 0.25, 1}},
       m3{{0, 1, -2, -1, 0, 0.5, 2, -0.5, 0}, {2, 1, 0, -1, 3, 0.5, 0, 1, 1}};
   d.A = mc::pick(n == 1 ? m1 : n == 2 ? m2 : m3, "A");
   int nl = mc::choose(3, "terms");
   d.q = nl == 1 ? 0.5 : 0.0;
   d.g = nl == 2 ? 0.75 : 0.0;
}
}  // namespace odesys
#endif
