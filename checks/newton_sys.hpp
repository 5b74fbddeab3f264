// Small nonlinear systems with a complete log of what a solver asked of them.
#ifndef NEWTON_SYS_HPP
#define NEWTON_SYS_HPP
#include <cmath>
#include "mc.hpp"
#include "mfem.hpp"
using namespace mc;
using mfem::DenseMatrix;
using mfem::Vector;
namespace
{
typedef std::vector<double> V;
std::string show(const Vector &v)
{
   Str s;
   s << "(";
   for (int i = 0; i < v.Size(); ++i) { s << (i ? "," : "") << v(i); }
   s << ")";
   return s;
}
double nrm(const Vector &v)
{
   long double s = 0;
   for (int i = 0; i < v.Size(); ++i) { s += (long double)v(i) * v(i); }
   return sqrtl(s);
}
long double dotl(const Vector &a, const Vector &b)
{
   long double s = 0;
   for (int i = 0; i < a.Size(); ++i) { s += (long double)a(i) * b(i); }
   return s;
}

// F_i(x) = sum_j A_ij x_j + q x_i^2 + t x_{i+1} x_i + k(x_i) - d_i,  k = atan or cubic
struct Sys : mfem::Operator
{
   DenseMatrix A;
   double q = 0, t = 0;
   int kind = 0;
   Vector d;
   mutable DenseMatrix J;
   struct Ev
   {
      char what;  // 'F' residual evaluation, 'J' Jacobian, 'P' direction
      Vector x, f;
   };
   mutable std::vector<Ev> log;
   Sys(int n) : mfem::Operator(n), A(n), d(n) { A = 0.0; d = 0.0; }
   void eval(const Vector &x, Vector &f) const
   {
      int n = height;
      f.SetSize(n);
      for (int i = 0; i < n; ++i)
      {
         double s = -d(i);
         for (int j = 0; j < n; ++j) { s += A(i, j) * x(j); }
         s += q * x(i) * x(i) + t * x(i) * x((i + 1) % n);
         if (kind == 1) { s += 3 * std::atan(2 * x(i)); }
         if (kind == 2) { s += x(i) * x(i) * x(i); }
         if (kind == 3) { s += std::sqrt(x(i) + 1.0); }  // NaN for x < -1
         f(i) = s;
      }
   }
   void jac(const Vector &x, DenseMatrix &M) const
   {
      int n = height;
      M.SetSize(n);
      M = A;
      for (int i = 0; i < n; ++i)
      {
         M(i, i) += 2 * q * x(i) + t * x((i + 1) % n);
         M(i, (i + 1) % n) += t * x(i);
         if (kind == 1) { M(i, i) += 6 / (1 + 4 * x(i) * x(i)); }
         if (kind == 2) { M(i, i) += 3 * x(i) * x(i); }
         if (kind == 3) { M(i, i) += 0.5 / std::sqrt(x(i) + 1.0); }
      }
   }
   void Mult(const Vector &x, Vector &y) const override
   {
      eval(x, y);
      log.push_back({'F', x, y});
   }
   mfem::Operator &GetGradient(const Vector &x) const override
   {
      jac(x, J);
      log.push_back({'J', x, x});
      return J;
   }
};

// returns a prescribed modification of the Newton direction
struct Dir : mfem::Solver
{
   int mode;
   const Sys &sys;
   const mfem::Operator *op = nullptr;
   Dir(int m, const Sys &s) : mfem::Solver(s.Height()), mode(m), sys(s) { }
   void SetOperator(const mfem::Operator &o) override { op = &o; }
   void Mult(const Vector &r, Vector &c) const override
   {
      DenseMatrix M(*dynamic_cast<const DenseMatrix *>(op));
      if (!(fabs(M.Det()) > 1e-12) || !std::isfinite(M.Det())) { prune(); }
      mfem::DenseMatrixInverse inv(M);
      c.SetSize(r.Size());
      inv.Mult(r, c);
      switch (mode)
      {
      case 1: c *= 0.5; break;
      case 2: c *= 3.0; break;
      case 3:
         if (c.Size() > 1) { double a = c(0); c(0) = 0.8 * a - 0.6 * c(1); c(1) = 0.6 * a + 0.8 * c(1); }
         else { c *= 7.0; }
         break;
      case 4: c *= -0.25; break;
      default: break;
      }
      if (!(c.Norml2() > 0) || !std::isfinite(c.Norml2())) { prune(); }
      sys.log.push_back({'P', r, c});
   }
};

void setup(Sys &s, int n)
{
   std::vector<V> mats = n == 1 ? std::vector<V>{{1}, {-2}, {0.25}} : n == 2 ? std::vector<V>{{2, 1, -1, 1}, {1, 0, 0, 1}, {0.5, -3, 0.25, 1}} : std::vector<V>{{2, 1, 0, -1, 3, 0.5, 0, 1, 1}};
   const V &m = pick(mats, "A");
   for (int i = 0; i < n * n; ++i) { s.A(i / n, i % n) = m[i]; }
   int v = choose(6, "nonlinearity");
   s.q = (v == 1) ? 1.0 : (v == 2) ? -0.5 : 0.0;
   s.t = (v == 2) ? 1.0 : 0.0;
   s.kind = (v == 3) ? 1 : (v == 4) ? 2 : (v == 5) ? 3 : 0;
   int dd = choose(2, "d");
   for (int i = 0; i < n; ++i) { s.d(i) = dd ? 0.3 - 0.9 * i : 0.0; }
}
Vector point(int n, const char *what)
{
   static const std::vector<V> pts = {{0.4, -0.7, 1.1}, {3.0, 2.0, -1.5}, {-0.9, 0.25, 8.0}, {-30.0, 40.0, 5.0}};
   const V &p = pick(pts, what);
   Vector x(n);
   for (int i = 0; i < n; ++i) { x(i) = p[i]; }
   return x;
}

}  // namespace
#endif
