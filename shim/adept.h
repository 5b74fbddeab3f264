// Stand-in for the Adept algorithmic-differentiation library, which is not
// available in the sandbox.  Implements the part of Adept's public API that
// MISO uses with a plain statement tape (reverse and forward sweeps).  Only
// the /verif harnesses see this file.
#ifndef MISO_VERIF_ADEPT_H
#define MISO_VERIF_ADEPT_H

#include <algorithm>
#include <cmath>
#include <iostream>
#include <stdexcept>
#include <vector>

namespace adept
{
typedef double Real;

class adouble;

class Stack
{
public:
   explicit Stack(bool activate_immediately = true)
   {
      if (activate_immediately) { activate(); }
   }
   ~Stack() { if (active() == this) { active() = nullptr; } }
   Stack(const Stack &) = delete;
   Stack &operator=(const Stack &) = delete;

   static Stack *&active() { static thread_local Stack *s = nullptr; return s; }

   void activate() { active() = this; }
   void deactivate() { if (active() == this) { active() = nullptr; } }
   bool is_active() const { return active() == this; }

   void new_recording()
   {
      stmt_.clear();
      op_.clear();
      indep_.clear();
      dep_.clear();
      grad_.assign(grad_.size(), 0.0);
   }
   bool pause_recording() { rec_ = false; return true; }
   bool continue_recording() { rec_ = true; return true; }

   inline void independent(const adouble &x);
   inline void independent(const adouble *x, int n);
   inline void dependent(const adouble &x);
   inline void dependent(const adouble *x, int n);
   void clear_independents() { indep_.clear(); }
   void clear_dependents() { dep_.clear(); }
   int n_independent() const { return int(indep_.size()); }
   int n_dependent() const { return int(dep_.size()); }
   int n_statements() const { return int(stmt_.size()); }

   // column-major: the dependent index varies fastest
   void jacobian(double *jac) { jacobian_reverse(jac); }
   void jacobian_reverse(double *jac)
   {
      check_deps();
      const size_t m = dep_.size(), n = indep_.size();
      for (size_t i = 0; i < m; ++i)
      {
         clear_gradients();
         g(dep_[i]) = 1.0;
         compute_adjoint();
         for (size_t j = 0; j < n; ++j) { jac[i + m * j] = g(indep_[j]); }
      }
      clear_gradients();
   }
   void jacobian_forward(double *jac)
   {
      check_deps();
      const size_t m = dep_.size(), n = indep_.size();
      for (size_t j = 0; j < n; ++j)
      {
         clear_gradients();
         g(indep_[j]) = 1.0;
         compute_tangent_linear();
         for (size_t i = 0; i < m; ++i) { jac[i + m * j] = g(dep_[i]); }
      }
      clear_gradients();
   }
   void reverse() { compute_adjoint(); }
   void forward() { compute_tangent_linear(); }

   void compute_adjoint()
   {
      for (size_t s = stmt_.size(); s-- > 0;)
      {
         const double a = g(stmt_[s].lhs);
         g(stmt_[s].lhs) = 0.0;
         if (a != 0.0)
         {
            for (size_t o = first(s); o < stmt_[s].end; ++o)
            {
               g(op_[o].idx) += op_[o].mult * a;
            }
         }
      }
   }
   void compute_tangent_linear()
   {
      for (size_t s = 0; s < stmt_.size(); ++s)
      {
         double a = 0.0;
         for (size_t o = first(s); o < stmt_[s].end; ++o)
         {
            a += op_[o].mult * g(op_[o].idx);
         }
         g(stmt_[s].lhs) = a;
      }
   }
   void clear_gradients() { grad_.assign(grad_.size(), 0.0); }
   void clear_statements() { stmt_.clear(); op_.clear(); }

   // --- used by adouble ---
   double &g(size_t i)
   {
      if (i >= grad_.size()) { grad_.resize(i + 1, 0.0); }
      return grad_[i];
   }
   static size_t acquire()
   {
      auto &p = pool();
      if (!p.free.empty())
      {
         size_t i = p.free.back();
         p.free.pop_back();
         return i;
      }
      return p.next++;
   }
   static void release(size_t i) { pool().free.push_back(i); }
   void push0(size_t lhs) { if (rec_) { stmt_.push_back({lhs, op_.size()}); } }
   void push1(size_t lhs, double m, size_t r)
   {
      if (!rec_) { return; }
      op_.push_back({m, r});
      stmt_.push_back({lhs, op_.size()});
   }
   void push2(size_t lhs, double m, size_t r, double m2, size_t r2)
   {
      if (!rec_) { return; }
      op_.push_back({m, r});
      op_.push_back({m2, r2});
      stmt_.push_back({lhs, op_.size()});
   }

private:
   struct Stmt { size_t lhs, end; };
   struct Op { double mult; size_t idx; };
   struct Pool { std::vector<size_t> free; size_t next = 0; };
   static Pool &pool() { static thread_local Pool *p = new Pool; return *p; }
   size_t first(size_t s) const { return s == 0 ? 0 : stmt_[s - 1].end; }
   void check_deps() const
   {
      if (dep_.empty() || indep_.empty())
      {
         throw std::logic_error("adept: (in)dependents not identified");
      }
   }
   bool rec_ = true;
   std::vector<Stmt> stmt_;
   std::vector<Op> op_;
   std::vector<double> grad_;
   std::vector<size_t> indep_, dep_;
};

inline Stack *active_stack() { return Stack::active(); }

class adouble
{
public:
   adouble() : v_(0.0), i_(Stack::acquire()) { rec0(); }
   adouble(double v) : v_(v), i_(Stack::acquire()) { rec0(); }
   adouble(int v) : v_(v), i_(Stack::acquire()) { rec0(); }
   adouble(const adouble &o) : v_(o.v_), i_(Stack::acquire()) { rec1(1.0, o.i_); }
   ~adouble() { Stack::release(i_); }
   adouble(double v, double m, const adouble &a)
    : v_(v), i_(Stack::acquire()) { rec1(m, a.i_); }
   adouble(double v, double m, const adouble &a, double m2, const adouble &b)
    : v_(v), i_(Stack::acquire())
   {
      if (auto *s = Stack::active()) { s->push2(i_, m, a.i_, m2, b.i_); }
   }

   adouble &operator=(const adouble &o)
   {
      v_ = o.v_;
      rec1(1.0, o.i_);
      return *this;
   }
   adouble &operator=(double v) { v_ = v; rec0(); return *this; }
   adouble &operator=(int v) { v_ = v; rec0(); return *this; }

   double value() const { return v_; }
   double &lvalue() { return v_; }
   void set_value(double v) { v_ = v; }
   size_t gradient_index() const { return i_; }
   void set_gradient(double g) const { Stack::active()->g(i_) = g; }
   double get_gradient() const { return Stack::active()->g(i_); }
   void get_gradient(double &g) const { g = Stack::active()->g(i_); }

   inline adouble &operator+=(const adouble &o);
   inline adouble &operator-=(const adouble &o);
   inline adouble &operator*=(const adouble &o);
   inline adouble &operator/=(const adouble &o);
   adouble &operator+=(double o) { v_ += o; rec1(1.0, i_); return *this; }
   adouble &operator-=(double o) { v_ -= o; rec1(1.0, i_); return *this; }
   adouble &operator*=(double o) { v_ *= o; rec1(o, i_); return *this; }
   adouble &operator/=(double o) { v_ /= o; rec1(1.0 / o, i_); return *this; }

private:
   void rec0() { if (auto *s = Stack::active()) { s->push0(i_); } }
   void rec1(double m, size_t r)
   {
      if (auto *s = Stack::active()) { s->push1(i_, m, r); }
   }
   double v_;
   size_t i_;
};

inline adouble operator+(const adouble &a, const adouble &b)
{ return adouble(a.value() + b.value(), 1.0, a, 1.0, b); }
inline adouble operator+(const adouble &a, double b)
{ return adouble(a.value() + b, 1.0, a); }
inline adouble operator+(double a, const adouble &b)
{ return adouble(a + b.value(), 1.0, b); }
inline adouble operator-(const adouble &a, const adouble &b)
{ return adouble(a.value() - b.value(), 1.0, a, -1.0, b); }
inline adouble operator-(const adouble &a, double b)
{ return adouble(a.value() - b, 1.0, a); }
inline adouble operator-(double a, const adouble &b)
{ return adouble(a - b.value(), -1.0, b); }
inline adouble operator*(const adouble &a, const adouble &b)
{ return adouble(a.value() * b.value(), b.value(), a, a.value(), b); }
inline adouble operator*(const adouble &a, double b)
{ return adouble(a.value() * b, b, a); }
inline adouble operator*(double a, const adouble &b)
{ return adouble(a * b.value(), a, b); }
inline adouble operator/(const adouble &a, const adouble &b)
{
   const double q = a.value() / b.value();
   return adouble(q, 1.0 / b.value(), a, -q / b.value(), b);
}
inline adouble operator/(const adouble &a, double b)
{ return adouble(a.value() / b, 1.0 / b, a); }
inline adouble operator/(double a, const adouble &b)
{
   const double q = a / b.value();
   return adouble(q, -q / b.value(), b);
}
inline adouble operator-(const adouble &a) { return adouble(-a.value(), -1.0, a); }
inline adouble operator+(const adouble &a) { return adouble(a.value(), 1.0, a); }

inline adouble &adouble::operator+=(const adouble &o) { return *this = *this + o; }
inline adouble &adouble::operator-=(const adouble &o) { return *this = *this - o; }
inline adouble &adouble::operator*=(const adouble &o) { return *this = *this * o; }
inline adouble &adouble::operator/=(const adouble &o) { return *this = *this / o; }

#define ADEPT_CMP(OP)                                                        \
   inline bool operator OP(const adouble &a, const adouble &b)              \
   { return a.value() OP b.value(); }                                       \
   inline bool operator OP(const adouble &a, double b)                      \
   { return a.value() OP b; }                                               \
   inline bool operator OP(double a, const adouble &b)                      \
   { return a OP b.value(); }
ADEPT_CMP(<) ADEPT_CMP(>) ADEPT_CMP(<=) ADEPT_CMP(>=) ADEPT_CMP(==) ADEPT_CMP(!=)
#undef ADEPT_CMP

#define ADEPT_UNARY(NAME, EXPR, DERIV)                                       \
   inline adouble NAME(const adouble &a)                                     \
   {                                                                         \
      const double x = a.value();                                            \
      const double f = (EXPR);                                               \
      (void)f;                                                               \
      return adouble(f, (DERIV), a);                                         \
   }
ADEPT_UNARY(sqrt, std::sqrt(x), 0.5 / f)
ADEPT_UNARY(cbrt, std::cbrt(x), 1.0 / (3.0 * f * f))
ADEPT_UNARY(exp, std::exp(x), f)
ADEPT_UNARY(log, std::log(x), 1.0 / x)
ADEPT_UNARY(log10, std::log10(x), 1.0 / (x * std::log(10.0)))
ADEPT_UNARY(log2, std::log2(x), 1.0 / (x * std::log(2.0)))
ADEPT_UNARY(sin, std::sin(x), std::cos(x))
ADEPT_UNARY(cos, std::cos(x), -std::sin(x))
ADEPT_UNARY(tan, std::tan(x), 1.0 + f * f)
ADEPT_UNARY(asin, std::asin(x), 1.0 / std::sqrt(1.0 - x * x))
ADEPT_UNARY(acos, std::acos(x), -1.0 / std::sqrt(1.0 - x * x))
ADEPT_UNARY(atan, std::atan(x), 1.0 / (1.0 + x * x))
ADEPT_UNARY(sinh, std::sinh(x), std::cosh(x))
ADEPT_UNARY(cosh, std::cosh(x), std::sinh(x))
ADEPT_UNARY(tanh, std::tanh(x), 1.0 - f * f)
ADEPT_UNARY(abs, std::fabs(x), (x > 0.0) - (x < 0.0))
ADEPT_UNARY(fabs, std::fabs(x), (x > 0.0) - (x < 0.0))
ADEPT_UNARY(erf, std::erf(x), 2.0 / std::sqrt(M_PI) * std::exp(-x * x))
ADEPT_UNARY(round, std::round(x), 0.0 * f)
ADEPT_UNARY(floor, std::floor(x), 0.0 * f)
ADEPT_UNARY(ceil, std::ceil(x), 0.0 * f)
#undef ADEPT_UNARY

inline adouble pow(const adouble &a, const adouble &b)
{
   const double f = std::pow(a.value(), b.value());
   return adouble(f, b.value() * std::pow(a.value(), b.value() - 1.0), a,
                  f * std::log(a.value()), b);
}
inline adouble pow(const adouble &a, double b)
{ return adouble(std::pow(a.value(), b), b * std::pow(a.value(), b - 1.0), a); }
inline adouble pow(const adouble &a, int b) { return pow(a, double(b)); }
inline adouble pow(double a, const adouble &b)
{
   const double f = std::pow(a, b.value());
   return adouble(f, f * std::log(a), b);
}
inline adouble atan2(const adouble &y, const adouble &x)
{
   const double r = y.value() * y.value() + x.value() * x.value();
   return adouble(std::atan2(y.value(), x.value()), x.value() / r, y,
                  -y.value() / r, x);
}
inline adouble max(const adouble &a, const adouble &b) { return a < b ? b : a; }
inline adouble max(const adouble &a, double b) { return a < b ? adouble(b) : a; }
inline adouble max(double a, const adouble &b) { return a < b ? b : adouble(a); }
inline adouble min(const adouble &a, const adouble &b) { return b < a ? b : a; }
inline adouble min(const adouble &a, double b) { return b < a ? adouble(b) : a; }
inline adouble min(double a, const adouble &b) { return b < a ? b : adouble(a); }
inline double max(double a, double b) { return a < b ? b : a; }
inline double min(double a, double b) { return b < a ? b : a; }

inline bool isfinite(const adouble &a) { return std::isfinite(a.value()); }
inline bool isnan(const adouble &a) { return std::isnan(a.value()); }
inline bool isinf(const adouble &a) { return std::isinf(a.value()); }
inline double value(const adouble &a) { return a.value(); }
inline double value(double a) { return a; }

inline std::ostream &operator<<(std::ostream &os, const adouble &a)
{ return os << a.value(); }

inline void set_values(adouble *a, int n, const double *v)
{ for (int i = 0; i < n; ++i) { a[i].set_value(v[i]); } }
inline void get_values(const adouble *a, int n, double *v)
{ for (int i = 0; i < n; ++i) { v[i] = a[i].value(); } }
inline void set_gradients(adouble *a, int n, const double *v)
{ for (int i = 0; i < n; ++i) { a[i].set_gradient(v[i]); } }
inline void get_gradients(const adouble *a, int n, double *v)
{ for (int i = 0; i < n; ++i) { v[i] = a[i].get_gradient(); } }

inline void Stack::independent(const adouble &x)
{ indep_.push_back(x.gradient_index()); }
inline void Stack::independent(const adouble *x, int n)
{ for (int i = 0; i < n; ++i) { independent(x[i]); } }
inline void Stack::dependent(const adouble &x)
{ dep_.push_back(x.gradient_index()); }
inline void Stack::dependent(const adouble *x, int n)
{ for (int i = 0; i < n; ++i) { dependent(x[i]); } }

}  // namespace adept

#endif
