// Stand-in for tinyspline's C++ interface (not available in the sandbox):
// clamped B-splines, the constructor / setters / eval / derive that MISO uses.
#ifndef MISO_VERIF_TINYSPLINE_H
#define MISO_VERIF_TINYSPLINE_H
#include <algorithm>
#include <cstddef>
#include <stdexcept>
#include <vector>

namespace tinyspline
{
typedef double real;

class DeBoorNet
{
public:
   explicit DeBoorNet(std::vector<real> r) : r_(std::move(r)) { }
   std::vector<real> result() const { return r_; }

private:
   std::vector<real> r_;
};

class BSpline
{
public:
   BSpline() : dim_(1), deg_(0), cp_(1, 0.0), kn_{0.0, 1.0} { }
   explicit BSpline(size_t n, size_t dim = 2, size_t deg = 3)
    : dim_(dim), deg_(deg), cp_(n * dim, 0.0), kn_(n + deg + 1)
   {
      if (n <= deg) { throw std::runtime_error("tinyspline: too few control points"); }
      const size_t m = kn_.size();
      const real span = real(m - 2 * deg - 1);
      for (size_t i = 0; i < m; ++i)
      {
         kn_[i] = i <= deg ? 0.0 : i >= m - deg - 1 ? 1.0 : real(i - deg) / span;
      }
   }
   size_t degree() const { return deg_; }
   size_t order() const { return deg_ + 1; }
   size_t dimension() const { return dim_; }
   std::vector<real> controlPoints() const { return cp_; }
   std::vector<real> knots() const { return kn_; }
   void setControlPoints(const std::vector<real> &c)
   {
      if (c.size() != cp_.size()) { throw std::runtime_error("tinyspline: wrong number of control points"); }
      cp_ = c;
   }
   void setKnots(const std::vector<real> &k)
   {
      if (k.size() != kn_.size()) { throw std::runtime_error("tinyspline: wrong number of knots"); }
      for (size_t i = 1; i < k.size(); ++i)
      {
         if (k[i] < k[i - 1]) { throw std::runtime_error("tinyspline: knots decrease"); }
      }
      kn_ = k;
   }
   DeBoorNet eval(real u) const
   {
      const size_t n = cp_.size() / dim_;
      const real lo = kn_[deg_], hi = kn_[n];
      if (u < lo - 1e-5 || u > hi + 1e-5) { throw std::runtime_error("tinyspline: u undefined"); }
      u = std::min(std::max(u, lo), hi);
      size_t k = deg_;
      while (k + 1 < n && u >= kn_[k + 1]) { ++k; }
      std::vector<real> d((deg_ + 1) * dim_);
      for (size_t j = 0; j <= deg_; ++j)
      {
         for (size_t c = 0; c < dim_; ++c) { d[j * dim_ + c] = cp_[(j + k - deg_) * dim_ + c]; }
      }
      for (size_t r = 1; r <= deg_; ++r)
      {
         for (size_t j = deg_; j >= r; --j)
         {
            const real a0 = kn_[j + k - deg_], a1 = kn_[j + 1 + k - r];
            const real a = a1 > a0 ? (u - a0) / (a1 - a0) : 0.0;
            for (size_t c = 0; c < dim_; ++c)
            {
               d[j * dim_ + c] = (1 - a) * d[(j - 1) * dim_ + c] + a * d[j * dim_ + c];
            }
         }
      }
      return DeBoorNet(std::vector<real>(d.begin() + deg_ * dim_, d.end()));
   }
   BSpline derive(size_t times = 1) const
   {
      BSpline s = *this;
      for (size_t t = 0; t < times; ++t)
      {
         if (s.deg_ == 0)
         {
            std::fill(s.cp_.begin(), s.cp_.end(), 0.0);
            continue;
         }
         const size_t n = s.cp_.size() / s.dim_;
         std::vector<real> q((n - 1) * s.dim_);
         for (size_t i = 0; i + 1 < n; ++i)
         {
            const real h = s.kn_[i + s.deg_ + 1] - s.kn_[i + 1];
            for (size_t c = 0; c < s.dim_; ++c)
            {
               q[i * s.dim_ + c] = h > 0 ? s.deg_ * (s.cp_[(i + 1) * s.dim_ + c] - s.cp_[i * s.dim_ + c]) / h : 0.0;
            }
         }
         s.cp_ = q;
         s.kn_.erase(s.kn_.begin());
         s.kn_.pop_back();
         --s.deg_;
      }
      return s;
   }

private:
   size_t dim_, deg_;
   std::vector<real> cp_, kn_;
};
}  // namespace tinyspline
#endif
