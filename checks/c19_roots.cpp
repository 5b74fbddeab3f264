// Root finders (bisection, secant) against every sequence of function values,
// and the minimiser of the quadratic interpolant.
#include <cmath>
#include <limits>
#include "mfem.hpp"
#include "utils.hpp"
#include "mc.hpp"
using namespace mc;
namespace
{
const double INF = std::numeric_limits<double>::infinity();
const double NANV = std::numeric_limits<double>::quiet_NaN();

struct Eval
{
   double x, f;
};
// the environment: every new point gets any value of the alphabet, a repeated
// point gets the value it had
struct Answer
{
   const std::vector<double> &alphabet;
   std::vector<Eval> log;
   double operator()(double x)
   {
      if (std::isnan(x) || std::isinf(x))
      {
         log.push_back({x, NANV});
         return NANV;
      }
      for (auto &e : log)
      {
         if (e.x == x)
         {
            log.push_back(e);
            return e.f;
         }
      }
      double f = pick(alphabet, "f(x)");
      log.push_back({x, f});
      note(Str() << "f(" << x << ")=" << f);
      return f;
   }
};

void bisect()
{
   static const std::vector<double> al = {-3.0, -0.5, -1e-7, 0.0, 1e-7, 1.0, NANV, 1e300};
   static const std::vector<double> ftols = {0.0, 1e-6, 0.75}, xtols = {1e-12, 0.3};
   static const std::vector<std::pair<double, double>> br = {{0.0, 1.0}, {-2.0, 6.0}, {1.0, -1.0}};
   auto b = pick(br, "bracket");
   double ftol = pick(ftols, "ftol"), xtol = pick(xtols, "xtol");
   int maxiter = choose(thorough() ? 4 : 3, "maxiter");
   Answer f{al, {}};
   note(Str() << "bracket=[" << b.first << "," << b.second << "] ftol=" << ftol << " xtol=" << xtol << " maxiter=" << maxiter);
   bool threw = false;
   double x = 0;
   try
   {
      x = miso::bisection([&](double t) { return f(t); }, b.first, b.second, ftol, xtol, maxiter);
   }
   catch (...)
   {
      threw = true;
   }
   // reference bisection on the same function values
   double xl = b.first, xr = b.second, fl = NANV, fr = NANV;
   auto known = [&](double t, double &v)
   {
      for (auto &e : f.log)
      {
         if (std::fabs(e.x - t) <= 1e-12)
         {
            v = e.f;
            return true;
         }
      }
      return false;
   };
   double lo = std::min(xl, xr), hi = std::max(xl, xr);
   for (auto &e : f.log) { MC_CHECK(e.x >= lo && e.x <= hi, "bisection:outside", "evaluated at " << e.x << " outside the bracket"); }
   MC_CHECK(known(xl, fl) && known(xr, fr), "bisection:ends", "end points not evaluated");
   bool bracket = (fl <= 0 && fr >= 0) || (fl >= 0 && fr <= 0);
   outcome(Str() << threw << f.log.size() << (threw ? 0 : x));
   if (!bracket)
   {
      MC_CHECK(threw, "bisection:no-bracket", "f(xl)=" << fl << " f(xr)=" << fr << " do not bracket a root, but " << x << " was returned");
      return;
   }
   // every evaluation halves the current bracket
   bool nan = false, conv = false;
   int subdiv = 0;
   double xm = 0, fm = NANV;
   double tight_l = xl, tight_r = xr;
   bool at_end = fl == 0 || fr == 0;
   for (int k = 0; k <= maxiter; ++k)
   {
      xm = 0.5 * (xl + xr);
      if (!known(xm, fm)) { break; }
      ++subdiv;
      if (std::fabs(xr - xl) <= xtol)
      {
         conv = true;
         break;
      }
      if (std::isnan(fm))
      {
         nan = true;
         break;
      }
      if (std::fabs(fm) <= ftol)
      {
         conv = true;
         break;
      }
      if ((fm < 0) == (fl < 0)) { xl = xm, fl = fm; }
      else { xr = xm, fr = fm; }
   }
   if (threw)
   {
      MC_CHECK(nan || (!at_end && !conv && subdiv >= maxiter), "bisection:refused", "threw after " << subdiv << " subdivisions (maxiter " << maxiter << ") although "
               << (conv ? "it had converged" : at_end ? "an end point is a root" : "more were allowed"));
      return;
   }
   MC_CHECK((int)f.log.size() <= maxiter + 4, "bisection:maxiter", f.log.size() << " evaluations");
   double fx;
   bool ok = known(x, fx) && std::fabs(fx) <= ftol;
   if (!ok)
   {
      // otherwise the bracket must be no wider than xtol and contain x
      // (the last bracket of the reference run)
      double w = std::fabs(xr - xl);
      ok = !nan && w <= xtol * (1 + 1e-12) && x >= std::min(xl, xr) - 1e-12 && x <= std::max(xl, xr) + 1e-12;
   }
   MC_CHECK(ok, "bisection:not-a-root", "returned " << x << " which is not a root");
}

void secant_()
{
   static const std::vector<double> al = {-3.0, -0.5, -1e-7, 0.0, 1e-7, 1.0, 2.5, NANV, INF};
   static const std::vector<double> ftols = {0.0, 1e-6}, xtols = {1e-12, 0.25};
   static const std::vector<std::pair<double, double>> br = {{0.0, 1.0}, {0.99, 1.01}, {3.0, -1.0}};
   auto b = pick(br, "start");
   double ftol = pick(ftols, "ftol"), xtol = pick(xtols, "xtol");
   int maxiter = choose(thorough() ? 5 : 4, "maxiter");
   Answer f{al, {}};
   note(Str() << "start=" << b.first << "," << b.second << " ftol=" << ftol << " xtol=" << xtol << " maxiter=" << maxiter);
   bool threw = false;
   double x = 0;
   try
   {
      x = miso::secant([&](double t) { return f(t); }, b.first, b.second, ftol, xtol, maxiter);
   }
   catch (const std::exception &)
   {
      threw = true;
   }
   outcome(Str() << threw << f.log.size() << (threw ? 0 : x));
   size_t n = f.log.size();
   MC_CHECK(n >= 2 && n <= 2 + (size_t)maxiter, "secant:maxiter", n << " evaluations with maxiter " << maxiter);
   MC_CHECK((f.log[0].x == b.first && f.log[1].x == b.second) || (f.log[0].x == b.second && f.log[1].x == b.first), "secant:start", "the two approximations were not evaluated");
   // iterates lie on the secant lines
   Eval e1 = f.log[0], e2 = f.log[1];
   if (std::fabs(e1.f) < std::fabs(e2.f)) { std::swap(e1, e2); }
   bool small_dx = false;
   for (size_t k = 2; k < n; ++k)
   {
      MC_CHECK(!(std::fabs(e2.f) <= ftol), "secant:continues", "continued although |f(" << e2.x << ")| <= ftol");
      MC_CHECK(!small_dx, "secant:continues", "continued although the last increment was below xtol");
      double dx = e2.f * (e2.x - e1.x) / (e2.f - e1.f);
      double want = e2.x - dx;
      if (std::isfinite(want))
      {
         MC_CHECK(std::fabs(f.log[k].x - want) <= 1e-9 * (1 + std::fabs(want)), "secant:iterate", "iterate " << k << " is " << f.log[k].x << " instead of " << want);
      }
      small_dx = std::fabs(dx) < xtol;
      e1 = e2;
      e2 = f.log[k];
   }
   bool small_f = std::fabs(e2.f) <= ftol;
   if (threw)
   {
      MC_CHECK(!small_f && !small_dx && n == 2 + (size_t)maxiter, "secant:refused", "threw although it had converged or more iterations were allowed");
   }
   else
   {
      MC_CHECK((small_f || small_dx) && x == e2.x, "secant:not-a-root", "returned " << x << " after " << n - 2 << " of " << maxiter << " iterations; f(" << e2.x << ")=" << e2.f);
   }
}

// real functions with known roots
void functions()
{
   struct F
   {
      const char *n;
      std::function<double(double)> f;
      double root, lo, hi;
   };
   static const std::vector<F> fs = {
       {"x", [](double x) { return x; }, 0.0, -1.3, 2.0},
       {"exp(x)-1", [](double x) { return std::exp(x) - 1; }, 0.0, -1.0, 3.0},
       {"x^3-2", [](double x) { return x * x * x - 2; }, std::cbrt(2.0), 0.5, 3.0},
       {"cos x - x", [](double x) { return std::cos(x) - x; }, 0.7390851332151607, 0.0, 1.5},
       {"1e8(x-1)", [](double x) { return 1e8 * (x - 1); }, 1.0, 0.5, 1.75},
       {"1-x", [](double x) { return 1 - x; }, 1.0, 0.0, 1.0}};
   const auto &f = pick(fs, "f");
   static const std::vector<double> tols = {1e-4, 1e-8, 1e-12};
   double tol = pick(tols, "tol");
   int which = choose(3, "method");
   int i = choose(4, "a"), j = choose(4, "b");
   double a = f.lo + (f.root - f.lo) * i / 4.0, b = f.hi + (f.root - f.hi) * j / 4.0;
   if (which == 1) { std::swap(a, b); }
   note(Str() << f.n << " from " << a << "," << b << " tol=" << tol);
   double x = which < 2 ? miso::bisection(f.f, a, b, tol, tol, 100) : miso::secant(f.f, a, b, tol, tol, 100);
   MC_CHECK(std::fabs(x - f.root) <= 4 * tol || std::fabs(f.f(x)) <= tol, which < 2 ? "bisection:value" : "secant:value", "found " << x << " instead of " << f.root);
   outcome(Str() << f.n << x);
}

// y = c0 + c1 (x-v)^2: the stationary point is v
void quad()
{
   static const std::vector<double> vs = {-3.0, -0.5, 0.0, 0.125, 1.0, 7.0}, cs = {-2.0, -0.01, 0.01, 1.0, 50.0}, c0s = {-1.0, 0.0, 3.0}, xs = {-2.0, 0.0, 0.3, 1.0, 5.0};
   double v = pick(vs, "v"), c = pick(cs, "c"), c0 = pick(c0s, "c0"), x0 = pick(xs, "x0"), x1 = pick(xs, "x1");
   if (x0 == x1) { prune(); }
   auto y = [&](double x) { return c0 + c * (x - v) * (x - v); };
   double x = miso::quadInterp(x0, y(x0), 2 * c * (x0 - v), x1, y(x1));
   note(Str() << "v=" << v << " c=" << c << " c0=" << c0 << " x0=" << x0 << " x1=" << x1);
   MC_CHECK(close(x, v, 1e-8), "quadInterp", "stationary point " << x << " instead of " << v);
}
}  // namespace
int main(int argc, char **argv)
{
   return run(argc, argv, "C19", []() { }, {{"bisection", bisect}, {"secant", secant_}, {"functions", functions}, {"quadInterp", quad}});
}
