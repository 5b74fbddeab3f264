// C02: the backtracking line search keeps its contract for every sequence of
// merit-function answers.
#include <cmath>
#include <limits>
#include "mc.hpp"
#include "mfem.hpp"
#include "linesearch.hpp"
#include "ls_ref.hpp"

using namespace mc;
namespace
{
const double INF = std::numeric_limits<double>::infinity();
const double QNAN = std::numeric_limits<double>::quiet_NaN();
void drive(const Opt &o, double phi0, double dphi0, double alpha, const std::function<double(int, double)> &answer,
           const std::string &id)
{
   miso::BacktrackingLineSearch ls;
   ls.mu = o.mu;
   ls.rho_lo = o.lo;
   ls.rho_hi = o.hi;
   ls.interp_order = o.order;
   ls.max_iter = o.max_iter;
   std::vector<double> as, ps;
   std::string trace = id;
   bool descent = dphi0 < 0;
   auto phi = [&](double a) -> double
   {
      int k = (int)as.size();
      // protocol checks on the trial step
      if (k > o.max_iter)
      {
         fail("too-many-evaluations", Str() << trace << ": evaluation " << k + 1 << " with max_iter=" << o.max_iter);
      }
      step();
      if (k == 0)
      {
         MC_CHECK(a == alpha, "first-trial", trace << ": first trial step is " << a << " instead of " << alpha);
      }
      else
      {
         double prev = as.back(), pp = ps.back();
         bool prev_ok = pp <= phi0 + o.mu * prev * dphi0;
         MC_CHECK(!prev_ok, "continued-after-success", trace << ": evaluated again although phi(" << prev << ")=" << pp << " was acceptable");
         MC_CHECK(a >= prev * o.lo * (1 - 1e-12) && a <= prev * o.hi * (1 + 1e-12), "step-range",
                  trace << ": trial step " << a << " is outside [" << prev * o.lo << "," << prev * o.hi << "]");
         // the model minimiser, safeguarded
         LD want = 0;
         if (next_step(o, phi0, dphi0, k, k > 1 ? ps[k - 2] : QNAN, k > 1 ? as[k - 2] : QNAN, pp, prev, want))
         {
            MC_CHECK(fabsl(want - a) <= 1e-6L * want, k == 1 || o.order == 2 ? "quadratic-model-step" : "cubic-model-step",
                     trace << ": trial step " << a << ", the safeguarded minimiser of the interpolant is " << (double)want);
         }
      }
      double p = answer(k, a);
      as.push_back(a);
      ps.push_back(p);
      trace += Str() << " phi(" << a << ")=" << p;
      return p;
   };
   double ret = ls.search(phi, phi0, dphi0, alpha);
   note(Str() << trace << " -> " << ret);
   outcome(Str() << as.size() << ":" << (ret == 0));
   MC_CHECK(!as.empty(), "no-evaluation", trace << ": nothing was evaluated");
   bool last_ok = ps.back() <= phi0 + o.mu * as.back() * dphi0;
   if (ret == 0.0)
   {
      MC_CHECK(!last_ok, "gave-up-on-success", trace << ": returned 0 although the last trial was acceptable");
      MC_CHECK((int)as.size() == o.max_iter + 1, "gave-up-early",
               trace << ": returned 0 after " << as.size() << " evaluations, max_iter=" << o.max_iter);
   }
   else
   {
      MC_CHECK(ret == as.back(), "returned-other-step", trace << ": returned " << ret << ", last trial " << as.back());
      MC_CHECK(last_ok, std::isfinite(ps.back()) ? "insufficient-decrease" : "accepted-non-finite",
               trace << ": returned " << ret << " where phi=" << ps.back() << " > " << phi0 + o.mu * ret * dphi0);
   }
}

std::vector<Opt> all_opts(int mi_lo, int mi_hi)
{
   std::vector<Opt> v;
   for (double mu : {1e-4, 0.25, 0.0})
   {
      for (auto lh : {std::make_pair(0.1, 0.9), std::make_pair(0.25, 0.5), std::make_pair(0.5, 0.5), std::make_pair(0.015625, 0.75)})
      {
         for (int order : {2, 3})
         {
            for (int mi = mi_lo; mi <= mi_hi; ++mi) { v.push_back({mu, lh.first, lh.second, order, mi}); }
         }
      }
   }
   return v;
}

// every sequence of answers of the merit function
void answers()
{
   static const std::vector<Opt> opts = thorough() ? all_opts(0, 4) : all_opts(0, 3);
   const Opt &o = pick(opts, "options");
   double phi0 = pick<double>({1.0, 3e-8, 700.0}, "phi0");
   double slope = pick<double>({-1.0, -0.01, -30.0, 0.0, 0.5}, "dphi0/phi0");
   double alpha = pick<double>({1.0, 0.5, 4.0}, "alpha");
   double dphi0 = slope * phi0;
   auto ans = [&](int, double a) -> double
   {
      double bound = phi0 + o.mu * a * dphi0;
      switch (choose(8, "phi"))
      {
      case 0: return bound;
      case 1: return std::nextafter(bound, INF);
      case 2: return phi0 * 1.01;
      case 3: return phi0 * (2.0 + a);
      case 4: return phi0 * 1e10;
      case 5: return INF;
      case 6: return QNAN;
      default: return std::min(bound, phi0) - 0.9 * fabs(phi0);
      }
   };
   drive(o, phi0, dphi0, alpha, ans, Str() << "mu=" << o.mu << " rho=[" << o.lo << "," << o.hi << "] order=" << o.order << " max_iter=" << o.max_iter << " phi0=" << phi0 << " dphi0=" << dphi0 << " alpha=" << alpha);
}

// merit functions that are polynomials of the step (so that the interpolants
// are exact, including cubics whose leading coefficient vanishes)
void polys()
{
   static const std::vector<Opt> opts = all_opts(10, 10);
   const Opt &o = pick(opts, "options");
   double p0 = pick<double>({1.0, 0.5, 64.0}, "p0");
   double p1 = -pick<double>({1.0, 0.125, 8.0}, "p1") * p0;
   double p2 = pick<double>({0.0, 1.0, 16.0, 256.0, -1.0}, "p2") * p0;
   double p3 = pick<double>({0.0, 1.0, 64.0, 1024.0, -4.0}, "p3") * p0;
   double p4 = pick<double>({0.0, 1.0, 4096.0}, "p4") * p0;
   double alpha = pick<double>({1.0, 0.5, 4.0, 0.3}, "alpha");
   auto ans = [&](int, double a) { return p0 + a * (p1 + a * (p2 + a * (p3 + a * p4))); };
   drive(o, p0, p1, alpha, ans, Str() << "mu=" << o.mu << " rho=[" << o.lo << "," << o.hi << "] order=" << o.order << " phi(a)=" << p0 << "+" << p1 << "a+" << p2 << "a^2+" << p3 << "a^3+" << p4 << "a^4 alpha=" << alpha);
}

// long histories of failures before success, default options
void longruns()
{
   Opt o{1e-4, 0.1, 0.9, pick<int>({2, 3}, "order"), pick<int>({5, 10, 25}, "max_iter")};
   int nfail = choose(o.max_iter + 2, "failures");
   int kind = choose(5, "failure kind"), kind2 = choose(5, "second kind"), sw = choose(3, "switch");
   double phi0 = 2.0, dphi0 = pick<double>({-2.0, -0.1}, "dphi0");
   auto f = [&](int kd, int k) -> double
   {
      switch (kd)
      {
      case 0: return phi0 * (1 + 1.0 / (k + 1));
      case 1: return phi0 * std::pow(10.0, k);
      case 2: return INF;
      case 3: return QNAN;
      default: return phi0;
      }
   };
   auto ans = [&](int k, double a) -> double
   {
      if (k >= nfail) { return phi0 + 2 * o.mu * a * dphi0; }
      return f((sw == 0) ? kind : (sw == 1) ? (k % 2 ? kind : kind2) : (k < 3 ? kind : kind2), k);
   };
   drive(o, phi0, dphi0, 1.0, ans, Str() << "order=" << o.order << " max_iter=" << o.max_iter << " nfail=" << nfail << " kinds=" << kind << "," << kind2 << "," << sw);
}
}  // namespace

int main(int argc, char **argv)
{
   return mc::run(argc, argv, "C02", []() { }, {{"answers", answers}, {"polynomials", polys}, {"longruns", longruns}});
}
