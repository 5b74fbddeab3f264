// Reference model of the safeguarded backtracking step (C02, C03).
#ifndef LS_REF_HPP
#define LS_REF_HPP
#include <cmath>
#include <algorithm>
typedef long double LD;

// minimiser of the quadratic through phi(0), phi'(0), phi(a)
inline LD quad_min(LD p0, LD d0, LD pa, LD a, bool &ok)
{
   LD num = pa - d0 * a - p0;
   // inconclusive when double-precision cancellation swamps the curvature
   ok = std::isfinite((double)num) && fabsl(num) * 1e-8L > 4e-16L * (fabsl(pa) + fabsl(d0 * a) + fabsl(p0));
   LD A = num / (a * a);
   return -d0 / (2 * A);
}
// local minimiser of the cubic through phi(0), phi'(0), phi(a1), phi(a2);
// `ok` is false when the model has no well-conditioned minimiser
inline LD cubic_min(LD p0, LD d0, LD p1, LD a1, LD p2, LD a2, bool &ok)
{
   LD r1 = (p1 - p0 - d0 * a1) / (a1 * a1), r2 = (p2 - p0 - d0 * a2) / (a2 * a2);
   LD A = (r2 - r1) / (a2 - a1);
   LD B = r1 - A * a1;
   LD disc = B * B - 3 * A * d0;
   ok = std::isfinite((double)A) && std::isfinite((double)B) && disc > 1e-6L * (B * B + fabsl(3 * A * d0));
   if (!ok) { return 0; }
   LD s = sqrtl(disc);
   // round-off the textbook formula can suffer in double precision
   LD er = 4e-16L * ((fabsl(p1) + fabsl(p0) + fabsl(d0 * a1)) / (a1 * a1) + (fabsl(p2) + fabsl(p0) + fabsl(d0 * a2)) / (a2 * a2));
   if (fabsl(p1) < 1e6 && p0 == roundl(p0 * 1024) / 1024) { er = 4e-16L * (fabsl(r1) + fabsl(r2)); }  // exact data
   LD rerr = er / fabsl(a2 - a1);   // error in A
   LD Berr = er * (1 + a1 / fabsl(a2 - a1));
   LD root = (B > 0) ? -d0 / (B + s) : (s - B) / (3 * A);
   if (B > 0)
   {
      // tiny but non-zero cubic coefficient: cancellation in (-b+sqrt(d))/(3a)
      LD amp = (fabsl(A) < 1e-14L) ? 0 : 4e-16L * (fabsl(B) + s) / fabsl(3 * A);
      if (fabsl(A) <= 64 * rerr) { amp = 0; }
      if (amp > 1e-8L * fabsl(root)) { ok = false; }
      // a coefficient that is pure round-off: only exactly representable data are conclusive
      if (A != 0 && fabsl(A) <= 64 * rerr + 1e-14L) { ok = false; }
   }
   if (Berr > 1e-9L * fabsl(B) + 1e-300L && fabsl(B) > 0 && Berr / fabsl(B) > 1e-8L) { ok = false; }
   if (rerr > 1e-8L * fabsl(A) && A != 0) { ok = false; }
   return root;
}

struct Opt
{
   double mu, lo, hi;
   int order, max_iter;
};
// Is the next trial step after (a1,p1)..(a2,p2) determined, and what is it?
// k = number of evaluations made so far
inline bool next_step(const Opt &o, double phi0, double dphi0, int k, double pprev, double aprev, double p, double a, LD &want)
{
   bool ok = false;
   LD m = 0;
   if (!(dphi0 < 0) || !std::isfinite(p)) { return false; }
   if (k == 1 || o.order == 2) { m = quad_min(phi0, dphi0, p, a, ok); }
   else if (std::isfinite(pprev)) { m = cubic_min(phi0, dphi0, pprev, aprev, p, a, ok); }
   want = std::max(std::min(m, (LD)a * o.hi), (LD)a * o.lo);
   return ok;
}
#endif
