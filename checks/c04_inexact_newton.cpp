// C04: the inexact Newton solver's globalisation and termination contract
#include <cmath>
#include <limits>
#include "mc.hpp"
#include "mfem.hpp"
#include "mfem_throw.hpp"
#include "inexact_newton.hpp"
#include "newton_sys.hpp"

namespace
{
void newton()
{
   int n = 1 + choose(thorough() ? 3 : 2, "n");
   Sys s(n);
   setup(s, n);
   int mode = choose(5, "direction");
   Vector x = point(n, "x0");
   bool iterative = choose(2, "iterative_mode");
   int bm = choose(2, "b");
   Vector b(bm ? n : 0);
   for (int i = 0; i < b.Size(); ++i) { b(i) = 0.7 - i; }
   auto tols = pick<std::pair<double, double>>({{1e-8, 0.0}, {0.0, 1e-6}, {0.5, 1e-3}}, "tol");
   int maxit = pick<int>({8, 1, 0, 3}, "max_iter");
   double t = pick<double>({1e-4, 0.3}, "t");
   bool comm = choose(2, "comm");
   std::unique_ptr<mfem::InexactNewton> nwp(comm ? new mfem::InexactNewton(MPI_COMM_SELF, 1e-4, 1e-1, t) : new mfem::InexactNewton(1e-4, 1e-1, t));
   mfem::InexactNewton &nw = *nwp;
   Dir dir(mode, s);
   nw.SetSolver(dir);
   nw.SetOperator(s);
   nw.SetRelTol(tols.first);
   nw.SetAbsTol(tols.second);
   nw.SetMaxIter(maxit);
   nw.SetPrintLevel(-1);
   nw.iterative_mode = iterative;
   Vector start(x);
   if (!iterative) { start = 0.0; }
   Vector f0(n);
   s.eval(start, f0);
   for (int i = 0; i < n; ++i) { if (!std::isfinite(f0(i))) { prune(); } }
   std::string id = Str() << "n=" << n << " A=" << s.A(0, 0) << " q=" << s.q << " t=" << s.t << " kind=" << s.kind << " d=" << show(s.d) << " dir=" << mode << " x0=" << show(x) << " iterative=" << iterative << " b=" << show(b) << " tol=" << tols.first << "/" << tols.second << " maxit=" << maxit << " ared=" << t;
   note(id);
   bool gaveup = false;
   try { nw.Mult(b, x); }
   catch (const MfemError &) { gaveup = true; }
   auto res = [&](const Vector &f) { Vector r(f); for (int i = 0; i < b.Size(); ++i) { r(i) -= b(i); } return r; };
   auto same = [&](const Vector &a, const Vector &c)
   {
      for (int i = 0; i < n; ++i) { if (!close(a(i), c(i), 1e-12)) { return false; } }
      return true;
   };
   auto &lg = s.log;
   MC_CHECK(!lg.empty() && lg[0].what == 'F' && same(lg[0].x, start), "start", id << ": initial residual not evaluated at the starting point");
   Vector xk(lg[0].x), rk = res(lg[0].f);
   double n0 = nrm(rk), goal = std::max(tols.first * n0, tols.second);
   size_t p = 1;
   int it = 0;
   bool conv = false, lost = false;
   for (;; ++it)
   {
      conv = nrm(rk) <= goal * (1 + 1e-13);
      if (nrm(rk) <= goal * (1 - 1e-13) || p == lg.size()) { break; }
      MC_CHECK(it < maxit, "too-many-iterations", id << ": iteration " << it + 1);
      MC_CHECK(lg[p].what == 'J' && same(lg[p].x, xk), "jacobian-point", id << ": iteration " << it << ": Jacobian not evaluated at the current iterate");
      MC_CHECK(p + 1 < lg.size() && lg[p + 1].what == 'P' && same(lg[p + 1].x, rk), "linear-rhs", id << ": iteration " << it << ": linear solve not made with the current residual");
      Vector c(lg[p + 1].f);
      DenseMatrix J;
      s.jac(xk, J);
      Vector Jc(n);
      J.Mult(c, Jc);
      p += 2;
      double R = nrm(rk), dp = -(double)dotl(Jc, rk), pa = 0, P = 0;
      int k = 0;
      bool accepted = false;
      while (p < lg.size() && lg[p].what == 'F')
      {
         long double cc = dotl(c, c);
         Vector diff(n);
         for (int i = 0; i < n; ++i) { diff(i) = xk(i) - lg[p].x(i); }
         double a = (double)(dotl(diff, c) / cc);
         double scale = 1e-11 * (1 + nrm(xk) / (1e-300 + nrm(c)));
         if (scale > 1e-4) { lost = true; }  // step lengths below round-off cannot be judged
         if (lost) { break; }
         for (int i = 0; i < n; ++i)
         {
            MC_CHECK(fabs(diff(i) - a * c(i)) <= 1e-12 * (1 + fabs(xk(i)) + fabs(a * c(i))), "off-direction", id << ": iteration " << it << ": evaluated at " << show(lg[p].x) << ", not on the search line");
         }
         if (k > 0 && same(lg[p].x, lg[p - 1].x) && pa > 100 * scale && fabs(pa - a) < 0.2 * pa)
         {
            accepted = true;  // re-evaluation at the accepted point
            ++p;
            break;
         }
         if (pa != 0 && pa < 1000 * scale) { lost = true; break; }
         double Pn = nrm(res(lg[p].f));
         if (k == 0) { MC_CHECK(fabs(a - 1.0) <= scale, "first-step", id << ": iteration " << it << ": first trial step " << a); }
         else
         {
            MC_CHECK(a >= 0.1 * pa - scale && a <= 0.5 * pa + scale, "step-range", id << ": iteration " << it << ": step " << a << " after " << pa);
            MC_CHECK(k <= maxit + 1, "too-many-backtracks", id << ": iteration " << it << ": " << k << " backtracks with max_iter=" << maxit);
            if (k == 1 && std::isfinite(P))
            {
               long double p0 = 0.5L * R * R, p1 = 0.5L * P * P, c2 = p1 - p0 - dp;
               if (dp < 0 && c2 > 1e-9 * (p0 + p1 + fabs(dp)))
               {
                  double want = std::min(0.5, std::max(0.1, (double)(-dp / (2 * c2))));
                  MC_CHECK(fabs(a - want) <= 1e-6 * want + 10 * scale, "model-step", id << ": iteration " << it << ": first backtrack to " << a << ", the quadratic model of the merit function gives " << want);
               }
            }
         }
         // is the next event a re-evaluation of this point (acceptance)?
         bool next_same = p + 1 < lg.size() && lg[p + 1].what == 'F' && same(lg[p + 1].x, lg[p].x);
         bool more = p + 1 < lg.size() && lg[p + 1].what == 'F' && !next_same;
         if (Pn <= (1 - t) * R * (1 - 1e-12)) { MC_CHECK(!more, "backtracked-needlessly", id << ": iteration " << it << ": step " << a << " reduces |r| from " << R << " to " << Pn << " but was rejected"); }
         if (!more && !(gaveup && p + 1 == lg.size()))
         {
            accepted = true;
            MC_CHECK(Pn <= (1 - 0.5 * t) * R * (1 + 1e-12), std::isfinite(Pn) ? "insufficient-decrease" : "accepted-non-finite", id << ": iteration " << it << ": accepted step " << a << " although |r| went from " << R << " to " << Pn);
            p += next_same ? 2 : 1;
            break;
         }
         pa = a;
         P = Pn;
         ++k;
         ++p;
      }
      if (lost) { break; }
      if (!accepted)
      {
         MC_CHECK(gaveup, "stopped", id << ": iteration " << it << ": no step accepted and no failure reported");
         MC_CHECK(k == maxit + 2, "gave-up-early", id << ": iteration " << it << ": gave up after " << k << " trials, max_iter=" << maxit);
         break;
      }
      xk = lg[p - 1].x;
      rk = res(lg[p - 1].f);
   }
   outcome(Str() << it << "," << gaveup << "," << conv << "," << lost);
   if (lost || gaveup) { return; }
   MC_CHECK(p == lg.size(), "extra-evaluations", id << ": evaluations after the solve should have ended");
   MC_CHECK(same(x, xk), "final-state", id << ": returned " << show(x) << ", last accepted iterate " << show(xk));
   Vector ff(n);
   s.eval(x, ff);
   double nf = nrm(res(ff));
   MC_CHECK(close(nw.GetFinalNorm(), nf, 1e-9) || nf < 1e-12, "final-norm", id << ": final norm " << nw.GetFinalNorm() << ", |F|=" << nf);
   MC_CHECK(nw.GetNumIterations() == it, "iteration-count", id << ": reported " << nw.GetNumIterations() << " iterations, made " << it);
   if (nw.GetConverged()) { MC_CHECK(nf <= goal * (1 + 1e-9), "false-convergence", id << ": converged reported with |F|=" << nf << " goal " << goal); }
   else
   {
      MC_CHECK(!(nf < goal * (1 - 1e-9)), "missed-convergence", id << ": not converged with |F|=" << nf << " goal " << goal);
      MC_CHECK(it >= maxit, "early-stop", id << ": stopped after " << it << " iterations");
   }
}
}  // namespace

int main(int argc, char **argv)
{
   return mc::run(argc, argv, "C04", []() { int a = 0; char **v = nullptr; MPI_Init(&a, &v); }, {{"newton", newton}});
}
