// C03: merit function and line-search Newton
#include <cmath>
#include <limits>
#include "mc.hpp"
#include "mfem.hpp"
#include "linesearch.hpp"
#include "relaxed_newton.hpp"
#include "ls_ref.hpp"
#include "newton_sys.hpp"

using json = nlohmann::json;
namespace
{
// ---- the merit function itself ------------------------------------------------------
void phi()
{
   int n = 1 + choose(3, "n");
   Sys s(n);
   setup(s, n);
   Vector x = point(n, "state"), c = point(n, "dir");
   double sc = pick<double>({1.0, -0.125, 0.0}, "scale");
   c *= sc;
   Vector r(n);
   s.eval(x, r);
   for (int i = 0; i < n; ++i) { if (!std::isfinite(r(i))) { prune(); } }
   if (nrm(r) == 0) { prune(); }
   Vector r0(r), x0(x), c0(c), Jc(n);
   DenseMatrix J;
   s.jac(x, J);
   J.Mult(c, Jc);
   double d = -(double)(dotl(Jc, r0) / nrm(r0));
   std::string id = Str() << "n=" << n << " x=" << show(x) << " dir=" << show(c) << " F(x)=" << show(r);
   note(id);
   miso::Phi ph([&](const Vector &y, Vector &res) { s.eval(y, res); }, x, c, r, J);
   MC_CHECK(close(ph.phi0, nrm(r0), 1e-13), "phi0", id << ": phi0=" << ph.phi0);
   MC_CHECK(close(ph.dphi0, d, 1e-11 * (1 + fabs(d))), "dphi0", id << ": dphi0=" << ph.dphi0 << " expected " << d);
   int k = 1 + choose(2, "evals");
   for (int e = 0; e < k; ++e)
   {
      double a = pick<double>({1.0, 0.0, 0.3, -1.0, 1e-9}, "alpha");
      Vector y(n), f(n);
      for (int i = 0; i < n; ++i) { y(i) = x0(i) - a * c0(i); }
      s.eval(y, f);
      double want = nrm(f), got = ph(a);
      if (!std::isfinite(want)) { MC_CHECK(!std::isfinite(got), "phi-nan", id << ": phi(" << a << ")=" << got); continue; }
      MC_CHECK(close(got, want, 1e-12), "phi-value", id << ": phi(" << a << ")=" << got << " expected " << want);
      for (int i = 0; i < n; ++i)
      {
         MC_CHECK(x(i) == x0(i) && c(i) == c0(i), "phi-mutates", id << ": state or direction changed by phi");
         MC_CHECK(close(r(i), f(i), 1e-12), "phi-residual", id << ": residual does not hold F at the evaluated point");
      }
   }
}

// ---- Newton ---------------------------------------------------------------------------
void newton()
{
   int n = 1 + choose(thorough() ? 3 : 2, "n");
   Sys s(n);
   setup(s, n);
   int optkind = choose(6, "options");
   Opt o{1e-4, 0.1, 0.9, 3, 10};
   json jo = json::object();
   switch (optkind)
   {
   case 0: break;
   case 1: jo["linesearch"] = "backtracking"; break;
   case 2: jo["linesearch"] = {{"type", "backtracking"}}; break;
   case 3:
      o = {0.3, 0.25, 0.5, 2, 4};
      jo["linesearch"] = {{"type", "backtracking"}, {"mu", o.mu}, {"rholo", o.lo}, {"rhohi", o.hi}, {"interp-order", o.order}, {"maxiter", o.max_iter}};
      break;
   case 4:
      o = {1e-4, 0.05, 0.75, 3, 7};
      jo["linesearch"] = {{"type", "backtracking"}, {"rholo", o.lo}, {"rhohi", o.hi}, {"maxiter", o.max_iter}};
      break;
   default:
      o = {0.01, 0.1, 0.9, 2, 0};
      jo["linesearch"] = {{"type", "backtracking"}, {"mu", o.mu}, {"interp-order", 2}, {"maxiter", 0}};
      break;
   }
   int mode = choose(5, "direction");
   Vector x = point(n, "x0");
   bool iterative = choose(2, "iterative_mode");
   int bm = choose(2, "b");
   Vector b(bm ? n : 0);
   for (int i = 0; i < b.Size(); ++i) { b(i) = 0.7 - i; }
   auto tols = pick<std::pair<double, double>>({{1e-8, 0.0}, {0.0, 1e-6}, {0.5, 1e-3}}, "tol");
   int maxit = pick<int>({8, 1, 0}, "max_iter");
   miso::RelaxedNewton nw(MPI_COMM_SELF, jo);
   Dir dir(mode, s);
   nw.SetSolver(dir);
   nw.SetOperator(s);
   nw.SetRelTol(tols.first);
   nw.SetAbsTol(tols.second);
   nw.SetMaxIter(maxit);
   nw.SetPrintLevel(mfem::IterativeSolver::PrintLevel().None());
   nw.iterative_mode = iterative;
   Vector start(x);
   if (!iterative) { start = 0.0; }
   Vector f0(n);
   s.eval(start, f0);
   for (int i = 0; i < n; ++i) { if (!std::isfinite(f0(i))) { prune(); } }
   std::string id = Str() << "n=" << n << " q=" << s.q << " t=" << s.t << " kind=" << s.kind << " options=" << jo.dump() << " dir=" << mode << " x0=" << show(x) << " iterative=" << iterative << " b=" << show(b) << " tol=" << tols.first << "/" << tols.second << " maxit=" << maxit;
   note(id);
   nw.Mult(b, x);
   // residual as Newton sees it
   auto res = [&](const Vector &f) { Vector r(f); for (int i = 0; i < b.Size(); ++i) { r(i) -= b(i); } return r; };
   // replay the log against the model
   std::vector<Sys::Ev> lg = s.log;
   size_t p = 0;
   MC_CHECK(!lg.empty() && lg[0].what == 'F', "no-initial-eval", id << ": no initial residual evaluation");
   auto same = [&](const Vector &a, const Vector &c)
   {
      for (int i = 0; i < n; ++i) { if (!close(a(i), c(i), 1e-12)) { return false; } }
      return true;
   };
   MC_CHECK(same(lg[0].x, start), "start", id << ": started from " << show(lg[0].x));
   Vector xk(lg[0].x), rk = res(lg[0].f);
   double n0 = nrm(rk), goal = std::max(tols.first * n0, tols.second);
   p = 1;
   int it = 0;
   bool lsfail = false, conv = false, ascent = false;
   for (;; ++it)
   {
      conv = nrm(rk) <= goal * (1 + 1e-13);
      if (nrm(rk) <= goal * (1 - 1e-13) || p == lg.size()) { break; }
      MC_CHECK(it < maxit, "too-many-iterations", id << ": iteration " << it + 1);
      MC_CHECK(lg[p].what == 'J' && same(lg[p].x, xk), "jacobian-point", id << ": iteration " << it << ": Jacobian not evaluated at the current iterate");
      DenseMatrix J;
      s.jac(xk, J);
      MC_CHECK(p + 1 < lg.size() && lg[p + 1].what == 'P' && same(lg[p + 1].x, rk), "linear-rhs", id << ": iteration " << it << ": linear solve not made with the current residual");
      Vector c(lg[p + 1].f);
      p += 2;
      Vector Jc(n);
      J.Mult(c, Jc);
      double phi0 = nrm(rk), dphi0 = -(double)(dotl(Jc, rk) / phi0);
      ascent = ascent || dphi0 > 0;
      double pa = 0, pp = 0, ppa = 0, ppp = 0;
      int k = 0;
      bool accepted = false;
      while (true)
      {
         if (p == lg.size() || lg[p].what != 'F') { break; }
         // recover the step length
         long double cc = dotl(c, c), al = 0;
         Vector diff(n);
         for (int i = 0; i < n; ++i) { diff(i) = xk(i) - lg[p].x(i); }
         al = dotl(diff, c) / cc;
         double a = (double)al;
         double scale = 1e-11 * (1 + nrm(xk) / (1e-300 + nrm(c)));
         for (int i = 0; i < n; ++i)
         {
            MC_CHECK(fabs(diff(i) - a * c(i)) <= 1e-12 * (1 + fabs(xk(i)) + fabs(a * c(i))), "off-direction", id << ": iteration " << it << ": evaluated at " << show(lg[p].x) << ", which is not on the search line from " << show(xk) << " along " << show(c));
         }
         double P = nrm(res(lg[p].f));
         if (k == 0) { MC_CHECK(fabs(a - 1.0) <= scale, "first-step", id << ": iteration " << it << ": first trial step " << a); }
         else
         {
            MC_CHECK(k <= o.max_iter, "option-maxiter", id << ": iteration " << it << ": more than " << o.max_iter << " backtracks");
            MC_CHECK(a >= o.lo * pa - scale && a <= o.hi * pa + scale, "option-rho", id << ": iteration " << it << ": step " << a << " after " << pa);
            LD want = 0;
            if (scale < 1e-7 * pa && next_step(o, phi0, dphi0, k, ppp, ppa, pp, pa, want))
            {
               MC_CHECK(fabsl(want - a) <= 1e-5L * want + scale * 10, k == 1 || o.order == 2 ? "model-step-1" : "model-step-2", id << ": iteration " << it << " backtrack " << k << ": step " << a << ", the merit model gives " << (double)want);
            }
         }
         ppa = pa;
         ppp = pp;
         pa = a;
         pp = P;
         double bound = phi0 + o.mu * a * dphi0;
         ++k;
         ++p;
         if (P <= bound)
         {
            bool edge = fabs(P - bound) <= 1e-12 * (fabs(P) + fabs(bound));
            if (edge && (p == lg.size() ? k == o.max_iter + 1 : lg[p].what == 'F' && !same(lg[p].x, lg[p - 1].x))) { continue; }  // round-off tie
            accepted = true;
            break;
         }
         if (fabs(P - bound) <= 1e-12 * (fabs(P) + fabs(bound)) && p < lg.size() && lg[p].what == 'F' && same(lg[p].x, lg[p - 1].x)) { accepted = true; break; }
      }
      if (!accepted)
      {
         MC_CHECK(k == o.max_iter + 1, "stopped-backtracking", id << ": iteration " << it << ": line search stopped after " << k << " trials without success (maxiter " << o.max_iter << ")");
         MC_CHECK(p == lg.size(), "continued-after-failure", id << ": iteration " << it << ": continued although the line search failed");
         lsfail = true;
         break;
      }
      // the new iterate is the accepted trial
      Vector xn(lg[p - 1].x);
      if (p < lg.size() && lg[p].what == 'F')
      {
         MC_CHECK(same(lg[p].x, xn), "iterate", id << ": iteration " << it << ": new iterate " << show(lg[p].x) << " is not the accepted trial " << show(xn));
         ++p;
      }
      xk = xn;
      rk = res(lg[p - 1].f);
   }
   if (getenv("DBG")) { for (auto &e : lg) { std::cerr << e.what << show(e.x) << " " << nrm(res(e.f)) << "\n"; } }
   MC_CHECK(p == lg.size(), "extra-evaluations", id << ": " << lg.size() - p << " evaluations after the solve should have ended");
   MC_CHECK(same(x, xk), "final-state", id << ": returned " << show(x) << " but the last accepted iterate is " << show(xk));
   Vector ff(n);
   s.eval(x, ff);
   double nf = nrm(res(ff));
   MC_CHECK(nf <= n0 * (1 + 1e-9) || ascent, "residual-grew", id << ": |F| went from " << n0 << " to " << nf);
   if (nw.GetConverged()) { MC_CHECK(nf <= goal * (1 + 1e-9), "false-convergence", id << ": converged reported with |F|=" << nf << " goal " << goal); }
   else { MC_CHECK(!(nf < goal * (1 - 1e-9)), "missed-convergence", id << ": not converged with |F|=" << nf << " goal " << goal); }
   MC_CHECK(lsfail || conv || it >= maxit, "early-stop", id << ": stopped after " << it << " iterations");
   outcome(Str() << it << "," << lsfail << "," << conv);
}

// unusable options are refused
void badopts()
{
   int k = choose(4, "case");
   json jo;
   switch (k)
   {
   case 0: jo["linesearch"] = "cubic"; break;
   case 1: jo["linesearch"] = ""; break;
   case 2: jo["linesearch"] = {{"type", "Backtracking"}}; break;
   default: jo["linesearch"] = {{"type", "none"}, {"mu", 0.1}}; break;
   }
   bool threw = false;
   note(jo.dump());
   try { miso::RelaxedNewton nw(MPI_COMM_SELF, jo); }
   catch (const std::exception &) { threw = true; }
   MC_CHECK(threw, "unknown-linesearch", jo.dump() << " was accepted");
}
}  // namespace

int main(int argc, char **argv)
{
   return mc::run(argc, argv, "C03", []() { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
                  {{"phi", phi}, {"newton", newton}, {"badopts", badopts}});
}
