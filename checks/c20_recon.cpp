// Reconstruction operators: polynomial reproduction and least-squares /
// minimum-norm property for every enumerated stencil.
#include <cmath>
#include "mfem.hpp"
#include "utils.hpp"
#include "mc.hpp"
using namespace mc;
using mfem::DenseMatrix;
namespace
{
typedef long double L;
struct Mono
{
   int a, b, c;
};
std::vector<Mono> monos(int dim, int p)
{
   std::vector<Mono> r;
   for (int a = 0; a <= p; ++a)
   {
      for (int b = 0; b <= (dim > 1 ? p - a : 0); ++b)
      {
         for (int c = 0; c <= (dim > 2 ? p - a - b : 0); ++c) { r.push_back({a, b, c}); }
      }
   }
   return r;
}
L ev(const Mono &m, const L *x) { return powl(x[0], m.a) * powl(x[1], m.b) * powl(x[2], m.c); }

// solve the small symmetric system with full pivoting; false if singular
bool solve(std::vector<std::vector<L>> A, std::vector<L> b, std::vector<L> &x)
{
   int n = (int)b.size();
   for (int k = 0; k < n; ++k)
   {
      int p = k;
      for (int i = k + 1; i < n; ++i) { if (fabsl(A[i][k]) > fabsl(A[p][k])) { p = i; } }
      if (fabsl(A[p][k]) < 1e-9L) { return false; }
      std::swap(A[p], A[k]);
      std::swap(b[p], b[k]);
      for (int i = k + 1; i < n; ++i)
      {
         L f = A[i][k] / A[k][k];
         for (int j = k; j < n; ++j) { A[i][j] -= f * A[k][j]; }
         b[i] -= f * b[k];
      }
   }
   x.assign(n, 0);
   for (int i = n - 1; i >= 0; --i)
   {
      L s = b[i];
      for (int j = i + 1; j < n; ++j) { s -= A[i][j] * x[j]; }
      x[i] = s / A[i][i];
   }
   return true;
}

void recon()
{
   int dim = 1 + choose(3, "dim");
   int which = choose(2, "operator");
   int p = choose(dim == 1 ? 5 : dim == 2 ? 4 : 3, "degree");
   int layout = choose(5, "layout");
   int extra = choose(thorough() ? 9 : 5, "extra points");
   int first = choose(3, "first");
   auto ms = monos(dim, p);
   int m = (int)ms.size();
   int n = m + extra;
   // candidate stencil points
   std::vector<std::array<L, 3>> c;
   for (int k = 0; (int)c.size() < n && k < 1000; ++k)
   {
      std::array<L, 3> x{0, 0, 0};
      if (layout == 0)  // principal lattice, then further layers
      {
         auto q = monos(dim, 9);
         std::sort(q.begin(), q.end(), [](const Mono &u, const Mono &v) { return std::make_tuple(u.a + u.b + u.c, u.a, u.b) < std::make_tuple(v.a + v.b + v.c, v.a, v.b); });
         x = {(L)q[k].a, (L)q[k].b, (L)q[k].c};
         for (auto &t : x) { t *= 0.25L; }
      }
      else
      {
         for (int d = 0; d < dim; ++d)
         {
            L u = fmodl((k + 1) * (d == 0 ? 0.6180339887L : d == 1 ? 0.7548776662L : 0.5698402909L) + 0.1L * layout, 1.0L);
            x[d] = (layout == 2 ? 10 + u : layout == 3 ? -1 + 0.3L * u : layout == 4 ? 2 * u - 1 : u);
         }
      }
      for (int d = dim; d < 3; ++d) { x[d] = 0; }
      c.push_back(x);
   }
   if (first < n) { std::swap(c[0], c[first]); }
   std::vector<std::array<L, 3>> q = {c[0], c[n / 2], c[n - 1]};
   for (int k = 0; k < 3; ++k)
   {
      std::array<L, 3> x{0, 0, 0};
      for (int i = 0; i < n; ++i)
      {
         for (int d = 0; d < 3; ++d) { x[d] += c[i][d] * (i % (k + 2) == 0 ? 2.0L : 1.0L) / n; }
      }
      q.push_back(x);
   }
   DenseMatrix xc(dim, n), xq(dim, (int)q.size()), interp;
   for (int i = 0; i < n; ++i) { for (int d = 0; d < dim; ++d) { xc(d, i) = c[i][d]; c[i][d] = xc(d, i); } }
   for (size_t i = 0; i < q.size(); ++i) { for (int d = 0; d < dim; ++d) { xq(d, i) = q[i][d]; q[i][d] = xq(d, i); } }
   note(Str() << (which ? "buildLSInterpolation" : "buildInterpolation") << " dim=" << dim << " degree=" << p << " points=" << n << " layout=" << layout << " first=" << first);
   if (which == 0 && dim == 3)
   {
      bool threw = false;
      try { miso::buildInterpolation(dim, p, xc, xq, interp); }
      catch (const miso::MISOException &) { threw = true; }
      MC_CHECK(threw, "dim3", "unsupported dimension accepted");
      return;
   }
   // reference: r = V (V^T V)^{-1} p(x_q), coordinates relative to the first point and scaled
   L sc = 0;
   for (auto &x : c) { for (int d = 0; d < dim; ++d) { sc = std::max(sc, fabsl(x[d] - c[0][d])); } }
   if (sc == 0) { sc = 1; }
   auto rel = [&](const std::array<L, 3> &x) { return std::array<L, 3>{(x[0] - c[0][0]) / sc, (x[1] - c[0][1]) / sc, (x[2] - c[0][2]) / sc}; };
   std::vector<std::vector<L>> G(m, std::vector<L>(m, 0));
   for (int i = 0; i < n; ++i)
   {
      auto x = rel(c[i]);
      for (int a = 0; a < m; ++a) { for (int b = 0; b < m; ++b) { G[a][b] += ev(ms[a], x.data()) * ev(ms[b], x.data()); } }
   }
   std::vector<std::vector<L>> want(q.size(), std::vector<L>(n, 0));
   for (size_t k = 0; k < q.size(); ++k)
   {
      auto x = rel(q[k]);
      std::vector<L> b(m), y;
      for (int a = 0; a < m; ++a) { b[a] = ev(ms[a], x.data()); }
      if (!solve(G, b, y)) { prune(); }  // stencil not unisolvent
      for (int i = 0; i < n; ++i)
      {
         auto xi = rel(c[i]);
         for (int a = 0; a < m; ++a) { want[k][i] += y[a] * ev(ms[a], xi.data()); }
      }
   }
   if (which == 0) { miso::buildInterpolation(dim, p, xc, xq, interp); }
   else { miso::buildLSInterpolation(dim, p, xc, xq, interp); }
   MC_CHECK(interp.Height() == (int)q.size() && interp.Width() == n, "size", "operator is " << interp.Height() << "x" << interp.Width());
   std::string w = which ? "ls" : "min-norm";
   for (size_t k = 0; k < q.size(); ++k)
   {
      auto x = rel(q[k]);
      for (auto &mo : ms)
      {
         L s = 0, mag = 1;
         for (int i = 0; i < n; ++i)
         {
            L t = interp(k, i) * ev(mo, rel(c[i]).data());
            s += t;
            mag += fabsl(t);
         }
         MC_CHECK(fabsl(s - ev(mo, x.data())) < 1e-7L * mag, w + ":reproduction", "x^" << mo.a << "y^" << mo.b << "z^" << mo.c << " at point " << k << ": " << (double)s << " instead of " << (double)ev(mo, x.data()));
      }
      L mx = 1;
      for (int i = 0; i < n; ++i) { mx = std::max(mx, fabsl(want[k][i])); }
      for (int i = 0; i < n; ++i)
      {
         fingerprint(interp(k, i));
         MC_CHECK(fabsl(interp(k, i) - want[k][i]) < 1e-6L * mx, w + ":optimal", "entry (" << k << "," << i << ") is " << interp(k, i) << " instead of " << (double)want[k][i]);
      }
   }
}
}  // namespace
int main(int argc, char **argv) { return run(argc, argv, "C20", []() { }, {{"reconstruction", recon}}); }
