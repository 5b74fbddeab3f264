// C08: orthogonal polynomials and LGL quadrature
#include <cmath>
#include "mc.hpp"
#include "mfem.hpp"
#include "orthopoly.hpp"
#include "ref_quad.hpp"

using namespace mc;
using namespace mfem;
namespace
{
RLD binom(RLD n, int k)  // generalised binomial coefficient
{
   RLD r = 1;
   for (int i = 0; i < k; ++i) { r *= (n - i) / (k - i); }
   return r;
}
// orthonormal Jacobi polynomial from its explicit sum
RLD jac(int n, RLD a, RLD b, RLD x)
{
   RLD s = 0;
   for (int k = 0; k <= n; ++k) { s += binom(n + a, n - k) * binom(n + b, k) * powl((x - 1) / 2, k) * powl((x + 1) / 2, n - k); }
   RLD h = powl(2, a + b + 1) / (2 * n + a + b + 1) * tgammal(n + a + 1) * tgammal(n + b + 1) / (tgammal(n + a + b + 1) * tgammal(n + 1));
   if (n == 0) { h = powl(2, a + b + 1) * tgammal(a + 1) * tgammal(b + 1) / tgammal(a + b + 2); }
   return s / sqrtl(h);
}
void jacobi()
{
   static const std::vector<double> al = {0, 1, 2, 3, 5, 7, 9, 11, 0.5, -0.25, 2.5, -0.5};
   static const std::vector<double> be = {0, 1, 2, 4, 0.5, 3.25, -0.25};
   double a = pick(al, "alpha"), b = pick(be, "beta");
   if (a + b == -1) { prune(); }
   int n = choose(thorough() ? 13 : 10, "degree");
   int m = 1 + choose(3, "points") * 10;
   Vector x(m), p(m);
   for (int i = 0; i < m; ++i) { x(i) = m == 1 ? 0.3 : -1 + 2.0 * i / (m - 1); }
   p = 99.0;
   Vector x0(x);
   miso::jacobiPoly(x, a, b, n, p);
   note(Str() << "alpha=" << a << " beta=" << b << " degree=" << n << " points=" << m);
   MC_CHECK(p.Size() == m, "jacobi-size", "result has " << p.Size() << " entries");
   RLD mx = 0;
   for (int i = 0; i < m; ++i) { mx = std::max(mx, fabsl(jac(n, a, b, x(i)))); }
   for (int i = 0; i < m; ++i)
   {
      RLD w = jac(n, a, b, x0(i));
      mc::fingerprint(p(i));
      MC_CHECK(x(i) == x0(i), "jacobi-mutates", "points changed");
      MC_CHECK(fabsl(p(i) - w) <= 1e-11L * mx, std::string("jacobi-value") + (b == 0 ? "" : "-beta"), "alpha=" << a << " beta=" << b << " degree=" << n << " x=" << x(i) << ": " << p(i) << " instead of " << (double)w);
   }
}
void lobatto()
{
   int n = 2 + choose(thorough() ? 40 : 24, "nodes");
   Vector x(n), w(n);
   x = 5.0;
   w = 5.0;
   note(Str() << n << " nodes");
   miso::getLobattoQuadrature(n, x, w);
   MC_CHECK(x.Size() == n && w.Size() == n, "lgl-size", "wrong size");
   MC_CHECK(fabs(x(0) + 1) < 1e-15 && fabs(x(n - 1) - 1) < 1e-15, "lgl-ends", n << " nodes: end points " << x(0) << "," << x(n - 1));
   for (int i = 0; i < n; ++i)
   {
      mc::fingerprint(x(i) + w(i));
      MC_CHECK(w(i) > 0, "lgl-positive", n << " nodes: weight " << i << " is " << w(i));
      if (i) { MC_CHECK(x(i) > x(i - 1), "lgl-increasing", n << " nodes: not increasing at " << i); }
      MC_CHECK(fabs(x(i) + x(n - 1 - i)) < 1e-14 && fabs(w(i) - w(n - 1 - i)) < 1e-13, "lgl-symmetric", n << " nodes: not symmetric at " << i);
   }
   for (int k = 0; k <= 2 * n - 3; ++k)
   {
      RLD s = 0;  // Legendre polynomials: integral 2 for k=0, 0 otherwise
      for (int i = 0; i < n; ++i)
      {
         RLD p1 = 1, p2 = 0;
         for (int j = 0; j < k; ++j)
         {
            RLD p3 = p2;
            p2 = p1;
            p1 = ((2 * j + 1) * (RLD)x(i) * p2 - j * p3) / (j + 1);
         }
         s += w(i) * p1;
      }
      MC_CHECK(fabsl(s - (k == 0 ? 2 : 0)) < 1e-12L, "lgl-exact", n << " nodes: Legendre degree " << k << " integrates to " << (double)s);
   }
}
void vandermonde()
{
   int dim = 1 + choose(3, "dim");
   int p = choose(dim == 3 ? 7 : 9, "degree");
   note(Str() << "dim=" << dim << " degree=" << p);
   // orthonormality on the reference simplex [-1,..]: evaluate at an exact rule
   auto rule = simplex_rule(dim, p + 3);
   int m = (int)rule.size();
   Vector x(m), y(m), z(m);
   for (int i = 0; i < m; ++i)
   {
      x(i) = 2 * rule[i].x - 1;
      y(i) = 2 * rule[i].y - 1;
      z(i) = 2 * rule[i].z - 1;
   }
   DenseMatrix V;
   if (dim == 1) { miso::getVandermondeForSeg(x, p, V); }
   if (dim == 2) { miso::getVandermondeForTri(x, y, p, V); }
   if (dim == 3) { miso::getVandermondeForTet(x, y, z, p, V); }
   int N = (int)monos(dim, p).size();
   for (int i = 0; i < m; ++i) { mc::fingerprint(V(i, N - 1)); }
   MC_CHECK(V.Height() == m && V.Width() == N, "vandermonde-size", "dim=" << dim << " degree=" << p << ": " << V.Height() << "x" << V.Width());
   RLD vol = powl(2, dim);
   for (int a = 0; a < N; ++a)
   {
      for (int b = 0; b <= a; ++b)
      {
         RLD s = 0;
         for (int i = 0; i < m; ++i) { s += rule[i].w * vol * V(i, a) * V(i, b); }
         MC_CHECK(fabsl(s - (a == b)) < 1e-10L, "vandermonde-orthonormal", "dim=" << dim << " degree=" << p << ": <" << a << "," << b << "> = " << (double)s);
      }
   }
   // the columns span the polynomials of degree p: every monomial equals its projection
   for (auto &mo : monos(dim, p))
   {
      std::vector<RLD> r(m);
      for (int i = 0; i < m; ++i) { r[i] = mo(x(i), dim > 1 ? y(i) : 0.0L + (mo.b == 0), dim > 2 ? z(i) : 0.0L + (mo.c == 0)); }
      std::vector<RLD> f(r);
      for (int a = 0; a < N; ++a)
      {
         RLD s = 0;
         for (int i = 0; i < m; ++i) { s += rule[i].w * vol * V(i, a) * f[i]; }
         for (int i = 0; i < m; ++i) { r[i] -= s * V(i, a); }
      }
      for (int i = 0; i < m; ++i) { MC_CHECK(fabsl(r[i]) < 1e-8L, "vandermonde-span", "dim=" << dim << " degree=" << p << ": x^" << mo.a << "y^" << mo.b << "z^" << mo.c << " is not in the span"); }
   }
   // single basis functions agree with the columns, also at collapsed vertices
   if (dim == 2)
   {
      int c = 0;
      for (int r = 0; r <= p; ++r)
      {
         for (int j = 0; j <= r; ++j, ++c)
         {
            Vector q(m);
            miso::prorioPoly(x, y, r - j, j, q);
            for (int i = 0; i < m; ++i) { MC_CHECK(q(i) == V(i, c), "proriol-column", "degree=" << p << ": column " << c); }
         }
      }
   }
}
// values at the vertices and along the edges, where the collapsed coordinates are singular
void singular()
{
   int dim = 2 + choose(2, "dim"), p = 1 + choose(4, "degree");
   note(Str() << "dim=" << dim << " degree=" << p);
   int g = 4;
   std::vector<std::array<double, 3>> pts;
   for (int a = 0; a <= g; ++a) { for (int b = 0; b <= g - a; ++b) { for (int c = 0; c <= (dim > 2 ? g - a - b : 0); ++c) { pts.push_back({2.0 * a / g - 1, 2.0 * b / g - 1, 2.0 * c / g - 1}); } } }
   int m = (int)pts.size();
   Vector x(m), y(m), z(m);
   for (int i = 0; i < m; ++i) { x(i) = pts[i][0]; y(i) = pts[i][1]; z(i) = pts[i][2]; }
   DenseMatrix V;
   if (dim == 2) { miso::getVandermondeForTri(x, y, p, V); }
   else { miso::getVandermondeForTet(x, y, z, p, V); }
   // fit polynomial coefficients from interior rule, compare at the singular points
   auto rule = simplex_rule(dim, p + 3);
   int k = (int)rule.size();
   Vector xr(k), yr(k), zr(k);
   for (int i = 0; i < k; ++i) { xr(i) = 2 * rule[i].x - 1; yr(i) = 2 * rule[i].y - 1; zr(i) = 2 * rule[i].z - 1; }
   DenseMatrix W;
   if (dim == 2) { miso::getVandermondeForTri(xr, yr, p, W); }
   else { miso::getVandermondeForTet(xr, yr, zr, p, W); }
   for (auto &mo : monos(dim, p))
   {
      for (int i = 0; i < m; ++i)
      {
         RLD s = 0;
         for (int a = 0; a < W.Width(); ++a)
         {
            RLD c = 0;
            for (int q = 0; q < k; ++q) { c += rule[q].w * powl(2, dim) * W(q, a) * mo(xr(q), yr(q), zr(q)); }
            s += c * V(i, a);
         }
         MC_CHECK(fabsl(s - mo(x(i), y(i), z(i))) < 1e-10L, "singular-points", "dim=" << dim << " degree=" << p << " at (" << x(i) << "," << y(i) << "," << z(i) << "): expansion of x^" << mo.a << "y^" << mo.b << "z^" << mo.c << " gives " << (double)s);
      }
   }
}
}  // namespace

int main(int argc, char **argv)
{
   return mc::run(argc, argv, "C08", []() { }, {{"jacobi", jacobi}, {"lobatto", lobatto, 20}, {"vandermonde", vandermonde}, {"singular", singular}});
}
