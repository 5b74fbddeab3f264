// Independent reference quadrature (long double Gauss-Legendre) and monomials.
#ifndef REF_QUAD_HPP
#define REF_QUAD_HPP
#include <cmath>
#include <vector>
typedef long double RLD;
inline void gauss(int n, std::vector<RLD> &x, std::vector<RLD> &w)
{
   x.assign(n, 0);
   w.assign(n, 0);
   for (int i = 0; i < n; ++i)
   {
      RLD z = cosl(M_PIl * (i + 0.75L) / (n + 0.5L)), pp = 0;
      for (int it = 0; it < 100; ++it)
      {
         RLD p1 = 1, p2 = 0;
         for (int j = 0; j < n; ++j)
         {
            RLD p3 = p2;
            p2 = p1;
            p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1);
         }
         pp = n * (z * p1 - p2) / (z * z - 1);
         RLD dz = p1 / pp;
         z -= dz;
         if (fabsl(dz) < 1e-19L) { break; }
      }
      x[i] = z;
      w[i] = 2 / ((1 - z * z) * pp * pp);
   }
}
struct QPt
{
   RLD x, y, z, w;
};
// quadrature on the unit simplex (vertices 0, e1, e2, e3), exact to degree 2n-1-(dim-1)
inline std::vector<QPt> simplex_rule(int dim, int n)
{
   std::vector<RLD> g, w;
   gauss(n, g, w);
   std::vector<QPt> r;
   for (int i = 0; i < n; ++i)
   {
      RLD a = (1 + g[i]) / 2, wa = w[i] / 2;
      if (dim == 1)
      {
         r.push_back({a, 0, 0, wa});
         continue;
      }
      for (int j = 0; j < n; ++j)
      {
         RLD b = (1 + g[j]) / 2, wb = w[j] / 2;
         if (dim == 2)
         {
            r.push_back({a * (1 - b), b, 0, wa * wb * (1 - b)});
            continue;
         }
         for (int k = 0; k < n; ++k)
         {
            RLD c = (1 + g[k]) / 2, wc = w[k] / 2;
            r.push_back({a * (1 - b) * (1 - c), b * (1 - c), c, wa * wb * wc * (1 - b) * (1 - c) * (1 - c)});
         }
      }
   }
   return r;
}
struct Mono
{
   int a, b, c;
   RLD operator()(RLD x, RLD y, RLD z) const { return powl(x, a) * powl(y, b) * powl(z, c); }
   RLD d(int dir, RLD x, RLD y, RLD z) const
   {
      if (dir == 0) { return a == 0 ? 0 : a * powl(x, a - 1) * powl(y, b) * powl(z, c); }
      if (dir == 1) { return b == 0 ? 0 : b * powl(x, a) * powl(y, b - 1) * powl(z, c); }
      return c == 0 ? 0 : c * powl(x, a) * powl(y, b) * powl(z, c - 1);
   }
   int deg() const { return a + b + c; }
};
inline std::vector<Mono> monos(int dim, int p)
{
   std::vector<Mono> m;
   for (int a = 0; a <= p; ++a)
   {
      for (int b = 0; b <= (dim > 1 ? p - a : 0); ++b)
      {
         for (int c = 0; c <= (dim > 2 ? p - a - b : 0); ++c) { m.push_back({a, b, c}); }
      }
   }
   return m;
}
inline RLD mono_int(int dim, const Mono &m)  // over the unit simplex: a!b!c!/(a+b+c+dim)!
{
   return tgammal(m.a + 1) * tgammal(m.b + 1) * tgammal(m.c + 1) / tgammal(m.a + m.b + m.c + dim + 1);
}
#endif
