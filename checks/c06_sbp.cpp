// C06: summation-by-parts elements
#include <cmath>
#include "mc.hpp"
#include "mfem.hpp"
#include "mfem_throw.hpp"
#include "sbp_fe.hpp"
#include "ref_quad.hpp"

using namespace mc;
using namespace mfem;
namespace
{
struct El
{
   int dim, p, n;
   // the 3-node triangle is the one element with a dense boundary operator
   bool diagE() const { return !(dim == 2 && p == 0); }
   std::string name;
   std::unique_ptr<SBPFiniteElement> fe;
};
El element()
{
   // every element the library offers
   static const std::vector<std::array<int, 3>> all = {{1, 0, 2}, {1, 1, 3}, {1, 2, 4}, {1, 3, 5}, {1, 4, 6}, {2, 0, 3}, {2, 1, 7}, {2, 2, 12}, {2, 3, 18}, {2, 4, 27}, {3, 0, 4}, {3, 1, 14}};
   auto a = pick(all, "element");
   El e;
   e.dim = a[0];
   e.p = a[1];
   e.n = a[2];
   e.name = Str() << (e.dim == 1 ? "segment" : e.dim == 2 ? "triangle" : "tetrahedron") << " degree " << e.p;
   note(e.name);
   if (e.dim == 1) { e.fe.reset(new SBPSegmentElement(e.p)); }
   else if (e.dim == 2) { e.fe.reset(new SBPTriangleElement(e.p, e.n)); }
   else { e.fe.reset(new SBPTetrahedronElement(e.p, e.n)); }
   return e;
}
std::string mn(const Mono &m) { return Str() << "x^" << m.a << " y^" << m.b << " z^" << m.c; }

void nodes(const El &e, std::vector<std::array<double, 3>> &x, std::vector<double> &w)
{
   const IntegrationRule &ir = e.fe->GetNodes();
   MC_CHECK(ir.GetNPoints() == e.n && e.fe->GetDof() == e.n, "node-count", e.name << ": " << ir.GetNPoints() << " nodes, expected " << e.n);
   for (int i = 0; i < e.n; ++i)
   {
      const IntegrationPoint &ip = ir.IntPoint(i);
      x.push_back({ip.x, e.dim > 1 ? ip.y : 0.0, e.dim > 2 ? ip.z : 0.0});
      w.push_back(ip.weight);
   }
}

// face integral of x^m * n_di over the boundary of the unit simplex = volume integral of d/dx_di
RLD bdr_int(int dim, int di, const Mono &m)
{
   Mono k = m;
   int f = di == 0 ? k.a : di == 1 ? k.b : k.c;
   if (f == 0) { return 0; }
   (di == 0 ? k.a : di == 1 ? k.b : k.c) -= 1;
   return f * mono_int(dim, k);
}

void quadrature()
{
   El e = element();
   std::vector<std::array<double, 3>> x;
   std::vector<double> w;
   nodes(e, x, w);
   const Vector &H = e.fe->returnDiagNorm();
   MC_CHECK(H.Size() == e.n, "norm-size", e.name << ": norm has " << H.Size() << " entries");
   for (int i = 0; i < e.n; ++i)
   {
      mc::fingerprint(H(i));
      MC_CHECK(H(i) > 0, "norm-positive", e.name << ": norm entry " << i << " is " << H(i));
      MC_CHECK(H(i) == e.fe->getDiagNormEntry(i) && close(H(i), w[i], 1e-15), "norm-entry", e.name << ": norm entry " << i << " disagrees with the quadrature weight");
      double s = x[i][0] + x[i][1] + x[i][2];
      MC_CHECK(x[i][0] >= 0 && x[i][1] >= 0 && x[i][2] >= 0 && s <= 1 + 1e-14, "node-inside", e.name << ": node " << i << " outside the element");
      for (int j = 0; j < i; ++j)
      {
         double d = fabs(x[i][0] - x[j][0]) + fabs(x[i][1] - x[j][1]) + fabs(x[i][2] - x[j][2]);
         MC_CHECK(d > 1e-3, "node-distinct", e.name << ": nodes " << i << " and " << j << " coincide");
      }
      for (int d = 0; d < e.dim; ++d)
      {
         Vector xd;
         e.fe->getNodeCoords(d, xd);
         MC_CHECK(xd.Size() == e.n && xd(i) == x[i][d], "node-coords", e.name << ": getNodeCoords(" << d << ") node " << i);
      }
   }
   int deg = e.dim == 1 ? 2 * e.p + 1 : std::max(1, 2 * e.p);
   if (e.dim == 3 || (e.dim == 2 && e.p >= 1)) { deg = 2 * e.p; }
   deg = std::max(deg, 1);
   // a diagonal-norm SBP operator of degree p needs a norm exact to degree 2p-1
   deg = std::max(1, 2 * e.p - 1);
   for (auto &m : monos(e.dim, deg))
   {
      RLD s = 0;
      for (int i = 0; i < e.n; ++i) { s += H(i) * m(x[i][0], x[i][1], x[i][2]); }
      MC_CHECK(fabsl(s - mono_int(e.dim, m)) < 1e-13L, "norm-accuracy", e.name << ": quadrature of " << mn(m) << " gives " << (double)s << " instead of " << (double)mono_int(e.dim, m));
   }
}

void operators()
{
   El e = element();
   int di = choose(e.dim, "direction");
   std::vector<std::array<double, 3>> x;
   std::vector<double> w;
   nodes(e, x, w);
   int n = e.n;
   const Vector &H = e.fe->returnDiagNorm();
   DenseMatrix Q(n), QT(n), D(n), DT(n);
   e.fe->getWeakOperator(di, Q);
   e.fe->getWeakOperator(di, QT, true);
   e.fe->getStrongOperator(di, D);
   e.fe->getStrongOperator(di, DT, true);
   for (int i = 0; i < n; ++i)
   {
      Vector row;
      e.fe->getStrongOperator(di, i, row);
      for (int j = 0; j < n; ++j)
      {
         double q = e.fe->getQ(di, i, j);
         MC_CHECK(Q(i, j) == q && QT(j, i) == q, "weak-operator", e.name << ": Q(" << i << "," << j << ") differs between accessors");
         MC_CHECK(close(D(i, j) * H(i), q, 1e-14) && close(DT(j, i), D(i, j), 1e-14) && close(row(j), D(i, j), 1e-14), "strong-operator", e.name << ": D(" << i << "," << j << ") differs between accessors");
      }
   }
   // accuracy
   for (auto &m : monos(e.dim, e.p))
   {
      for (int i = 0; i < n; ++i)
      {
         RLD s = 0;
         for (int j = 0; j < n; ++j) { s += (RLD)D(i, j) * m(x[j][0], x[j][1], x[j][2]); }
         MC_CHECK(fabsl(s - m.d(di, x[i][0], x[i][1], x[i][2])) < 1e-11L, "accuracy", e.name << ": derivative of " << mn(m) << " at node " << i << " is " << (double)s << " instead of " << (double)m.d(di, x[i][0], x[i][1], x[i][2]));
      }
   }
   // Q + Q^T = E: diagonal, zero at interior nodes, and an exact boundary quadrature
   for (int i = 0; i < n; ++i)
   {
      bool bnd = false;
      double s = 1;
      for (int d = 0; d < e.dim; ++d) { bnd = bnd || x[i][d] < 1e-12; s -= x[i][d]; }
      bnd = bnd || fabs(s) < 1e-12;
      for (int j = 0; j < n; ++j)
      {
         if (i != j && e.diagE()) { MC_CHECK(fabs(Q(i, j) + Q(j, i)) < 1e-13, "sbp-identity", e.name << ": Q+Q^T has entry (" << i << "," << j << ") = " << Q(i, j) + Q(j, i)); }
      }
      if (!bnd) { MC_CHECK(fabs(Q(i, i)) < 1e-13, "sbp-interior", e.name << ": Q+Q^T is " << 2 * Q(i, i) << " at interior node " << i); }
   }
   for (auto &m1 : monos(e.dim, e.p))
   {
      for (auto &m2 : monos(e.dim, e.p))
      {
         RLD s = 0;
         for (int i = 0; i < n; ++i)
         {
            for (int j = 0; j < n; ++j) { s += ((RLD)Q(i, j) + Q(j, i)) * m1(x[i][0], x[i][1], x[i][2]) * m2(x[j][0], x[j][1], x[j][2]); }
         }
         Mono m{m1.a + m2.a, m1.b + m2.b, m1.c + m2.c};
         MC_CHECK(fabsl(s - bdr_int(e.dim, di, m)) < 1e-12L, "boundary-accuracy", e.name << ": boundary form of (" << mn(m1) << ")(" << mn(m2) << ") is " << (double)s << " instead of " << (double)bdr_int(e.dim, di, m));
      }
   }
}

double val(int seed, int i, int j) { return std::sin(1.0 + 0.7 * seed + 1.3 * i + 2.1 * j) + 0.1 * ((i * 7 + j * 3 + seed) % 5); }

// matrix-free products agree with the matrices
void products()
{
   El e = element();
   int di = choose(e.dim, "direction");
   int ns = 1 + choose(3, "states");
   int seed = choose(3, "data");
   int n = e.n;
   DenseMatrix Q(n), D(n), P(n), u(ns, n);
   e.fe->getWeakOperator(di, Q);
   e.fe->getStrongOperator(di, D);
   e.fe->getProjOperator(P);
   for (int s = 0; s < ns; ++s) { for (int i = 0; i < n; ++i) { u(s, i) = seed == 0 ? (i == (s * 5) % n) : val(seed, s, i); } }
   const Vector &H = e.fe->returnDiagNorm();
   auto cmp = [&](double a, double b, const char *what, int s, int i) { MC_CHECK(close(a, b, 1e-12), std::string("product-") + what, e.name << " " << what << " state " << s << " node " << i << ": " << a << " instead of " << b); };
   DenseMatrix R(ns, n), R2(ns, n);
   e.fe->multNormMatrix(u, R);
   e.fe->multNormMatrixInv(u, R2);
   for (int s = 0; s < ns; ++s)
   {
      for (int i = 0; i < n; ++i)
      {
         cmp(R(s, i), H(i) * u(s, i), "norm", s, i);
         cmp(R2(s, i), u(s, i) / H(i), "norm-inverse", s, i);
      }
   }
   DenseMatrix v(u);
   e.fe->multNormMatrix(v, v);  // documented to work in place
   for (int s = 0; s < ns; ++s) { for (int i = 0; i < n; ++i) { cmp(v(s, i), H(i) * u(s, i), "norm-inplace", s, i); } }
   e.fe->multNormMatrixInv(v, v);
   for (int s = 0; s < ns; ++s) { for (int i = 0; i < n; ++i) { cmp(v(s, i), u(s, i), "norm-inverse-inplace", s, i); } }
   for (int trans = 0; trans < 2; ++trans)
   {
      for (int s = 0; s < ns; ++s) { for (int i = 0; i < n; ++i) { R(s, i) = val(9, i, s); } }
      e.fe->multWeakOperator(di, u, R, trans);
      DenseMatrix Pu(trans ? 1 : ns, trans ? 1 : n);
      Pu.SetSize(ns, n);
      e.fe->multProjOperator(u, Pu, trans);
      for (int s = 0; s < ns; ++s)
      {
         for (int i = 0; i < n; ++i)
         {
            double q = val(9, i, s), pr = 0;
            for (int j = 0; j < n; ++j)
            {
               q += trans ? -Q(j, i) * u(s, j) : Q(i, j) * u(s, j);
               pr += (trans ? P(j, i) : P(i, j)) * u(s, j);
            }
            cmp(R(s, i), q, trans ? "weak-transpose" : "weak", s, i);
            cmp(Pu(s, i), pr, trans ? "projection-transpose" : "projection", s, i);
         }
      }
   }
   for (int i = 0; i < n; ++i)
   {
      Vector r(ns), r2(ns);
      r = 5.0;
      r2 = -3.0;
      e.fe->multWeakOperator(di, i, u, r);
      e.fe->multStrongOperator(di, i, u, r2);
      for (int s = 0; s < ns; ++s)
      {
         double q = 0, d = 0;
         for (int j = 0; j < n; ++j)
         {
            q += Q(i, j) * u(s, j);
            d += D(i, j) * u(s, j);
         }
         cmp(r(s), q, "weak-row", s, i);
         cmp(r2(s), d, "strong-row", s, i);
      }
   }
}

// local projection: removes exactly the polynomials of degree <= p
void projection()
{
   El e = element();
   std::vector<std::array<double, 3>> x;
   std::vector<double> w;
   nodes(e, x, w);
   int n = e.n;
   DenseMatrix P(n);
   e.fe->getProjOperator(P);
   const Vector &H = e.fe->returnDiagNorm();
   for (int i = 0; i < n; ++i)
   {
      for (int j = 0; j < n; ++j)
      {
         MC_CHECK(close(P(i, j), e.fe->getProjOperatorEntry(i, j), 1e-13), "projection-entry", e.name << ": P(" << i << "," << j << ") is " << P(i, j) << " or " << e.fe->getProjOperatorEntry(i, j));
         MC_CHECK(close(H(i) * P(i, j), H(j) * P(j, i), 1e-13), "projection-symmetry", e.name << ": HP is not symmetric at (" << i << "," << j << ")");
      }
   }
   // the norm integrates products of degree-p polynomials exactly only if it is exact to degree 2p
   bool exact2p = true;
   for (auto &m : monos(e.dim, 2 * e.p))
   {
      RLD s = 0;
      for (int i = 0; i < n; ++i) { s += H(i) * m(x[i][0], x[i][1], x[i][2]); }
      exact2p = exact2p && fabsl(s - mono_int(e.dim, m)) < 1e-13L;
   }
   MC_CHECK(exact2p, "norm-2p", e.name << ": the norm does not integrate degree " << 2 * e.p << " exactly");
   for (auto &m : monos(e.dim, e.p))
   {
      for (int i = 0; i < n; ++i)
      {
         RLD s = 0;
         for (int j = 0; j < n; ++j) { s += (RLD)P(i, j) * m(x[j][0], x[j][1], x[j][2]); }
         MC_CHECK(fabsl(s) < 1e-12L, "projection-annihilates", e.name << ": projection of " << mn(m) << " at node " << i << " is " << (double)s);
      }
   }
   double tr = 0;
   for (int i = 0; i < n; ++i)
   {
      tr += P(i, i);
      for (int j = 0; j < n; ++j)
      {
         double s = 0;
         for (int k = 0; k < n; ++k) { s += P(i, k) * P(k, j); }
         MC_CHECK(close(s, P(i, j), 1e-12), "projection-idempotent", e.name << ": P*P differs from P at (" << i << "," << j << ")");
      }
   }
   MC_CHECK(close(tr, n - (int)monos(e.dim, e.p).size(), 1e-11), "projection-rank", e.name << ": trace of P is " << tr);
}

// metric-weighted entries and their reverse derivative
void metric()
{
   El e = element();
   int di = choose(e.dim, "direction");
   int jac = choose(4, "jacobian");
   int n = e.n, d = e.dim;
   auto adj = [&](int node)
   {
      DenseMatrix A(d);
      for (int k = 0; k < d; ++k) { for (int l = 0; l < d; ++l) { A(k, l) = jac == 0 ? (k == l) : val(jac, k + 3 * node * (jac > 1), l); } }
      return A;
   };
   std::vector<DenseMatrix> Q(d);
   for (int k = 0; k < d; ++k)
   {
      Q[k].SetSize(n);
      e.fe->getWeakOperator(k, Q[k]);
   }
   for (int i = 0; i < n; ++i)
   {
      DenseMatrix Ai = adj(i);
      double sym = 0;
      for (int k = 0; k < d; ++k) { sym += Ai(k, di) * Q[k](i, i); }
      MC_CHECK(close(e.fe->getSymEntry(di, i, Ai), sym, 1e-13), "sym-entry", e.name << ": symmetric entry at node " << i << " is " << e.fe->getSymEntry(di, i, Ai) << " instead of " << sym);
      for (int j = 0; j < n; ++j)
      {
         DenseMatrix Aj = adj(j);
         double sk = 0;
         for (int k = 0; k < d; ++k) { sk += Ai(k, di) * Q[k](i, j) - Aj(k, di) * Q[k](j, i); }
         double got = e.fe->getSkewEntry(di, i, j, Ai, Aj);
         MC_CHECK(close(got, sk, 1e-13), "skew-entry", e.name << ": skew entry (" << i << "," << j << ") is " << got << " instead of " << sk);
         MC_CHECK(close(got, -e.fe->getSkewEntry(di, j, i, Aj, Ai), 1e-13), "skew-symmetry", e.name << ": skew entry (" << i << "," << j << ") is not antisymmetric");
         double q = e.fe->getQEntry(di, i, j, Ai, Aj), qw = i == j ? sym : 0.5 * sk;
         MC_CHECK(close(q, qw, 1e-13), "q-entry", e.name << ": Q entry (" << i << "," << j << ") is " << q << " instead of " << qw);
         if (jac == 0 && e.diagE()) { MC_CHECK(fabs(q - Q[di](i, j)) < 1e-13, "q-entry-identity", e.name << ": with an identity map the Q entry (" << i << "," << j << ") is " << q << " instead of " << Q[di](i, j)); }
         // reverse mode: accumulates bar * dS/dA
         DenseMatrix bi(d), bj(d);
         for (int k = 0; k < d; ++k) { for (int l = 0; l < d; ++l) { bi(k, l) = 0.5 + k - l; bj(k, l) = -0.25 * k + l; } }
         double bar = 1.75;
         e.fe->getSkewEntryRevDiff(di, i, j, bar, bi, bj);
         for (int k = 0; k < d; ++k)
         {
            for (int l = 0; l < d; ++l)
            {
               DenseMatrix Ap(Ai), Bp(Aj);
               Ap(k, l) += 1.0;
               Bp(k, l) += 1.0;
               double gi = bar * (e.fe->getSkewEntry(di, i, j, Ap, Aj) - got), gj = bar * (e.fe->getSkewEntry(di, i, j, Ai, Bp) - got);
               MC_CHECK(fabs(bi(k, l) - (0.5 + k - l) - gi) < 1e-12 && fabs(bj(k, l) - (-0.25 * k + l) - gj) < 1e-12, "skew-revdiff", e.name << ": reverse derivative of skew entry (" << i << "," << j << ") component (" << k << "," << l << ")");
            }
         }
      }
   }
   // constants are differentiated exactly on an affine map: row sums vanish
   if (jac < 2 && e.diagE())
   {
      for (int i = 0; i < n; ++i)
      {
         double s = 0;
         for (int j = 0; j < n; ++j) { s += e.fe->getQEntry(di, i, j, adj(i), adj(j)); }
         MC_CHECK(fabs(s) < 1e-12, "freestream", e.name << ": row " << i << " of the physical operator sums to " << s);
      }
   }
}

// evaluation at nodes and at arbitrary points
void shapes()
{
   El e = element();
   std::vector<std::array<double, 3>> x;
   std::vector<double> w;
   nodes(e, x, w);
   int n = e.n;
   const IntegrationRule &ir = e.fe->GetNodes();
   Vector sh(n);
   DenseMatrix ds(n, e.dim);
   for (int i = 0; i < n; ++i)
   {
      e.fe->CalcShape(ir.IntPoint(i), sh);
      for (int j = 0; j < n; ++j) { MC_CHECK(sh(j) == (i == j), "nodal-shape", e.name << ": basis function " << j << " at node " << i << " is " << sh(j)); }
      IntegrationPoint copy = ir.IntPoint(i);
      for (int own = 0; own < 2; ++own)
      {
         ds = 7.0;
         e.fe->CalcDShape(own ? ir.IntPoint(i) : copy, ds);
         for (int d = 0; d < e.dim; ++d)
         {
            for (int j = 0; j < n; ++j)
            {
               MC_CHECK(close(ds(j, d) * w[i], e.fe->getQ(d, i, j), 1e-13), "nodal-dshape-row", e.name << ": gradient of basis function " << j << " at node " << i << " is not row " << i << " of the difference operator");
            }
            for (auto &m : monos(e.dim, e.p))
            {
               RLD s = 0;
               for (int j = 0; j < n; ++j) { s += (RLD)ds(j, d) * m(x[j][0], x[j][1], x[j][2]); }
               MC_CHECK(fabsl(s - m.d(d, x[i][0], x[i][1], x[i][2])) < 1e-11L, "nodal-dshape", e.name << ": derivative " << d << " of " << mn(m) << " through CalcDShape at node " << i << (own ? "" : " (copied point)") << " is " << (double)s << " instead of " << (double)m.d(d, x[i][0], x[i][1], x[i][2]));
            }
         }
      }
      MC_CHECK(e.fe->getIntegrationPointIndex(copy) == i, "point-index", e.name << ": node " << i << " is found as " << e.fe->getIntegrationPointIndex(copy));
   }
   // a grid of points of the closed element
   int g = e.dim == 3 ? 6 : 12;
   for (int a = 0; a <= g; ++a)
   {
      for (int b = 0; b <= (e.dim > 1 ? g - a : 0); ++b)
      {
         for (int c = 0; c <= (e.dim > 2 ? g - a - b : 0); ++c)
         {
            IntegrationPoint ip;
            ip.Init(0);
            ip.x = (double)a / g;
            ip.y = (double)b / g;
            ip.z = (double)c / g;
            sh = 3.0;
            e.fe->CalcShape(ip, sh);
            for (auto &m : monos(e.dim, e.p))
            {
               RLD s = 0;
               for (int j = 0; j < n; ++j) { s += (RLD)sh(j) * m(x[j][0], x[j][1], x[j][2]); }
               MC_CHECK(fabsl(s - m(ip.x, ip.y, ip.z)) < 1e-11L, "shape-reproduces", e.name << ": interpolating " << mn(m) << " to (" << ip.x << "," << ip.y << "," << ip.z << ") gives " << (double)s << " instead of " << (double)m(ip.x, ip.y, ip.z));
            }
            bool node = false;
            for (int i = 0; i < n; ++i) { node = node || (fabs(ip.x - x[i][0]) < 1e-6 && fabs(ip.y - x[i][1]) < 1e-6 && fabs(ip.z - x[i][2]) < 1e-6); }
            if (!node)
            {
               bool threw = false;
               try { e.fe->getIntegrationPointIndex(ip); }
               catch (const std::exception &) { threw = true; }
               MC_CHECK(threw, "point-index-offnode", e.name << ": a point that is not a node was given an index");
               // the gradient there must be exact for polynomials, or refused
               try
               {
                  ds = 7.0;
                  e.fe->CalcDShape(ip, ds);
                  for (int d = 0; d < e.dim; ++d)
                  {
                     for (auto &m : monos(e.dim, e.p))
                     {
                        RLD s = 0;
                        for (int j = 0; j < n; ++j) { s += (RLD)ds(j, d) * m(x[j][0], x[j][1], x[j][2]); }
                        MC_CHECK(fabsl(s - m.d(d, ip.x, ip.y, ip.z)) < 1e-10L, "offnode-dshape", e.name << ": gradient of " << mn(m) << " at a point that is not a node is wrong and was not refused");
                     }
                  }
               }
               catch (const std::exception &) { }
               catch (const MfemError &) { }
            }
         }
      }
   }
}
}  // namespace

int main(int argc, char **argv)
{
   return mc::run(argc, argv, "C06", []() { },
                  {{"quadrature", quadrature}, {"operators", operators}, {"products", products}, {"projection", projection}, {"metric", metric}, {"shapes", shapes}});
}
