// C05: the k-d tree always returns a nearest point
#include <cmath>
#include <set>
#include "mc.hpp"
#include "mfem.hpp"
#include "kdtree.hpp"

using namespace mc;
using mfem::Vector;
namespace
{
template <size_t dim>
struct Pt
{
   std::array<double, dim> c;
};

// all sequences of points over a grid alphabet, then every query of a finer grid
template <size_t dim>
void points(const std::vector<double> &vals, int maxn, const std::vector<double> &qv)
{
   int how = choose(3, "construction");
   int n = 1 + choose(maxn, "size");
   std::vector<std::array<double, dim>> pts(n);
   std::vector<int> idx(n);
   for (int i = 0; i < n; ++i)
   {
      int m = 1;
      for (size_t d = 0; d < dim; ++d) { m *= (int)vals.size(); }
      int c = choose(m, "point");
      for (size_t d = 0; d < dim; ++d)
      {
         pts[i][d] = vals[c % vals.size()];
         c /= (int)vals.size();
      }
      idx[i] = 100 - 7 * i;
   }
   Str id;
   id << "dim=" << dim << " how=" << how << " points:";
   for (auto &p : pts)
   {
      id << " (";
      for (size_t d = 0; d < dim; ++d) { id << (d ? "," : "") << p[d]; }
      id << ")";
   }
   note(id);
   typedef miso::kdtree<double, dim> Tree;
   std::unique_ptr<Tree> tree;
   if (how == 0)
   {
      tree.reset(new Tree());
      MC_CHECK(tree->empty(), "empty", "a new tree is not empty");
      tree->set_size(n);
      for (int i = 0; i < n; ++i)
      {
         Vector x(dim);
         for (size_t d = 0; d < dim; ++d) { x(d) = pts[i][d]; }
         tree->add_node(x, idx[i]);
      }
      tree->finalize();
   }
   else
   {
      std::vector<miso::point<double, dim>> v;
      for (auto &p : pts) { v.emplace_back(p); }
      if (how == 1) { tree.reset(new Tree(v.begin(), v.end())); }
      else
      {
         size_t k = 0;
         tree.reset(new Tree([&]() { return v[k++]; }, (size_t)n));
         MC_CHECK(k == (size_t)n, "generator-calls", std::string(id) << ": generator called " << k << " times");
      }
   }
   MC_CHECK(!tree->empty(), "empty", std::string(id) << ": empty() after adding points");
   int nq = 1;
   for (size_t d = 0; d < dim; ++d) { nq *= (int)qv.size(); }
   for (int q = 0; q < nq; ++q)
   {
      std::array<double, dim> y;
      int c = q;
      for (size_t d = 0; d < dim; ++d)
      {
         y[d] = qv[c % qv.size()];
         c /= (int)qv.size();
      }
      double best = HUGE_VAL;
      std::set<int> ok;
      for (int i = 0; i < n; ++i)
      {
         double s = 0;
         for (size_t d = 0; d < dim; ++d) { s += (y[d] - pts[i][d]) * (y[d] - pts[i][d]); }
         if (s < best * (1 - 1e-14) && s < best)
         {
            if (s < best * (1 - 1e-13) || best == 0) { ok.clear(); }
            best = s;
         }
         if (s <= best * (1 + 1e-13)) { ok.insert(idx[i]); }
      }
      int got = tree->nearest(miso::point<double, dim>(y));
      double d = tree->distance();
      Str qs;
      qs << std::string(id) << " query (";
      for (size_t k = 0; k < dim; ++k) { qs << (k ? "," : "") << y[k]; }
      qs << ")";
      MC_CHECK(close(d, std::sqrt(best), 1e-13), "distance", std::string(qs) << ": distance " << d << ", the nearest point is at " << std::sqrt(best));
      if (how == 0) { MC_CHECK(ok.count(got), "index", std::string(qs) << ": returned index " << got << " which is not a nearest point"); }
      MC_CHECK(tree->visited() >= 1 && tree->visited() <= (size_t)n, "visited", std::string(qs) << ": visited " << tree->visited() << " of " << n);
      outcome((uint64_t)(got + 1000) * 31 + tree->visited());
   }
}

void d1() { points<1>({0, 1, 2, 2.5}, thorough() ? 7 : 6, {-1, 0, 0.5, 0.6, 1, 1.5, 2, 2.25, 2.3, 9}); }
void d2() { points<2>({0, 1, 2}, thorough() ? 6 : 5, {-0.5, 0, 0.5, 0.7, 1.4, 2, 3}); }
void d2skew() { points<2>({0, 10}, thorough() ? 9 : 7, {-1, 0, 4, 5, 6.5, 10}); }
void d2aniso() { points<2>({0, 1, 1.5, 30}, thorough() ? 5 : 4, {-2, 0.4, 1.2, 16, 29, 40}); }
void d3() { points<3>({0, 1}, thorough() ? 6 : 5, {-0.3, 0.2, 0.5, 1.7}); }
void d3b() { points<3>({0, 1, 3}, thorough() ? 4 : 3, {-0.3, 0.4, 1.8, 2.2}); }

void empty()
{
   int how = choose(2, "how");
   std::vector<miso::point<double, 2>> none;
   std::unique_ptr<miso::kdtree<double, 2>> t(how ? new miso::kdtree<double, 2>(none.begin(), none.end()) : new miso::kdtree<double, 2>());
   if (!how) { t->set_size(3); t->finalize(); }
   MC_CHECK(t->empty(), "empty", "empty() is false for an empty tree");
   bool threw = false;
   try { t->nearest({0.0, 0.0}); }
   catch (const std::exception &) { threw = true; }
   MC_CHECK(threw, "empty-query", "nearest() on an empty tree did not throw");
}

// larger regular and degenerate sets: every query of a grid
void large()
{
   int kind = choose(5, "set");
   int n = pick<int>({7, 16, 31, 64, 100, 257}, "n");
   std::vector<std::array<double, 2>> pts;
   for (int i = 0; i < n; ++i)
   {
      double a = 0, b = 0;
      switch (kind)
      {
      case 0: a = i % 8; b = i / 8; break;
      case 1: a = i; b = -i; break;
      case 2: a = cos(2.4 * i) * sqrt(i); b = sin(2.4 * i) * sqrt(i); break;
      case 3: a = (i * 37) % 11; b = (i * 53) % 13; break;
      default: a = 0; b = i % 3; break;
      }
      pts.push_back({a, b});
   }
   miso::kdtree<double, 2> t;
   t.set_size(n);
   for (int i = 0; i < n; ++i)
   {
      Vector x(2);
      x(0) = pts[i][0];
      x(1) = pts[i][1];
      t.add_node(x, i);
   }
   t.finalize();
   int g = thorough() ? 60 : 25;
   note(Str() << "set " << kind << " n=" << n);
   for (int q = 0; q < g * g; ++q)
   {
      double x = -12 + 25.0 * (q % g) / g + 0.01, y = -12 + 27.0 * (q / g) / g + 0.003;
      double best = HUGE_VAL;
      for (auto &p : pts) { best = std::min(best, (p[0] - x) * (p[0] - x) + (p[1] - y) * (p[1] - y)); }
      int i = t.nearest({x, y});
      MC_CHECK(i >= 0 && i < n, "index", "index out of range");
      double di = (pts[i][0] - x) * (pts[i][0] - x) + (pts[i][1] - y) * (pts[i][1] - y);
      MC_CHECK(close(t.distance(), sqrt(best), 1e-12) && close(di, best, 1e-12), "large-nearest", "set " << kind << " n=" << n << " query " << x << "," << y << ": got " << t.distance() << " / point at " << sqrt(di) << " best " << sqrt(best));
   }
}
}  // namespace

int main(int argc, char **argv)
{
   return mc::run(argc, argv, "C05", []() { },
                  {{"dim1", d1}, {"dim2", d2}, {"dim2-square", d2skew}, {"dim2-anisotropic", d2aniso}, {"dim3", d3}, {"dim3b", d3b}, {"empty", empty}, {"large", large}});
}
