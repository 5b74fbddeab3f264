// Boundary markers from options, and the quarter-annulus mesh.
#include <algorithm>
#include <cmath>
#include <random>
#include <set>
#include "mfem.hpp"
#include "utils.hpp"
#include "mc.hpp"
using namespace mc;
using json = nlohmann::json;

// the mesh generator may only use std::random_device for the perturbation: the
// explorer supplies its values
static std::vector<unsigned> g_seeds{1u, 2u, 77u, 0xffffffffu};
static unsigned g_seed = 1;
static long g_used = 0;
namespace std
{
void random_device::_M_init(const std::string &) { }
void random_device::_M_fini() { }
random_device::result_type random_device::_M_getval()
{
   ++g_used;
   return g_seed;
}
double random_device::_M_getentropy() const noexcept { return 32.0; }
}  // namespace std

namespace
{
void marker_check(const json &b, int n)
{
   mfem::Array<int> arr(n + 4);
   // guard entries behind the view that is handed over
   for (int i = 0; i < n + 4; ++i) { arr[i] = 7; }
   mfem::Array<int> view(arr.GetData() + 2, n);
   bool ok = true;
   std::vector<int> want(n, 0);
   if (b.is_string())
   {
      auto s = b.get<std::string>();
      if (s == "all") { want.assign(n, 1); }
      else if (s != "none") { ok = false; }
   }
   else if (b.is_array())
   {
      for (auto &e : b)
      {
         int a = e.get<int>();
         if (a < 1 || a > n) { ok = false; }
         else { want[a - 1] = 1; }
      }
   }
   else { ok = false; }
   bool threw = false;
   try
   {
      miso::getMFEMBoundaryArray(b, view);
   }
   catch (const miso::MISOException &)
   {
      threw = true;
   }
   std::string key = Str() << "marker boundary=" << b.dump() << " n=" << n;
   MC_CHECK(threw == !ok, key, (threw ? "refused" : "accepted") << " although it should be the other way round");
   for (int i : {0, 1, n + 2, n + 3})
   {
      MC_CHECK(arr[i] == 7, key, "memory outside of the marker array was changed");
   }
   if (ok)
   {
      MC_CHECK(view.Size() == n, key, "size of the marker changed to " << view.Size());
      for (int i = 0; i < n; ++i)
      {
         MC_CHECK(view[i] == want[i], key, "attribute " << i + 1 << " marked " << view[i] << ", expected " << want[i]);
      }
   }
   note(key);
   outcome(key);
}

void markers()
{
   int n = 1 + choose(thorough() ? 5 : 4, "n");
   int len = choose((thorough() ? 5 : 4) + 1, "len");
   json b = json::array();
   for (int i = 0; i < len; ++i) { b.push_back(choose(n + 3, "attr") - 1); }  // -1 .. n+1
   marker_check(b, n);
}

void marker_kinds()
{
   static const std::vector<json> kinds{"all", "none", "All", "", "NONE", "1", json(), json(1), json(0), json(true), json::object(),
                                        json{{"a", 1}}, json(2.5), json::array()};
   marker_check(pick(kinds, "kind"), 1 + choose(4, "n"));
}

// repeated use of one marker: nothing of the previous call survives
void marker_history()
{
   int n = 3;
   mfem::Array<int> m(n);
   m = 9;
   std::string h;
   for (int s = 0; s < 3; ++s)
   {
      int c = choose(10, "op");
      std::vector<int> want(n, 0);
      if (c == 8)
      {
         miso::getMFEMBoundaryArray("all", m);
         want.assign(n, 1);
      }
      else if (c == 9) { miso::getMFEMBoundaryArray("none", m); }
      else
      {
         std::vector<int> l;
         for (int i = 0; i < n; ++i)
         {
            if (c >> i & 1)
            {
               l.push_back(i + 1);
               want[i] = 1;
            }
         }
         if (s == 1) { miso::attrVecToArray(l, m); }
         else { miso::getMFEMBoundaryArray(l, m); }
      }
      h += Str() << c << ",";
      for (int i = 0; i < n; ++i) { MC_CHECK(m[i] == want[i], "marker history " + h, "attribute " << i + 1 << " marked " << m[i]); }
   }
   note(h);
   outcome(h);
}

void annulus()
{
   int deg = 1 + choose(4, "degree");
   int nr = 1 + choose(thorough() ? 6 : 3, "nr"), na = 1 + choose(thorough() ? 6 : 3, "na");
   static const std::vector<double> perts{0.0, 0.05, 0.2};
   double pert = pick(perts, "pert");
   g_seed = pert > 0 ? pick(g_seeds, "random value") : 1;
   g_used = 0;
   std::string key = Str() << "annulus degree=" << deg << " nr=" << nr << " na=" << na << " pert=" << pert << " seed=" << g_seed;
   note(key);
   auto mesh = pert > 0 ? miso::buildQuarterAnnulusMesh(deg, nr, na, pert) : miso::buildQuarterAnnulusMesh(deg, nr, na);
   MC_CHECK(mesh != nullptr, key, "no mesh");
   MC_CHECK(mesh->Dimension() == 2 && mesh->SpaceDimension() == 2, key, "dimension");
   MC_CHECK(mesh->GetNE() == 2 * nr * na, key, "elements " << mesh->GetNE());
   MC_CHECK(mesh->GetNV() == (nr + 1) * (na + 1), key, "vertices " << mesh->GetNV());
   MC_CHECK(mesh->GetNBE() == 2 * (nr + na), key, "boundary elements " << mesh->GetNBE());
   auto *nodes = mesh->GetNodes();
   MC_CHECK(nodes != nullptr, key, "no nodes");
   auto *fes = nodes->FESpace();
   MC_CHECK(fes->GetVDim() == 2 && fes->GetOrdering() == mfem::Ordering::byVDIM, key, "node space");
   MC_CHECK(fes->GetMaxElementOrder() == deg, key, "degree of the mapping " << fes->GetMaxElementOrder());
   MC_CHECK(dynamic_cast<const mfem::H1_FECollection *>(fes->FEColl()) != nullptr, key, "mapping is not continuous Lagrange");
   int nd = fes->GetNDofs();
   MC_CHECK(nd == (deg * nr + 1) * (deg * na + 1), key, "nodes " << nd);
   // (r, theta) of every node
   std::vector<double> R(nd), T(nd);
   double hr = 2.0 / nr, ha = M_PI_2 / na;
   for (int i = 0; i < nd; ++i)
   {
      double x = (*nodes)(2 * i), y = (*nodes)(2 * i + 1);
      R[i] = std::hypot(x, y);
      T[i] = std::atan2(y, x);
      fingerprint(x);
      fingerprint(y);
      MC_CHECK(R[i] > 1 - 1e-12 && R[i] < 3 + 1e-12, key, "radius " << R[i]);
      MC_CHECK(T[i] > -1e-12 && T[i] < M_PI_2 + 1e-12, key, "angle " << T[i]);
   }
   int moved = 0;
   double area = 0.0;
   for (int e = 0; e < mesh->GetNE(); ++e)
   {
      MC_CHECK(mesh->GetElementType(e) == mfem::Element::TRIANGLE, key, "not a triangle");
      mfem::Array<int> dofs, v;
      fes->GetElementDofs(e, dofs);
      mesh->GetElementVertices(e, v);
      const auto &ir = fes->GetFE(e)->GetNodes();
      // the element is affine in (r,theta): vertices are its first three nodes
      double r0 = R[dofs[0]], r1 = R[dofs[1]], r2 = R[dofs[2]], t0 = T[dofs[0]], t1 = T[dofs[1]], t2 = T[dofs[2]];
      double det = (r1 - r0) * (t2 - t0) - (r2 - r0) * (t1 - t0);
      MC_CHECK(det > 0, key, "element " << e << " is inverted in (r,theta)");
      if (pert == 0) { MC_CHECK(close(det, hr * ha, 1e-12), key, "element " << e << " has (r,theta) area " << det / 2); }
      area += det / 2;
      for (int i = 0; i < dofs.Size(); ++i)
      {
         double a = ir.IntPoint(i).x, b = ir.IntPoint(i).y;
         double r = r0 + a * (r1 - r0) + b * (r2 - r0), t = t0 + a * (t1 - t0) + b * (t2 - t0);
         MC_CHECK(close(R[dofs[i]], r, 1e-12) && close(T[dofs[i]], t, 1e-12), key,
                  "node " << i << " of element " << e << " at r=" << R[dofs[i]] << " theta=" << T[dofs[i]] << ", expected r=" << r
                          << " theta=" << t);
      }
      for (int i = 0; i < 3; ++i)
      {
         // distance to the nearest lattice point; boundary vertices stay put
         double lr = std::round((R[dofs[i]] - 1) / hr), la = std::round(T[dofs[i]] / ha);
         double dr = R[dofs[i]] - 1 - lr * hr, da = T[dofs[i]] - la * ha;
         bool bdr = lr <= 0 || lr >= nr || la <= 0 || la >= na;
         double lim = pert == 0 || bdr ? 0.0 : pert;
         MC_CHECK(std::fabs(dr) <= lim * hr + 1e-12 && std::fabs(da) <= lim * ha + 1e-12, key,
                  "vertex moved by " << dr / hr << " and " << da / ha << " cells");
         if (std::fabs(dr) > 1e-10) { ++moved; }
      }
      // valid map at the nodes and at quadrature points
      auto *tr = mesh->GetElementTransformation(e);
      for (const auto *rule : {&ir, &mfem::IntRules.Get(mfem::Geometry::TRIANGLE, 4)})
      {
         for (int i = 0; i < rule->GetNPoints(); ++i)
         {
            tr->SetIntPoint(&rule->IntPoint(i));
            // coarse low-degree maps of a quarter circle are still valid
            MC_CHECK(tr->Weight() > 0, key, "Jacobian " << tr->Weight() << " in element " << e);
         }
      }
   }
   MC_CHECK(close(area, M_PI, 1e-12), key, "area in (r,theta) " << area);
   if (pert > 0 && nr > 1 && na > 1) { MC_CHECK(moved > 0 && g_used > 0, key, "no interior vertex was perturbed"); }
   if (pert == 0) { MC_CHECK(g_used == 0, key, "randomness used without a perturbation"); }
   // boundary: every side is recognisable by its attribute
   std::vector<int> cnt(5, 0);
   for (int i = 0; i < mesh->GetNBE(); ++i)
   {
      mfem::Array<int> dofs;
      fes->GetBdrElementDofs(i, dofs);
      int a = mesh->GetBdrAttribute(i);
      MC_CHECK(a >= 1 && a <= 4, key, "boundary attribute " << a);
      ++cnt[a];
      for (int d : dofs)
      {
         double v = a == 1 ? T[d] : a == 2 ? R[d] - 3 : a == 3 ? T[d] - M_PI_2 : R[d] - 1;
         MC_CHECK(std::fabs(v) < 1e-12, key, "boundary node of attribute " << a << " is off its side by " << v);
      }
   }
   MC_CHECK(cnt[1] == nr && cnt[3] == nr && cnt[2] == na && cnt[4] == na, key, "boundary attributes");
}
}  // namespace

int main(int argc, char **argv)
{
   return run(argc, argv, "C21", [] {}, {{"markers", markers}, {"marker_kinds", marker_kinds}, {"marker_history", marker_history}, {"annulus", annulus}});
}
