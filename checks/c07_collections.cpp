// C07: SBP finite element collections assemble conforming spaces
#include <algorithm>
#include <cmath>
#include <map>
#include <numeric>
#include "mc.hpp"
#include "mfem.hpp"
#include "mfem_throw.hpp"
#include "sbp_fe.hpp"

using namespace mc;
using namespace mfem;
namespace
{
typedef std::array<double, 3> P3;
bool near(const P3 &a, const P3 &b) { return fabs(a[0] - b[0]) + fabs(a[1] - b[1]) + fabs(a[2] - b[2]) < 1e-9; }
P3 phys(ElementTransformation &T, const IntegrationPoint &ip)
{
   double b[3] = {0, 0, 0};
   Vector v(b, T.GetSpaceDim());
   T.Transform(ip, v);
   return {b[0], b[1], b[2]};
}

// dof -> position is a function, and injective for the continuous spaces;
// boundary dofs sit where the boundary element's nodes are
void conformity(Mesh &mesh, FiniteElementCollection &fec, bool cont, int expect_el, const std::string &id)
{
   FiniteElementSpace fes(&mesh, &fec);
   int n = fes.GetNDofs();
   std::vector<bool> seen(n, false);
   std::vector<P3> pos(n);
   std::vector<int> owner(n, -1);
   for (int e = 0; e < mesh.GetNE(); ++e)
   {
      Array<int> dofs;
      fes.GetElementDofs(e, dofs);
      const FiniteElement *fe = fes.GetFE(e);
      MC_CHECK(dofs.Size() == fe->GetDof() && dofs.Size() == expect_el, "element-dofs", id << ": element " << e << " has " << dofs.Size() << " dofs, its finite element " << fe->GetDof());
      ElementTransformation *T = mesh.GetElementTransformation(e);
      for (int i = 0; i < dofs.Size(); ++i)
      {
         int d = dofs[i];
         mc::fingerprint(d);
         MC_CHECK(d >= 0 && d < n, "dof-range", id << ": element " << e << " node " << i << " has dof " << d);
         P3 x = phys(*T, fe->GetNodes().IntPoint(i));
         if (!seen[d])
         {
            seen[d] = true;
            pos[d] = x;
            owner[d] = e;
         }
         else
         {
            MC_CHECK(cont, "shared-dof", id << ": dof " << d << " shared by elements " << owner[d] << " and " << e << " of a discontinuous space");
            MC_CHECK(near(pos[d], x), "conformity", id << ": dof " << d << " is at (" << pos[d][0] << "," << pos[d][1] << "," << pos[d][2] << ") in element " << owner[d] << " and at (" << x[0] << "," << x[1] << "," << x[2] << ") in element " << e);
         }
      }
   }
   for (int d = 0; d < n; ++d)
   {
      MC_CHECK(seen[d], "unused-dof", id << ": dof " << d << " belongs to no element");
      if (cont) { for (int c = 0; c < d; ++c) { MC_CHECK(!near(pos[c], pos[d]), "duplicate-dof", id << ": dofs " << c << " and " << d << " are at the same point"); } }
   }
   if (!cont)
   {
      MC_CHECK(n == expect_el * mesh.GetNE(), "dof-count", id << ": " << n << " dofs");
      return;
   }
   for (int b = 0; b < mesh.GetNBE(); ++b)
   {
      Array<int> dofs;
      fes.GetBdrElementDofs(b, dofs);
      const FiniteElement *fe = fes.GetBE(b);
      ElementTransformation *T = mesh.GetBdrElementTransformation(b);
      if (fe == nullptr) { continue; }
      if (mesh.Dimension() == 3 && fe->GetDof() != dofs.Size()) { fail("boundary-dof-count", id + ": boundary element has a different number of dofs than its finite element"); }
      MC_CHECK(dofs.Size() == fe->GetDof(), "boundary-dof-count", id << ": boundary element " << b << " has " << dofs.Size() << " dofs, its finite element " << fe->GetDof());
      for (int i = 0; i < dofs.Size(); ++i)
      {
         P3 x = phys(*T, fe->GetNodes().IntPoint(i));
         int d = dofs[i] >= 0 ? dofs[i] : -1 - dofs[i];
         MC_CHECK(near(pos[d], x), "boundary-dof", id << ": node " << i << " of boundary element " << b << " is at (" << x[0] << "," << x[1] << "," << x[2] << ") but its dof " << d << " is at (" << pos[d][0] << "," << pos[d][1] << "," << pos[d][2] << ")");
      }
   }
   // trace: edge/face finite elements match the dofs of the faces
   for (int f = 0; f < mesh.GetNumFaces(); ++f)
   {
      if (mesh.Dimension() == 1) { break; }
      const FiniteElement *fe = mesh.Dimension() == 2 ? fes.GetEdgeElement(f) : fes.GetFaceElement(f);
      if (!fe) { continue; }
      Array<int> dofs;
      if (mesh.Dimension() == 2) { fes.GetEdgeDofs(f, dofs); }
      else { fes.GetFaceDofs(f, dofs); }
      MC_CHECK(dofs.Size() == fe->GetDof(), "face-dof-count", id << ": face " << f << " has " << dofs.Size() << " dofs, its finite element " << fe->GetDof());
      ElementTransformation *T = mesh.Dimension() == 2 ? nullptr : mesh.GetFaceTransformation(f);
      Array<int> ev;
      if (!T) { mesh.GetEdgeVertices(f, ev); }
      for (int i = 0; i < dofs.Size(); ++i)
      {
         P3 x{0, 0, 0};
         if (T) { x = phys(*T, fe->GetNodes().IntPoint(i)); }
         else
         {
            double t = fe->GetNodes().IntPoint(i).x;
            for (int d = 0; d < 2; ++d) { x[d] = (1 - t) * mesh.GetVertex(ev[0])[d] + t * mesh.GetVertex(ev[1])[d]; }
         }
         MC_CHECK(near(pos[dofs[i]], x), "face-dof", id << ": node " << i << " of face " << f << " is at (" << x[0] << "," << x[1] << "," << x[2] << ") but its dof " << dofs[i] << " is at (" << pos[dofs[i]][0] << "," << pos[dofs[i]][1] << "," << pos[dofs[i]][2] << ")");
      }
   }
}

std::vector<int> perm(int n, int k)
{
   std::vector<int> p(n);
   std::iota(p.begin(), p.end(), 0);
   while (k--) { std::next_permutation(p.begin(), p.end()); }
   return p;
}
const int tri_dof[5] = {3, 7, 12, 18, 27};

// two triangles: every global vertex numbering, every local numbering, every boundary-edge direction
void tri2()
{
   int p = choose(5, "degree");
   bool cont = choose(2, "continuous");
   int g = choose(24, "global numbering"), a = choose(6, "first triangle"), b = choose(6, "second triangle"), rev = choose(2, "reversed boundary");
   // quadrilateral 0,1,2,3 cut along 0-2
   double X[4][2] = {{0, 0}, {1.1, 0.1}, {1.3, 0.9}, {-0.2, 1.0}};
   auto gp = perm(4, g), pa = perm(3, a), pb = perm(3, b);
   std::vector<int> inv(4);
   for (int i = 0; i < 4; ++i) { inv[gp[i]] = i; }
   Mesh mesh(2, 4, 2, 4, 2);
   for (int i = 0; i < 4; ++i) { mesh.AddVertex(X[gp[i]]); }
   int t1[3] = {0, 1, 2}, t2[3] = {0, 2, 3}, v[3];
   for (int i = 0; i < 3; ++i) { v[i] = inv[t1[pa[i]]]; }
   mesh.AddTriangle(v[0], v[1], v[2]);
   for (int i = 0; i < 3; ++i) { v[i] = inv[t2[pb[i]]]; }
   mesh.AddTriangle(v[0], v[1], v[2]);
   for (int i = 0; i < 4; ++i)
   {
      int s = inv[i], t = inv[(i + 1) % 4];
      if (rev) { std::swap(s, t); }
      mesh.AddBdrSegment(s, t);
   }
   mesh.FinalizeTriMesh(1, 0, false);
   std::string id = Str() << "two triangles degree " << p << (cont ? "" : " discontinuous") << " numbering " << g << "/" << a << "/" << b << (rev ? " reversed boundary" : "");
   note(id);
   std::unique_ptr<FiniteElementCollection> fec(cont ? (FiniteElementCollection *)new SBPCollection(p, 2) : new DSBPCollection(p, 2));
   conformity(mesh, *fec, cont, tri_dof[p], id);
}
// structured and refined meshes
void trimesh()
{
   int p = choose(5, "degree");
   bool cont = choose(2, "continuous");
   int nx = 1 + choose(3, "nx"), ny = 1 + choose(3, "ny");
   int ref = choose(3, "refinements");
   if (nx * ny > 4 && ref > 1) { prune(); }
   Mesh mesh(Mesh::MakeCartesian2D(nx, ny, Element::TRIANGLE, true, 1.0, 1.7));
   for (int r = 0; r < ref; ++r) { mesh.UniformRefinement(); }
   std::string id = Str() << nx << "x" << ny << " triangulation refined " << ref << " degree " << p << (cont ? "" : " discontinuous");
   note(id);
   std::unique_ptr<FiniteElementCollection> fec(cont ? (FiniteElementCollection *)new SBPCollection(p, 2) : new DSBPCollection(p, 2));
   conformity(mesh, *fec, cont, tri_dof[p], id);
}
// segments
void segs()
{
   int p = choose(5, "degree");
   int ne = 1 + choose(4, "elements");
   int flip = choose(1 << ne, "flipped elements");
   Mesh mesh(1, ne + 1, ne, 2, 1);
   for (int i = 0; i <= ne; ++i)
   {
      double x = i * i * 0.3 + i;
      mesh.AddVertex(&x);
   }
   for (int i = 0; i < ne; ++i)
   {
      if (flip >> i & 1) { mesh.AddSegment(i + 1, i); }
      else { mesh.AddSegment(i, i + 1); }
   }
   mesh.AddBdrPoint(0);
   mesh.AddBdrPoint(ne);
   mesh.FinalizeTopology();
   mesh.Finalize();
   std::string id = Str() << ne << " segments degree " << p << " flips " << flip;
   note(id);
   SBPCollection fec(p, 1);
   conformity(mesh, fec, true, p + 2, id);
}
// two tetrahedra sharing a face: every local numbering
void tet2()
{
   int p = choose(2, "degree");
   int a = choose(24, "first tetrahedron"), b = choose(24, "second tetrahedron"), g = choose(thorough() ? 120 : 24, "global numbering");
   double X[5][3] = {{0, 0, 0}, {1, 0.1, 0}, {0, 1.1, 0.1}, {0.2, 0.1, 1.0}, {0.9, 0.8, 0.95}};
   auto gp = perm(5, thorough() ? g : g * 5), pa = perm(4, a), pb = perm(4, b);
   std::vector<int> inv(5);
   for (int i = 0; i < 5; ++i) { inv[gp[i]] = i; }
   Mesh mesh(3, 5, 2, 0, 3);
   for (int i = 0; i < 5; ++i) { mesh.AddVertex(X[gp[i]]); }
   int t1[4] = {0, 1, 2, 3}, t2[4] = {1, 2, 3, 4}, v[4];
   for (int i = 0; i < 4; ++i) { v[i] = inv[t1[pa[i]]]; }
   mesh.AddTet(v[0], v[1], v[2], v[3]);
   for (int i = 0; i < 4; ++i) { v[i] = inv[t2[pb[i]]]; }
   mesh.AddTet(v[0], v[1], v[2], v[3]);
   mesh.FinalizeTetMesh(1, 0, false);
   std::string id = Str() << "two tetrahedra degree " << p << " numbering " << g << "/" << a << "/" << b;
   note(id);
   SBPCollection fec(p, 3);
   conformity(mesh, fec, true, p ? 14 : 4, id);
}
void tetmesh()
{
   int p = choose(2, "degree");
   int n = 1 + choose(2, "n");
   int ref = choose(2, "refine");
   Mesh mesh(Mesh::MakeCartesian3D(n, 1, n, Element::TETRAHEDRON, 1.0, 1.3, 0.7));
   if (ref) { mesh.UniformRefinement(); }
   std::string id = Str() << "tetrahedral mesh " << n << " refined " << ref << " degree " << p;
   note(id);
   SBPCollection fec(p, 3);
   conformity(mesh, fec, true, p ? 14 : 4, id);
}
// names are what FiniteElementCollection consumers rely on; unsupported requests are refused
void misc()
{
   int p = choose(7, "degree") - 1, dim = 1 + choose(3, "dim");
   bool cont = choose(2, "continuous");
   bool supported = p >= 0 && p <= 4 && (cont ? (dim < 3 || p <= 1) : dim == 2);
   std::string id = Str() << (cont ? "SBPCollection(" : "DSBPCollection(") << p << "," << dim << ")";
   note(id);
   bool threw = false;
   std::unique_ptr<FiniteElementCollection> fec;
   try { fec.reset(cont ? (FiniteElementCollection *)new SBPCollection(p, dim) : new DSBPCollection(p, dim)); }
   catch (const MfemError &) { threw = true; }
   MC_CHECK(threw == !supported, "unsupported", id << (threw ? " was refused" : " was accepted"));
   if (!threw)
   {
      MC_CHECK(fec->GetContType() == (cont ? FiniteElementCollection::CONTINUOUS : FiniteElementCollection::DISCONTINUOUS), "continuity-type", id);
      const FiniteElement *fe = fec->FiniteElementForGeometry(dim == 1 ? Geometry::SEGMENT : dim == 2 ? Geometry::TRIANGLE : Geometry::TETRAHEDRON);
      MC_CHECK(fe && fe->GetOrder() == p && fe->GetDim() == dim, "element-order", id << ": wrong element");
   }
}
}  // namespace

int main(int argc, char **argv)
{
   return mc::run(argc, argv, "C07", []() { }, {{"two-triangles", tri2}, {"triangulations", trimesh}, {"segments", segs}, {"two-tetrahedra", tet2}, {"tetrahedralizations", tetmesh}, {"supported", misc}});
}
