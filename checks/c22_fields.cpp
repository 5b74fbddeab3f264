// Finite element states and duals: construction, ownership, transfer to and
// from true dofs, projection, norms.
#include <cmath>
#include <limits>
#include <memory>
#include "mfem.hpp"
#include "finite_element_state.hpp"
#include "finite_element_dual.hpp"
#include "sbp_fe.hpp"
#include "mc.hpp"
using namespace mc;
using json = nlohmann::json;
using namespace mfem;
using miso::FiniteElementDual;
using miso::FiniteElementState;
using miso::FiniteElementVector;

namespace
{
enum Kind { CSBP, DSBP, H1, L2, ND, RT, NK };
const char *kname[] = {"csbp", "dsbp", "h1", "l2", "nd", "rt"};

struct Names { const char *s; Kind k; bool gd; };
const std::vector<Names> names = {
    {"CSBP", CSBP, false}, {"csbp", CSBP, false}, {"DSBP", DSBP, false}, {"dsbp", DSBP, false},
    {"H1", H1, false}, {"h1", H1, false}, {"CG", H1, false}, {"cg", H1, false},
    {"L2", L2, false}, {"l2", L2, false}, {"DG", L2, false}, {"dg", L2, false},
    {"ND", ND, false}, {"nd", ND, false}, {"nedelec", ND, false}, {"RT", RT, false}, {"rt", RT, false},
    {"H1", DSBP, true}, {"dsbp", DSBP, true}};

// mesh shapes: 0 segment, 1 tri, 2 quad, 3 tet, 4 hex, 5 hanging-node tri, 6 hanging-node quad, 7 hanging-node hex
const char *mname[] = {"seg", "tri", "quad", "tet", "hex", "nc-tri", "nc-quad", "nc-hex"};
std::unique_ptr<ParMesh> make_mesh(int m)
{
   Mesh s;
   switch (m)
   {
   case 0: s = Mesh::MakeCartesian1D(3, 1.5); break;
   case 1: s = Mesh::MakeCartesian2D(2, 2, Element::TRIANGLE, true, 1.0, 2.0); break;
   case 2: s = Mesh::MakeCartesian2D(2, 2, Element::QUADRILATERAL, true, 1.0, 2.0); break;
   case 3: s = Mesh::MakeCartesian3D(1, 1, 1, Element::TETRAHEDRON, 1.0, 2.0, 0.5); break;
   case 4: s = Mesh::MakeCartesian3D(2, 1, 1, Element::HEXAHEDRON, 1.0, 2.0, 0.5); break;
   case 5: s = Mesh::MakeCartesian2D(2, 1, Element::TRIANGLE, true, 1.0, 2.0); break;
   case 6: s = Mesh::MakeCartesian2D(2, 1, Element::QUADRILATERAL, true, 1.0, 2.0); break;
   case 7: s = Mesh::MakeCartesian3D(2, 1, 1, Element::HEXAHEDRON, 1.0, 2.0, 0.5); break;
   }
   if (m >= 5)
   {
      s.EnsureNCMesh(true);
      Array<int> ref;
      ref.Append(0);
      s.GeneralRefinement(ref, 1, 1);
   }
   for (int e = 0; e < s.GetNE(); ++e) { s.SetAttribute(e, 1 + e % 3); }
   s.SetAttributes();
   return std::make_unique<ParMesh>(MPI_COMM_WORLD, s);
}
int mdim(int m) { return m == 0 ? 1 : (m == 1 || m == 2 || m == 5 || m == 6) ? 2 : 3; }

bool supported(Kind k, int m, int order)
{
   int dim = mdim(m);
   switch (k)
   {
   case CSBP: return (m == 0 && order >= 1 && order <= 4) || (m == 1 && order <= 4) || (m == 3 && order <= 1);
   case DSBP: return m == 1 && order <= 4;
   case H1: return order >= 1;
   case L2: return true;
   case ND: return dim > 1 && order >= 1;
   case RT: return dim > 1;
   default: return false;
   }
}
std::unique_ptr<FiniteElementCollection> make_coll(Kind k, int order, int dim)
{
   switch (k)
   {
   case CSBP: return std::make_unique<SBPCollection>(order, dim);
   case DSBP: return std::make_unique<DSBPCollection>(order, dim);
   case H1: return std::make_unique<H1_FECollection>(order, dim);
   case L2: return std::make_unique<L2_FECollection>(order, dim);
   case ND: return std::make_unique<ND_FECollection>(order, dim);
   case RT: return std::make_unique<RT_FECollection>(order, dim);
   default: return nullptr;
   }
}
int max_order() { return thorough() ? 4 : 3; }

const Vector &local(const FiniteElementState &s) { return s.gridFunc(); }
const Vector &local(const FiniteElementDual &d) { return d.localVec(); }
Vector &local(FiniteElementState &s) { return s.gridFunc(); }
Vector &local(FiniteElementDual &d) { return d.localVec(); }

// the vector lives on (a space indistinguishable from) the reference space
template <class T>
void same_space(T &v, ParMesh &pm, const ParFiniteElementSpace &ref, const std::string &name, const std::string &key)
{
   auto &sp = v.space();
   MC_CHECK(&v.mesh() == &pm, key + ":mesh", "mesh() is not the mesh it was built on");
   MC_CHECK(sp.GetParMesh() == &pm, key + ":mesh", "space is on another mesh");
   MC_CHECK(v.comm() == pm.GetComm(), key + ":comm", "communicator");
   MC_CHECK(v.name() == name, key + ":name", "name '" << v.name() << "', wanted '" << name << "'");
   MC_CHECK(&v.coll() == sp.FEColl(), key + ":coll", "coll() is not the space's collection");
   MC_CHECK(std::string(v.coll().Name()) == ref.FEColl()->Name(), key + ":coll", "collection " << v.coll().Name() << ", wanted " << ref.FEColl()->Name());
   MC_CHECK(sp.GetVDim() == ref.GetVDim(), key + ":vdim", "vdim " << sp.GetVDim() << ", wanted " << ref.GetVDim());
   MC_CHECK(sp.GetOrdering() == ref.GetOrdering(), key + ":ordering", "ordering");
   MC_CHECK(sp.GetTrueVSize() == ref.GetTrueVSize() && sp.GetVSize() == ref.GetVSize(), key + ":size", "sizes " << sp.GetTrueVSize() << "/" << sp.GetVSize() << ", wanted " << ref.GetTrueVSize() << "/" << ref.GetVSize());
   MC_CHECK(local(v).Size() == ref.GetVSize(), key + ":size", "local vector size");
   Array<int> a, b;
   for (int e = 0; e < pm.GetNE(); ++e)
   {
      sp.GetElementVDofs(e, a);
      ref.GetElementVDofs(e, b);
      MC_CHECK(a.Size() == b.Size(), key + ":dofs", "element dofs");
      for (int i = 0; i < a.Size(); ++i) { MC_CHECK(a[i] == b[i], key + ":dofs", "element dofs"); }
      MC_CHECK(sp.GetFE(e)->GetOrder() == ref.GetFE(e)->GetOrder() && sp.GetFE(e)->GetDof() == ref.GetFE(e)->GetDof(), key + ":fe", "finite element");
   }
}
template <class T>
void is_zero(const T &v, const std::string &key)
{
   for (int i = 0; i < local(v).Size(); ++i) { MC_CHECK(local(v)[i] == 0.0, key + ":init", "entry " << i << " starts as " << local(v)[i]); }
}

template <class T>
void construct_one(int m, int how)
{
   auto pm = make_mesh(m);
   int dim = mdim(m);
   if (how == 0)  // options object
   {
      auto &nm = pick(names, "basis");
      int order = choose(max_order() + 1, "order");
      int ns = 1 + choose(5, "num_states");
      if (!supported(nm.k, m, order)) { prune(); }
      json o{{"basis-type", nm.s}, {"degree", order}};
      if (nm.gd) { o["GD"] = true; }
      else if (choose(2, "GD given")) { o["GD"] = false; }
      std::string nme = choose(2, "named") ? "field" : "";
      std::string key = Str() << "json:" << nm.s << (nm.gd ? "+GD" : "");
      note(Str() << mname[m] << " " << o.dump() << " ns=" << ns);
      T v(*pm, o, ns, nme);
      auto c = make_coll(nm.k, order, dim);
      ParFiniteElementSpace ref(pm.get(), c.get(), ns, Ordering::byVDIM);
      same_space(v, *pm, ref, nme, key);
      is_zero(v, key);
      outcome(Str() << v.coll().Name() << v.space().GetTrueVSize());
   }
   else if (how == 1)  // Options structure
   {
      int kind = choose(NK + 1, "collection");
      int order = choose(max_order() + 1, "order");
      int ns = 1 + choose(3, "num_states");
      auto ord = choose(2, "ordering") ? Ordering::byNODES : Ordering::byVDIM;
      Kind k = kind == NK ? H1 : (Kind)kind;
      if (!supported(k, m, order)) { prune(); }
      std::string key = Str() << "options:" << (kind == NK ? "default" : kname[k]);
      note(Str() << mname[m] << " " << key << " p" << order << " ns=" << ns);
      FiniteElementVector::Options op;
      op.order = order;
      op.num_states = ns;
      op.ordering = ord;
      op.name = "abc";
      if (kind != NK) { op.coll = make_coll(k, order, dim); }
      T v(*pm, std::move(op));
      auto c = make_coll(k, order, dim);
      ParFiniteElementSpace ref(pm.get(), c.get(), ns, ord);
      same_space(v, *pm, ref, "abc", key);
      is_zero(v, key);
   }
   else if (how == 2)  // all defaults
   {
      T v(*pm);
      H1_FECollection c(1, dim);
      ParFiniteElementSpace ref(pm.get(), &c, 1, Ordering::byVDIM);
      same_space(v, *pm, ref, "", "default");
      is_zero(v, "default");
   }
   else  // deep copy of somebody else's space, which then goes away
   {
      int kind = choose(NK, "collection");
      int order = choose(max_order() + 1, "order");
      int ns = 1 + choose(4, "num_states");
      auto ord = choose(2, "ordering") ? Ordering::byNODES : Ordering::byVDIM;
      Kind k = (Kind)kind;
      if (!supported(k, m, order)) { prune(); }
      std::string key = Str() << "copy:" << kname[k];
      note(Str() << mname[m] << " " << key << " p" << order << " ns=" << ns);
      auto c0 = make_coll(k, order, dim);
      auto sp0 = std::make_unique<ParFiniteElementSpace>(pm.get(), c0.get(), ns, ord);
      T v(*pm, *sp0, "copied");
      MC_CHECK(&v.space() != sp0.get() && &v.coll() != c0.get(), key + ":deep", "the space was not copied");
      sp0.reset();
      c0.reset();
      auto c = make_coll(k, order, dim);
      ParFiniteElementSpace ref(pm.get(), c.get(), ns, ord);
      same_space(v, *pm, ref, "copied", key);
      is_zero(v, key);
      local(v) = 2.0;
      Vector t(ref.GetTrueVSize());
      v.setTrueVec(t);
   }
}
void construct()
{
   int m = choose(5, "mesh");
   int how = choose(4, "constructor");
   if (choose(2, "state/dual")) { construct_one<FiniteElementDual>(m, how); }
   else { construct_one<FiniteElementState>(m, how); }
}

// every history of moves between three vectors: the content follows
template <class T>
void moves_one()
{
   const int N = 3;
   static const json opts[] = {{{"basis-type", "h1"}, {"degree", 1}}, {{"basis-type", "dsbp"}, {"degree", 1}}, {{"basis-type", "nd"}, {"degree", 2}}};
   auto pm = make_mesh(1), pm2 = make_mesh(2);
   std::vector<std::unique_ptr<T>> v(N);
   struct Model { int id = -1; double val = 0; };
   std::vector<Model> mod(N);
   std::vector<ParFiniteElementSpace *> spaces(N);
   for (int i = 0; i < N; ++i)
   {
      v[i] = std::make_unique<T>(*pm, opts[i], i + 1, "n" + std::to_string(i));
      spaces[i] = &v[i]->space();
      mod[i] = {i, 1.0 + i};
      local(*v[i]) = 1.0 + i;
   }
   int depth = thorough() ? 5 : 3;
   std::string hist;
   for (int d = 0; d < depth; ++d)
   {
      int op = choose(3, "op"), a = choose(N, "to"), b = choose(N, "from");
      if (op == 0)  // move assignment (a moved-from source may be assigned too)
      {
         if (a == b) { prune(); }
         *v[a] = std::move(*v[b]);
         mod[a] = mod[b];
         mod[b].id = -1;
      }
      else if (op == 1)  // move construction, replacing slot a
      {
         if (a == b) { prune(); }
         v[a] = std::make_unique<T>(std::move(*v[b]));
         mod[a] = mod[b];
         mod[b].id = -1;
      }
      else
      {
         if (mod[a].id < 0 || b != 0) { prune(); }
         local(*v[a]) = 10.0 + d;
         mod[a].val = 10.0 + d;
      }
      hist += Str() << "op" << op << "(" << a << "," << b << ") ";
      for (int i = 0; i < N; ++i)
      {
         if (mod[i].id < 0) { continue; }
         int id = mod[i].id;
         MC_CHECK(&v[i]->space() == spaces[id], "move:space", hist << ": slot " << i << " lost its space");
         MC_CHECK(&v[i]->coll() == spaces[id]->FEColl(), "move:coll", hist << ": slot " << i << " lost its collection");
         MC_CHECK(&v[i]->mesh() == pm.get(), "move:mesh", hist << ": slot " << i << " lost its mesh");
         MC_CHECK(v[i]->name() == "n" + std::to_string(id), "move:name", hist << ": slot " << i << " is called " << v[i]->name());
         MC_CHECK(local(*v[i]).Size() == spaces[id]->GetVSize(), "move:size", hist);
         for (int k = 0; k < local(*v[i]).Size(); ++k) { MC_CHECK(local(*v[i])[k] == mod[i].val, "move:values", hist << ": slot " << i); }
         Vector t(spaces[id]->GetTrueVSize());
         v[i]->setTrueVec(t);
         v[i]->distributeSharedDofs(t);
         step();
      }
   }
   note(hist);
}
void moves()
{
   if (choose(2, "state/dual")) { moves_one<FiniteElementDual>(); }
   else { moves_one<FiniteElementState>(); }
}

// true dofs: states by P and R, duals by their transposes
void transfer()
{
   int m = choose(8, "mesh"), dim = mdim(m);
   Kind k = (Kind)choose(NK, "collection");
   int order = choose(3, "order");
   int ns = 1 + choose(3, "num_states");
   if (!supported(k, m, order)) { prune(); }
   if ((k == ND || k == RT) && m == 7 && order > 1) { prune(); }
   std::string key = Str() << "transfer:" << mname[m] << ":" << kname[k];
   note(Str() << key << " p" << order << " ns=" << ns);
   auto pm = make_mesh(m);
   json o{{"basis-type", kname[k]}, {"degree", order}};
   FiniteElementState s(*pm, o, ns, "s");
   FiniteElementDual d(*pm, o, ns, "d");
   int nt = s.space().GetTrueVSize(), nl = s.space().GetVSize();
   if (nt > 400) { prune(); }
   outcome(Str() << nt << "/" << nl);
   // columns of the four maps
   DenseMatrix P(nl, nt), R(nt, nl), DP(nl, nt), DT(nt, nl);
   for (int j = 0; j < nt; ++j)
   {
      Vector t(nt);
      t = 0.0;
      t[j] = 1.0;
      s.gridFunc() = 77.0;
      d.localVec() = 77.0;
      s.distributeSharedDofs(t);
      d.distributeSharedDofs(t);
      for (int i = 0; i < nl; ++i) { P(i, j) = s.gridFunc()[i]; DP(i, j) = d.localVec()[i]; }
   }
   for (int j = 0; j < nl; ++j)
   {
      s.gridFunc() = 0.0;
      s.gridFunc()[j] = 1.0;
      d.localVec() = 0.0;
      d.localVec()[j] = 1.0;
      Vector t(nt), t2(nt);
      t = 77.0;
      t2 = 77.0;
      s.setTrueVec(t);
      d.setTrueVec(t2);
      MC_CHECK(t.Size() == nt && t2.Size() == nt, key + ":size", "true vector resized");
      for (int i = 0; i < nt; ++i) { R(i, j) = t[i]; DT(i, j) = t2[i]; }
      for (int i = 0; i < nl; ++i)
      {
         MC_CHECK(s.gridFunc()[i] == (i == j) && d.localVec()[i] == (i == j), key + ":const", "extracting the true dofs changed the field");
      }
   }
   step(nt + nl);
   // dual maps are the adjoints of the primal maps
   for (int i = 0; i < nl; ++i)
   {
      for (int j = 0; j < nt; ++j)
      {
         MC_CHECK(std::fabs(DT(j, i) - P(i, j)) < 1e-12, key + ":dual-set", "entry (" << j << "," << i << ") is " << DT(j, i) << ", prolongation has " << P(i, j));
         MC_CHECK(std::fabs(DP(i, j) - R(j, i)) < 1e-12, key + ":dual-distribute", "entry (" << i << "," << j << ") is " << DP(i, j) << ", restriction has " << R(j, i));
      }
   }
   // extracting what was distributed is the identity
   for (int i = 0; i < nt; ++i)
   {
      for (int j = 0; j < nt; ++j)
      {
         double a = 0, b = 0;
         for (int l = 0; l < nl; ++l) { a += R(i, l) * P(l, j); b += DT(i, l) * DP(l, j); }
         MC_CHECK(std::fabs(a - (i == j)) < 1e-12, key + ":round-trip", "state (" << i << "," << j << ") " << a);
         MC_CHECK(std::fabs(b - (i == j)) < 1e-12, key + ":dual-round-trip", "dual (" << i << "," << j << ") " << b);
      }
   }
   // a distributed H1 state is continuous, also across hanging nodes
   if (m >= 5 && k == H1)
   {
      MC_CHECK(nt < nl, key + ":constrained", "no constrained dofs: the scenario is vacuous");
      for (int j = 0; j < nt; ++j)
      {
         Vector t(nt);
         t = 0.0;
         t[j] = 1.0;
         s.distributeSharedDofs(t);
         GridFunction &g = s.gridFunc();
         for (int e = 0; e < pm->GetNE(); ++e)
         {
            const auto *fe = s.space().GetFE(e);
            // every node of this element, seen from the other elements
            for (int q = 0; q < fe->GetNodes().GetNPoints(); ++q)
            {
               Vector x;
               pm->GetElementTransformation(e)->Transform(fe->GetNodes().IntPoint(q), x);
               for (int c = 1; c <= ns; ++c)
               {
                  double mine = g.GetValue(e, fe->GetNodes().IntPoint(q), c);
                  for (int f = 0; f < pm->GetNE(); ++f)
                  {
                     if (f == e) { continue; }
                     auto *T = pm->GetElementTransformation(f);
                     InverseElementTransformation inv(T);
                     inv.SetPrintLevel(-1);
                     IntegrationPoint ip;
                     if (inv.Transform(x, ip) != InverseElementTransformation::Inside) { continue; }
                     if (!Geometry::CheckPoint(pm->GetElementBaseGeometry(f), ip, 1e-9)) { continue; }
                     double other = g.GetValue(f, ip, c);
                     MC_CHECK(std::fabs(mine - other) < 1e-10, key + ":continuity", "component " << c << " jumps by " << mine - other);
                  }
               }
            }
         }
         if (!thorough() && j > 12) { break; }
      }
   }
}

// polynomials: interpolation is exact and the true dofs are those of the field
double mono(int f, const Vector &x)
{
   double a = x[0], b = x.Size() > 1 ? x[1] : 0.0, c = x.Size() > 2 ? x[2] : 0.0;
   switch (f)
   {
   case 0: return 1.25;
   case 1: return a;
   case 2: return b + 2 * c;
   case 3: return a * a - b;
   case 4: return a * b + c * c;
   case 5: return a * a * a + b * b * c;
   default: return a * b * (a - b) + c;
   }
}
int mdeg(int f) { return f == 0 ? 0 : f <= 2 ? 1 : f <= 4 ? 2 : 3; }
void project()
{
   int m = choose(5, "mesh");
   int dim = mdim(m);
   Kind k = (Kind)choose(NK, "collection");
   int order = choose(max_order() + 1, "order");
   int f = choose(7, "function");
   int how = choose(4, "coefficient kind");
   if (!supported(k, m, order)) { prune(); }
   bool vecfe = k == ND || k == RT;
   bool vec = how >= 2;
   int ns = vecfe ? 1 : vec ? 1 + choose(4, "num_states") : 1;
   if (vecfe && (!vec || f != 0)) { prune(); }
   auto pm = make_mesh(m);
   json o{{"basis-type", kname[k]}, {"degree", order}};
   FiniteElementState s(*pm, o, ns, "s");
   std::string key = Str() << "project:" << kname[k] << ":" << (vec ? "vector" : "scalar");
   note(Str() << key << " " << mname[m] << " p" << order << " f" << f << " ns" << ns);
   int vd = s.gridFunc().VectorDim();
   if (vecfe) { MC_CHECK(vd == dim, key, "VectorDim " << vd); }
   Vector t(s.space().GetTrueVSize());
   t = 99.0;
   s.gridFunc() = 99.0;
   auto val = [&](int c, const Vector &x) { return (c + 1) * mono(f, x) - 3.0 * c; };
   int calls_size_wrong = 0;
   std::function<double(const Vector &)> sf = [&](const Vector &x) { return val(0, x); };
   std::function<void(const Vector &, Vector &)> vf = [&](const Vector &x, Vector &u)
   {
      if (u.Size() != vd) { ++calls_size_wrong; return; }
      for (int c = 0; c < vd; ++c) { u[c] = val(c, x); }
   };
   FunctionCoefficient sc(sf);
   VectorFunctionCoefficient vc(vd, vf);
   if (how == 0) { s.project(sf, t); }
   else if (how == 1) { s.project(sc, t); }
   else if (how == 2) { s.project(vf, t); }
   else { s.project(vc, t); }
   MC_CHECK(calls_size_wrong == 0, key + ":vdim", "the vector function got a vector of the wrong length");
   // the true vector is the field's
   Vector t2(t.Size());
   s.setTrueVec(t2);
   FiniteElementState s2(*pm, o, ns, "s2");
   s2.distributeSharedDofs(t);
   for (int i = 0; i < t.Size(); ++i) { MC_CHECK(t[i] == t2[i] && std::isfinite(t[i]), key + ":true-dofs", "true dof " << i); }
   for (int i = 0; i < s.gridFunc().Size(); ++i) { MC_CHECK(std::fabs(s.gridFunc()[i] - s2.gridFunc()[i]) < 1e-13, key + ":true-dofs", "local dof " << i); }
   // nodal interpolation: exact at the nodes always, everywhere if the degree suffices
   for (int e = 0; e < pm->GetNE(); ++e)
   {
      auto *T = pm->GetElementTransformation(e);
      const auto *fe = s.space().GetFE(e);
      std::vector<const IntegrationPoint *> pts;
      if (!vecfe) { for (int q = 0; q < fe->GetNodes().GetNPoints(); ++q) { pts.push_back(&fe->GetNodes().IntPoint(q)); } }
      if (k != CSBP && k != DSBP && mdeg(f) <= order)
      {
         auto &ir = IntRules.Get(pm->GetElementBaseGeometry(e), 3);
         for (int q = 0; q < ir.GetNPoints(); ++q) { pts.push_back(&ir.IntPoint(q)); }
      }
      for (auto *pp : pts)
      {
         auto &ip = *pp;  // the address matters to SBP elements
         T->SetIntPoint(&ip);
         Vector x, u;
         T->Transform(ip, x);
         if (vecfe) { s.gridFunc().GetVectorValue(*T, ip, u); }
         else
         {
            u.SetSize(vd);
            for (int c = 0; c < vd; ++c) { u[c] = s.gridFunc().GetValue(e, ip, c + 1); }
         }
         for (int c = 0; c < vd; ++c) { MC_CHECK(std::fabs(u[c] - val(c, x)) < 1e-10, key + ":value", "component " << c << " is " << u[c] << ", wanted " << val(c, x)); }
         step();
      }
      // the coefficients that refer to the field
      if (!vecfe && how == 0)
      {
         auto gc = s.gridFuncCoef();
         auto &ip = *pts[0];
         T->SetIntPoint(&ip);
         MC_CHECK(gc.Eval(*T, ip) == s.gridFunc().GetValue(e, ip), key + ":coef", "grid function coefficient");
      }
      if (how == 2)
      {
         auto gc = s.vectorGridFuncCoef();
         MC_CHECK(gc.GetVDim() == vd, key + ":coef", "vector coefficient dimension");
         IntegrationPoint ip = IntRules.Get(pm->GetElementBaseGeometry(e), 1).IntPoint(0);
         T->SetIntPoint(&ip);
         Vector u, w;
         gc.Eval(u, *T, ip);
         s.gridFunc().GetVectorValue(*T, ip, w);
         for (int c = 0; c < vd; ++c) { MC_CHECK(u[c] == w[c], key + ":coef", "vector grid function coefficient"); }
      }
   }
}

// norms of errors that are constant on every element, which any consistent
// quadrature integrates exactly
struct ByAttr : Coefficient
{
   std::vector<double> v;
   double Eval(ElementTransformation &T, const IntegrationPoint &) override { return v[T.Attribute - 1]; }
};
struct VecByAttr : VectorCoefficient
{
   std::vector<std::vector<double>> v;  // [attr][component]
   VecByAttr(int d) : VectorCoefficient(d) { }
   using VectorCoefficient::Eval;
   void Eval(Vector &u, ElementTransformation &T, const IntegrationPoint &) override
   {
      u.SetSize(vdim);
      for (int c = 0; c < vdim; ++c) { u[c] = v[T.Attribute - 1][c]; }
   }
};
const double INF = std::numeric_limits<double>::infinity();
long double lp(double p, const std::vector<double> &err, const std::vector<double> &vol)
{
   if (p == INF)
   {
      long double r = 0;
      for (double e : err) { r = std::max(r, std::fabs((long double)e)); }
      return r;
   }
   long double s = 0;
   for (size_t i = 0; i < err.size(); ++i) { s += (long double)vol[i] * std::pow(std::fabs((long double)err[i]), (long double)p); }
   return std::pow(s, 1.0L / p);
}
const std::vector<double> ps = {1.0, 2.0, 3.0, 1.5, INF};
void norms()
{
   int m = choose(7, "mesh");
   if (m == 5) { prune(); }
   Kind k = (Kind)choose(NK, "collection");
   int order = choose(3, "order");
   if (!supported(k, m, order)) { prune(); }
   bool vecfe = k == ND || k == RT;
   int ns = vecfe ? 1 : 1 + choose(4, "num_states");
   auto pm = make_mesh(m);
   int dim = mdim(m);
   json o{{"basis-type", kname[k]}, {"degree", order}};
   FiniteElementState s(*pm, o, ns, "s");
   int vd = s.gridFunc().VectorDim();
   // the state is constant in space, the exact solution differs by attribute
   const std::vector<double> vals = {-1.5, 0.0, 0.75, 2.0};
   int base = choose((int)vals.size(), "state value");
   int ex = choose(8, "exact values");
   double p = pick(ps, "p");
   int entry = -1 + choose(vd + 1, "entry");
   note(Str() << mname[m] << " " << kname[k] << " p" << order << " ns" << ns << " p=" << p << " entry=" << entry << " state=" << vals[base] << " exact#" << ex);
   std::vector<double> u(vd);
   for (int c = 0; c < vd; ++c) { u[c] = vals[(base + c) % vals.size()]; }
   Vector uv(vd), t(s.space().GetTrueVSize());
   for (int c = 0; c < vd; ++c) { uv[c] = u[c]; }
   VectorConstantCoefficient uc(uv);
   ConstantCoefficient us(u[0]);
   if (vd > 1 || vecfe) { s.project(uc, t); }
   else { s.project(us, t); }
   VecByAttr ve(vd);
   ve.v.assign(3, std::vector<double>(vd));
   for (int a = 0; a < 3; ++a) { for (int c = 0; c < vd; ++c) { ve.v[a][c] = u[c] + (((ex >> ((a + c) % 3)) & 1) ? -(0.5 + a + 0.25 * c) : (1.0 + 0.5 * a + c)); } }
   // measure of the elements
   std::vector<double> vol(pm->GetNE()), err(pm->GetNE());
   for (int e = 0; e < pm->GetNE(); ++e) { vol[e] = pm->GetElementVolume(e); }
   double tol = 1e-11;
   auto chk = [&](double got, double pp, const std::string &what)
   {
      long double w = lp(pp, err, vol);
      MC_CHECK(std::fabs(got - w) <= tol * (1 + std::fabs(w)), Str() << "norm:" << what, "got " << got << ", wanted " << (double)w << " (p=" << pp << ", entry " << entry << ")");
      step();
   };
   auto before = s.gridFunc();
   if (vd == 1 && !vecfe)
   {
      if (entry >= 0)
      {
         // the vector interface for a one-component state
         for (int e = 0; e < pm->GetNE(); ++e) { err[e] = u[0] - ve.v[pm->GetAttribute(e) - 1][0]; }
         chk(miso::calcLpError(s, ve, p, entry), p, "vector-entry");
         chk(miso::calcL2Error(s, ve, entry), 2, "L2-vector-entry");
      }
      else
      {
         ByAttr sc;
         for (int a = 0; a < 3; ++a) { sc.v.push_back(ve.v[a][0]); }
         for (int e = 0; e < pm->GetNE(); ++e) { err[e] = u[0] - sc.v[pm->GetAttribute(e) - 1]; }
         chk(miso::calcLpError(s, sc, p), p, "scalar");
         chk(miso::calcL2Error(s, sc), 2, "L2-scalar");
         if (p == 2) { chk(miso::calcLpError(s, sc), 2, "scalar-default-p"); }
         double c0 = ve.v[0][0];
         for (auto &e : err) { e = u[0] - c0; }
         chk(miso::calcLpError(s, [&](const Vector &) { return c0; }, p), p, "scalar-function");
         for (auto &e : err) { e = u[0]; }
         chk(miso::calcLpNorm(s, p), p, "norm-scalar");
         if (p == 2) { chk(miso::calcLpNorm(s), 2, "norm-default-p"); }
      }
   }
   else
   {
      auto combine = [&](auto f)
      {
         for (int e = 0; e < pm->GetNE(); ++e)
         {
            int a = pm->GetAttribute(e) - 1;
            double q = 0;
            if (entry >= 0) { q = f(a, entry); }
            else
            {
               for (int c = 0; c < vd; ++c) { q += f(a, c) * f(a, c); }
               q = std::sqrt(q);
            }
            err[e] = q;
         }
      };
      std::string w = entry >= 0 ? "vector-entry" : "vector";
      combine([&](int a, int c) { return u[c] - ve.v[a][c]; });
      chk(miso::calcLpError(s, ve, p, entry), p, w);
      chk(miso::calcL2Error(s, ve, entry), 2, "L2-" + w);
      if (entry < 0 && p == 2) { chk(miso::calcLpError(s, ve), 2, "vector-defaults"); }
      combine([&](int, int c) { return u[c] - ve.v[1][c]; });
      chk(miso::calcLpError(s, [&](const Vector &, Vector &w) { for (int c = 0; c < vd; ++c) { w[c] = ve.v[1][c]; } }, p, entry), p, w + "-function");
      if (entry < 0)
      {
         combine([&](int, int c) { return u[c]; });
         chk(miso::calcLpNorm(s, p), p, "norm-vector");
      }
   }
   (void)dim;
   // measuring leaves the field alone
   for (int i = 0; i < before.Size(); ++i) { MC_CHECK(before[i] == s.gridFunc()[i], "norm:const", "the field was changed"); }
}

// polynomial errors of the degree of the space: quadrature is exact for p=2
void poly_norms()
{
   int m = choose(5, "mesh");
   Kind k = choose(2, "collection") ? L2 : H1;
   int order = 1 + choose(2, "order");
   int f = choose(5, "function"), g = choose(5, "exact");
   int vec = choose(2, "vector");
   if (mdeg(f) > order || mdeg(g) > order) { prune(); }
   auto pm = make_mesh(m);
   int ns = vec ? 2 : 1;
   json o{{"basis-type", kname[k]}, {"degree", order}};
   FiniteElementState s(*pm, o, ns, "s");
   note(Str() << mname[m] << " " << kname[k] << " p" << order << " f" << f << " g" << g);
   Vector t(s.space().GetTrueVSize());
   long double want = 0, want1 = 0;
   for (int e = 0; e < pm->GetNE(); ++e)
   {
      auto *T = pm->GetElementTransformation(e);
      auto &ir = IntRules.Get(pm->GetElementBaseGeometry(e), 9);
      for (int q = 0; q < ir.GetNPoints(); ++q)
      {
         auto &ip = ir.IntPoint(q);
         T->SetIntPoint(&ip);
         Vector x;
         T->Transform(ip, x);
         double d0 = mono(f, x) - mono(g, x), d1 = 2 * mono(g, x) - mono(f, x);
         want += ip.weight * T->Weight() * (d0 * d0 + (vec ? d1 * d1 : 0));
         want1 += ip.weight * T->Weight() * d1 * d1;
      }
   }
   auto ok = [&](double a, long double w, const char *what) { MC_CHECK(std::fabs(a - std::sqrt(w)) < 1e-11 * (1 + std::sqrt(w)), Str() << "poly:" << what, "got " << a << ", wanted " << (double)std::sqrt(w)); step(); };
   if (vec)
   {
      s.project([&](const Vector &x, Vector &u) { u[0] = mono(f, x); u[1] = 2 * mono(g, x); }, t);
      VectorFunctionCoefficient c(2, [&](const Vector &x, Vector &u) { u[0] = mono(g, x); u[1] = mono(f, x); });
      ok(miso::calcL2Error(s, c, -1), want, "L2-vector");
      ok(miso::calcLpError(s, c, 2, -1), want, "Lp-vector");
      ok(miso::calcL2Error(s, c, 1), want1, "L2-entry");
      ok(miso::calcLpError(s, c, 2, 1), want1, "Lp-entry");
   }
   else
   {
      s.project([&](const Vector &x) { return mono(f, x); }, t);
      FunctionCoefficient c([&](const Vector &x) { return mono(g, x); });
      ok(miso::calcL2Error(s, c), want, "L2-scalar");
      ok(miso::calcLpError(s, c, 2), want, "Lp-scalar");
   }
}
}  // namespace

int main(int argc, char **argv)
{
   return run(argc, argv, "C22", []() { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
              {{"construct", construct}, {"moves", moves}, {"transfer", transfer}, {"project", project}, {"norms", norms}, {"poly_norms", poly_norms}});
}
