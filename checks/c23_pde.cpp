// PDESolver: mesh loading, fields and duals, coordinates, states and errors,
// hooks, materials.
#include <cmath>
#include <fstream>
#include "mfem_throw.hpp"
#include "mfem.hpp"
#include "pde_solver.hpp"
#include "material_library.hpp"
#include "sbp_fe.hpp"
#include "mc.hpp"
using namespace mc;
using json = nlohmann::json;
using namespace mfem;
using miso::FiniteElementState;

namespace
{
struct Null : std::streambuf { int overflow(int c) override { return c; } } nullbuf;
struct Quiet { std::streambuf *o; Quiet() : o(std::cout.rdbuf(&nullbuf)) { } ~Quiet() { std::cout.rdbuf(o); } };

struct FakeRes
{
   int n;
   friend int getSize(const FakeRes &r) { return r.n; }
   friend void setInputs(FakeRes &, const miso::MISOInputs &) { }
   friend void setOptions(FakeRes &, const json &) { }
   friend double evaluate(FakeRes &, const miso::MISOInputs &) { return 0; }
   friend void evaluate(FakeRes &, const miso::MISOInputs &, Vector &r) { r = 0.0; }
   friend Operator &getJacobian(FakeRes &, const miso::MISOInputs &, const std::string &) { throw 1; }
   friend MPI_Comm getMPIComm(const FakeRes &) { return MPI_COMM_SELF; }
};
struct Call { int kind, iter; double t, dt; Vector s; };
class Solver : public miso::PDESolver
{
public:
   using miso::PDESolver::PDESolver;
   ~Solver() override { MPI_Comm_free(&comm); }
   using miso::PDESolver::adjoint;
   using miso::PDESolver::comm;
   using miso::PDESolver::duals;
   using miso::PDESolver::fes;
   using miso::PDESolver::fields;
   using miso::PDESolver::initialHook;
   using miso::PDESolver::iterationHook;
   using miso::PDESolver::materials;
   using miso::PDESolver::mesh;
   using miso::PDESolver::res_vec;
   using miso::PDESolver::spatial_res;
   using miso::PDESolver::state;
   using miso::PDESolver::terminalHook;
   std::vector<Call> calls;
   void addOutput(const std::string &, const json &) override { }
   void derivedPDEInitialHook(const Vector &s) override { calls.push_back({0, 0, 0, 0, s}); }
   void derivedPDEIterationHook(int i, double t, double dt, const Vector &s) override { calls.push_back({1, i, t, dt, s}); }
   void derivedPDETerminalHook(int i, double t, const Vector &s) override { calls.push_back({2, i, t, 0, s}); }
};

// mesh kinds: linear tri/quad/tet, segments, with or without nodes, curved
const int NMESH = 8;
Mesh serial(int k)
{
   Mesh s;
   switch (k)
   {
   case 0: s = Mesh::MakeCartesian2D(2, 1, Element::TRIANGLE, true, 1.0, 2.0); break;
   case 1: s = Mesh::MakeCartesian2D(2, 2, Element::QUADRILATERAL, true, 1.0, 2.0); break;
   case 2: s = Mesh::MakeCartesian2D(2, 1, Element::TRIANGLE, true, 1.0, 2.0); s.SetCurvature(1, false, -1, Ordering::byVDIM); break;
   case 3: s = Mesh::MakeCartesian2D(1, 2, Element::TRIANGLE, true, 1.0, 2.0); s.SetCurvature(2, false, -1, Ordering::byNODES); break;
   case 4: s = Mesh::MakeCartesian3D(1, 1, 1, Element::TETRAHEDRON, 1.0, 1.0, 2.0); break;
   case 5: s = Mesh::MakeCartesian2D(1, 1, Element::TRIANGLE, true, 1.0, 2.0); s.SetCurvature(2, true, 3, Ordering::byVDIM); break;
   case 6: s = Mesh::MakeCartesian1D(3, 2.0); break;
   case 7:  // a hanging node: local and true dofs differ
      s = Mesh::MakeCartesian2D(2, 1, Element::QUADRILATERAL, true, 1.0, 2.0);
      break;
   }
   if (k == 3 || k == 5)
   {
      auto bend = [](const Vector &x, Vector &y) { y = x; y[0] += 0.1 * x[1] * x[1]; };
      s.Transform(bend);
   }
   if (k == 7)
   {
      for (int e = 0; e < s.GetNE(); ++e) { s.SetAttribute(e, 1 + e % 2); }
      s.EnsureNCMesh();
      Array<int> r(1);
      r[0] = 0;
      s.GeneralRefinement(r, 1);
      return s;
   }
   for (int e = 0; e < s.GetNE(); ++e) { s.SetAttribute(e, 1 + e % 2); }
   s.SetAttributes();
   return s;
}
bool curved(int k) { return k == 2 || k == 3 || k == 5; }
void same_mesh(ParMesh &p, const Mesh &s, const std::string &key)
{
   MC_CHECK(p.Dimension() == s.Dimension() && p.GetNE() == s.GetNE() && p.GetNV() == s.GetNV() && p.GetNBE() == s.GetNBE(), key, "mesh sizes differ");
   MC_CHECK(p.SpaceDimension() == s.SpaceDimension(), key, "space dimension");
   Mesh &ms = const_cast<Mesh &>(s);
   for (int se = 0; se < s.GetNE(); ++se)
   {
      // elements of a nonconforming mesh may be renumbered
      int e = se;
      Vector c1, c2;
      ms.GetElementCenter(se, c1);
      for (int o = 0; o < p.GetNE() && s.Nonconforming(); ++o)
      {
         p.GetElementCenter(o, c2);
         if (c1.DistanceTo(c2) < 1e-10) { e = o; }
      }
      MC_CHECK(p.GetAttribute(e) == s.GetAttribute(se) && p.GetElementBaseGeometry(e) == s.GetElementBaseGeometry(se), key, "element " << e);
      auto &ir = IntRules.Get(p.GetElementBaseGeometry(e), 4);
      for (int q = 0; q < ir.GetNPoints(); ++q)
      {
         Vector x, y;
         p.GetElementTransformation(e)->Transform(ir.IntPoint(q), x);
         ms.GetElementTransformation(se)->Transform(ir.IntPoint(q), y);
         for (int d = 0; d < x.Size(); ++d) { MC_CHECK(close(x[d], y[d], 1e-12), key, "geometry of element " << e); }
      }
   }
   std::vector<std::vector<int>> a, b;
   auto bdr = [](const Mesh &m)
   {
      std::vector<std::vector<int>> r;
      for (int i = 0; i < m.GetNBE(); ++i)
      {
         Array<int> v;
         m.GetBdrElementVertices(i, v);
         std::vector<int> w(v.begin(), v.end());
         std::sort(w.begin(), w.end());
         w.push_back(m.GetBdrAttribute(i));
         r.push_back(w);
      }
      std::sort(r.begin(), r.end());
      return r;
   };
   MC_CHECK(bdr(p) == bdr(s), key, "boundary elements or their attributes differ");
}

void load_mesh()
{
   int k = choose(NMESH, "mesh");
   int given = choose(2, "serial mesh given");
   static const std::vector<std::string> files = {"a.mesh", "./dir.x/a.mesh", "a.b.mesh", "noext", "a.smb", "a.ugrid", "a.msh2", "a.mesh.gzz", "a.MESH"};
   int f = choose((int)files.size(), "file");
   int keepb = choose(2, "keep boundaries");
   const auto &file = files[f];
   note(Str() << file << " mesh " << k << (given ? " given" : ""));
   ::system("mkdir -p dir.x");
   auto s = serial(k), other = serial((k + 1) % NMESH);
   for (auto &n : {"a.mesh", "dir.x/a.mesh", "a.b.mesh", "a.MESH", "noext", "a.msh2"})
   {
      // the file holds another mesh when one is passed in
      std::ofstream os(n);
      os.precision(16);
      (given ? other : s).Print(os);
   }
   std::unique_ptr<Mesh> sm;
   if (given) { sm = std::make_unique<Mesh>(s); }
   bool ok = given ? f != 3 : f <= 2;
   bool threw = false;
   json o{{"file", file}, {"model-file", "none.dmg"}};
   miso::MISOMesh m;
   try { m = miso::constructMesh(MPI_COMM_WORLD, o, std::move(sm), keepb); }
   catch (const miso::MISOException &) { threw = true; }
   std::string key = Str() << "mesh:" << (given ? "given" : "file");
   MC_CHECK(threw == !ok, key + ":refusal", file << (threw ? " was refused" : " was accepted"));
   if (!ok) { outcome("refused"); return; }
   MC_CHECK(m.mesh != nullptr && m.mesh->GetNodes() != nullptr, key + ":nodes", "no nodes");
   MC_CHECK(dynamic_cast<ParGridFunction *>(m.mesh->GetNodes()) != nullptr, key + ":nodes", "nodes are not a parallel grid function");
   same_mesh(*m.mesh, s, key + ":mesh");
   outcome(Str() << m.mesh->GetNE() << "/" << m.mesh->GetNV());
}

const std::vector<json> spaces = {
    {{"basis-type", "h1"}, {"degree", 1}}, {{"basis-type", "h1"}, {"degree", 2}}, {{"basis-type", "l2"}, {"degree", 1}},
    {{"basis-type", "dsbp"}, {"degree", 1}}, {{"basis-type", "csbp"}, {"degree", 2}}, {{"basis-type", "nd"}, {"degree", 1}}};
bool tri2d(int k) { return k == 0 || k == 2 || k == 3; }
bool ok_space(const json &s, int k)
{
   auto b = s["basis-type"].get<std::string>();
   if (b == "dsbp" || b == "csbp") { return tri2d(k); }
   if (b == "nd") { return k != 6 && k != 5; }
   return true;
}
std::unique_ptr<FiniteElementCollection> coll(const json &s, int dim)
{
   auto b = s["basis-type"].get<std::string>();
   int p = s["degree"];
   if (b == "h1") { return std::make_unique<H1_FECollection>(p, dim); }
   if (b == "l2") { return std::make_unique<L2_FECollection>(p, dim); }
   if (b == "nd") { return std::make_unique<ND_FECollection>(p, dim); }
   if (b == "dsbp") { return std::make_unique<DSBPCollection>(p, dim); }
   return std::make_unique<SBPCollection>(p, dim);
}
struct Ext { std::string name; json o; int ns; };
std::vector<Ext> ext(int k)
{
   if (k == 0) { return {}; }
   if (k == 1) { return {{"temp", {{"basis-type", "h1"}, {"degree", 1}, {"num-states", 1}}, 1}}; }
   return {{"x_dot", {{"basis-type", "l2"}, {"degree", 0}, {"num-states", 3}}, 3}, {"alpha", {{"basis-type", "h1"}, {"degree", 2}, {"num-states", 2}}, 2}};
}
json options_of(const json &space, const std::vector<Ext> &ex)
{
   json o{{"silent", true}, {"print-options", false}, {"mesh", {{"file", "x.mesh"}}}, {"space-dis", space}};
   for (auto &e : ex) { o["external-fields"][e.name] = e.o; }
   return o;
}
std::unique_ptr<Solver> make(int k, const json &o, int ns, int how)
{
   auto sm = std::make_unique<Mesh>(serial(k));
   if (how == 0) { return std::make_unique<Solver>(MPI_COMM_WORLD, o, ns, std::move(sm)); }
   int sd = sm->SpaceDimension();
   std::function<int(const json &, int)> g = [&, sd](const json &got, int dim)
   {
      if (got != o || dim != sd) { fail("num-states", Str() << "num_states was asked with dimension " << dim << " and options " << got.dump()); }
      return ns;
   };
   return std::make_unique<Solver>(MPI_COMM_WORLD, o, g, std::move(sm));
}

template <class V>
void field_is(V &v, const json &space, int ns, const std::string &name, ParMesh &pm, const std::string &key)
{
   auto c = coll(space, pm.Dimension());
   ParFiniteElementSpace ref(&pm, c.get(), ns, Ordering::byVDIM);
   MC_CHECK(v.name() == name, key, name << " is called " << v.name());
   MC_CHECK(&v.mesh() == &pm, key, name << " is on another mesh");
   MC_CHECK(std::string(v.coll().Name()) == c->Name(), key, name << " uses " << v.coll().Name());
   MC_CHECK(v.space().GetVDim() == ns && v.space().GetOrdering() == Ordering::byVDIM, key, name << " has " << v.space().GetVDim() << " components");
   MC_CHECK(v.space().GetTrueVSize() == ref.GetTrueVSize(), key, name << " size " << v.space().GetTrueVSize());
}

void fields()
{
   int k = choose(NMESH, "mesh");
   const auto &space = pick(spaces, "space");
   int ns = 1 + choose(3, "num_states");
   int e = choose(3, "external fields");
   int how = choose(2, "constructor");
   if (!ok_space(space, k) || (k == 5 && e)) { prune(); }
   if (k == 6 && space["basis-type"] != "h1" && space["basis-type"] != "l2") { prune(); }
   auto ex = ext(e);
   auto o = options_of(space, ex);
   note(Str() << "mesh " << k << " " << space.dump() << " ns " << ns << " ext " << e << " ctor " << how);
   Quiet q;
   auto s0 = serial(k);
   auto s = make(k, o, ns, how);
   auto &pm = s->mesh();
   std::string key = "fields";
   field_is(s->fields.at("state"), space, ns, "state", pm, key);
   field_is(s->fields.at("adjoint"), space, ns, "adjoint", pm, key);
   field_is(s->fields.at("dirichlet_bc"), space, ns, "dirichlet_bc", pm, key);
   field_is(s->duals.at("residual"), space, ns, "residual", pm, key);
   for (auto &x : ex)
   {
      MC_CHECK(s->fields.count(x.name) == 1, key + ":external", "no field " << x.name);
      field_is(s->fields.at(x.name), x.o, x.ns, x.name, pm, key + ":external");
   }
   MC_CHECK(s->fields.size() == 4 + ex.size() && s->duals.size() == 1, key, s->fields.size() << " fields");
   MC_CHECK(&s->getState() == &s->fields.at("state") && &s->state() == &s->getState() && &s->adjoint() == &s->fields.at("adjoint") && &s->getResVec() == &s->duals.at("residual") && &s->res_vec() == &s->getResVec(), key + ":access", "accessors");
   MC_CHECK(&s->fes() == &s->getState().space() && s->getNumStates() == ns, key + ":access", "num states " << s->getNumStates());
   // sizes by name
   int n = s->fields.at("state").space().GetTrueVSize();
   s->spatial_res = std::make_unique<miso::MISOResidual>(FakeRes{n});
   for (auto &nm : {"state", "residual", "adjoint", "dirichlet_bc"}) { MC_CHECK(s->getFieldSize(nm) == n, key + ":size", nm << " has size " << s->getFieldSize(nm)); }
   for (auto &x : ex) { MC_CHECK(s->getFieldSize(x.name) == s->fields.at(x.name).space().GetTrueVSize(), key + ":size", x.name << " has size " << s->getFieldSize(x.name)); }
   int nc = s->fields.at("mesh_coords").space().GetTrueVSize();
   MC_CHECK(s->getFieldSize("mesh_coords") == nc, key + ":size", "mesh_coords");
   for (auto &nm : {"", "State", "nothing", "mesh"}) { MC_CHECK(s->getFieldSize(nm) == 0, key + ":size", "unknown field " << nm); }
   // the mesh and the coordinate field are one
   auto &mc_f = s->fields.at("mesh_coords");
   MC_CHECK(pm.GetNodes() == &mc_f.gridFunc(), "coords:nodes", "the mesh does not use the coordinate field");
   MC_CHECK(mc_f.name() == "mesh_coords" && &mc_f.mesh() == &pm && mc_f.space().GetVDim() == s0.SpaceDimension(), "coords:field", "coordinate field");
   same_mesh(pm, s0, "coords:geometry");
   Vector x(nc), y(nc);
   s->getMeshCoordinates(x);
   MC_CHECK(x.Size() == nc, "coords:size", "coordinates have size " << x.Size());
   mc_f.distributeSharedDofs(x);
   same_mesh(pm, s0, "coords:roundtrip");
   // changing the field moves the mesh
   Vector before, after;
   IntegrationPoint ip = IntRules.Get(pm.GetElementBaseGeometry(0), 1).IntPoint(0);
   pm.GetElementTransformation(0)->Transform(ip, before);
   y = x;
   for (int i = 0; i < nc; ++i) { y[i] = 2 * x[i] + 1; }
   mc_f.distributeSharedDofs(y);
   pm.GetElementTransformation(0)->Transform(ip, after);
   for (int d = 0; d < before.Size(); ++d) { MC_CHECK(close(after[d], 2 * before[d] + 1, 1e-12), "coords:move", "the mesh did not follow"); }
   step(4 + ex.size());
   outcome(Str() << n << "/" << nc);
}

double fun(int f, const Vector &x)
{
   return f == 0 ? 2.5 : f == 1 ? 1 + x[0] - (x.Size() > 1 ? 3 * x[1] : 0) : x[0] * x[0] + 0.5;
}
void states()
{
   static const std::vector<int> ms = {0, 1, 4, 6};
   int k = pick(ms, "mesh");
   const auto &space = spaces[choose(5, "space")];
   if (!ok_space(space, k)) { prune(); }
   int e = 2;
   auto ex = ext(e);
   static const std::vector<std::string> nms = {"state", "adjoint", "dirichlet_bc", "x_dot", "alpha", "mesh_coords"};
   const auto &name = pick(nms, "field");
   int how = choose(6, "kind of function");
   int f = choose(3, "function"), g = choose(3, "exact");
   bool vec = how == 2 || how == 3;
   int ns = how < 2 ? 1 : 2;
   if (how < 2 && (name == "x_dot" || name == "alpha" || name == "mesh_coords")) { prune(); }
   Quiet q;
   auto s = make(k, options_of(space, ex), ns, 0);
   auto &fld = s->fields.at(name);
   int vd = fld.space().GetVDim();
   int n = fld.space().GetTrueVSize();
   note(Str() << "mesh " << k << " " << space.dump() << " " << name << " how " << how << " f" << f << " g" << g);
   FunctionCoefficient sc([&](const Vector &x) { return fun(f, x); });
   auto vf = [&](const Vector &x, Vector &u) { for (int c = 0; c < vd; ++c) { u[c] = (c + 1) * fun(f, x); } };
   auto vg = [&](const Vector &x, Vector &u) { for (int c = 0; c < vd; ++c) { u[c] = (c + 2) * fun(g, x) - 1; } };
   VectorFunctionCoefficient vc(vd, vf), vgc(vd, vg);
   FunctionCoefficient sg([&](const Vector &x) { return fun(g, x); });
   Vector st(n);
   st = 77.0;
   std::map<std::string, Vector> others;
   for (auto &[nm, fl] : s->fields) { others[nm] = Vector(fl.gridFunc()); }
   s->spatial_res = std::make_unique<miso::MISOResidual>(FakeRes{n});
   std::string key = Str() << "state:" << (how < 2 ? "scalar" : how < 4 ? "vector" : "dofs");
   switch (how)
   {
   case 0: s->setState([&](const Vector &x) { return fun(f, x); }, st, name); break;
   case 1: s->setState(sc, st, name); break;
   case 2: s->setState([&](const Vector &x, Vector &u) { vf(x, u); }, st, name); break;
   case 3: s->setState(vc, st, name); break;
   default: s->setState([&](Vector &v) { for (int i = 0; i < v.Size(); ++i) { v[i] = 1 + i * (f + 1); } }, st, name); break;
   }
   // reference: an independent field on the same kind of space
   auto c = name == "mesh_coords" ? nullptr : coll(name == "x_dot" || name == "alpha" ? (name == "x_dot" ? ex[0].o : ex[1].o) : space, s->mesh().Dimension());
   std::unique_ptr<ParFiniteElementSpace> rs = c ? std::make_unique<ParFiniteElementSpace>(&s->mesh(), c.get(), vd, Ordering::byVDIM) : std::make_unique<ParFiniteElementSpace>(&s->mesh(), fld.space().FEColl(), vd, fld.space().GetOrdering());
   ParGridFunction rg(rs.get());
   Vector want(n);
   if (how < 2) { rg.ProjectCoefficient(sc); rg.GetTrueDofs(want); }
   else if (how < 4) { rg.ProjectCoefficient(vc); rg.GetTrueDofs(want); }
   else { for (int i = 0; i < n; ++i) { want[i] = 1 + i * (f + 1); } }
   MC_CHECK(st.Size() == n, key + ":size", "state resized");
   bool moved = name == "mesh_coords" && how < 4;
   for (int i = 0; i < n && !moved; ++i) { MC_CHECK(close(st[i], want[i], 1e-12), key + ":true-dofs", name << ": dof " << i << " is " << st[i] << ", wanted " << want[i]); }
   if (how < 4 && !moved)
   {
      for (int i = 0; i < rg.Size(); ++i) { MC_CHECK(close(fld.gridFunc()[i], rg[i], 1e-12), key + ":field", name << ": local dof " << i); }
      if (name == "state")
      {
         auto &bc = s->fields.at("dirichlet_bc").gridFunc();
         for (int i = 0; i < rg.Size(); ++i) { MC_CHECK(close(bc[i], rg[i], 1e-12), key + ":dirichlet", "the boundary field does not hold the state"); }
      }
   }
   for (auto &[nm, fl] : s->fields)
   {
      if (nm == name || (name == "state" && nm == "dirichlet_bc")) { continue; }
      for (int i = 0; i < fl.gridFunc().Size(); ++i) { MC_CHECK(same_bits(fl.gridFunc()[i], others[nm][i]), key + ":others", nm << " changed"); }
   }
   // errors of any state vector, not only the last one that was set
   if (moved) { return; }
   Vector st2(st);
   for (int i = 0; i < n; ++i) { st2[i] += 0.25 * (i % 3); }
   if (how >= 4)
   {
      // plain dof comparison
      Vector w(n);
      double d2 = 0;
      for (int i = 0; i < n; ++i) { w[i] = 2 - i * (g + 1); d2 += (w[i] - st2[i]) * (w[i] - st2[i]); }
      double err = how == 4 ? s->calcStateError([&](Vector &v) { v = w; }, st2, name) : s->calcStateError(w, st2, name);
      MC_CHECK(close(err, std::sqrt(d2), 1e-12), key + ":error", "error " << err << ", wanted " << std::sqrt(d2));
      if (how == 5)
      {
         bool threw = false;
         Vector bad(n + 1);
         bad = 0.0;
         try { s->calcStateError(bad, st2, name); }
         catch (const miso::MISOException &) { threw = true; }
         MC_CHECK(threw, key + ":error-size", "a vector of the wrong size was accepted");
      }
      return;
   }
   FiniteElementState other(s->mesh(), s->fields.at(name).space(), "o");
   other.distributeSharedDofs(st2);
   if (name == "mesh_coords") { return; }
   double err = 0;
   switch (how)
   {
   case 0: err = s->calcStateError([&](const Vector &x) { return fun(g, x); }, st2, name); break;
   case 1: err = s->calcStateError(sg, st2, name); break;
   case 2: err = s->calcStateError([&](const Vector &x, Vector &u) { vg(x, u); }, st2, name); break;
   case 3: err = s->calcStateError(vgc, st2, name); break;
   }
   // integrate independently: quadratic field minus quadratic function (SBP: nodes)
   double w2 = 0;
   auto &pm = s->mesh();
   auto b = std::string(fld.coll().Name());
   bool sbp = b.find("SBP") != std::string::npos;
   for (int el = 0; el < pm.GetNE(); ++el)
   {
      auto *T = pm.GetElementTransformation(el);
      const auto *fe = other.space().GetFE(el);
      const IntegrationRule *ir = sbp ? &fe->GetNodes() : &IntRules.Get(pm.GetElementBaseGeometry(el), 8);
      for (int p = 0; p < ir->GetNPoints(); ++p)
      {
         auto &ip = ir->IntPoint(p);
         T->SetIntPoint(&ip);
         Vector x, ev(vd);
         T->Transform(ip, x);
         if (vec) { vg(x, ev); }
         else { ev[0] = fun(g, x); }
         for (int cc = 0; cc < vd; ++cc)
         {
            double d = other.gridFunc().GetValue(el, ip, cc + 1) - ev[cc];
            w2 += ip.weight * T->Weight() * d * d;
         }
      }
   }
   // MISO's rule is exact for 2*order+3; a quadratic exact solution on order 0/1 elements needs degree 4
   if (fld.space().GetMaxElementOrder() >= 1 || g <= 1) { MC_CHECK(close(err, std::sqrt(w2), 1e-10), key + ":error", name << ": error " << err << ", wanted " << std::sqrt(w2)); }
   step();
}

void hooks()
{
   static const std::vector<int> ms = {0, 1, 3, 4};
   int k = pick(ms, "mesh");
   const auto &space = spaces[choose(3, "space")];
   int inv = choose(3, "inverted");
   int seq = choose(4, "hooks");
   Quiet q;
   auto s = make(k, options_of(space, {}), 2, choose(2, "ctor"));
   int n = s->fes().GetTrueVSize();
   Vector st(n);
   for (int i = 0; i < n; ++i) { st[i] = 3 + i; }
   note(Str() << "mesh " << k << " inverted " << inv << " seq " << seq);
   auto &mc_f = s->fields.at("mesh_coords");
   if (inv)
   {
      // mirror the mesh (inv=1), or turn one element inside out (inv=2)
      Vector x(mc_f.space().GetTrueVSize());
      mc_f.setTrueVec(x);
      auto &g = mc_f.gridFunc();
      if (inv == 1)
      {
         for (int i = 0; i < mc_f.space().GetNDofs(); ++i) { g(mc_f.space().DofToVDof(i, 0)) *= -1; }
      }
      else
      {
         Array<int> d;
         mc_f.space().GetElementDofs(0, d);
         for (int c = 0; c < s->mesh().SpaceDimension(); ++c)
         {
            int i0 = mc_f.space().DofToVDof(d[0], c);
            g(i0) += 25.0 * (c + 1) * (c % 2 ? 1 : -1);
         }
      }
   }
   int wrong = 0;
   for (int e = 0; e < s->mesh().GetNE(); ++e)
   {
      auto *T = s->mesh().GetElementTransformation(e);
      IntegrationPoint c = Geometries.GetCenter(s->mesh().GetElementBaseGeometry(e));
      T->SetIntPoint(&c);
      if (T->Jacobian().Det() < 0) { ++wrong; }
   }
   if (inv == 2 && wrong == 0) { prune(); }
   bool threw = false;
   try { s->initialHook(st); }
   catch (const miso::MISOException &) { threw = true; }
   MC_CHECK(threw == (wrong > 0), "hooks:inverted", wrong << " inverted elements, " << (threw ? "" : "not ") << "refused");
   if (threw)
   {
      MC_CHECK(s->calls.empty(), "hooks:inverted", "the solver's own hook ran on an inverted mesh");
      outcome("refused");
      return;
   }
   MC_CHECK(s->calls.size() == 1 && s->calls[0].kind == 0, "hooks:initial", "the derived hook was not called once");
   Vector t(n);
   s->getState().setTrueVec(t);
   for (int i = 0; i < n; ++i) { MC_CHECK(t[i] == st[i] && s->calls[0].s[i] == st[i], "hooks:initial", "the state field does not hold the state"); }
   // a sequence of further hooks is forwarded in order with its arguments
   std::vector<Call> want;
   for (int j = 0; j < seq; ++j)
   {
      st += 1.0;
      int kind = 1 + choose(2, "hook");
      if (kind == 1) { s->iterationHook(j, 0.5 * j, 0.25, st); want.push_back({1, j, 0.5 * j, 0.25, st}); }
      else { s->terminalHook(j + 7, 0.5 * j, st); want.push_back({2, j + 7, 0.5 * j, 0, st}); }
   }
   MC_CHECK(s->calls.size() == want.size() + 1, "hooks:count", s->calls.size() << " calls");
   for (size_t j = 0; j < want.size(); ++j)
   {
      auto &a = s->calls[j + 1], &b = want[j];
      MC_CHECK(a.kind == b.kind && a.iter == b.iter && a.t == b.t && a.dt == b.dt, "hooks:arguments", "hook " << j);
      for (int i = 0; i < n; ++i) { MC_CHECK(a.s[i] == b.s[i], "hooks:arguments", "state"); }
   }
   step(seq + 1);
}

// materials of the components are merged onto the library
json merge(json t, const json &p)
{
   if (!p.is_object()) { return p; }
   if (!t.is_object()) { t = json::object(); }
   for (auto it = p.begin(); it != p.end(); ++it)
   {
      if (it->is_null()) { t.erase(it.key()); }
      else { t[it.key()] = merge(t.contains(it.key()) ? t[it.key()] : json(), *it); }
   }
   return t;
}
void materials()
{
   static const std::vector<json> mats = {
       "hiperco50", "unknown-name", {{"name", "steel"}}, {{"name", "copperwire"}, {"kappa", 123.5}}, {{"name", "mine"}, {"rho", 1.0}, {"sub", {{"a", 1}, {"b", 2}}}},
       {{"name", "mine"}, {"sub", {{"b", 3}, {"c", 4}}}}, {{"name", "copperwire"}, {"kappa", nullptr}}, {{"name", "hiperco50"}, {"mu_r", 7.0}, {"rho", 9.0}}};
   int how = choose(2, "constructor");
   int n = choose(thorough() ? 5 : 4, "components");
   json o = options_of(spaces[0], {});
   json lib = miso::material_library, want = lib;
   if (n > 0 || choose(2, "empty list"))
   {
      o["components"] = json::object();
      for (int i = 0; i < n; ++i)
      {
         auto &m = pick(mats, "material");
         o["components"]["c" + std::to_string(i)] = {{"material", m}, {"attrs", {i + 1}}};
      }
      for (auto &c : o["components"])
      {
         auto &m = c["material"];
         if (m.is_string()) { continue; }
         std::string nm = m["name"];
         want[nm] = merge(want.contains(nm) ? want[nm] : json(), m);
      }
   }
   note(Str() << "ctor " << how << " " << (o.contains("components") ? o["components"].dump() : "none"));
   Quiet q;
   auto s = make(0, o, 1, how);
   MC_CHECK(s->materials == want, Str() << "materials:" << (how ? "function" : "number"), "materials differ: " << json::diff(want, s->materials).dump());
   MC_CHECK(miso::material_library == lib, "materials:library", "the library itself changed");
   outcome(want.dump());
}
}  // namespace

int main(int argc, char **argv)
{
   return run(argc, argv, "C23", []() { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
              {{"load_mesh", load_mesh}, {"fields", fields}, {"states", states}, {"hooks", hooks}, {"materials", materials}});
}
