// C26: coefficients that depend on element attributes, states and inputs
// forward to the coefficient in charge, with the arguments they were given.
#include "mfem_throw.hpp"
#include "mfem.hpp"
#include "coefficient.hpp"
#include "utils.hpp"
#include "mc.hpp"
using namespace mc;
using namespace mfem;

namespace
{
typedef std::vector<double> States;
Mesh &mesh(int dim)
{
   static Mesh m2 = []() {
      Mesh q = Mesh::MakeCartesian2D(4, 1, Element::QUADRILATERAL, true, 2.0, 1.0);
      q.EnsureNodes();
      for (int e = 0; e < 4; ++e) { q.SetAttribute(e, e + 1); }
      return q;
   }();
   static Mesh m3 = []() {
      Mesh q = Mesh::MakeCartesian3D(4, 1, 1, Element::HEXAHEDRON, 1.0, 2.0, 3.0);
      q.EnsureNodes();
      for (int e = 0; e < 4; ++e) { q.SetAttribute(e, e + 1); }
      return q;
   }();
   return dim == 2 ? m2 : m3;
}
const IntegrationPoint &point()
{
   static IntegrationPoint ip = []() { IntegrationPoint p; p.Set3(0.3, 0.6, 0.2); return p; }();
   return ip;
}
ElementTransformation &elem(int attr, int dim = 2)
{
   auto *T = mesh(dim).GetElementTransformation(attr - 1);
   T->SetIntPoint(&point());
   return *T;
}
/// what the coefficient `id` answers to `method` with these states
double F(int id, int method, const States &s, ElementTransformation &T, const IntegrationPoint &ip)
{
   double v = 1 + 10.0 * id + 0.37 * method + 0.001 * ip.x + 0.05 * T.ElementNo;
   double w[3] = {1.3, 2.9, 5.1};
   for (size_t i = 0; i < s.size(); ++i) { v += w[i] * s[i] * (1 + 0.1 * id); }
   return v;
}
// methods: 0 Eval without state, 1 Eval with states, then the derivatives
struct Plain : Coefficient
{
   int id;
   Plain(int i) : id(i) { }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { return F(id, 0, {}, T, ip); }
   void EvalRevDiff(double q, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override { P(0, 0) += q * F(id, 50, {}, T, ip); }
};
int inputs_seen[16];
struct One : miso::StateCoefficient
{
   int id;
   One(int i) : id(i) { }
   using miso::StateCoefficient::Eval;
   using miso::StateCoefficient::EvalRevDiff;
   double Eval(ElementTransformation &T, const IntegrationPoint &ip, double s) override { return F(id, 1, {s}, T, ip); }
   double EvalStateDeriv(ElementTransformation &T, const IntegrationPoint &ip, double s) override { return F(id, 2, {s}, T, ip); }
   double EvalState2ndDeriv(ElementTransformation &T, const IntegrationPoint &ip, double s) override { return F(id, 3, {s}, T, ip); }
   void EvalRevDiff(double q, ElementTransformation &T, const IntegrationPoint &ip, double s, DenseMatrix &P) override { P(0, 0) += q * F(id, 51, {s}, T, ip); }
   void setInputs(const miso::MISOInputs &in) override
   {
      double v = 0;
      miso::setValueFromInputs(in, "weight", v);
      inputs_seen[id] += (int)v;
   }
};
#define M2(N, K) double N(ElementTransformation &T, const IntegrationPoint &ip, double a, double b) override { return F(id, K, {a, b}, T, ip); }
struct Two : miso::TwoStateCoefficient
{
   int id;
   Two(int i) : id(i) { }
   using miso::TwoStateCoefficient::Eval;
   M2(Eval, 1) M2(EvalDerivS1, 2) M2(EvalDerivS2, 3) M2(Eval2ndDerivS1, 4) M2(Eval2ndDerivS2, 5) M2(Eval2ndDerivS1S2, 6) M2(Eval2ndDerivS2S1, 7)
   void EvalRevDiff(double q, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override { P(0, 0) += q * F(id, 50, {}, T, ip); }
};
#define M3(N, K) double N(ElementTransformation &T, const IntegrationPoint &ip, double a, double b, double c) override { return F(id, K, {a, b, c}, T, ip); }
struct Three : miso::ThreeStateCoefficient
{
   int id;
   Three(int i) : id(i) { }
   using miso::ThreeStateCoefficient::Eval;
   M3(Eval, 1) M3(EvalDerivS1, 2) M3(EvalDerivS2, 3) M3(EvalDerivS3, 4) M3(Eval2ndDerivS1, 5) M3(Eval2ndDerivS2, 6) M3(Eval2ndDerivS3, 7)
   M3(Eval2ndDerivS1S2, 8) M3(Eval2ndDerivS1S3, 9) M3(Eval2ndDerivS2S3, 10) M3(Eval2ndDerivS2S1, 11) M3(Eval2ndDerivS3S1, 12) M3(Eval2ndDerivS3S2, 13)
   void EvalRevDiff(double q, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override { P(0, 0) += q * F(id, 50, {}, T, ip); }
};

/// kinds of coefficient one may attach to an attribute
enum Kind { None, PlainK, OneK, TwoK, ThreeK, NKind };
std::unique_ptr<Coefficient> make(int kind, int id)
{
   switch (kind)
   {
   case PlainK: return std::make_unique<Plain>(id);
   case OneK: return std::make_unique<One>(id);
   case TwoK: return std::make_unique<Two>(id);
   case ThreeK: return std::make_unique<Three>(id);
   }
   return nullptr;
}
/// Eval without states of any kind: the states are zero
double value0(int kind, int id, ElementTransformation &T, const IntegrationPoint &ip)
{
   if (kind == None) { return 0; }
   if (kind == PlainK) { return F(id, 0, {}, T, ip); }
   return F(id, 1, States(kind - OneK + 1, 0.0), T, ip);
}
double rev0(int kind, int id, ElementTransformation &T, const IntegrationPoint &ip)
{
   if (kind == None) { return 0; }
   if (kind == OneK) { return F(id, 51, {0.0}, T, ip); }
   return F(id, 50, {}, T, ip);
}
struct Setup
{
   int kinds[4];   // of attributes 1 and 2, the default, and attribute 4
   int order;
};
Setup choose_setup()
{
   Setup s;
   s.kinds[0] = choose(NKind, "attribute 1");
   s.kinds[1] = choose(NKind, "attribute 2");
   s.kinds[2] = choose(NKind, "default");
   s.kinds[3] = choose(thorough() ? NKind : 2, "attribute 4");
   s.order = choose(2, "order");
   note(Str() << "kinds " << s.kinds[0] << s.kinds[1] << s.kinds[3] << " default " << s.kinds[2] << " order " << s.order);
   return s;
}
template <class C>
void fill(C &c, const Setup &s, const char *key)
{
   const int attr[3] = {1, 2, 4}, k[3] = {s.kinds[0], s.kinds[1], s.kinds[3]};
   for (int j = 0; j < 3; ++j)
   {
      int i = s.order ? 2 - j : j;
      if (k[i] != None) { c.addCoefficient(attr[i], make(k[i], attr[i])); }
   }
   // a second coefficient for an attribute is refused and changes nothing
   for (int i = 0; i < 3; ++i)
   {
      if (k[i] == None) { continue; }
      bool threw = false;
      try { c.addCoefficient(attr[i], make(PlainK, 9)); }
      catch (const MfemError &) { threw = true; }
      MC_CHECK(threw, std::string(key) + ":twice", "attribute " << attr[i] << " was given a second coefficient");
   }
}
/// the coefficient in charge of attribute a
void charge(const Setup &s, int a, int &kind, int &id)
{
   kind = a == 1 ? s.kinds[0] : a == 2 ? s.kinds[1] : a == 4 ? s.kinds[3] : None;
   id = a;
   if (kind == None) { kind = s.kinds[2]; id = 5; }
}
void expect(double got, double want, const std::string &key, int a, const char *what)
{
   MC_CHECK(close(got, want, 1e-13), key, what << " on attribute " << a << " is " << got << ", wanted " << want);
}
void revdiff(Coefficient &c, double want, const std::string &key, int a, ElementTransformation &T, const IntegrationPoint &ip)
{
   DenseMatrix P(2, 4);
   P = 0.25;
   c.EvalRevDiff(1.5, T, ip, P);
   expect(P(0, 0), 0.25 + 1.5 * want, key + ":rev", a, "EvalRevDiff");
   for (int i = 1; i < 8; ++i) { MC_CHECK(P.Data()[i] == 0.25, key + ":rev", "EvalRevDiff changed another entry"); }
}

void one_state()
{
   Setup s = choose_setup();
   miso::MeshDependentCoefficient c(make(s.kinds[2], 5));
   fill(c, s, "mesh-dependent");
   auto &ip = point();
   for (int a = 1; a <= 4; ++a)
   {
      auto &T = elem(a);
      int k, id;
      charge(s, a, k, id);
      std::string key = "mesh-dependent";
      expect(c.Eval(T, ip), value0(k, id, T, ip), key, a, "Eval()");
      for (double x : {0.0, 0.7, -2.0})
      {
         auto w = [&](int m) { return k == OneK ? F(id, m, {x}, T, ip) : m == 1 ? value0(k, id, T, ip) : 0.0; };
         expect(c.Eval(T, ip, x), w(1), key, a, "Eval(state)");
         expect(c.EvalStateDeriv(T, ip, x), w(2), key + ":deriv", a, "EvalStateDeriv");
         expect(c.EvalState2ndDeriv(T, ip, x), w(3), key + ":2nd", a, "EvalState2ndDeriv");
         DenseMatrix P(2, 4);
         P = 0.25;
         c.EvalRevDiff(1.5, T, ip, x, P);
         expect(P(0, 0), 0.25 + 1.5 * (k == OneK ? F(id, 51, {x}, T, ip) : rev0(k, id, T, ip)), key + ":rev", a, "EvalRevDiff(state)");
      }
      revdiff(c, rev0(k, id, T, ip), key, a, T, ip);
   }
   // inputs reach every state coefficient, the default one too, once per call
   std::fill(inputs_seen, inputs_seen + 16, 0);
   c.setInputs({{"weight", 1.0}});
   c.setInputs({{"weight", 2.0}, {"other", 5.0}});
   for (int a : {1, 2, 4, 5})
   {
      int k = a == 5 ? s.kinds[2] : a == 4 ? s.kinds[3] : s.kinds[a - 1];
      MC_CHECK(inputs_seen[a] == (k == OneK ? 3 : 0), "mesh-dependent:inputs", "coefficient " << a << " of kind " << k << " saw " << inputs_seen[a]);
   }
   // nested: a mesh dependent coefficient is a state coefficient itself
   miso::MeshDependentCoefficient outer;
   auto inner = std::make_unique<miso::MeshDependentCoefficient>(make(s.kinds[2], 5));
   fill(*inner, s, "mesh-dependent");
   outer.addCoefficient(s.order ? 1 : 2, std::move(inner));
   for (int a = 1; a <= 4; ++a)
   {
      auto &T = elem(a);
      bool in = a == (s.order ? 1 : 2);
      expect(outer.Eval(T, ip, 0.7), in ? c.Eval(T, ip, 0.7) : 0.0, "mesh-dependent:nested", a, "Eval");
      expect(outer.EvalStateDeriv(T, ip, 0.7), in ? c.EvalStateDeriv(T, ip, 0.7) : 0.0, "mesh-dependent:nested", a, "EvalStateDeriv");
   }
   std::fill(inputs_seen, inputs_seen + 16, 0);
   outer.setInputs({{"weight", 1.0}});
   for (int a : {1, 2, 4, 5})
   {
      int k = a == 5 ? s.kinds[2] : a == 4 ? s.kinds[3] : s.kinds[a - 1];
      MC_CHECK(inputs_seen[a] == (k == OneK), "mesh-dependent:inputs:nested", "coefficient " << a << " saw " << inputs_seen[a]);
   }
}

void two_states()
{
   Setup s = choose_setup();
   miso::MeshDependentTwoStateCoefficient c(make(s.kinds[2], 5));
   fill(c, s, "two-state");
   auto &ip = point();
   for (int a = 1; a <= 4; ++a)
   {
      auto &T = elem(a);
      int k, id;
      charge(s, a, k, id);
      std::string key = "two-state";
      expect(c.Eval(T, ip), value0(k, id, T, ip), key, a, "Eval()");
      for (double x : {0.0, 0.7})
      {
         for (double y : {0.0, -1.2})
         {
            auto w = [&](int m) { return k == TwoK ? F(id, m, {x, y}, T, ip) : m == 1 ? value0(k, id, T, ip) : 0.0; };
            expect(c.Eval(T, ip, x, y), w(1), key, a, "Eval(states)");
            expect(c.EvalDerivS1(T, ip, x, y), w(2), key + ":S1", a, "EvalDerivS1");
            expect(c.EvalDerivS2(T, ip, x, y), w(3), key + ":S2", a, "EvalDerivS2");
            expect(c.Eval2ndDerivS1(T, ip, x, y), w(4), key + ":S1S1", a, "Eval2ndDerivS1");
            expect(c.Eval2ndDerivS2(T, ip, x, y), w(5), key + ":S2S2", a, "Eval2ndDerivS2");
            expect(c.Eval2ndDerivS1S2(T, ip, x, y), w(6), key + ":S1S2", a, "Eval2ndDerivS1S2");
            expect(c.Eval2ndDerivS2S1(T, ip, x, y), w(7), key + ":S2S1", a, "Eval2ndDerivS2S1");
         }
      }
      revdiff(c, rev0(k, id, T, ip), key, a, T, ip);
   }
}

void three_states()
{
   Setup s = choose_setup();
   miso::MeshDependentThreeStateCoefficient c(make(s.kinds[2], 5));
   fill(c, s, "three-state");
   auto &ip = point();
   for (int a = 1; a <= 4; ++a)
   {
      auto &T = elem(a);
      int k, id;
      charge(s, a, k, id);
      std::string key = "three-state";
      expect(c.Eval(T, ip), value0(k, id, T, ip), key, a, "Eval()");
      for (const States &st : {States{0, 0, 0}, States{0.7, -1.2, 0.4}, States{-0.3, 2.2, 1.9}})
      {
         double x = st[0], y = st[1], z = st[2];
         auto w = [&](int m) { return k == ThreeK ? F(id, m, st, T, ip) : m == 1 ? value0(k, id, T, ip) : 0.0; };
         expect(c.Eval(T, ip, x, y, z), w(1), key, a, "Eval(states)");
         expect(c.EvalDerivS1(T, ip, x, y, z), w(2), key + ":S1", a, "EvalDerivS1");
         expect(c.EvalDerivS2(T, ip, x, y, z), w(3), key + ":S2", a, "EvalDerivS2");
         expect(c.EvalDerivS3(T, ip, x, y, z), w(4), key + ":S3", a, "EvalDerivS3");
         expect(c.Eval2ndDerivS1(T, ip, x, y, z), w(5), key + ":S1S1", a, "Eval2ndDerivS1");
         expect(c.Eval2ndDerivS2(T, ip, x, y, z), w(6), key + ":S2S2", a, "Eval2ndDerivS2");
         expect(c.Eval2ndDerivS3(T, ip, x, y, z), w(7), key + ":S3S3", a, "Eval2ndDerivS3");
         expect(c.Eval2ndDerivS1S2(T, ip, x, y, z), w(8), key + ":S1S2", a, "Eval2ndDerivS1S2");
         expect(c.Eval2ndDerivS1S3(T, ip, x, y, z), w(9), key + ":S1S3", a, "Eval2ndDerivS1S3");
         expect(c.Eval2ndDerivS2S3(T, ip, x, y, z), w(10), key + ":S2S3", a, "Eval2ndDerivS2S3");
         expect(c.Eval2ndDerivS2S1(T, ip, x, y, z), w(11), key + ":S2S1", a, "Eval2ndDerivS2S1");
         expect(c.Eval2ndDerivS3S1(T, ip, x, y, z), w(12), key + ":S3S1", a, "Eval2ndDerivS3S1");
         expect(c.Eval2ndDerivS3S2(T, ip, x, y, z), w(13), key + ":S3S2", a, "Eval2ndDerivS3S2");
      }
      revdiff(c, rev0(k, id, T, ip), key, a, T, ip);
   }
}

// ---- vectors
struct VPlain : VectorCoefficient
{
   int id;
   VPlain(int d, int i) : VectorCoefficient(d), id(i) { }
   using VectorCoefficient::Eval;
   void Eval(Vector &v, ElementTransformation &T, const IntegrationPoint &ip) override
   {
      v.SetSize(vdim);
      for (int i = 0; i < vdim; ++i) { v[i] = F(id, i, {}, T, ip); }
   }
   void EvalRevDiff(const Vector &vb, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override
   {
      for (int i = 0; i < vdim; ++i) { P(0, i) += vb[i] * F(id, 50, {}, T, ip); }
   }
};
struct VOne : miso::VectorStateCoefficient
{
   int id;
   VOne(int d, int i) : miso::VectorStateCoefficient(d), id(i) { }
   using miso::VectorStateCoefficient::Eval;
   using miso::VectorStateCoefficient::EvalRevDiff;
   void Eval(Vector &v, ElementTransformation &T, const IntegrationPoint &ip, double s) override
   {
      v.SetSize(vdim);
      for (int i = 0; i < vdim; ++i) { v[i] = F(id, 10 + i, {s}, T, ip); }
   }
   void EvalStateDeriv(Vector &v, ElementTransformation &T, const IntegrationPoint &ip, double s) override
   {
      v.SetSize(vdim);
      for (int i = 0; i < vdim; ++i) { v[i] = F(id, 20 + i, {s}, T, ip); }
   }
   void EvalRevDiff(const Vector &vb, ElementTransformation &T, const IntegrationPoint &ip, double s, DenseMatrix &P) override
   {
      for (int i = 0; i < vdim; ++i) { P(0, i) += vb[i] * F(id, 51, {s}, T, ip); }
   }
};
template <class B>
std::unique_ptr<B> vmake(int kind, int d, int id);
template <>
std::unique_ptr<VectorCoefficient> vmake(int kind, int d, int id)
{
   if (kind == 1) { return std::make_unique<VPlain>(d, id); }
   if (kind == 2) { return std::make_unique<VOne>(d, id); }
   return nullptr;
}
template <>
std::unique_ptr<miso::VectorStateCoefficient> vmake(int kind, int d, int id)
{
   if (kind == 2) { return std::make_unique<VOne>(d, id); }
   return nullptr;
}
template <class C>
void vfill(C &c, const int *k, int order, int d, const std::string &key)
{
   for (int j = 0; j < 3; ++j)
   {
      int i = order ? 2 - j : j;
      if (k[i]) { c.addCoefficient(i + 1, vmake<VectorCoefficient>(k[i], d, i + 1)); }
   }
   for (int i = 0; i < 3; ++i)
   {
      if (!k[i]) { continue; }
      bool threw = false;
      try { c.addCoefficient(i + 1, vmake<VectorCoefficient>(1, d, 9)); }
      catch (const MfemError &) { threw = true; }
      MC_CHECK(threw, key + ":twice", "attribute " << i + 1 << " was given a second coefficient");
   }
}
/// value, state derivative (deriv) or reverse product of a kind
double vval(int kind, int id, int i, double s, bool deriv, bool with, ElementTransformation &T, const IntegrationPoint &ip)
{
   if (kind == 0) { return 0; }
   if (kind == 1) { return deriv ? 0.0 : F(id, i, {}, T, ip); }
   return F(id, (deriv ? 20 : 10) + i, {with ? s : 0.0}, T, ip);
}
double vrev(int kind, int id, double s, ElementTransformation &T, const IntegrationPoint &ip)
{
   return kind == 0 ? 0.0 : kind == 1 ? F(id, 50, {}, T, ip) : F(id, 51, {s}, T, ip);
}
void vectors()
{
   int d = 2 + choose(2, "dim");
   int k[4];
   for (int i = 0; i < 3; ++i) { k[i] = choose(3, "kind"); }
   k[3] = choose(3, "default");
   int order = choose(2, "order");
   note(Str() << "dim " << d << " kinds " << k[0] << k[1] << k[2] << " default " << k[3] << " order " << order);
   auto &ip = point();
   for (int state = 0; state < 2; ++state)
   {
      std::string key = state ? "vector-state" : "vector";
      std::unique_ptr<VectorCoefficient> c;
      miso::VectorMeshDependentStateCoefficient *sc = nullptr;
      int dk = k[3];
      if (state)
      {
         if (dk == 1) { continue; }   // its default is a state coefficient
         auto p = std::make_unique<miso::VectorMeshDependentStateCoefficient>(d, vmake<miso::VectorStateCoefficient>(dk, d, 5));
         vfill(*p, k, order, d, key);
         sc = p.get();
         c = std::move(p);
      }
      else
      {
         auto p = std::make_unique<miso::VectorMeshDependentCoefficient>(d, vmake<VectorCoefficient>(dk, d, 5));
         vfill(*p, k, order, d, key);
         c = std::move(p);
      }
      MC_CHECK(c->GetVDim() == d, key + ":dim", c->GetVDim());
      Vector vb(d), v(d);
      for (int i = 0; i < d; ++i) { vb[i] = 0.5 - i; }
      for (int a = 1; a <= 4; ++a)
      {
         auto &T = elem(a, d);
         int kind = a == 4 ? 0 : k[a - 1], id = a;
         if (!kind) { kind = dk; id = 5; }
         v = 7.0;
         c->Eval(v, T, ip);
         for (int i = 0; i < d; ++i) { expect(v[i], vval(kind, id, i, 0, false, false, T, ip), key, a, "Eval()"); }
         DenseMatrix P(3, 8);
         P = 0.25;
         static_cast<VectorCoefficient &>(*c).EvalRevDiff(vb, T, ip, P);
         for (int i = 0; i < 8; ++i) { expect(P(0, i), 0.25 + (i < d ? vb[i] * vrev(kind, id, 0.0, T, ip) : 0.0), key + ":rev", a, "EvalRevDiff()"); }
         if (!sc) { continue; }
         for (double s : {0.0, 0.8, -3.0})
         {
            v = 7.0;
            sc->Eval(v, T, ip, s);
            for (int i = 0; i < d; ++i) { expect(v[i], vval(kind, id, i, s, false, true, T, ip), key, a, "Eval(state)"); }
            v = 7.0;
            sc->EvalStateDeriv(v, T, ip, s);
            for (int i = 0; i < d; ++i) { expect(v[i], vval(kind, id, i, s, true, true, T, ip), key + ":deriv", a, "EvalStateDeriv"); }
            P = 0.25;
            sc->EvalRevDiff(vb, T, ip, s, P);
            for (int i = 0; i < 8; ++i) { expect(P(0, i), 0.25 + (i < d ? vb[i] * vrev(kind, id, s, T, ip) : 0.0), key + ":rev", a, "EvalRevDiff(state)"); }
         }
      }
   }
}

void product()
{
   int d = 2 + choose(2, "dim"), ka = 1 + choose(2, "scalar"), kb = 1 + choose(2, "vector"), mid = choose(2, "through mesh dependent");
   static const std::vector<double> ss = {0.0, 0.8, -3.0};
   double s = pick(ss, "state");
   note(Str() << "dim " << d << " a " << ka << " b " << kb << " mid " << mid << " s " << s);
   auto a = make(ka, 1);
   auto b = vmake<VectorCoefficient>(kb, d, 2);
   if (mid)
   {
      auto m = std::make_unique<miso::MeshDependentCoefficient>();
      m->addCoefficient(3, std::move(a));
      a = std::move(m);
      auto mb = std::make_unique<miso::VectorMeshDependentStateCoefficient>(d);
      mb->addCoefficient(3, std::move(b));
      b = std::move(mb);
   }
   miso::ScalarVectorProductCoefficient c(*a, *b);
   MC_CHECK(c.GetVDim() == d, "product:dim", c.GetVDim());
   auto &ip = point();
   auto &T = elem(3, d);
   auto av = [&](double x, bool der) { return ka == 2 ? F(1, der ? 2 : 1, {x}, T, ip) : der ? 0.0 : F(1, 0, {}, T, ip); };
   auto ar = [&](double x) { return ka == 2 ? F(1, 51, {x}, T, ip) : F(1, 50, {}, T, ip); };
   for (int round = 0; round < 2; ++round)   // nothing is left over from an earlier evaluation
   {
      Vector v(d), vb(d);
      double x = round ? s : 0.3;
      v = 7.0;
      c.Eval(v, T, ip);
      for (int i = 0; i < d; ++i) { expect(v[i], av(0, false) * vval(kb, 2, i, 0, false, false, T, ip), "product", 3, "Eval()"); }
      v = 7.0;
      c.Eval(v, T, ip, x);
      for (int i = 0; i < d; ++i) { expect(v[i], av(x, false) * vval(kb, 2, i, x, false, true, T, ip), "product:state", 3, "Eval(state)"); }
      v = 7.0;
      c.EvalStateDeriv(v, T, ip, x);
      for (int i = 0; i < d; ++i) { expect(v[i], av(x, true) * vval(kb, 2, i, x, false, true, T, ip) + av(x, false) * vval(kb, 2, i, x, true, true, T, ip), "product:deriv", 3, "EvalStateDeriv"); }
      double dot = 0;
      for (int i = 0; i < d; ++i) { vb[i] = 0.5 - i; dot += vb[i] * vval(kb, 2, i, x, false, true, T, ip); }
      DenseMatrix P(3, 8);
      P = 0.25;
      c.EvalRevDiff(vb, T, ip, x, P);
      for (int i = 0; i < 8; ++i)
      {
         double w = 0.25 + (i < d ? av(x, false) * vb[i] * vrev(kb, 2, x, T, ip) : 0.0) + (i == 0 ? dot * ar(x) : 0.0);
         expect(P(0, i), w, "product:rev", 3, "EvalRevDiff(state)");
      }
      P = 0.25;
      static_cast<VectorCoefficient &>(c).EvalRevDiff(vb, T, ip, P);
      dot = 0;
      for (int i = 0; i < d; ++i) { dot += vb[i] * vval(kb, 2, i, 0, false, true, T, ip); }
      for (int i = 0; i < 8; ++i)
      {
         double w = 0.25 + (i < d ? av(0, false) * vb[i] * vrev(kb, 2, 0, T, ip) : 0.0) + (i == 0 ? dot * ar(0) : 0.0);
         expect(P(0, i), w, "product:rev", 3, "EvalRevDiff()");
      }
      for (int i = 0; i < d; ++i) { MC_CHECK(vb[i] == 0.5 - i, "product:rev", "changed its argument"); }
   }
}

double fun(const Vector &x, int e) { return x.Size() * 100 + x[0] + 3 * x[1] + (x.Size() > 2 ? 7 * x[2] : 0) + 11 * e; }
double tfun(const Vector &x, int e, double t) { return fun(x, e) + 1000 * t; }
void others()
{
   int what = choose(3, "coefficient");
   if (what == 0)
   {
      static const std::vector<double> ls = {0.0, 0.25, 1.0, 2.0};
      int k = 1 + choose(2, "linear");
      double l1 = pick(ls, "lambda"), l2 = pick(ls, "lambda again");
      note(Str() << "continuation " << l1 << " then " << l2 << " linear " << k);
      struct Quiet { std::streambuf *o; Quiet() : o(std::cout.rdbuf(nullptr)) { } ~Quiet() { std::cout.rdbuf(o); } } q;
      miso::ParameterContinuationCoefficient c(make(k, 1), std::make_unique<One>(2));
      miso::ParameterContinuationCoefficient e(make(PlainK, 3), std::make_unique<One>(4));
      for (double l : {l1, l2})
      {
         miso::ParameterContinuationCoefficient::setLambda(l);
         MC_CHECK(miso::ParameterContinuationCoefficient::getLambda() == l, "continuation:lambda", "");
         auto &T = elem(2);
         auto &ip = point();
         for (double s : {0.0, 0.6, -2.0})
         {
            expect(c.Eval(T, ip, s), (1 - l) * value0(k, 1, T, ip) + l * F(2, 1, {s}, T, ip), "continuation", 2, "Eval");
            expect(c.EvalStateDeriv(T, ip, s), l * F(2, 2, {s}, T, ip), "continuation:deriv", 2, "EvalStateDeriv");
            expect(e.Eval(T, ip, s), (1 - l) * value0(PlainK, 3, T, ip) + l * F(4, 1, {s}, T, ip), "continuation", 2, "Eval");
         }
      }
      miso::ParameterContinuationCoefficient::setLambda(0.0);
   }
   else if (what == 1)
   {
      int d = 2 + choose(2, "dim"), timed = choose(2, "time");
      double t = timed ? 0.75 * choose(3, "at") : 0;
      note(Str() << "element function dim " << d << " time " << t);
      auto c = timed ? miso::ElementFunctionCoefficient(tfun) : miso::ElementFunctionCoefficient(fun);
      c.SetTime(t);
      for (int a = 1; a <= 4; ++a)
      {
         auto &T = elem(a, d);
         double x[3];
         Vector X(x, d);
         X.SetSize(d);
         T.Transform(point(), X);
         expect(c.Eval(T, point()), fun(X, a - 1) + 1000 * t, "element-function", a, "Eval");
      }
   }
   else
   {
      int d = 2 + choose(2, "dim");
      miso::LameFirstParameter lam;
      miso::LameSecondParameter mu;
      for (int a = 1; a <= 4; ++a)
      {
         auto &T = elem(a, d);
         expect(lam.Eval(T, point()), d == 2 ? 2.0 : 2.0 / 3, "lame", a, "lambda");
         expect(mu.Eval(T, point()), 1.0, "lame", a, "mu");
      }
   }
}

// ---- construction of two and three state coefficients from materials
void materials()
{
   int three = choose(2, "three"), single = choose(2, "attr"), object = choose(2, "object"), has = choose(2, "property"), steinmetz = choose(2, "steinmetz");
   static const std::vector<double> dv = {0.0, 4.5};
   double dflt = pick(dv, "default");
   note(Str() << (three ? "three" : "two") << " attr " << single << " object " << object << " has " << has << " steinmetz " << steinmetz << " default " << dflt);
   nlohmann::json lib, comps;
   lib["m"] = {{"rho", 3.25}, {"core_loss", {{"steinmetz", {{"ks", 1.25}, {"alpha", 1.5}}}}}};
   lib["n"] = {{"rho", 8.0}, {"core_loss", {{"steinmetz", {{"alpha", 2.5}}}}}};
   std::string prop = steinmetz ? (has ? "ks" : "beta") : has ? "rho" : "sigma";
   comps["a"]["material"] = object ? nlohmann::json{{"name", "m"}} : nlohmann::json("m");
   if (single) { comps["a"]["attr"] = 1; }
   else { comps["a"]["attrs"] = {1, 3}; }
   comps["b"] = {{"material", "n"}, {"attr", 2}};
   std::unique_ptr<Coefficient> c;
   const auto &clib = lib;
   const auto &ccomps = comps;
   if (three) { c = miso::constructMaterialThreeStateCoefficient(prop, ccomps, clib, dflt); }
   else { c = miso::constructMaterialTwoStateCoefficient(prop, ccomps, clib, dflt); }
   for (int a = 1; a <= 4; ++a)
   {
      auto &T = elem(a);
      double w = a == 4 || (a == 3 && single) ? 0.0 : !has ? dflt : a == 2 ? (steinmetz ? dflt : 8.0) : steinmetz ? 1.25 : 3.25;
      expect(c->Eval(T, point()), w, "construct", a, prop.c_str());
   }
}
}  // namespace

int main(int argc, char **argv)
{
   return mc::run(argc, argv, "C26", []() {},
                  {{"one_state", one_state}, {"two_states", two_states}, {"three_states", three_states}, {"vectors", vectors}, {"product", product}, {"others", others}, {"materials", materials}});
}
