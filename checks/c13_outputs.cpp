// C13: the output registry and derivative products of AbstractSolver2 over
// all operation histories, and the type-erased residual/output wrappers.
#include "mfem.hpp"
#include "mfem_throw.hpp"
#include "abstract_solver.hpp"
#include "mc.hpp"
using namespace mc;
using nlohmann::json;
using mfem::Vector;

namespace
{
// a scalar output f = c*(a*x0 + a^2 x1 + ...) of scalar input "a" and field "x"; option "c"
struct State
{
   double c = 1, a = NAN;
   std::vector<double> x;
   int sets = 0;
};
struct Scalar
{
   std::shared_ptr<State> s;
   friend int getSize(const Scalar &) { return 1; }
   friend void setInputs(Scalar &o, const miso::MISOInputs &in)
   {
      ++o.s->sets;
      miso::setValueFromInputs(in, "a", o.s->a);
      Vector v;
      miso::setVectorFromInputs(in, "x", v);
      if (v.Size()) { o.s->x.assign(v.GetData(), v.GetData() + v.Size()); }
   }
   friend void setOptions(Scalar &o, const json &opt) { o.s->c = opt.value("c", o.s->c); }
   friend double calcOutput(Scalar &o, const miso::MISOInputs &)
   {
      double f = 0, p = o.s->a;
      for (double x : o.s->x) { f += p * x; p *= o.s->a; }
      return o.s->c * f;
   }
   friend double calcOutputPartial(Scalar &o, const std::string &wrt, const miso::MISOInputs &)
   {
      if (wrt != "a") { throw miso::MISOException("no partial"); }
      double f = 0, p = 1;
      int k = 1;
      for (double x : o.s->x) { f += k * p * x; p *= o.s->a; ++k; }
      return o.s->c * f;
   }
   friend void calcOutputPartial(Scalar &o, const std::string &wrt, const miso::MISOInputs &, Vector &part)
   {
      if (wrt != "x") { throw miso::MISOException("no partial"); }
      double p = o.s->a;
      for (int i = 0; i < part.Size(); ++i) { part(i) += o.s->c * p; p *= o.s->a; }
   }
   friend double jacobianVectorProduct(Scalar &o, const Vector &wd, const std::string &wrt)
   {
      if (wrt == "a") { return wd(0) * calcOutputPartial(o, "a", {}); }
      double r = 0, p = o.s->a;
      for (int i = 0; i < wd.Size(); ++i) { r += o.s->c * p * wd(i); p *= o.s->a; }
      return r;
   }
   friend double vectorJacobianProduct(Scalar &o, const Vector &ob, const std::string &) { return ob(0) * calcOutputPartial(o, "a", {}); }
   friend void vectorJacobianProduct(Scalar &o, const Vector &ob, const std::string &wrt, Vector &wb)
   {
      double p = o.s->a;
      for (int i = 0; i < wb.Size(); ++i) { wb(i) += ob(0) * o.s->c * p; p *= o.s->a; }
   }
};
// a vector output v_i = c * (i+1) * a * x_0, i < 3
struct Field
{
   std::shared_ptr<State> s;
   friend int getSize(const Field &) { return 3; }
   friend void setInputs(Field &o, const miso::MISOInputs &in)
   {
      Scalar t{o.s};
      setInputs(t, in);
   }
   friend void setOptions(Field &o, const json &opt) { o.s->c = opt.value("c", o.s->c); }
   friend double calcOutput(Field &, const miso::MISOInputs &) { return -999.0; }
   friend void calcOutput(Field &o, const miso::MISOInputs &, Vector &out)
   {
      for (int i = 0; i < out.Size(); ++i) { out(i) = o.s->c * (i + 1) * o.s->a * o.s->x[0]; }
   }
   friend void jacobianVectorProduct(Field &o, const Vector &wd, const std::string &wrt, Vector &od)
   {
      for (int i = 0; i < od.Size(); ++i) { od(i) += o.s->c * (i + 1) * (wrt == "a" ? o.s->x[0] : o.s->a) * wd(0); }
   }
   friend void vectorJacobianProduct(Field &o, const Vector &ob, const std::string &, Vector &wb)
   {
      for (int i = 0; i < 3; ++i) { wb(0) += o.s->c * (i + 1) * o.s->a * ob(i); }
   }
   friend double vectorJacobianProduct(Field &o, const Vector &ob, const std::string &)
   {
      double r = 0;
      for (int i = 0; i < 3; ++i) { r += o.s->c * (i + 1) * o.s->x[0] * ob(i); }
      return r;
   }
};
// specialises nothing but the value
struct Bare
{
   friend int getSize(const Bare &) { return 1; }
   friend double calcOutput(Bare &, const miso::MISOInputs &in) { return 2 * std::get<double>(in.at("a")); }
};
class Solver : public miso::AbstractSolver2
{
public:
   Solver() : miso::AbstractSolver2(MPI_COMM_SELF, json{{"silent", true}, {"print-options", false}}) { }
   // the library keeps its duplicate of the communicator forever; MPI has only 2^16 of them
   ~Solver() override { MPI_Comm_free(&comm); }
   using miso::AbstractSolver2::ode;
   using miso::AbstractSolver2::spatial_res;
   using miso::AbstractSolver2::space_time_res;
   std::vector<std::string> added;
   std::map<std::string, std::shared_ptr<State>> st;
   void addOutput(const std::string &o, const json &opt) override
   {
      added.push_back(o);
      if (o == "bare") { outputs.emplace(o, Bare{}); return; }
      auto s = std::make_shared<State>();
      if (opt.is_object()) { s->c = opt.value("c", 1.0); }
      st[o] = s;
      if (o == "field") { outputs.emplace(o, Field{s}); }
      else { outputs.emplace(o, Scalar{s}); }
   }
};
struct M  // model of one output
{
   bool made = false;
   double c = 1, a = NAN;
   std::vector<double> x;
};

void registry()
{
   static const char *names[] = {"drag", "lift", "field", "bare"};
   Solver s;
   M m[4];
   std::vector<std::unique_ptr<Vector>> keep;
   int depth = thorough() ? 4 : 3;
   // outputs that exist beforehand
   static const int first[] = {0, 1, 3, 15};
   int pre = first[choose(4, "existing")];
   for (int k = 0; k < 4; ++k)
   {
      if (pre >> k & 1)
      {
         s.createOutput(names[k], json{{"c", 2.0 + k}});
         m[k] = M{true, 2.0 + k, NAN, {}};
      }
   }
   for (int step = 0; step < depth; ++step)
   {
      int w = choose(4, "output");
      std::string name = names[w];
      int op = choose(10, "op");
      note(Str() << name << " op " << op);
      std::string where = Str() << "step " << step << " " << name << " op " << op;
      bool threw = false, notimpl = false;
      auto guard = [&](std::function<void()> f)
      {
         try { f(); }
         catch (const miso::NotImplementedException &) { threw = notimpl = true; }
         catch (const miso::MISOException &) { threw = true; }
      };
      // inputs: alternate values; some calls give only part of them
      double a = (step + w) % 2 ? 0.5 : -2.0;
      keep.push_back(std::make_unique<Vector>(2));
      Vector &x = *keep.back();
      x(0) = 1.0 + step;
      x(1) = -0.25 * (w + 1);
      miso::MISOInputs in;
      bool only_a = m[w].made && !m[w].x.empty() && step % 2;
      in.emplace("a", a);
      if (!only_a) { in.emplace("x", x); }
      auto set = [&]()
      {
         m[w].a = a;
         if (!only_a) { m[w].x = {x(0), x(1)}; }
      };
      auto val = [&]() { return w == 3 ? 2 * m[w].a : m[w].c * (m[w].a * m[w].x[0] + m[w].a * m[w].a * m[w].x[1]); };
      auto dval = [&]() { return m[w].c * (m[w].x[0] + 2 * m[w].a * m[w].x[1]); };
      size_t n_added = s.added.size();
      switch (op)
      {
      case 0:
      {
         double c = 1.0 + step;
         bool plain = choose(2, "plain");
         guard([&]() { plain ? s.createOutput(name) : s.createOutput(name, json{{"c", c}}); });
         MC_CHECK(threw == m[w].made, "create", where << (threw ? ": creating a new output failed" : ": an output was created twice"));
         MC_CHECK(s.added.size() == n_added + !m[w].made, "create", where << ": addOutput ran " << s.added.size() - n_added << " times");
         if (!m[w].made) { m[w] = M{true, plain ? 1.0 : c, NAN, {}}; }
         break;
      }
      case 1:
      {
         int k = -7;
         guard([&]() { k = s.getOutputSize(name); });
         MC_CHECK(threw == !m[w].made, "missing", where << ": size of an unknown output");
         if (!threw) { MC_CHECK(k == (w == 2 ? 3 : 1), "size", where << ": size " << k); }
         break;
      }
      case 2:
      {
         guard([&]() { s.setOutputOptions(name, json{{"c", 10.0 + step}}); });
         MC_CHECK(threw == !m[w].made, "missing", where << ": options of an unknown output");
         if (!threw) { m[w].c = 10.0 + step; }
         break;
      }
      case 3:
      {
         double v = NAN;
         guard([&]() { v = s.calcOutput(name, in); });
         MC_CHECK(threw == !m[w].made, "missing", where << ": value of an unknown output");
         if (threw) { break; }
         set();
         if (w != 2) { MC_CHECK(close(v, val(), 1e-14), "value", where << ": " << v << " instead of " << val()); }
         break;
      }
      case 4:
      {
         Vector o(w == 2 ? 3 : 1);
         o = 55.0;
         guard([&]() { s.calcOutput(name, in, o); });
         MC_CHECK(threw == !m[w].made, "missing", where << ": vector value of an unknown output");
         if (threw)
         {
            MC_CHECK(o(0) == 55.0, "missing", where << ": result written for an unknown output");
            break;
         }
         set();
         for (int i = 0; i < o.Size(); ++i)
         {
            double want = w == 2 ? m[w].c * (i + 1) * m[w].a * m[w].x[0] : val();
            MC_CHECK(close(o(i), want, 1e-14), "vector-value", where << ": entry " << i << " is " << o(i) << " instead of " << want);
         }
         break;
      }
      case 5:
      {
         double p = 3.0;
         guard([&]() { s.calcOutputPartial(name, "a", in, p); });
         MC_CHECK(threw == (!m[w].made || w >= 2), "missing", where << ": partial of an output without one");
         MC_CHECK(w < 2 || !m[w].made || notimpl, "not-implemented", where << ": a missing derivative was not reported as such");
         if (m[w].made) { set(); }
         if (threw) { MC_CHECK(p == 3.0, "partial-failed", where << ": partial changed to " << p); }
         else { MC_CHECK(close(p, 3.0 + dval(), 1e-14), "partial", where << ": partial " << p << " instead of 3 + " << dval()); }
         break;
      }
      case 6:
      {
         Vector p(2);
         p(0) = 1.0;
         p(1) = -1.0;
         guard([&]() { s.calcOutputPartial(name, "x", in, p); });
         MC_CHECK(threw == (!m[w].made || w >= 2), "missing", where << ": field partial of an output without one");
         if (m[w].made) { set(); }
         double g0 = threw ? 0 : m[w].c * m[w].a, g1 = threw ? 0 : m[w].c * m[w].a * m[w].a;
         MC_CHECK(close(p(0), 1.0 + g0, 1e-14) && close(p(1), -1.0 + g1, 1e-14), "field-partial", where << ": field partial (" << p(0) << ", " << p(1) << ")");
         break;
      }
      case 7: case 8:
      {
         // forward products, accumulated
         std::string wrt = op == 7 ? "a" : "x";
         Vector d(op == 7 ? 1 : 2), o(w == 2 ? 3 : 1);
         d = 0.5;
         o = 4.0;
         if (op == 8) { d(1) = w == 2 ? 0.0 : -1.5; }
         guard([&]() { s.outputJacobianVectorProduct(name, in, d, wrt, o); });
         MC_CHECK(threw == (!m[w].made || w == 3), "missing", where << ": product with an output without one");
         if (m[w].made) { set(); }
         for (int i = 0; i < o.Size(); ++i)
         {
            double want = 4.0;
            if (!threw)
            {
               if (w == 2) { want += m[w].c * (i + 1) * (op == 7 ? m[w].x[0] : m[w].a) * 0.5; }
               else { want += op == 7 ? 0.5 * dval() : m[w].c * (m[w].a * d(0) + m[w].a * m[w].a * d(1)); }
            }
            MC_CHECK(close(o(i), want, 1e-14), "jvp", where << ": product entry " << i << " is " << o(i) << " instead of " << want);
         }
         break;
      }
      default:
      {
         bool sc = choose(2, "wrt");
         Vector b(w == 2 ? 3 : 1), g(sc ? 1 : 2);
         b = 2.0;
         if (w == 2) { b(1) = -1.0; }
         g = 1.0;
         guard([&]() { s.outputVectorJacobianProduct(name, in, b, sc ? "a" : "x", g); });
         MC_CHECK(threw == (!m[w].made || w == 3), "missing", where << ": reverse product with an output without one");
         if (m[w].made) { set(); }
         double want[2] = {1.0, 1.0};
         if (!threw)
         {
            if (w == 2)
            {
               double k = 1 * b(0) + 2 * b(1) + 3 * b(2);
               want[0] += m[w].c * k * (sc ? m[w].x[0] : m[w].a);
            }
            else if (sc) { want[0] += 2.0 * dval(); }
            else
            {
               want[0] += 2.0 * m[w].c * m[w].a;
               want[1] += 2.0 * m[w].c * m[w].a * m[w].a;
            }
         }
         for (int i = 0; i < g.Size(); ++i) { MC_CHECK(close(g(i), want[i], 1e-14), "vjp", where << ": product entry " << i << " is " << g(i) << " instead of " << want[i]); }
         break;
      }
      }
      // no other output noticed
      for (int k = 0; k < 3; ++k)
      {
         if (!m[k].made) { continue; }
         auto &t = *s.st[names[k]];
         MC_CHECK(t.c == m[k].c && (t.a == m[k].a || (std::isnan(t.a) && std::isnan(m[k].a))) && t.x == m[k].x, "mixed", where << ": inputs or options of output " << names[k] << " are wrong");
      }
      MC_CHECK(op == 0 || s.added.size() == n_added, "create", where << ": an output was created");
   }
}

// residual derivative products reach the residual; unsteady ones are refused
struct Lin
{
   struct Log { std::vector<std::string> ev; double a = NAN; };
   std::shared_ptr<Log> log;
   friend int getSize(const Lin &) { return 2; }
   friend void setInputs(Lin &l, const miso::MISOInputs &in) { miso::setValueFromInputs(in, "a", l.log->a); }
   friend void setOptions(Lin &, const json &) { }
   friend void evaluate(Lin &, const miso::MISOInputs &, Vector &r) { r = 0.0; }
   friend mfem::Operator &getJacobian(Lin &, const miso::MISOInputs &, const std::string &)
   {
      static mfem::IdentityOperator id(2);
      return id;
   }
   friend void linearize(Lin &l, const miso::MISOInputs &in)
   {
      l.log->ev.push_back("linearize");
      miso::setValueFromInputs(in, "a", l.log->a);
   }
   friend double jacobianVectorProduct(Lin &l, const Vector &d, const std::string &wrt)
   {
      l.log->ev.push_back("jvp " + wrt);
      return l.log->a * (d(0) - 3 * d(1));
   }
   friend void jacobianVectorProduct(Lin &l, const Vector &d, const std::string &wrt, Vector &r)
   {
      l.log->ev.push_back("jvpv " + wrt);
      r(0) += l.log->a * d(0);
      r(1) += l.log->a * 5 * d(1);
   }
   friend double vectorJacobianProduct(Lin &l, const Vector &b, const std::string &wrt)
   {
      l.log->ev.push_back("vjp " + wrt);
      return l.log->a * (7 * b(0) + b(1));
   }
   friend void vectorJacobianProduct(Lin &l, const Vector &b, const std::string &wrt, Vector &g)
   {
      l.log->ev.push_back("vjpv " + wrt);
      g(0) += l.log->a * 9 * b(0);
      g(1) += l.log->a * b(1);
   }
};
// a residual that specialises nothing optional
struct Plain
{
   friend int getSize(const Plain &) { return 2; }
   friend void evaluate(Plain &, const miso::MISOInputs &, Vector &r) { r = 0.0; }
   friend mfem::Operator &getJacobian(Plain &, const miso::MISOInputs &, const std::string &)
   {
      static mfem::IdentityOperator id(2);
      return id;
   }
};
void products()
{
   bool plain = choose(2, "plain");
   auto log = std::make_shared<Lin::Log>();
   Solver s;
   if (plain) { s.spatial_res = std::make_unique<miso::MISOResidual>(Plain{}); }
   else { s.spatial_res = std::make_unique<miso::MISOResidual>(Lin{log}); }
   bool unsteady = choose(2, "unsteady");
   mfem::NewtonSolver nw(MPI_COMM_SELF);
   if (unsteady)
   {
      s.space_time_res = std::make_unique<miso::MISOResidual>(miso::TimeDependentResidual(*s.spatial_res));
      s.ode = std::make_unique<miso::FirstOrderODE>(*s.space_time_res, json{{"type", "RK1"}}, nw);
   }
   double a = NAN;
   for (int step = 0; step < (thorough() ? 4 : 3); ++step)
   {
      int op = choose(5, "op");
      std::string wrt = choose(2, "wrt") ? "mesh_coords" : "p";
      Vector v(2), o(2);
      v(0) = 1.0 + step;
      v(1) = -0.5;
      o = 6.0;
      bool threw = false, notimpl = false;
      double r = NAN;
      size_t before = log->ev.size();
      try
      {
         switch (op)
         {
         case 0:
            s.linearize({{"a", 2.0 + step}});
            break;
         case 1: r = s.jacobianVectorProduct(v, wrt); break;
         case 2: s.jacobianVectorProduct(v, wrt, o); break;
         case 3: r = s.vectorJacobianProduct(v, wrt); break;
         case 4: s.vectorJacobianProduct(v, wrt, o); break;
         }
      }
      catch (const miso::NotImplementedException &) { threw = notimpl = true; }
      catch (const miso::MISOException &) { threw = true; }
      std::string where = Str() << "step " << step << " op " << op << " wrt " << wrt << (unsteady ? " unsteady" : "") << (plain ? " plain" : "");
      MC_CHECK(threw == (unsteady || plain), "products", where << (threw ? ": refused" : ": not refused"));
      MC_CHECK(!plain || unsteady || notimpl, "not-implemented", where << ": a missing derivative was not reported as such");
      if (threw)
      {
         MC_CHECK(o(0) == 6.0 && o(1) == 6.0 && log->ev.size() == before, "products", where << ": something was computed although the call was refused");
         continue;
      }
      if (op == 0) { a = 2.0 + step; }
      static const char *pre[] = {"", "jvp ", "jvpv ", "vjp ", "vjpv "};
      MC_CHECK(log->ev.size() == before + 1 && log->ev.back() == (op == 0 ? "linearize" : pre[op] + wrt), "products", where << ": the residual saw '" << (log->ev.empty() ? "" : log->ev.back()) << "'");
      auto eq = [](double x, double y) { return (std::isnan(x) && std::isnan(y)) || close(x, y, 1e-14); };
      if (op == 1) { MC_CHECK(eq(r, a * (v(0) - 3 * v(1))), "products", where << ": result " << r); }
      if (op == 3) { MC_CHECK(eq(r, a * (7 * v(0) + v(1))), "products", where << ": result " << r); }
      if (op == 2) { MC_CHECK(eq(o(0), 6 + a * v(0)) && eq(o(1), 6 + a * 5 * v(1)), "products", where << ": result (" << o(0) << ", " << o(1) << ")"); }
      if (op == 4) { MC_CHECK(eq(o(0), 6 + a * 9 * v(0)) && eq(o(1), 6 + a * v(1)), "products", where << ": result (" << o(0) << ", " << o(1) << ")"); }
   }
   // defaults of the wrapper for what a residual does not specialise
   if (plain)
   {
      miso::MISOResidual &r = *s.spatial_res;
      MC_CHECK(miso::getMassMatrix(r, json{}) == nullptr && getPreconditioner(r) == nullptr, "defaults", "a residual without mass matrix or preconditioner returned one");
      Vector v(2), w(2);
      v = 1.0;
      int refused = 0;
      std::vector<std::function<void()>> calls{
          [&]() { calcEntropy(r, {}); }, [&]() { calcEntropyChange(r, {}); }, [&]() { calcSupplyRate(r, {}); }, [&]() { getMPIComm(r); },
          [&]() { getJacobianTranspose(r, {}, "state"); }, [&]() { getJacobianBlock(r, {}, 0); },
          [&]() { mfem::CGSolver cg; setUpAdjointSystem(r, cg, {}, v, w); }, [&]() { mfem::CGSolver cg; finalizeAdjointSystem(r, cg, {}, v, w); }};
      for (auto &c : calls)
      {
         try { c(); }
         catch (const miso::MISOException &) { ++refused; }
      }
      MC_CHECK(refused == (int)calls.size(), "defaults", calls.size() - refused << " operations that the residual does not provide were not refused");
      setInputs(r, {{"x", 1.0}});   // ignored
      setOptions(r, json{{"y", 2}});
      r.Mult(v, w);
      MC_CHECK(w(0) == 0.0 && r.GetGradient(v).Height() == 2, "defaults", "Mult or GetGradient");
   }
}

// every request to a MISOResidual or MISOOutput reaches the wrapped object
struct Full
{
   struct Log { std::vector<std::string> ev; miso::MISOInputs in; json opt; mfem::IdentityOperator id{2}; };
   std::shared_ptr<Log> l;
   friend int getSize(const Full &) { return 2; }
   friend MPI_Comm getMPIComm(const Full &) { return MPI_COMM_SELF; }
   friend void setInputs(Full &f, const miso::MISOInputs &in) { f.l->ev.push_back("setInputs"); f.l->in = in; }
   friend void setOptions(Full &f, const json &o) { f.l->ev.push_back("setOptions"); f.l->opt = o; }
   friend void evaluate(Full &f, const miso::MISOInputs &in, Vector &r) { f.l->ev.push_back("evaluate"); f.l->in = in; r(0) = 11; }
   friend void linearize(Full &f, const miso::MISOInputs &in) { f.l->ev.push_back("linearize"); f.l->in = in; }
   friend mfem::Operator &getJacobian(Full &f, const miso::MISOInputs &in, const std::string &w) { f.l->ev.push_back("J " + w); f.l->in = in; return f.l->id; }
   friend mfem::Operator &getJacobianTranspose(Full &f, const miso::MISOInputs &in, const std::string &w) { f.l->ev.push_back("JT " + w); f.l->in = in; return f.l->id; }
   friend mfem::Operator &getJacobianBlock(Full &f, const miso::MISOInputs &in, int i) { f.l->ev.push_back("JB " + std::to_string(i)); f.l->in = in; return f.l->id; }
   friend void setUpAdjointSystem(Full &f, mfem::Solver &, const miso::MISOInputs &in, Vector &b, Vector &a) { f.l->ev.push_back("setUp"); f.l->in = in; b(0) += 1; a(1) += 2; }
   friend void finalizeAdjointSystem(Full &f, mfem::Solver &, const miso::MISOInputs &in, Vector &b, Vector &a) { f.l->ev.push_back("finalize"); f.l->in = in; b(0) += 10; a(1) += 20; }
   friend double calcEntropy(Full &f, const miso::MISOInputs &in) { f.l->ev.push_back("entropy"); f.l->in = in; return 1.5; }
   friend double calcEntropyChange(Full &f, const miso::MISOInputs &in) { f.l->ev.push_back("change"); f.l->in = in; return 2.5; }
   friend double calcSupplyRate(Full &f, const miso::MISOInputs &in) { f.l->ev.push_back("supply"); f.l->in = in; return 3.5; }
   friend mfem::Operator *getMassMatrix(Full &f, const json &o) { f.l->ev.push_back("mass"); f.l->opt = o; return &f.l->id; }
   friend mfem::Solver *getPreconditioner(Full &) { static mfem::CGSolver cg; return &cg; }
};
void wrapper()
{
   auto l = std::make_shared<Full::Log>();
   miso::MISOResidual r{Full{l}};
   miso::MISOResidual other{Plain{}};
   for (int step = 0; step < 3; ++step)
   {
      int op = choose(16, "op");
      Vector v(2), w(2);
      v = 1.0;
      w = 2.0;
      double key = 1.0 + 10 * step + op;
      miso::MISOInputs in{{"k", key}};
      l->in.clear();
      l->opt = json();
      size_t before = l->ev.size();
      std::string want;
      bool res_ok = true;
      mfem::CGSolver cg;
      bool inputs = true;
      switch (op)
      {
      case 0: setInputs(r, in); want = "setInputs"; break;
      case 1: setOptions(r, json{{"k", key}}); want = "setOptions"; inputs = false; res_ok = l->opt == json{{"k", key}}; break;
      case 2: evaluate(r, in, v); want = "evaluate"; res_ok = v(0) == 11; break;
      case 3: linearize(r, in); want = "linearize"; break;
      case 4: res_ok = &getJacobian(r, in, "w1") == &l->id; want = "J w1"; break;
      case 5: res_ok = &getJacobianTranspose(r, in, "w2") == &l->id; want = "JT w2"; break;
      case 6: res_ok = &getJacobianBlock(r, in, 3) == &l->id; want = "JB 3"; break;
      case 7: setUpAdjointSystem(r, cg, in, v, w); want = "setUp"; res_ok = v(0) == 2 && v(1) == 1 && w(0) == 2 && w(1) == 4; break;
      case 8: finalizeAdjointSystem(r, cg, in, v, w); want = "finalize"; res_ok = v(0) == 11 && v(1) == 1 && w(0) == 2 && w(1) == 22; break;
      case 9: res_ok = calcEntropy(r, in) == 1.5; want = "entropy"; break;
      case 10: res_ok = calcEntropyChange(r, in) == 2.5; want = "change"; break;
      case 11: res_ok = calcSupplyRate(r, in) == 3.5; want = "supply"; break;
      case 12: res_ok = miso::getMassMatrix(r, json{{"k", key}}) == &l->id; want = "mass"; inputs = false; res_ok = res_ok && l->opt == json{{"k", key}}; break;
      case 13: r.Mult(v, w); want = "evaluate"; inputs = false; res_ok = w(0) == 11 && l->in.count("state") && std::get<miso::InputVector>(l->in.at("state")).data == v.GetData(); break;
      case 14: res_ok = &r.GetGradient(v) == &l->id && l->in.count("state") && std::get<miso::InputVector>(l->in.at("state")).data == v.GetData(); want = "J state"; inputs = false; break;
      default:
      {
         // the wrapper itself
         res_ok = getSize(r) == 2 && r.Height() == 2 && r.Width() == 2 && getMPIComm(r) == MPI_COMM_SELF && getPreconditioner(r) != nullptr && miso::getConcrete<Full>(r).l == l;
         bool threw = false;
         try { miso::getConcrete<Plain>(r); }
         catch (const miso::MISOException &) { threw = true; }
         const miso::MISOResidual &cr = r;
         res_ok = res_ok && threw && miso::getConcrete<Full>(cr).l == l;
         threw = false;
         try { miso::getConcrete<Full>(other); }
         catch (const miso::MISOException &) { threw = true; }
         MC_CHECK(res_ok && threw, "wrapper", "size, communicator or concrete type");
         // moving keeps the wrapped object
         miso::MISOResidual moved(std::move(r));
         MC_CHECK(miso::getConcrete<Full>(moved).l == l && getSize(moved) == 2, "wrapper", "moved wrapper");
         r = std::move(moved);
         continue;
      }
      }
      MC_CHECK(l->ev.size() == before + 1 && l->ev.back() == want, "wrapper", "operation " << op << " was seen as '" << (l->ev.size() > before ? l->ev.back() : "nothing") << "'");
      MC_CHECK(res_ok, "wrapper", "result of operation " << op << " (" << want << ")");
      if (inputs) { MC_CHECK(l->in.count("k") && std::get<double>(l->in.at("k")) == key, "wrapper", "inputs of operation " << op << " did not arrive"); }
   }
   // entropy as an output
   miso::MISOOutput out{miso::EntropyOutput<miso::MISOResidual>(r)};
   l->in.clear();
   setInputs(out, {{"z", 1.0}});
   double e = calcOutput(out, {{"k", 4.0}});
   MC_CHECK(e == 1.5 && l->in.count("k") && std::get<double>(l->in.at("k")) == 4.0, "entropy-output", "entropy output " << e);
}
}  // namespace

int main(int argc, char **argv)
{
   std::cout.setstate(std::ios::failbit);
   return mc::run(argc, argv, "C13", []() { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
                  {{"products", products}, {"wrapper", wrapper}, {"registry", registry, 60.0, 4}});
}
