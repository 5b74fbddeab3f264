// C11: the space-time residual M du/dt + R(u,t), its Jacobian, and the ODE
// wrappers, over all histories of a small operation alphabet.
#include "ode_sys.hpp"
#include "mfem_throw.hpp"
using namespace mc;
using namespace odesys;
using nlohmann::json;

namespace
{
struct Model
{
   Vector u, k;
   double dt = NAN, t = NAN;
};
Vector vec(int n, int which)
{
   static const double base[4][3] = {{1.0, 0.5, -0.25}, {-0.3, 0.8, 1.2}, {0.0, 0.0, 0.0}, {2.0, -1.0, 0.75}};
   Vector v(n);
   for (int i = 0; i < n; ++i) { v(i) = base[which][i]; }
   return v;
}
const double DTS[] = {0.0, 0.25, 0.1, -0.5};
const double TS[] = {0.0, 0.7};

void reference_res(const Data &d, const Model &m, const Vector &k, double ts, LV &r)
{
   int n = d.n;
   LV x(n);
   r.assign(n, 0);
   for (int i = 0; i < n; ++i) { x[i] = (L)m.u(i) + (L)m.dt * k(i); }
   d.R(x.data(), (L)ts, r.data());
   for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { r[i] += d.M[i][j] * k(j); } }
}
void check_jac(const Data &d, const Model &m, const Vector &k, mfem::Operator &J, bool fd, const std::string &where)
{
   int n = d.n;
   LV x(n), jm(n * n);
   for (int i = 0; i < n; ++i) { x[i] = (L)m.u(i) + (L)m.dt * k(i); }
   d.J(x.data(), jm.data());
   MC_CHECK(J.Height() == n && J.Width() == n, "jac-size", where << ": Jacobian is " << J.Height() << "x" << J.Width());
   for (int j = 0; j < n; ++j)
   {
      Vector e(n), y(n);
      e = 0.0;
      e(j) = 1.0;
      y = NAN;
      J.Mult(e, y);
      for (int i = 0; i < n; ++i)
      {
         double want = (double)(d.M[i][j] + (L)m.dt * jm[i * n + j]);
         MC_CHECK(close(y(i), want, fd ? 3e-5 : 1e-13), "jacobian", where << ": entry (" << i << "," << j << ") of the Jacobian is " << y(i) << " instead of " << want);
      }
   }
}

void protocol()
{
   int n = 1 + choose(3, "n");
   auto d = std::make_shared<Data>();
   pick_system(*d, n);
   int mk = choose(5, "mass");
   Mass mass;
   make_mass(mk, 0, *d, mass);
   d->jac_pattern = mk >= 1 && mk <= 3 ? choose(2, "jac pattern") : 0;
   miso::MISOResidual spatial{Res(d)};
   miso::MISOResidual td{miso::TimeDependentResidual(spatial, mass.op.get())};
   note(Str() << "n=" << n << " mass=" << mk << " A0=" << d->A[0] << " q=" << d->q << " g=" << d->g);
   MC_CHECK(getSize(td) == n && td.Height() == n && td.Width() == n, "size", "size of the space-time residual is " << getSize(td));
   Model m;
   std::vector<std::unique_ptr<Vector>> keep;  // vectors stay alive: inputs refer to them
   auto fresh = [&](int w) -> Vector &
   {
      keep.push_back(std::make_unique<Vector>(vec(n, w)));
      return *keep.back();
   };
   auto apply = [&](int su, int sk, int sdt, int st)
   {
      miso::MISOInputs in;
      if (su >= 0)
      {
         in.emplace("state", fresh(su));
         m.u = vec(n, su);
      }
      if (sk >= 0)
      {
         in.emplace("state_dot", fresh(sk));
         m.k = vec(n, sk);
      }
      if (sdt >= 0)
      {
         in.emplace("dt", DTS[sdt]);
         m.dt = DTS[sdt];
      }
      if (st >= 0)
      {
         in.emplace("time", TS[st]);
         m.t = TS[st];
      }
      note(Str() << "  set u" << su << " k" << sk << " dt" << sdt << " t" << st);
      setInputs(td, in);
   };
   apply(0, 1, choose(4, "dt"), 0);
   int depth = thorough() ? 4 : 3;
   for (int op = 0; op < depth; ++op)
   {
      int o = choose(9, "op");
      std::string where = Str() << "op " << op << "/" << o << " (mass " << mk << ", n=" << n << ", dt=" << m.dt << ", t=" << m.t << ")";
      switch (o)
      {
      case 0: apply(3, -1, -1, -1); break;
      case 1: apply(-1, 3, choose(2, "dt2"), -1); break;
      case 2: apply(-1, -1, 2, 1); break;
      case 3: case 4: case 5: case 6:
      {
         // evaluate with an explicit slope, as the solver's unknown, with the last slope, or through Mult
         Vector &k = fresh(o == 5 ? 1 : o == 3 ? 3 : 0);
         Vector r(n);
         r = NAN;
         miso::MISOInputs in;
         if (o == 3) { in.emplace("state_dot", k); }
         if (o == 4) { in.emplace("state", k); }
         if (o == 6) { td.Mult(k, r); }
         else { evaluate(td, in, r); }
         Vector used = o == 5 ? m.k : k;
         LV want;
         reference_res(*d, m, used, m.t, want);
         for (int i = 0; i < n; ++i) { MC_CHECK(close(r(i), (double)want[i], 1e-13), "residual", where << ": component " << i << " of the residual is " << r(i) << " instead of " << (double)want[i]); }
         MC_CHECK(!d->eval_times.empty() && d->eval_times.back() == m.t, "residual-time", where << ": the spatial residual was evaluated at another time");
         for (int i = 0; i < n; ++i) { fingerprint(r(i)); }
         break;
      }
      default:
      {
         Vector &k = fresh(o == 7 ? 3 : 0);
         miso::MISOInputs in;
         if (o == 7) { in.emplace("state_dot", k); }
         mfem::Operator *J = nullptr;
         if (o == 8) { J = &td.GetGradient(k); }
         else { J = &getJacobian(td, in, "state"); }
         check_jac(*d, m, k, *J, mk == 4, where);
         // independent of how often it is asked for
         mfem::Operator &J2 = getJacobian(td, in, "state");
         if (o == 7) { check_jac(*d, m, k, J2, mk == 4, where + " again"); }
      }
      }
      for (auto &v : keep) { for (int i = 0; i < n; ++i) { MC_CHECK(std::isfinite((*v)(i)), "input-changed", where << ": an input vector was overwritten"); } }
   }
   // inputs are never modified
   for (auto &v : keep)
   {
      bool ok = false;
      for (int w = 0; w < 4; ++w)
      {
         Vector x = vec(n, w);
         bool same = true;
         for (int i = 0; i < n; ++i) { same = same && x(i) == (*v)(i); }
         ok = ok || same;
      }
      MC_CHECK(ok, "input-changed", "an input vector was modified");
   }
}

// combinations of mass matrix and spatial Jacobian that are not supported are refused
struct NoBlock : public mfem::Operator
{
   NoBlock(int n) : mfem::Operator(n) { }
   void Mult(const Vector &x, Vector &y) const override
   {
      y = x;
      y *= 3.0;
   }
};
void unsupported()
{
   int n = 1 + choose(2, "n");
   auto d = std::make_shared<Data>();
   pick_system(*d, n);
   int c = choose(4, "combination");
   Mass mass;
   int kind = c == 0 ? 0 : c == 1 ? 2 : 2;
   make_mass(kind, 0, *d, mass);
   std::unique_ptr<mfem::Operator> own;
   if (c == 0) { d->hypre_jac = true; }   // identity + hypre
   if (c == 1) { d->hypre_jac = false; }  // hypre + dense
   if (c == 2)
   {
      auto dm = std::make_unique<DenseMatrix>(n);
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { (*dm)(i, j) = (double)d->M[i][j]; } }
      mass.op = std::move(dm);
      d->hypre_jac = choose(2, "jac");
   }
   if (c == 3)
   {
      mass.op = std::make_unique<NoBlock>(n);
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { d->M[i][j] = i == j ? 3.0 : 0.0; } }
      d->hypre_jac = choose(2, "jac");
   }
   miso::MISOResidual spatial{Res(d)};
   miso::MISOResidual td{miso::TimeDependentResidual(spatial, mass.op.get())};
   Vector u = vec(n, 0), k = vec(n, 1), r(n);
   Model m;
   m.u = u;
   m.k = k;
   m.dt = choose(2, "dt") ? 0.25 : 0.0;
   m.t = 0.7;
   setInputs(td, {{"state", u}, {"state_dot", k}, {"dt", m.dt}, {"time", m.t}});
   evaluate(td, {}, r);
   LV want;
   reference_res(*d, m, k, m.t, want);
   for (int i = 0; i < n; ++i) { MC_CHECK(close(r(i), (double)want[i], 1e-13), "residual", "residual with an unusual mass operator"); }
   bool threw = false;
   mfem::Operator *J = nullptr;
   try { J = &getJacobian(td, {{"state", k}}, "state"); }
   catch (const miso::MISOException &) { threw = true; }
   if (!threw)
   {
      // a Jacobian that is returned must be right
      MC_CHECK(J != nullptr, "unsupported", "null Jacobian");
      check_jac(*d, m, k, *J, false, Str() << "combination " << c << " dt " << m.dt);
   }
   MC_CHECK(m.dt != 0.0 || !threw, "explicit", "the Jacobian for dt = 0 is the mass matrix, but it was refused");
}

// options, entropies, supply rate and preconditioner reach the spatial residual; the ODE passes its state, slope, time and dt
struct Prec : mfem::Solver
{
   void SetOperator(const mfem::Operator &) override { }
   void Mult(const Vector &x, Vector &y) const override { y = x; }
};
void forwarding()
{
   int n = 1 + choose(3, "n");
   auto d = std::make_shared<Data>();
   pick_system(*d, n);
   d->entropy = choose(2, "entropy");
   Mass mass;
   make_mass(choose(5, "mass"), 0, *d, mass);
   Prec prec;
   Res res(d);
   bool has = choose(2, "prec");
   res.prec = has ? &prec : nullptr;
   miso::MISOResidual spatial{std::move(res)};
   miso::MISOResidual td{miso::TimeDependentResidual(spatial, mass.op.get())};
   Res &conc = miso::getConcrete<Res>(spatial);
   MC_CHECK(getPreconditioner(td) == conc.prec, "preconditioner", "the space-time residual does not return the preconditioner of the spatial residual");
   json o{{"a", 1 + choose(2, "opt")}, {"b", {{"c", "x"}}}};
   setOptions(td, o);
   MC_CHECK(conc.opts == o, "options", "options did not reach the spatial residual: " << conc.opts.dump());
   bool bad = false;
   try { miso::getConcrete<NoBlock *>(td); }
   catch (const miso::MISOException &) { bad = true; }
   MC_CHECK(bad, "concrete", "getConcrete accepted a wrong type");

   Direct lin(n);
   mfem::NewtonSolver nw(MPI_COMM_SELF);
   nw.SetSolver(lin);
   nw.SetOperator(td);
   miso::FirstOrderODE ode(td, json{{"type", choose(2, "type") ? "RRK" : "RK4"}}, nw);
   MC_CHECK(ode.Height() == n && ode.Width() == n, "ode-size", "size of the ODE");
   Vector u = vec(n, choose(2, "u")), k = vec(n, 3), u0(u), k0(k);
   double dt = DTS[choose(4, "dt")], t = TS[choose(2, "t")];
   ode.SetTime(t);
   for (int rep = 0; rep < 2; ++rep)
   {
      double S = ode.Entropy(u);
      MC_CHECK(close(S, (double)d->S((const double *)u.GetData()), 1e-14), "entropy", "entropy " << S);
      double dS = ode.EntropyChange(dt, u, k);
      LV w(n), uu(n);
      for (int i = 0; i < n; ++i) { uu[i] = u(i); }
      d->w(uu.data(), w.data());
      L want = 0;
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { want -= w[i] * d->M[i][j] * k(j); } }
      MC_CHECK(close(dS, (double)want, 1e-13), "entropy-change", "entropy change " << dS << " instead of " << (double)want);
      const auto &in = conc.last_change;
      MC_CHECK(in.count("time") && std::get<double>(in.at("time")) == t, "entropy-change-time", "entropy change evaluated at another time");
      MC_CHECK(in.count("dt") && std::get<double>(in.at("dt")) == dt, "entropy-change-dt", "entropy change evaluated with another dt");
      double sr = ode.SupplyRate(dt, u, k);
      double wsr = 100 * (double)d->S((const double *)u.GetData()) + dt + 10 * t;
      MC_CHECK(close(sr, wsr, 1e-13), "supply-rate", "supply rate " << sr << " instead of " << wsr);
   }
   for (int i = 0; i < n; ++i) { MC_CHECK(u(i) == u0(i) && k(i) == k0(i), "input-changed", "state or slope modified"); }
   // slopes: Mult solves M k + R(u,t) = 0, ImplicitSolve M k + R(u + dt k, t) = 0
   nw.SetRelTol(0.0);
   nw.SetAbsTol(1e-12);
   nw.SetMaxIter(40);
   nw.SetPrintLevel(-1);
   bool impl = choose(2, "implicit");
   if (impl && dt == 0.0) { prune(); }
   LV uu(n), ref;
   for (int i = 0; i < n; ++i) { uu[i] = u(i); }
   if (!implicit_k(*d, uu, impl ? dt : 0.0, t, ref)) { prune(); }
   Vector s(n);
   s = 7.0;  // must not be used as an initial guess or added to
   if (impl) { ode.ImplicitSolve(dt, u, s); }
   else { ode.Mult(u, s); }
   if (!nw.GetConverged() && impl) { prune(); }
   MC_CHECK(nw.GetConverged(), "slope", "the explicit slope did not converge");
   // roots of nonlinear systems may differ: test the equation itself
   LV x(n), r(n);
   for (int i = 0; i < n; ++i) { x[i] = uu[i] + (impl ? dt : 0.0) * s(i); }
   d->R(x.data(), (L)t, r.data());
   for (int i = 0; i < n; ++i)
   {
      for (int j = 0; j < n; ++j) { r[i] += d->M[i][j] * s(j); }
      MC_CHECK(fabsl(r[i]) < 1e-9L, "slope", "M k + R = " << (double)r[i] << " in component " << i << (impl ? " (implicit)" : " (explicit)"));
   }
   for (int i = 0; i < n; ++i) { MC_CHECK(u(i) == u0(i), "input-changed", "state modified by the slope computation"); }
}

// ODESystemOperator hands (x + dt k, k) to the residual
struct SysRes
{
   std::shared_ptr<Data> d;
   std::shared_ptr<DenseMatrix> J;
   std::shared_ptr<std::vector<std::string>> log;
   friend int getSize(const SysRes &r) { return r.d->n; }
   friend void setInputs(SysRes &, const miso::MISOInputs &) { }
   friend void setOptions(SysRes &, const json &) { }
   friend void evaluate(SysRes &r, const miso::MISOInputs &in, Vector &out)
   {
      Vector x, k;
      miso::setVectorFromInputs(in, "state", x, false, true);
      miso::setVectorFromInputs(in, "dxdt", k, false, true);
      int n = r.d->n;
      Vector f(n);
      r.d->R((const double *)x.GetData(), 0.5, f.GetData());
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { f(i) += (double)r.d->M[i][j] * k(j); } }
      out += f;  // adds to what it is given
   }
   friend mfem::Operator &getJacobian(SysRes &r, const miso::MISOInputs &in, const std::string &wrt)
   {
      r.log->push_back(wrt);
      Vector x;
      double dt = NAN;
      miso::setVectorFromInputs(in, "state", x, false, true);
      miso::setValueFromInputs(in, "dt", dt, true);
      int n = r.d->n;
      std::vector<double> j(n * n);
      r.d->J((const double *)x.GetData(), j.data());
      for (int a = 0; a < n; ++a) { for (int b = 0; b < n; ++b) { (*r.J)(a, b) = (double)r.d->M[a][b] + dt * j[a * n + b]; } }
      return *r.J;
   }
};
void systemop()
{
   int n = 1 + choose(3, "n");
   auto d = std::make_shared<Data>();
   pick_system(*d, n);
   Mass mass;
   make_mass(3, 0, *d, mass);
   auto log = std::make_shared<std::vector<std::string>>();
   miso::MISOResidual res{SysRes{d, std::make_shared<DenseMatrix>(n), log}};
   miso::ODESystemOperator op(res);
   MC_CHECK(op.Height() == n && op.Width() == n, "system-size", "size of the system operator");
   Vector xs[2] = {vec(n, 0), vec(n, 3)};
   for (int rep = 0; rep < (thorough() ? 3 : 2); ++rep)
   {
      Vector &x = xs[choose(2, "x")];
      double dt = DTS[choose(4, "dt")];
      Vector k = vec(n, choose(4, "k")), k0(k), x0(x);
      op.setParameters(dt, &x);
      Model m;
      m.u = x;
      m.dt = dt;
      if (choose(2, "what") == 0)
      {
         Vector r(n);
         r = 5.0;
         op.Mult(k, r);
         LV want;
         reference_res(*d, m, k, 0.5, want);
         for (int i = 0; i < n; ++i) { MC_CHECK(close(r(i), (double)want[i], 1e-13), "system-residual", "component " << i << ": " << r(i) << " instead of " << (double)want[i]); }
      }
      else
      {
         mfem::Operator &J = op.GetGradient(k);
         MC_CHECK(log->back() == "dxdt", "system-wrt", "Jacobian with respect to " << log->back());
         check_jac(*d, m, k, J, false, "system Jacobian");
      }
      for (int i = 0; i < n; ++i) { MC_CHECK(x(i) == x0(i) && k(i) == k0(i), "input-changed", "x or k modified"); }
   }
}
}  // namespace

int main(int argc, char **argv)
{
   std::cout.setstate(std::ios::failbit);
   return mc::run(argc, argv, "C11", []() { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
                  {{"unsupported", unsupported}, {"forwarding", forwarding}, {"systemop", systemop}, {"protocol", protocol, 60.0, 4}});
}
