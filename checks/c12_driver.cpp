// C12: AbstractSolver2 - options, time loop, steady and adjoint solves, logging.
#include "ode_sys.hpp"
#include "mfem_throw.hpp"
#include "abstract_solver.hpp"
#include "default_options.hpp"
#include <dirent.h>
#include <set>
using namespace mc;
using namespace odesys;
using nlohmann::json;

namespace
{
// RFC 7386 (construction) and deep update (setOptions), written out
json rfc7386(json t, const json &p)
{
   if (!p.is_object()) { return p; }
   if (!t.is_object()) { t = json::object(); }
   for (auto it = p.begin(); it != p.end(); ++it)
   {
      if (it->is_null()) { t.erase(it.key()); }
      else { t[it.key()] = rfc7386(t.contains(it.key()) ? t[it.key()] : json(), *it); }
   }
   return t;
}
json deep(json t, const json &p)
{
   for (auto it = p.begin(); it != p.end(); ++it)
   {
      if (it->is_object() && t.contains(it.key()) && t[it.key()].is_object()) { t[it.key()] = deep(t[it.key()], *it); }
      else { t[it.key()] = *it; }
   }
   return t;
}

struct Hook
{
   int iter;
   double t, dt;
   Vector state;
};
class Solver : public miso::AbstractSolver2
{
public:
   Solver(const json &o) : miso::AbstractSolver2(MPI_COMM_SELF, o) { }
   // the library keeps its duplicate of the communicator forever; MPI has only 2^16 of them
   ~Solver() override { MPI_Comm_free(&comm); }
   using miso::AbstractSolver2::ode;
   using miso::AbstractSolver2::spatial_res;
   using miso::AbstractSolver2::space_time_res;
   using miso::AbstractSolver2::linear_solver;
   using miso::AbstractSolver2::nonlinear_solver;
   using miso::AbstractSolver2::adj_solver;
   using miso::AbstractSolver2::addLogger;
   using miso::AbstractSolver2::rank;
   std::vector<Hook> init, iters, term;
   bool custom_dt = false;
   double dt0 = 0;
   void initialHook(const Vector &s) override
   {
      miso::AbstractSolver2::initialHook(s);
      init.push_back({0, 0, 0, s});
   }
   void iterationHook(int i, double t, double dt, const Vector &s) override
   {
      miso::AbstractSolver2::iterationHook(i, t, dt, s);
      iters.push_back({i, t, dt, s});
   }
   void terminalHook(int i, double t, const Vector &s) override
   {
      miso::AbstractSolver2::terminalHook(i, t, s);
      term.push_back({i, t, 0, s});
   }
   double calcStepSize(int i, double t, double tf, double old, const Vector &s) const override
   {
      if (!custom_dt) { return miso::AbstractSolver2::calcStepSize(i, t, tf, old, s); }
      // doubles the previous step
      return std::min(i == 0 ? dt0 : 2 * old, tf - t);
   }
};
void clean()
{
   for (auto d : {"/ASCIILogger", "/BinaryLogger"}) { std::filesystem::remove_all(scratch() + d); }
}
std::set<std::string> files(const char *dir)
{
   std::set<std::string> r;
   if (DIR *d = opendir(dir))
   {
      while (auto *e = readdir(d)) { if (e->d_name[0] != '.') { r.insert(e->d_name); } }
      closedir(d);
   }
   return r;
}

void options()
{
   static const std::vector<json> docs{
       json::object(), {{"print-options", false}}, {{"mesh", {{"refine", 2}}}}, {{"time-dis", {{"dt", 0.5}, {"new", {{"x", 1}}}}}},
       {{"lin-solver", nullptr}}, {{"paraview", {{"fields", {"a", "b"}}}}}, {{"steady", {{"deep", true}}}}, {{"problem", "box"}},
       {{"time-dis", {{"type", "RK1"}, {"steady", nullptr}}}}, {{"space-dis", 3}}, {{"paraview", json::object()}}};
   json user = pick(docs, "user"), user2 = pick(docs, "user2");
   user.merge_patch(user2);
   bool silent = choose(2, "silent");
   if (silent) { user["silent"] = true; }
   json before = miso::default_options, snapshot = user;
   Solver a(user);
   json want = rfc7386(before, user);
   MC_CHECK(a.getOptions() == want, "merge", "options are not the defaults overwritten by " << user.dump());
   MC_CHECK(miso::default_options == before, "defaults-changed", "constructing a solver changed the default options");
   MC_CHECK(user == snapshot, "user-changed", "constructing a solver changed the user's options");
   for (int k = 0; k < (thorough() ? 2 : 1); ++k)
   {
      json upd = pick(docs, "update");
      for (auto &e : upd) { if (e.is_null()) { e = json::object(); } }
      // an object in the place of a value is refused by the JSON library
      for (auto it = upd.begin(); it != upd.end(); ++it) { if (it->is_object() && a.getOptions().contains(it.key()) && !a.getOptions()[it.key()].is_object()) { prune(); } }
      json snap = upd;
      a.setOptions(upd);
      want = deep(want, upd);
      MC_CHECK(a.getOptions() == want, "update", "setOptions(" << upd.dump() << ") gave " << a.getOptions().dump() << " instead of " << want.dump());
      MC_CHECK(upd == snap && miso::default_options == before, "defaults-changed", "setOptions changed its argument or the defaults");
   }
   Solver b(json::object());
   MC_CHECK(b.getOptions() == before, "shared", "options of one solver leak into another");
   outcome(want.dump());
}

void unsteady()
{
   int n = 1 + choose(2, "n");
   auto d = std::make_shared<Data>();
   d->n = n;
   d->A = n == 1 ? std::vector<double>{0.5} : std::vector<double>{0, 1, -1, 0};
   d->g = 0.5;
   Mass mass;
   make_mass(0, 0, *d, mass);
   static const std::vector<std::string> types{"RK1", "MIDPOINT"};
   std::string type = pick(types, "type");
   static const std::vector<double> t0s{0.0, 0.75, -0.25}, lens{0.25, 0.3, 1.0, 0.0625, 0.51}, dts{0.25, 0.125, 0.5};
   static const std::vector<int> maxs{10000, 2, 1, 0};
   double t0 = pick(t0s, "t0"), len = pick(lens, "len"), dt = pick(dts, "dt");
   int maxit = pick(maxs, "max-iter");
   int exact = choose(3, "exact");  // 0: default, 1: true, 2: false
   json o{{"silent", true}, {"print-options", false}, {"time-dis", {{"type", type}, {"t-initial", t0}, {"t-final", t0 + len}, {"dt", dt}, {"max-iter", maxit}}}};
   if (exact == 1) { o["time-dis"]["exact-t-final"] = true; }
   if (exact == 2) { o["time-dis"]["exact-t-final"] = false; }
   clean();
   Solver s(o);
   s.spatial_res = std::make_unique<miso::MISOResidual>(Res(d));
   s.space_time_res = std::make_unique<miso::MISOResidual>(miso::TimeDependentResidual(*s.spatial_res));
   s.linear_solver = std::make_unique<Direct>(n);
   s.nonlinear_solver = std::make_unique<mfem::NewtonSolver>(MPI_COMM_SELF);
   s.nonlinear_solver->SetSolver(*s.linear_solver);
   s.nonlinear_solver->SetOperator(*s.space_time_res);
   s.nonlinear_solver->SetRelTol(0.0);
   s.nonlinear_solver->SetAbsTol(1e-13);
   s.nonlinear_solver->SetMaxIter(20);
   s.nonlinear_solver->SetPrintLevel(-1);
   s.ode = std::make_unique<miso::FirstOrderODE>(*s.space_time_res, s.getOptions()["time-dis"], *s.nonlinear_solver);
   s.custom_dt = exact == 1 && choose(2, "custom dt");
   s.dt0 = dt;
   int lo = choose(8, "logging"), second = choose(2, "second logger");
   s.addLogger(miso::ASCIILogger{}, {bool(lo & 1), bool(lo & 2), bool(lo & 4)});
   if (second) { s.addLogger(miso::BinaryLogger{}, {!(lo & 1), !(lo & 2), !(lo & 4)}); }
   Vector u(n);
   u(0) = 1.0;
   if (n > 1) { u(1) = -0.5; }
   LV x(n);
   for (int i = 0; i < n; ++i) { x[i] = u(i); }
   s.solveForState(u);
   // reference
   struct Snap { LV u; L t; };
   std::vector<Snap> st{{x, t0}};
   std::vector<double> steps;
   L t = t0, tf = t0 + len, last = dt;
   for (int k = 0; k < maxit; ++k)
   {
      L h = dt;
      if (s.custom_dt) { h = k == 0 ? (L)dt : 2 * last; }
      if (exact != 2) { h = std::min(h, tf - t); }
      last = h;
      LV kk;
      bool ok = type == "RK1" ? implicit_k(*d, x, 0, t, kk) : implicit_k(*d, x, h / 2, t + h / 2, kk);
      if (!ok) { prune(); }
      for (int i = 0; i < n; ++i) { x[i] += h * kk[i]; }
      t += h;
      steps.push_back((double)h);
      st.push_back({x, t});
      if (t >= tf - 1e-12L) { break; }
   }
   std::string where = Str() << type << " n=" << n << " t0=" << t0 << " len=" << len << " dt=" << dt << " max-iter=" << maxit << " exact=" << exact << " custom=" << s.custom_dt << " logging=" << lo << "/" << second;
   note(where);
   int N = (int)steps.size();
   MC_CHECK((int)s.iters.size() == N, "steps", where << ": took " << s.iters.size() << " steps instead of " << N);
   MC_CHECK(s.init.size() == 1 && s.term.size() == 1, "hooks", where << ": initial hook ran " << s.init.size() << " times, terminal hook " << s.term.size() << " times");
   auto same = [&](const Vector &v, const LV &w)
   {
      if (v.Size() != n) { return false; }
      for (int i = 0; i < n; ++i) { if (!close(v(i), (double)w[i], 1e-10)) { return false; } }
      return true;
   };
   MC_CHECK(same(s.init[0].state, st[0].u), "hooks", where << ": the initial hook did not see the initial state");
   for (int k = 0; k < N; ++k)
   {
      const Hook &h = s.iters[k];
      MC_CHECK(h.iter == k, "iteration", where << ": step " << k << " was announced as iteration " << h.iter);
      MC_CHECK(close(h.t, (double)st[k].t, 1e-12), "iteration-time", where << ": step " << k << " announced at time " << h.t << " instead of " << (double)st[k].t);
      MC_CHECK(close(h.dt, steps[k], 1e-12), "iteration-dt", where << ": step " << k << " announced with dt " << h.dt << " instead of " << steps[k]);
      MC_CHECK(same(h.state, st[k].u), "iteration-state", where << ": hook of step " << k << " saw another state");
   }
   MC_CHECK(same(u, st[N].u), "final-state", where << ": final state " << u(0) << " instead of " << (double)st[N].u[0]);
   MC_CHECK(close(s.term[0].t, (double)st[N].t, 1e-12), "final-time", where << ": terminal hook at time " << s.term[0].t << " instead of " << (double)st[N].t);
   MC_CHECK(s.term[0].iter == N, "final-iteration", where << ": terminal hook at iteration " << s.term[0].iter << " after " << N << " steps");
   if (maxit == 10000 && exact != 2) { MC_CHECK(close(s.term[0].t, t0 + len, 1e-13), "exact-final-time", where << ": stopped at " << s.term[0].t); }
   // what the loggers saved: timestep k holds the state after k steps
   for (int g = 0; g <= second; ++g)
   {
      int f = g == 0 ? lo : 7 - lo;
      std::map<int, Snap> want;
      if (f & 1) { want[0] = st[0]; }
      if (f & 2) { for (int k = 0; k < N; ++k) { want[k] = st[k]; } }
      if (f & 4) { want[N] = st[N]; }
      auto got = files(g == 0 ? "ASCIILogger" : "BinaryLogger");
      std::set<std::string> names;
      for (auto &w : want) { names.insert("state_" + std::to_string(w.first) + "_0"); }
      if (got != names)
      {
         std::string l;
         for (auto &q : got) { l += " " + q; }
         fail("log-files", Str() << where << ": logger " << g << " saved" << l << " instead of " << names.size() << " timesteps (" << N << " steps)");
      }
      for (auto &w : want)
      {
         double time = NAN;
         Vector v;
         if (g == 0) { miso::ASCIILogger::readState("state", w.first, 0, time, v); }
         else { miso::BinaryLogger::readState("state", w.first, 0, time, v); }
         MC_CHECK(same(v, w.second.u), "log-state", where << ": the saved state of timestep " << w.first << " is not the state after " << w.first << " steps");
         MC_CHECK(close(time, (double)w.second.t, 1e-12), "log-time", where << ": the saved time of timestep " << w.first << " is " << time << " instead of " << (double)w.second.t);
      }
   }
   outcome(Str() << N << " " << u(0));
}

// steady problem: R(u; p) = A u + q u.u - p
struct Steady
{
   struct Log
   {
      std::vector<std::string> ev;
      double p = 0;
      json opts;
      Vector adj_state;
   };
   std::shared_ptr<Data> d;
   std::shared_ptr<Log> log;
   std::shared_ptr<DenseMatrix> J, JT;
   Steady(std::shared_ptr<Data> d_, std::shared_ptr<Log> l) : d(d_), log(l), J(std::make_shared<DenseMatrix>(d_->n)), JT(std::make_shared<DenseMatrix>(d_->n)) { }
   friend int getSize(const Steady &r) { return r.d->n; }
   friend MPI_Comm getMPIComm(const Steady &) { return MPI_COMM_SELF; }
   friend void setInputs(Steady &r, const miso::MISOInputs &in)
   {
      r.log->ev.push_back("set");
      miso::setValueFromInputs(in, "p", r.log->p);
   }
   friend void setOptions(Steady &r, const json &o) { r.log->opts = o; }
   friend void evaluate(Steady &r, const miso::MISOInputs &in, Vector &out)
   {
      r.log->ev.push_back("eval");
      Vector u;
      miso::setVectorFromInputs(in, "state", u, false, true);
      out.SetSize(r.d->n);
      r.d->R((const double *)u.GetData(), 0.0, out.GetData());
      for (int i = 0; i < r.d->n; ++i) { out(i) -= r.log->p; }
   }
   static void jac(Steady &r, const miso::MISOInputs &in)
   {
      Vector u;
      miso::setVectorFromInputs(in, "state", u, false, true);
      int n = r.d->n;
      std::vector<double> j(n * n);
      r.d->J((const double *)u.GetData(), j.data());
      for (int a = 0; a < n; ++a) { for (int b = 0; b < n; ++b) { (*r.J)(a, b) = (*r.JT)(b, a) = j[a * n + b]; } }
   }
   friend mfem::Operator &getJacobian(Steady &r, const miso::MISOInputs &in, const std::string &wrt)
   {
      jac(r, in);
      return *r.J;
   }
   friend void setUpAdjointSystem(Steady &r, mfem::Solver &s, const miso::MISOInputs &in, Vector &state_bar, Vector &adjoint)
   {
      r.log->ev.push_back("adjoint");
      jac(r, in);
      s.SetOperator(*r.JT);
      state_bar *= -1.0;  // works on its own copy
   }
};
void steady()
{
   int n = 1 + choose(3, "n");
   auto d = std::make_shared<Data>();
   pick_system(*d, n);
   if (d->g != 0.0) { prune(); }
   auto log = std::make_shared<Steady::Log>();
   clean();
   static const std::vector<std::string> types{"gmres", "fgmres", "minres-none"};
   std::string at = choose(2, "adj") ? "fgmres" : "gmres";
   Solver s(json{{"silent", true}, {"print-options", false}, {"adj-solver", {{"type", at}, {"reltol", 1e-14}, {"abstol", 1e-14}, {"printlevel", -1}}}});
   bool threw = false;
   try { s.getStateSize(); }
   catch (const miso::MISOException &) { threw = true; }
   MC_CHECK(threw, "size", "a solver without residual has a state size");
   s.spatial_res = std::make_unique<miso::MISOResidual>(Steady(d, log));
   MC_CHECK(s.getStateSize() == n, "size", "state size " << s.getStateSize());
   for (auto f : {"state", "residual", "adjoint"}) { MC_CHECK(s.getFieldSize(f) == n, "field-size", "size of " << f << " is " << s.getFieldSize(f)); }
   for (auto f : {"", "State", "mesh_coords"}) { MC_CHECK(s.getFieldSize(f) == 0, "field-size", "size of unknown field '" << f << "' is " << s.getFieldSize(f)); }
   s.linear_solver = std::make_unique<Direct>(n);
   s.nonlinear_solver = std::make_unique<mfem::NewtonSolver>(MPI_COMM_SELF);
   s.nonlinear_solver->SetSolver(*s.linear_solver);
   s.nonlinear_solver->SetOperator(*s.spatial_res);
   s.nonlinear_solver->SetRelTol(0.0);
   s.nonlinear_solver->SetAbsTol(1e-12);
   bool one = choose(2, "iterations") == 0;
   s.nonlinear_solver->SetMaxIter(one ? 1 : 50);
   s.nonlinear_solver->SetPrintLevel(-1);
   bool logging = choose(2, "logging");
   if (logging) { s.addLogger(miso::ASCIILogger{}, {true, false, true}); }
   static const std::vector<std::vector<double>> u0s{{1.0, 0.5, -0.25}, {-0.3, 0.8, 1.2}};
   int reps = 2;
   for (int rep = 0; rep < reps; ++rep)
   {
      double p = choose(2, "p") ? 1.5 : 0.25;
      auto &u0 = pick(u0s, "u0");
      Vector u(n), ustart(n);
      for (int i = 0; i < n; ++i) { u(i) = ustart(i) = u0[i]; }
      log->ev.clear();
      // residual and its norm
      Vector r(n), rr(n);
      miso::MISOInputs in{{"state", u}, {"p", p}};
      r = NAN;
      s.calcResidual(in, r);
      MC_CHECK(log->ev.size() >= 2 && log->ev[0] == "set", "inputs", "calcResidual did not pass the inputs on before evaluating");
      d->R((const double *)u.GetData(), 0.0, rr.GetData());
      double nrm = 0;
      for (int i = 0; i < n; ++i)
      {
         rr(i) -= p;
         nrm += rr(i) * rr(i);
         MC_CHECK(close(r(i), rr(i), 1e-14), "residual", "residual " << r(i) << " instead of " << rr(i));
      }
      MC_CHECK(close(s.calcResidualNorm(in), std::sqrt(nrm), 1e-14), "residual-norm", "norm " << s.calcResidualNorm(in) << " instead of " << std::sqrt(nrm));
      MC_CHECK(close(s.calcResidualNorm(u), std::sqrt(nrm), 1e-14), "residual-norm", "norm with the last inputs differs");
      s.calcResidual(u, r);
      for (int i = 0; i < n; ++i) { MC_CHECK(close(r(i), rr(i), 1e-14), "residual", "residual with the last inputs differs"); }
      // solve
      try { s.solveForState({{"p", p}}, u); }
      catch (const Fail &f)
      {
         if (f.key == "singular") { prune(); }
         throw;
      }
      MC_CHECK(log->p == p, "inputs", "inputs did not reach the residual");
      MC_CHECK(s.init.size() == (size_t)rep + 1, "hooks", "initial hook ran " << s.init.size() << " times");
      for (int i = 0; i < n; ++i) { MC_CHECK(s.init.back().state(i) == ustart(i), "hooks", "initial hook saw another state"); }
      if (one)
      {
         // exactly one Newton step from the given state
         std::vector<double> jm(n * n);
         d->J((const double *)ustart.GetData(), jm.data());
         LM A(n, LV(n));
         LV b(n), du;
         for (int i = 0; i < n; ++i)
         {
            b[i] = rr(i);
            for (int j = 0; j < n; ++j) { A[i][j] = jm[i * n + j]; }
         }
         if (!lu(A, b, du)) { prune(); }
         for (int i = 0; i < n; ++i) { MC_CHECK(close(u(i), (double)(ustart(i) - du[i]), 1e-11), "initial-guess", "one Newton iteration gave " << u(i) << " instead of " << (double)(ustart(i) - du[i])); }
      }
      else if (s.nonlinear_solver->GetConverged())
      {
         d->R((const double *)u.GetData(), 0.0, rr.GetData());
         for (int i = 0; i < n; ++i) { MC_CHECK(fabs(rr(i) - p) < 1e-10, "steady-solution", "residual " << rr(i) - p << " at the solution"); }
      }
      if (logging)
      {
         double tm = NAN;
         Vector v;
         miso::ASCIILogger::readState("state", 0, 0, tm, v);
         bool ok = v.Size() == n;
         for (int i = 0; ok && i < n; ++i) { ok = close(v(i), ustart(i), 1e-15); }
         MC_CHECK(ok, "log-initial", "the initial state was not logged as timestep 0");
         miso::ASCIILogger::readState("state", 1, 0, tm, v);
         ok = v.Size() == n;
         for (int i = 0; ok && i < n; ++i) { ok = close(v(i), u(i), 1e-15) || (std::isnan(v(i)) && std::isnan(u(i))); }
         MC_CHECK(ok, "log-final", "the final state was not logged as timestep 1");
      }
      // adjoint at the starting state
      {
         std::vector<double> jm(n * n);
         d->J((const double *)ustart.GetData(), jm.data());
         LM AT(n, LV(n));
         LV b(n), psi;
         Vector bar(n), bar0(n), adj(n);
         for (int i = 0; i < n; ++i)
         {
            bar(i) = bar0(i) = 1.0 + i - 0.5 * rep;
            b[i] = -bar(i);
            for (int j = 0; j < n; ++j) { AT[j][i] = jm[i * n + j]; }
         }
         if (!lu(AT, b, psi)) { prune(); }
         L big = 0;
         for (auto &e : psi) { big = std::max(big, fabsl(e)); }
         adj = 0.0;
         log->ev.clear();
         s.solveForAdjoint({{"state", ustart}, {"p", p}}, bar, adj);
         MC_CHECK(log->ev.size() >= 2 && log->ev[0] == "set", "adjoint-inputs", "inputs were not set before the adjoint solve");
         for (int i = 0; i < n; ++i)
         {
            MC_CHECK(bar(i) == bar0(i), "adjoint-rhs", "the right-hand side of the adjoint was modified");
            MC_CHECK(fabsl(adj(i) - psi[i]) < 1e-7L * (1 + big), "adjoint", "adjoint component " << i << " is " << adj(i) << " instead of " << (double)psi[i]);
         }
         if (logging)
         {
            double tm = NAN;
            Vector v;
            miso::ASCIILogger::readState("adjoint", 0, 0, tm, v);
            bool ok = v.Size() == n;
            for (int i = 0; ok && i < n; ++i) { ok = close(v(i), adj(i), 1e-15); }
            MC_CHECK(ok, "log-adjoint", "the adjoint was not logged");
         }
      }
      for (int i = 0; i < n; ++i) { fingerprint(u(i)); }
   }
   // unsteady adjoints are refused
   s.space_time_res = std::make_unique<miso::MISOResidual>(miso::TimeDependentResidual(*s.spatial_res));
   s.ode = std::make_unique<miso::FirstOrderODE>(*s.space_time_res, json{{"type", "RK1"}}, *s.nonlinear_solver);
   Vector bar(n), adj(n);
   bar = 1.0;
   threw = false;
   try { s.solveForAdjoint({{"state", bar}}, bar, adj); }
   catch (const miso::MISOException &) { threw = true; }
   MC_CHECK(threw, "adjoint-unsteady", "an unsteady adjoint was not refused");
}

// setState and calcStateError through functions and vectors
void states()
{
   int n = 1 + choose(3, "n");
   Solver s(json{{"silent", true}, {"print-options", false}});
   Vector u(n);
   u = 7.0;
   int how = choose(3, "how");
   auto f = [](Vector &v) { for (int i = 0; i < v.Size(); ++i) { v(i) = 1.0 + 2 * i; } };
   if (how == 0) { s.setState(f, u); }
   else if (how == 1) { s.setState(std::function<void(Vector &)>(f), u); }
   else { s.setState([](Vector &v) { v = 1.0; for (int i = 1; i < v.Size(); ++i) { v(i) += 2 * i; } }, u, "state"); }
   for (int i = 0; i < n; ++i) { MC_CHECK(u(i) == 1.0 + 2 * i, "set-state", "entry " << i << " is " << u(i)); }
   int m = choose(4, "m");
   Vector ex(m);
   for (int i = 0; i < m; ++i) { ex(i) = 0.5 * i - 1; }
   double w = 0, w2 = 0;
   for (int i = 0; i < n; ++i)
   {
      if (i < m) { w += (u(i) - ex(i)) * (u(i) - ex(i)); }
      double e = u(i) - 3.0;
      w2 += e * e;
   }
   bool threw = false;
   double e = NAN;
   try { e = s.calcStateError(ex, u); }
   catch (const miso::MISOException &) { threw = true; }
   MC_CHECK(threw == (m != n), "error-size", "an exact solution of size " << m << " for a state of size " << n << (threw ? " was refused" : " was accepted"));
   if (m == n) { MC_CHECK(close(e, std::sqrt(w), 1e-14), "state-error", "error " << e << " instead of " << std::sqrt(w)); }
   double e2 = s.calcStateError([](Vector &v) { v = 3.0; }, u);
   MC_CHECK(close(e2, std::sqrt(w2), 1e-14), "state-error", "error " << e2 << " instead of " << std::sqrt(w2));
   for (int i = 0; i < n; ++i) { MC_CHECK(u(i) == 1.0 + 2 * i, "error-state", "calcStateError changed the state"); }
   double bad = s.calcStateError(3, u);
   MC_CHECK(std::isnan(bad), "error-type", "an exact solution of unusable type gave the error " << bad);
}
}  // namespace

int main(int argc, char **argv)
{
   std::cout.setstate(std::ios::failbit);
   return mc::run(argc, argv, "C12", []() { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
                  {{"options", options}, {"states", states}, {"steady", steady}, {"unsteady", unsteady, 60.0, 4}});
}
