// Time integrators, driven through FirstOrderODE and TimeDependentResidual.
#include <iostream>
#include "mfem.hpp"
#include "mfem_throw.hpp"
#include "mfem_extensions.hpp"
#include "relaxed_newton.hpp"
#include "ode_sys.hpp"
using namespace mc;
using namespace odesys;
using json = nlohmann::json;
namespace
{
L dot(const LV &a, const LV &b)
{
   L s = 0;
   for (size_t i = 0; i < a.size(); ++i) { s += a[i] * b[i]; }
   return s;
}
LV axpy(const LV &x, L a, const LV &d)
{
   LV r(x);
   for (size_t i = 0; i < x.size(); ++i) { r[i] += a * d[i]; }
   return r;
}
LV slope(const Data &d, const LV &u, L t)
{
   LV k;
   if (!implicit_k(d, u, 0, t, k)) { prune(); }
   return k;
}
// w^T R at y for slope k
L change(const Data &d, const LV &y, const LV &k)
{
   LV w(d.n), Mk(d.n, 0);
   d.w(y.data(), w.data());
   for (int i = 0; i < d.n; ++i) { for (int j = 0; j < d.n; ++j) { Mk[i] += d.M[i][j] * k[j]; } }
   return -dot(w, Mk);
}
// Verner's 8-stage method of order 6, as in MFEM's RK6Solver (which provides
// the unrelaxed step); the stages are recovered by running it on the system
// extended by the entropy production
struct Ext : mfem::TimeDependentOperator
{
   const Data &d;
   Ext(const Data &d) : mfem::TimeDependentOperator(d.n + 1, 0.0), d(d) { }
   void Mult(const Vector &x, Vector &y) const override
   {
      LV u(d.n);
      for (int i = 0; i < d.n; ++i) { u[i] = x(i); }
      LV k = slope(d, u, t);
      for (int i = 0; i < d.n; ++i) { y(i) = (double)k[i]; }
      y(d.n) = (double)change(d, u, k);
   }
};

struct StepResult
{
   LV dir;      // change of the state for gamma = 1
   L change;    // entropy production for gamma = 1 (integral of w^T R)
   bool relax;
};
StepResult reference(const std::string &type, const Data &d, const LV &u, L t, L dt)
{
   int n = d.n;
   StepResult r;
   r.relax = false;
   r.change = 0;
   LV k;
   if (type == "RK1") { r.dir = axpy(LV(n, 0), dt, slope(d, u, t)); }
   else if (type == "RK4")
   {
      LV k1 = slope(d, u, t), k2 = slope(d, axpy(u, dt / 2, k1), t + dt / 2), k3 = slope(d, axpy(u, dt / 2, k2), t + dt / 2), k4 = slope(d, axpy(u, dt, k3), t + dt);
      r.dir.assign(n, 0);
      for (int i = 0; i < n; ++i) { r.dir[i] = dt / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]); }
   }
   else if (type == "MIDPOINT" || type == "RRK" || type == "RRKMIDPOINT")
   {
      if (!implicit_k(d, u, dt / 2, t + dt / 2, k)) { prune(); }
      r.dir = axpy(LV(n, 0), dt, k);
      r.relax = type != "MIDPOINT";
      r.change = dt * change(d, axpy(u, dt / 2, k), k);
   }
   else if (type == "PTC")
   {
      if (!implicit_k(d, u, dt, t + dt, k)) { prune(); }
      r.dir = axpy(LV(n, 0), dt, k);
   }
   else  // RRK6
   {
      Ext e(d);
      mfem::RK6Solver rk;
      rk.Init(e);
      Vector x(n + 1);
      for (int i = 0; i < n; ++i) { x(i) = (double)u[i]; }
      x(n) = 0.0;
      double tt = (double)t, ddt = (double)dt;
      rk.Step(x, tt, ddt);
      r.dir.assign(n, 0);
      for (int i = 0; i < n; ++i) { r.dir[i] = (L)x(i) - u[i]; }
      r.change = x(n);
      r.relax = true;
   }
   return r;
}

void integrators()
{
   static const std::vector<std::string> types{"RK1", "RK4", "MIDPOINT", "PTC", "RRK", "RRKMIDPOINT", "RRK6"};
   std::string type = pick(types, "type");
   int n = 1 + choose(3, "n");
   auto d = std::make_shared<Data>();
   pick_system(*d, n);
   int mk = choose(5, "mass"), pat = (mk == 2 || mk == 1) ? choose(2, "mass pattern") : 0;
   d->jac_pattern = mk >= 1 && mk <= 3 && pat == 0 ? choose(2, "jac pattern") : 0;
   d->entropy = type.substr(0, 3) == "RRK" ? choose(2, "entropy") : 0;
   Mass mass;
   make_mass(mk, pat, *d, mass);
   int sk = choose(2, "solver");
   static const std::vector<double> t0s{0.0, 0.7}, dts{0.01, 0.1, 0.25};
   static const std::vector<std::vector<double>> u0s{{1.0, 0.5, -0.25}, {-0.3, 0.8, 1.2}};
   auto &u0 = pick(u0s, "u0");
   double t = pick(t0s, "t0");
   Vector u(n);
   for (int i = 0; i < n; ++i) { u(i) = u0[i]; }
   std::string id = Str() << type << " n=" << n << " A0=" << d->A[0] << " q=" << d->q << " g=" << d->g << " mass=" << mk << "/" << pat << " solver=" << sk << " entropy=" << d->entropy << " t=" << t << " u0=" << u(0);
   note(id);

   miso::MISOResidual spatial{Res(d)};
   auto td = std::make_unique<miso::MISOResidual>(miso::TimeDependentResidual(spatial, mass.op.get()));
   Direct lin(n);
   std::unique_ptr<mfem::NewtonSolver> nw;
   if (sk == 0) { nw = std::make_unique<mfem::NewtonSolver>(MPI_COMM_SELF); }
   else { nw = std::make_unique<miso::RelaxedNewton>(MPI_COMM_SELF, json{{"linesearch", "backtracking"}}); }
   nw->SetSolver(lin);
   nw->SetOperator(*td);
   nw->SetRelTol(0.0);
   nw->SetAbsTol(mk == 4 ? 1e-11 : 1e-13);
   nw->SetMaxIter(mk == 4 ? 60 : 30);
   nw->SetPrintLevel(-1);
   nw->iterative_mode = choose(2, "iterative");
   json opt{{"type", type}};
   miso::FirstOrderODE ode(*td, opt, *nw);
   MC_CHECK(!nw->iterative_mode, "mode:" + type, "the solver starts from the old slope instead of zero");
   double tol = mk == 4 ? 2e-7 : 1e-9;
   int steps = thorough() ? 3 : 2;
   for (int s = 0; s < steps; ++s)
   {
      double dt = s < 2 ? pick(dts, "dt") : 0.05, dt_in = dt, t_in = t;
      LV uu(n);
      for (int i = 0; i < n; ++i) { uu[i] = u(i); }
      auto ref = reference(type, *d, uu, t, dt);
      L len = sqrtl(dot(ref.dir, ref.dir));
      if (ref.relax && len < 1e-3L * dt) { prune(); }  // gamma undetermined
      L g = 1;
      if (ref.relax)
      {
         // the relaxation parameter must have a root near one
         auto F = [&](L gm)
         {
            LV x = axpy(uu, gm, ref.dir);
            return d->S(x.data()) - d->S(uu.data()) + gm * ref.change;
         };
         // Newton from 1 with a numerically exact derivative
         g = 1;
         for (int k = 0; k < 40; ++k)
         {
            LV x = axpy(uu, g, ref.dir), w(n);
            d->w(x.data(), w.data());
            L dF = dot(w, ref.dir) + ref.change;
            if (!(fabsl(dF) > 0)) { break; }
            g -= F(g) / dF;
         }
         LV x = axpy(uu, g, ref.dir), w(n);
         d->w(x.data(), w.data());
         L dF = dot(w, ref.dir) + ref.change;
         if (!(fabsl(g - 1) < 0.2L) || !(fabsl(dF) > 1e-4L * dt * dt)) { prune(); }
      }
      bool failed = false;
      try { ode.step(u, t, dt); }
      catch (const miso::MISOException &) { failed = true; }
      std::string where = Str() << id << " step " << s << " dt=" << dt_in;
      MC_CHECK(!failed, "refused:" + type, where << ": the step was refused");
      MC_CHECK(dt == dt_in, "dt:" + type, where << ": dt changed to " << dt);
      L gact = ((L)t - t_in) / dt_in;
      if (!ref.relax) { MC_CHECK(fabsl(t - (t_in + dt_in)) < 1e-14, "time:" + type, where << ": time " << t << " instead of " << t_in + dt_in); }
      else
      {
         // entropy balance with what was actually done
         LV x(n);
         for (int i = 0; i < n; ++i) { x[i] = u(i); }
         L bal = d->S(x.data()) - d->S(uu.data()) + gact * ref.change;
         MC_CHECK(fabsl(bal) < (mk == 4 ? 1e-7L : 1e-9L), "entropy:" + type, where << ": entropy balance violated by " << (double)bal);
         MC_CHECK(fabsl(gact - g) < (mk == 4 ? 1e-2L : 1e-5L), "gamma:" + type, where << ": relaxation " << (double)gact << " instead of " << (double)g);
      }
      for (int i = 0; i < n; ++i)
      {
         double want = (double)(uu[i] + gact * ref.dir[i]);
         MC_CHECK(close(u(i), want, tol), "state:" + type, where << ": component " << i << " is " << u(i) << " instead of " << want << " (converged " << nw->GetConverged() << ")");
      }
      // the time that the spatial residual saw last is one of the stage times
      double lo = t_in - 1e-12, hi = t_in + dt_in + 1e-12;
      for (double e : d->eval_times) { MC_CHECK(e >= lo && e <= hi, "stage-time:" + type, where << ": residual evaluated at time " << e); }
      d->eval_times.clear();
      d->eval_states.clear();
   }
   outcome(id + Str().operator<<(u(0)).o.str());
}

// residual of a steady problem that follows the "steady" protocol: the unknown
// handed to evaluate is the state itself
class SteadyRes
{
public:
   SteadyRes(std::shared_ptr<Data> d) : d(std::move(d)), J(this->d->n) { }
   friend int getSize(const SteadyRes &r) { return r.d->n; }
   friend MPI_Comm getMPIComm(const SteadyRes &) { return MPI_COMM_SELF; }
   friend void setInputs(SteadyRes &r, const miso::MISOInputs &in)
   {
      miso::setValueFromInputs(in, "time", r.time);
      miso::setValueFromInputs(in, "dt", r.dt);
   }
   friend void setOptions(SteadyRes &, const json &) { }
   friend void evaluate(SteadyRes &r, const miso::MISOInputs &in, Vector &out)
   {
      Vector u;
      miso::setVectorFromInputs(in, "state", u);
      out.SetSize(u.Size());
      r.d->R((const double *)u.GetData(), r.time, out.GetData());
      Vector c(u.Size());
      c = u;
      r.d->eval_states.push_back(c);
      r.d->eval_times.push_back(r.time);
   }
   friend mfem::Operator &getJacobian(SteadyRes &r, const miso::MISOInputs &in, const std::string &)
   {
      Vector u;
      miso::setVectorFromInputs(in, "state", u);
      std::vector<double> j(r.d->n * r.d->n);
      r.d->J((const double *)u.GetData(), j.data());
      for (int a = 0; a < r.d->n; ++a) { for (int b = 0; b < r.d->n; ++b) { r.J(a, b) = j[a * r.d->n + b]; } }
      return r.J;
   }
   std::shared_ptr<Data> d;
   DenseMatrix J;
   double time = NAN, dt = NAN;
};

void steady()
{
   int n = 1 + choose(3, "n");
   auto d = std::make_shared<Data>();
   pick_system(*d, n);
   d->g = choose(2, "g") ? 0.5 : 0.0;
   static const std::vector<std::vector<double>> u0s{{1.0, 0.5, -0.25}, {-0.3, 0.8, 1.2}};
   auto &u0 = pick(u0s, "u0");
   double t = choose(2, "t") * 0.7, dt = choose(2, "dt") ? 0.25 : 2.0;
   LV z;
   {
      LM A(n, LV(n));
      LV b(n, 1), x;
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { A[i][j] = d->A[i * n + j]; } }
      if (!lu(A, b, x)) { prune(); }
   }
   note(Str() << "steady n=" << n << " A0=" << d->A[0] << " q=" << d->q << " g=" << d->g << " t=" << t << " dt=" << dt);
   miso::MISOResidual res{SteadyRes(d)};
   Direct lin(n);
   mfem::NewtonSolver nw(MPI_COMM_SELF);
   nw.SetSolver(lin);
   nw.SetOperator(res);
   nw.SetRelTol(0.0);
   nw.SetAbsTol(1e-12);
   nw.SetMaxIter(choose(2, "iterations") ? 50 : 1);
   nw.SetPrintLevel(-1);
   miso::FirstOrderODE ode(res, json{{"type", "steady"}}, nw);
   MC_CHECK(nw.iterative_mode, "steady:mode", "steady problems start from zero instead of from the state");
   for (int s = 0; s < 2; ++s)
   {
      Vector u(n), u_in(n);
      for (int i = 0; i < n; ++i) { u(i) = u0[i] + s; }
      u_in = u;
      double t_in = t, dt_in = dt;
      d->eval_states.clear();
      d->eval_times.clear();
      try { ode.step(u, t, dt); }
      catch (const Fail &f)
      {
         if (f.key == "singular") { prune(); }
         throw;
      }
      MC_CHECK(close(t, t_in + dt_in, 1e-14) && dt == dt_in, "steady:time", "time " << t);
      MC_CHECK(!d->eval_states.empty(), "steady:start", "nothing evaluated");
      for (int i = 0; i < n; ++i) { MC_CHECK(d->eval_states[0](i) == u_in(i), "steady:start", "the solve started from " << d->eval_states[0](i) << " instead of the state " << u_in(i)); }
      for (double e : d->eval_times) { MC_CHECK(close(e, t_in + dt_in, 1e-14), "steady:stage-time", "residual evaluated at time " << e); }
      // the state returned is the solver's
      Vector r(n);
      d->R((const double *)u.GetData(), t_in + dt_in, r.GetData());
      if (nw.GetConverged()) { MC_CHECK(r.Norml2() < 1e-10, "steady:solution", "residual " << r.Norml2() << " at the returned state"); }
      for (int i = 0; i < n; ++i) { fingerprint(u(i)); }
   }
}

// unknown integrators are refused with a message that names them
void types()
{
   static const std::vector<std::string> bad{"", "RK2", "rk4", "RK44", "RRK4", "RRKMID", "ptc", "Steady", "BackwardEuler"};
   int c = choose((int)bad.size() + 3, "case");
   auto d = std::make_shared<Data>();
   d->n = 1;
   d->A = {1.0};
   d->M = {{1.0L}};
   miso::MISOResidual spatial{Res(d)};
   miso::MISOResidual td{miso::TimeDependentResidual(spatial)};
   Direct lin(1);
   mfem::NewtonSolver nw(MPI_COMM_SELF);
   nw.SetSolver(lin);
   nw.SetOperator(td);
   json o;
   std::string want;
   if (c < (int)bad.size())
   {
      o["type"] = bad[c];
      want = bad[c];
   }
   else if (c == (int)bad.size()) { o = {{"ode-solver", "RK4"}}; }
   else if (c == (int)bad.size() + 1) { o = {{"ode-solver", "RK4"}, {"type", "RK4"}}; }
   else { o = {{"ode-solver", "MIDPOINT"}, {"type", "RK4"}}; }
   note(o.dump());
   std::string msg;
   bool threw = false, other = false;
   try { miso::FirstOrderODE ode(td, o, nw); }
   catch (const miso::MISOException &e)
   {
      threw = true;
      msg = e.what();
   }
   catch (const std::exception &e)
   {
      other = true;
      msg = e.what();
   }
   MC_CHECK(threw && !other, "types", o.dump() << (other ? " failed with: " + msg : " was accepted"));
   MC_CHECK(msg.find(want) != std::string::npos, "types:message", "the message does not name \"" << want << "\": " << msg);
}

// order of accuracy of the tableaux (exact on polynomial right-hand sides up
// to the order, and h^(p+1) behaviour on a nonlinear problem)
void order()
{
   static const std::vector<std::pair<std::string, int>> ts{{"RK1", 1}, {"RK4", 4}, {"MIDPOINT", 2}, {"PTC", 1}, {"RRK", 2}, {"RRK6", 6}};
   auto tp = pick(ts, "type");
   // u1' = u2, u2' = -u1 + q-terms: use the quadratic system n=2
   auto mk = [&]()
   {
      auto d = std::make_shared<Data>();
      d->n = 2;
      d->A = {0.1, 1, -1, 0.2};
      d->q = 0.5;
      d->M = {{1, 0}, {0, 1}};
      return d;
   };
   auto d = mk();
   d->entropy = choose(2, "entropy");
   auto run = [&](const std::string &type, int steps, double T)
   {
      miso::MISOResidual spatial{Res(d)};
      miso::MISOResidual td{miso::TimeDependentResidual(spatial)};
      Direct lin(2);
      mfem::NewtonSolver nw(MPI_COMM_SELF);
      nw.SetSolver(lin);
      nw.SetOperator(td);
      nw.SetRelTol(0.0);
      nw.SetAbsTol(1e-14);
      nw.SetMaxIter(20);
      nw.SetPrintLevel(-1);
      miso::FirstOrderODE ode(td, json{{"type", type}}, nw);
      Vector u(2);
      u(0) = 0.6;
      u(1) = 0.3;
      double t = 0, dt = T / steps;
      for (int s = 0; s < steps; ++s) { ode.step(u, t, dt); }
      // exact solution at the time actually reached
      LV x{0.6L, 0.3L};
      int m = 4000;
      L h = (L)t / m;
      for (int s = 0; s < m; ++s)
      {
         auto r = reference("RK4", *d, x, s * h, h);
         x = axpy(x, 1, r.dir);
      }
      return (double)hypotl(u(0) - x[0], u(1) - x[1]);
   };
   int p = tp.second;
   int s0 = p >= 6 ? 2 : p >= 4 ? 4 : 16;
   double e1 = run(tp.first, s0, 0.8), e2 = run(tp.first, 2 * s0, 0.8);
   double rate = std::log2(e1 / e2);
   note(Str() << tp.first << " errors " << e1 << " " << e2 << " rate " << rate);
   MC_CHECK(rate > p - 0.45, "order:" + tp.first, "observed order " << rate << " of " << tp.first << " instead of " << p << " (errors " << e1 << ", " << e2 << ")");
}
}  // namespace

int main(int argc, char **argv)
{
   std::cout.setstate(std::ios::failbit);
   return mc::run(argc, argv, "C10", []() { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
                  {{"types", types}, {"steady", steady}, {"order", order}, {"integrators", integrators, 60.0, 4}});
}
