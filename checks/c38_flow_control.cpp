// The boundary controller, the flow residual coupled to it, and their solver
#include "flow_ref.hpp"
#include "flow_control_residual.hpp"
#include "flow_control_solver.hpp"

namespace
{
/// the controller, from its equations
struct Law
{
   bool test = false, closed = true;
   double Kp = 0, Td = 0, Ti = 0, eta = 0, beta = 0, target = 0, bnd = 0;
   DenseMatrix P;
   Law(bool t) : test(t), P(2) { P = 0.0; }
   Vector res(const Vector &x) const
   {
      Vector r(2);
      if (test)
      {
         r(0) = -0.05 * x(1);
         r(1) = 0.05 * x(0) + bnd;
         return r;
      }
      double fac = 1 / (beta * eta * Ti * Td);
      r(0) = fac * x(1);
      r(1) = -x(0) + fac * (beta * Ti + eta * Td) * x(1);
      if (closed)
      {
         double se = (target - bnd) * Kp / (eta * Ti * Td);
         r(0) += (1 / (eta * beta) - 1) * se;
         r(1) += ((beta * Ti + eta * Td) / (eta * beta) - (Ti + Td)) * se;
      }
      return r;
   }
   Vector jac(const Vector &v) const
   {
      Law l(*this);
      l.bnd = l.target = 0;
      return l.res(v);
   }
   double vel(const Vector &x) const { return x(1) + (!test && closed ? Kp * (target - bnd) / eta : 0.0); }
   double ent(const Vector &x) const { return 0.5 * (test ? x * x : P.InnerProduct(x, x)); }
   double change(const Vector &x, const Vector &k) const { return -(test ? x * k : P.InnerProduct(x, k)); }
};
struct Gains
{
   double Kp, Td, Ti, eta, beta;
};
const Gains gains[2] = {{0.4, 0.5, 0.8, 0.8, 2.5}, {1.1, 0.3, 0.6, 1.2, 1.7}};
const double Ps[2][4] = {{38.25, -93.75, -93.75, 233.1}, {2.0, 0.5, 0.5, 3.0}};
Vector vec(std::initializer_list<double> l)
{
   Vector v(l.size());
   int i = 0;
   for (double x : l) { v(i++) = x; }
   return v;
}
void add_gains(MISOInputs &in, int g)
{
   in.emplace("Kp", gains[g].Kp);
   in.emplace("Td", gains[g].Td);
   in.emplace("Ti", gains[g].Ti);
   in.emplace("eta", gains[g].eta);
   in.emplace("beta", gains[g].beta);
}
void set_gains(Law &l, int g)
{
   l.Kp = gains[g].Kp;
   l.Td = gains[g].Td;
   l.Ti = gains[g].Ti;
   l.eta = gains[g].eta;
   l.beta = gains[g].beta;
}
void set_P(Law &l, int g)
{
   for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) { l.P(i, j) = Ps[g][2 * i + j]; } }
}
void ask_control(ControlResidual &c, const Law &l, const Vector &x, bool give)
{
   MISOInputs none, some;
   if (give) { some.emplace("state", x); }
   Vector r(2), k = vec({0.7, -1.3}), y(2), z(2);
   evaluate(c, some, r);
   same_vec("control.residual", r, l.res(x), 1e-12);
   same_num("control.velocity", c.getControlVelocity(some), l.vel(x), 1e-12, "velocity");
   auto &J = getJacobian(c, some, "state");
   J.Mult(k, y);
   same_vec("control.jacobian", y, l.jac(k), 1e-12);
   auto *pc = getPreconditioner(c);
   pc->SetOperator(J);
   pc->Mult(y, z);
   same_vec("control.preconditioner", z, k, 1e-9);
   same_num("control.entropy", calcEntropy(c, some), l.ent(x), 1e-12, "entropy");
   MISOInputs ch(some);
   ch.emplace("state_dot", k);
   same_num("control.change", calcEntropyChange(c, ch), l.change(x, k), 1e-12, "entropy change");
   getMassMatrix(c, json::object())->Mult(k, z);
   same_vec("control.mass", z, k, 0);
}
/// the controller alone after every sequence of inputs
void s_control()
{
   fr::Quiet q;
   int t = choose(3, "test-ode");
   json o = json::object();
   if (t < 2) { o["test-ode"] = t == 1; }
   ControlResidual c(MPI_COMM_WORLD, o);
   MC_CHECK(getSize(c) == 2, "control.size", "" << getSize(c) << " states");
   Law l(t == 1);
   Vector xs[2] = {vec({0.3, -0.8}), vec({1.2, 0.45})};
   Vector x(xs[0]);
   int n = thorough() ? 4 : 3;
   MISOInputs first({{"state", xs[0]}});
   add_gains(first, 0);
   set_gains(l, 0);
   setInputs(c, first);
   ask_control(c, l, x, false);
   for (int i = 0; i < n; ++i)
   {
      MISOInputs in;
      switch (choose(9, "inputs"))
      {
      case 0: add_gains(in, 1); set_gains(l, 1); break;
      case 1: in.emplace("Ti", 1.9); l.Ti = 1.9; break;
      case 2:
      case 3:
      {
         int g = i % 2;
         static thread_local Vector pv;
         pv = Vector(const_cast<double *>(Ps[g]), 4);
         in.emplace("P-matrix", pv);
         set_P(l, g);
         setInputs(c, in);
         break;
      }
      case 4: in.emplace("closed-loop", 0.0); l.closed = false; break;
      case 5: in.emplace("closed-loop", 1.0); l.closed = true; break;
      case 6: in.emplace("boundary-entropy", 0.37 + i); l.bnd = 0.37 + i; break;
      case 7: in.emplace("target-entropy", -0.2 * i - 0.1); l.target = -0.2 * i - 0.1; break;
      default: x = xs[1 - (i & 1)]; in.emplace("state", xs[1 - (i & 1)]); in.emplace("time", 0.3 * i); break;
      }
      setInputs(c, in);
      if (i + 1 < n && choose(2, "ask")) { continue; }
      ask_control(c, l, x, choose(2, "give state"));
   }
   // a matrix that is not symmetric is refused
   Vector bad = vec({1.0, 0.5, 0.2, 1.0});
   MISOInputs bi({{"P-matrix", bad}});
   bool thrown = false;
   try { setInputs(c, bi); }
   catch (const MISOException &) { thrown = true; }
   MC_CHECK(thrown, "control.symmetric", "a matrix that is not symmetric was accepted");
   step();
}
std::vector<int> walls(int d, bool first)
{
   if (first) { return {1}; }
   if (d == 2) { return {2, 3, 4}; }
   return {2, 3, 4, 5, 6};
}
json control_options(int d, bool test, const S &others)
{
   json o = base_options(d);
   o["test-ode"] = test;
   o["space-dis"]["degree"] = d == 3 ? 0 : 1;
   o["bcs"] = {{others, walls(d, false)}, {"control", walls(d, true)}};
   o["outputs"] = {{"boundary-entropy", {{"boundaries", walls(d, true)}}}, {"far-field-supply-rate", {{"boundaries", walls(d, false)}}}};
   return o;
}
/// the parts by themselves, joined by hand
template <int d, bool ent>
struct Parts : Ref<d, ent>
{
   Law l;
   MISOOutput be, sr;
   Vector xa;
   Parts(const json &opt, const mfem::Mesh &m)
    : Ref<d, ent>(opt, m), l(opt.value("test-ode", false)), be(this->R->constructOutput("boundary-entropy", opt["outputs"]["boundary-entropy"])),
      sr(this->R->constructOutput("far-field-supply-rate", opt["outputs"]["far-field-supply-rate"]))
   { }
   int size() { return 2 + Ref<d, ent>::size(); }
   static Vector ctrl(const Vector &s) { return vec({s(0), s(1)}); }
   static Vector flow(const Vector &s)
   {
      Vector u(s.Size() - 2);
      for (int i = 0; i < u.Size(); ++i) { u(i) = s(i + 2); }
      return u;
   }
   static Vector join(const Vector &c, const Vector &u)
   {
      Vector s(u.Size() + 2);
      s(0) = c(0);
      s(1) = c(1);
      for (int i = 0; i < u.Size(); ++i) { s(i + 2) = u(i); }
      return s;
   }
   double bndry(const Vector &u)
   {
      MISOInputs in({{"state", u}});
      if (xa.Size()) { in.emplace("x-actuator", xa); }
      setInputs(be, in);
      return calcOutput(be, in);
   }
   double couple(const Vector &s)
   {
      l.bnd = bndry(flow(s));
      return l.vel(ctrl(s));
   }
   MISOInputs inputs(const Vector &u, double v)
   {
      MISOInputs in({{"state", u}, {"control", v}});
      if (xa.Size()) { in.emplace("x-actuator", xa); }
      return in;
   }
   Vector res2(const Vector &s)
   {
      double v = couple(s);
      Vector u = flow(s), r(u.Size());
      auto in = inputs(u, v);
      setInputs(*this->R, in);
      evaluate(*this->R, in, r);
      return join(l.res(ctrl(s)), r);
   }
   Vector flow_jac(const Vector &s, const Vector &k)
   {
      double v = couple(s);
      Vector u = flow(s), y(u.Size());
      auto in = inputs(u, v);
      setInputs(*this->R, in);
      getJacobian(*this->R, in, "state").Mult(k, y);
      return y;
   }
   double entropy2(const Vector &s) { return l.ent(ctrl(s)) + this->entropy(flow(s), 0); }
   double change2(const Vector &s, const Vector &k)
   {
      double v = couple(s);
      Vector u = flow(s), fk = flow(k);
      auto in = inputs(u, v);
      in.emplace("state_dot", fk);
      in.emplace("time", 0.2);
      in.emplace("dt", 0.1);
      return calcEntropyChange(*this->R, in) + l.change(ctrl(s), ctrl(k));
   }
   double supply(const Vector &s)
   {
      Vector u = flow(s);
      MISOInputs in({{"state", u}});
      setInputs(sr, in);
      return calcOutput(sr, in);
   }
   Vector rate2(const Vector &s)
   {
      Vector r = res2(s), f = flow(r), k(f.Size());
      this->Mi.Mult(f, k);
      Vector out = join(ctrl(r), k);
      out.Neg();
      return out;
   }
   Vector mass_mult(const Vector &k)
   {
      Vector f = flow(k), y(f.Size());
      this->M.Mult(f, y);
      return join(ctrl(k), y);
   }
   Vector step2(const S &type, const Vector &u, double dt)
   {
      Vector x(u);
      if (type == "RK1")
      {
         x.Add(dt, rate2(u));
         return x;
      }
      Vector k1 = rate2(u), y(u);
      y.Add(dt / 2, k1);
      Vector k2 = rate2(y);
      y = u;
      y.Add(dt / 2, k2);
      Vector k3 = rate2(y);
      y = u;
      y.Add(dt, k3);
      Vector k4 = rate2(y);
      x.Add(dt / 6, k1);
      x.Add(dt / 3, k2);
      x.Add(dt / 3, k3);
      x.Add(dt / 6, k4);
      return x;
   }
   Vector state(Fun f, double a, double b)
   {
      auto &fld = this->fields.at("state");
      mfem::VectorFunctionCoefficient c(d + 2, f);
      Vector t(Ref<d, ent>::size());
      fld.project(c, t);
      return join(vec({a, b}), t);
   }
};
Vector actuator(int d, int which)
{
   Vector x(d);
   x = 0.0;
   x(0) = which ? 0.1 : 0.45;
   if (which) { x(1) = 0.05; }
   return x;
}
/// evaluations of the coupled residual after sequences of inputs
template <int d, bool ent>
void coupled()
{
   fr::Quiet q;
   bool test = choose(2, "test-ode");
   bool dsbp = d == 2 && choose(2, "dsbp");
   bool viscous = !ent && !dsbp && choose(2, "viscous");
   json o = control_options(d, test, "far-field");
   o["flow-param"]["entropy-state"] = ent;
   o["time-dis"]["steady"] = ent;
   o["space-dis"]["basis-type"] = dsbp ? "dsbp" : "csbp";
   o["flow-param"]["viscous"] = viscous;
   o["flow-param"]["Re"] = 40.0;
   o["flow-param"]["mu"] = 0.8;
   o["space-dis"]["lps-coeff"] = test ? 0.5 : 0.0;
   auto m = box<d>(false);
   Parts<d, ent> ref(o, *m);
   ref.mass();
   Ref<d, ent> home(o, *m);  // only its space is used
   json full(default_options);
   full.merge_patch(o);
   FlowControlResidual<d, ent> R(full, home.fes(), home.fields, getDiffStack(), home.os);
   MC_CHECK(getSize(R) == ref.size(), "coupled.size", "" << getSize(R) << " states instead of " << ref.size());
   Vector st[2] = {ref.state(wave<d, ent>, 0.02, -0.11), ref.state(calm<d, ent>, -0.3, 0.07)};
   Vector xa[2] = {actuator(d, 0), actuator(d, 1)};
   Vector pv(const_cast<double *>(Ps[0]), 4), pw(const_cast<double *>(Ps[1]), 4);
   MISOInputs first({{"P-matrix", pv}});
   add_gains(first, 0);
   set_gains(ref.l, 0);
   set_P(ref.l, 0);
   setInputs(R, first);
   Vector k(getSize(R));
   for (int i = 0; i < k.Size(); ++i) { k(i) = sin(1.3 * i + 0.4); }
   int n = thorough() ? 3 : 2;
   for (int i = 0; i < n; ++i)
   {
      MISOInputs in;
      switch (choose(7, "inputs"))
      {
      case 0: break;
      case 1: in.emplace("x-actuator", xa[0]); ref.xa = xa[0]; break;
      case 2: in.emplace("x-actuator", xa[1]); ref.xa = xa[1]; break;
      case 3: in.emplace("closed-loop", 0.0); ref.l.closed = false; break;
      case 4: in.emplace("closed-loop", 1.0); in.emplace("target-entropy", 0.4); ref.l.closed = true; ref.l.target = 0.4; break;
      case 5: add_gains(in, 1); set_gains(ref.l, 1); break;
      default: in.emplace("P-matrix", pw); set_P(ref.l, 1); break;
      }
      bool last = i + 1 == n;
      int w = last ? choose(2, "state") : i % 2;
      const Vector &s = st[w];
      Vector r(s.Size());
      bool together = last ? choose(2, "with the state") : i % 2 == 0;
      if (!together) { setInputs(R, in); }
      MISOInputs ev(together ? in : MISOInputs());
      ev.emplace("state", s);
      evaluate(R, ev, r);
      Vector want = ref.res2(s);
      same_vec("coupled.residual", r, want, 1e-11);
      fingerprint(r.Norml2());
      if (!last) { continue; }
      MISOInputs si({{"state", s}});
      same_num("coupled.entropy", calcEntropy(R, si), ref.entropy2(s), 1e-11, "entropy");
      MISOInputs ci({{"state", s}, {"state_dot", k}, {"time", 0.2}, {"dt", 0.1}});
      same_num("coupled.change", calcEntropyChange(R, ci), ref.change2(s, k), 1e-9, "entropy change");
      if (!ent) { same_num("coupled.supply", calcSupplyRate(R, ci), ref.supply(s), 1e-11, "supply rate"); }
      // the blocks of the Jacobian, at the control that goes with the state
      evaluate(R, ev, r);
      auto &Jc = getJacobianBlock(R, si, 0);
      Vector kc = Parts<d, ent>::ctrl(k), yc(2);
      Jc.Mult(kc, yc);
      same_vec("coupled.jacobian0", yc, ref.l.jac(kc), 1e-11);
      auto &Jf = getJacobianBlock(R, si, 1);
      Vector kf = Parts<d, ent>::flow(k), yf(kf.Size());
      Jf.Mult(kf, yf);
      same_vec("coupled.jacobian1", yf, ref.flow_jac(s, kf), 1e-11);
      Vector mk(k.Size());
      getMassMatrix(R, full)->Mult(k, mk);
      same_vec("coupled.mass", mk, ref.mass_mult(k), 1e-13);
      auto u = Parts<d, ent>::flow(s);
      auto g = home.gf(u);
      same_num("coupled.cfl", R.minCFLTimeStep(0.7, g), ref.cfl_step(0.7, u), 1e-13, "step");
   }
   bool thrown = false;
   MISOInputs si({{"state", st[0]}});
   try { getJacobianBlock(R, si, 2); }
   catch (const MISOException &) { thrown = true; }
   MC_CHECK(thrown, "coupled.block", "a third block was given");
   thrown = false;
   try { R.constructOutput("thrust", json::object()); }
   catch (const MISOException &) { thrown = true; }
   MC_CHECK(thrown, "coupled.output", "an output that does not exist was made");
}
void s_coupled()
{
   switch (choose(4, "instance"))
   {
   case 0: return coupled<2, false>();
   case 1: return coupled<2, true>();
   case 2: return coupled<3, false>();
   default: return coupled<3, true>();
   }
}
template <int d, bool ent>
struct Sol : FlowControlSolver<d, ent>
{
   Sol(const json &o, std::unique_ptr<mfem::Mesh> m) : FlowControlSolver<d, ent>(MPI_COMM_WORLD, o, std::move(m)) { }
   ~Sol() override { MPI_Comm_free(&this->comm); }
   using AbstractSolver2::calcStepSize;
   using AbstractSolver2::iterationExit;
};
/// parts that do not fit together are refused
template <int d, bool ent, int md>
void construct_one()
{
   fr::Quiet q;
   bool es = choose(2, "entropy-state"), steady = choose(2, "steady"), given = !choose(2, "mesh from a file");
   int fault = choose(13, "fault");
   json o = control_options(md, false, "far-field");
   o["flow-param"]["entropy-state"] = es;
   o["time-dis"]["steady"] = steady;
   o["time-dis"]["type"] = steady ? "PTC" : "RK4";
   bool bad = d != md || es != ent || (ent && !steady);
   Here h(where());
   if (!given)
   {
      std::ofstream f("box.mesh");
      f.precision(17);
      box<md>(false)->Print(f);
      o["mesh"]["file"] = "box.mesh";
   }
   switch (fault)
   {
   case 1: o["time-dis"]["type"] = "RK17"; bad = true; break;
   case 2: o["lin-solver"]["type"] = "magic"; bad = true; break;
   case 3: o["nonlin-solver"]["type"] = "magic"; bad = true; break;
   case 4: o["lin-prec"]["type"] = "magic"; bad = true; break;
   case 5: o["mesh"]["file"] = "nothing"; bad = true; break;
   case 6: o["mesh"]["file"] = "box.nothing"; bad = bad || !given; break;
   case 7: o["bcs"].erase("control"); bad = true; break;
   case 8: o.erase("bcs"); bad = true; break;
   case 9: o["outputs"]["boundary-entropy"]["boundaries"] = {2}; bad = true; break;
   case 10: o["outputs"].erase("boundary-entropy"); bad = true; break;
   case 11: o["outputs"].erase("far-field-supply-rate"); bad = true; break;
   case 12: o.erase("outputs"); bad = true; break;
   default: break;
   }
   bool thrown = false;
   try
   {
      Sol<d, ent> s(o, given ? box<md>(false) : nullptr);
      if (!bad)
      {
         auto m = box<md>(false);
         Ref<d, ent> r(o, *m);
         MC_CHECK(s.getStateSize() == r.size() + 2, "construct.size", "" << s.getStateSize() << " states instead of " << r.size() + 2);
         Vector qf(d + 2), e(d + 2);
         s.getFreeStreamState(qf);
         r.R->getFreeStreamState(e);
         same_vec("construct.freestream", qf, e, 1e-13);
      }
   }
   catch (const MISOException &) { thrown = true; }
   MC_CHECK(thrown == bad, "construct.refuse", "" << "mesh " << md << ", template " << d << "/" << ent << ", option " << es << ", steady " << steady << ", given " << given << ", fault " << fault << (bad ? " was accepted" : " was refused"));
   step();
}
template <int d>
void construct_dim()
{
   bool ent = choose(2, "entropy template"), other = choose(2, "mesh");
   constexpr int o = 5 - d;
   if (ent)
   {
      if (other) { construct_one<d, true, o>(); }
      else { construct_one<d, true, d>(); }
   }
   else
   {
      if (other) { construct_one<d, false, o>(); }
      else { construct_one<d, false, d>(); }
   }
}
void s_construct()
{
   if (choose(2, "dim")) { construct_dim<3>(); }
   else { construct_dim<2>(); }
}
const double c0[2] = {0.01, 0.03};
void start(Vector &c)
{
   c(0) = c0[0];
   c(1) = c0[1];
}
/// steps of the coupled equation, the files that record it, and its entropy
template <int d>
void march()
{
   fr::Quiet q;
   S type = pick(std::vector<S>{"RK1", "RK4", "MIDPOINT", "RRK"}, "method");
   bool explicit_ = type == "RK1" || type == "RK4";
   bool test = choose(2, "test-ode"), cfl = explicit_ && choose(2, "const-cfl");
   bool closed = test || choose(2, "closed loop");
   int slip = choose(2, "walls");
   double lps = pick(std::vector<double>{0.0, 0.7}, "lps");
   int act = choose(2, "actuator");
   int sample = choose(3, "sample");
   double t0 = sample == 1 ? 1.0 : 0.0, T = t0 + 0.05;
   int most = explicit_ && choose(2, "all steps") ? 10000 : 2;
   if (!thorough() && (slip == 1) != (lps == 0.0)) { return; }
   json o = control_options(d, test, slip ? "slip-wall" : "far-field");
   auto &td = o["time-dis"];
   o["space-dis"]["lps-coeff"] = lps;
   td["type"] = type;
   td["const-cfl"] = cfl;
   td["cfl"] = 0.4;
   td["t-initial"] = t0;
   td["t-final"] = T;
   td["dt"] = 0.02;
   td["max-iter"] = most;
   bool log = sample != 2;
   o["outputs"]["each-timestep"] = log;
   if (sample > 0) { o["sample"] = 3 * sample; }
   Here h(where());
   auto m = box<d>(false);
   Parts<d, false> ref(o, *m);
   ref.mass();
   Vector xa = actuator(d, act), pv(const_cast<double *>(Ps[act]), 4);
   ref.xa = xa;
   ref.l.closed = closed;
   set_gains(ref.l, 0);
   set_P(ref.l, act);
   ref.l.target = 0.02;
   auto make = [&](const json &opt) { return std::make_unique<Sol<d, false>>(opt, box<d>(false)); };
   auto go = [&](Sol<d, false> &s, Vector &u)
   {
      MISOInputs in({{"state", u}, {"x-actuator", xa}, {"P-matrix", pv}, {"target-entropy", 0.02}, {"closed-loop", closed ? 1.0 : 0.0}});
      add_gains(in, 0);
      s.solveForState(in, u);
   };
   Vector u0 = ref.state(calm<d, false>, c0[0], c0[1]);
   auto sp = make(o);
   auto &s = *sp;
   Vector u(s.getStateSize());
   s.setState(std::make_pair(std::function<void(Vector &)>(start), std::function<void(const Vector &, Vector &)>(calm<d, false>)), u);
   same_vec("march.initial", u, u0, 1e-14);
   json bo = {{"boundaries", walls(d, true)}};
   s.createOutput("boundary-entropy", bo);
   s.createOutput("drag", bo);
   s.createOutput("entropy", json::object());
   auto drag = ref.R->constructOutput("drag", bo);
   auto value = [&](const S &name, const Vector &x)
   {
      if (name == "entropy") { return ref.entropy2(x); }
      auto f = Parts<d, false>::flow(x);
      if (name == "boundary-entropy") { return ref.bndry(f); }
      MISOInputs in({{"state", f}});
      setInputs(drag, in);
      return calcOutput(drag, in);
   };
   for (int run = 0; run < 2; ++run)  // a second run starts over
   {
      u = u0;
      // the outputs of the solver know the actuator once they are asked with it
      auto f0 = Parts<d, false>::flow(u0);
      MISOInputs bi({{"state", f0}, {"x-actuator", xa}});
      same_num("march.output", s.calcOutput("boundary-entropy", bi), value("boundary-entropy", u0), 1e-11, "boundary entropy");
      go(s, u);
      std::vector<std::pair<double, Vector>> seen;
      double t = t0;
      if (explicit_)
      {
         Vector x(u0);
         for (int it = 0; it < most; ++it)
         {
            double dt = cfl ? ref.cfl_step(0.4, Parts<d, false>::flow(x)) : 0.02;
            dt = std::min(dt, T - t);
            seen.emplace_back(t, x);
            x = ref.step2(type, x, dt);
            t += dt;
            if (t >= T - 1e-14 * dt) { break; }
         }
         seen.emplace_back(t, x);
         same_vec("march.state", u, x, 1e-10);
      }
      else if (run == 0)
      {
         json one = o;
         one["time-dis"]["max-iter"] = 1;
         one["outputs"]["each-timestep"] = false;
         one["time-dis"]["type"] = "MIDPOINT";
         Vector b(u0);
         auto mid = make(one);
         go(*mid, b);
         Vector k(b);
         k -= u0;
         k *= 1 / 0.02;
         // the step solves M k + R(u + dt/2 k) = 0 and goes along k
         Vector half(u0);
         half.Add(0.01, k);
         Vector eq = ref.mass_mult(k);
         eq += ref.res2(half);
         MC_CHECK(eq.Norml2() <= 1e-7 * std::max(1.0, ref.res2(half).Norml2()), "march.equation", "" << "midpoint residual " << eq.Norml2());
         if (type == "RRK")
         {
            one["time-dis"]["type"] = "RRK";
            Vector a(u0);
            auto rel = make(one);
            go(*rel, a);
            Vector e(a);
            e -= u0;
            double g = (e * k) / (k * k) / 0.02;
            Vector diff(e);
            diff.Add(-g * 0.02, k);
            MC_CHECK(fabs(g - 1) < 0.05 && diff.Norml2() <= 1e-6 * e.Norml2(), "march.relaxation", "" << "relaxation parameter " << g << ", off the midpoint step by " << diff.Norml2());
            double dS = ref.entropy2(a) - ref.entropy2(u0), rhs = -g * 0.02 * ref.change2(half, k);
            MC_CHECK(fabs(dS - rhs) <= 1e-8, "march.entropy_balance", "" << "entropy changes by " << dS << ", balance says " << rhs);
         }
      }
      // the files
      if (sample == 2) { MC_CHECK(fs::is_empty("."), "log.unasked", "files were written without being asked for"); }
      else
      {
         for (auto &name : {"boundary-entropy", "drag", "entropy"})
         {
            S file = S(name) + "-" + std::to_string(sample * 3) + ".txt";
            auto got = read_log(file);
            MC_CHECK(got.size() >= 2 && got.front().first == t0, "log.length", "" << file << " has " << got.size() << " lines");
            same_num("log.first", got.front().second, value(name, u0), 1e-10, "first " + S(name));
            same_num("log.last", got.back().second, value(name, u), 1e-10, "last " + S(name));
            if (!explicit_) { MC_CHECK(got.size() == 3, "log.length", "" << file << " has " << got.size() << " lines after two steps"); }
            else
            {
               MC_CHECK(got.size() == seen.size(), "log.length", "" << file << " has " << got.size() << " lines, expected " << seen.size());
               for (size_t i = 0; i < seen.size(); ++i)
               {
                  MC_CHECK(fabs(got[i].first - seen[i].first) <= 1e-12, "log.time", "" << file << " line " << i << " is at " << got[i].first << ", expected " << seen[i].first);
                  same_num("log.value", got[i].second, value(name, seen[i].second), 1e-9, name);
               }
            }
         }
      }
      fingerprint(u.Norml2());
   }
}
void s_march2() { march<2>(); }
void s_march3() { march<3>(); }
/// step size and stopping, after any other step size; steady runs are refused
void s_decisions()
{
   fr::Quiet q;
   json o = control_options(2, true, "far-field");
   auto &td = o["time-dis"];
   int mode = choose(3, "mode");
   bool exact = !choose(2, "past t-final");
   td["steady"] = mode == 2;
   td["const-cfl"] = mode == 1;
   td["cfl"] = pick(std::vector<double>{0.5, 1.7}, "cfl");
   td["dt"] = 0.015;
   if (!exact) { td["exact-t-final"] = false; }
   if (mode == 2) { td["type"] = "PTC"; }
   Sol<2, false> s(o, box<2>(false));
   auto m = box<2>(false);
   Parts<2, false> ref(o, *m);
   Vector st[2] = {ref.state(wave<2, false>, 0.02, -0.11), ref.state(calm<2, false>, -0.3, 0.07)};
   if (mode == 2)
   {
      bool a = false, b = false, c = false;
      try { s.calcStepSize(0, 0.0, 0.05, 0.0, st[0]); }
      catch (const MISOException &) { a = true; }
      try { s.iterationExit(0, 0.0, 0.05, 0.01, st[0]); }
      catch (const MISOException &) { b = true; }
      MISOInputs in({{"state", st[0]}});
      try { s.solveForState(in, st[0]); }
      catch (const MISOException &) { c = true; }
      MC_CHECK(a && b && c, "steady.refuse", "" << "a steady run was not refused: " << a << b << c);
      step();
      return;
   }
   for (int c = 0; c < 3; ++c)
   {
      int w = choose(2, "state");
      double t = pick(std::vector<double>{0.0, 0.045}, "time");
      double want = mode == 1 ? ref.cfl_step(td["cfl"], Parts<2, false>::flow(st[w])) : 0.015;
      if (exact) { want = std::min(want, 0.05 - t); }
      same_num(mode == 1 ? "step.cfl" : "step.dt", s.calcStepSize(c, t, 0.05, 0.3, st[w]), want, 1e-12, "step");
      MC_CHECK(!s.iterationExit(c, t, 0.05, 0.01, st[w]) && s.iterationExit(c, 0.05, 0.05, 0.01, st[w]), "exit", "wrong time to stop");
      if (choose(2, "between"))
      {
         Vector r(s.getStateSize());
         s.calcResidual(st[1 - w], r);
      }
   }
}
}  // namespace

int main(int argc, char **argv)
{
   return run(argc, argv, "C38", [] { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
              {{"control", s_control},
               {"coupled", s_coupled, 100, 4},
               {"construct", s_construct, 60, 4},
               {"decisions", s_decisions},
               {"march2", s_march2, 100, 5},
               {"march3", s_march3, 100, 5}});
}
