// FlowSolver: consistency of its parts, step sizes, stopping, logs, and the
// marches it makes of the residual
#include "flow_ref.hpp"
#include "flow_solver.hpp"

namespace
{
template <int d, bool ent>
struct Sol : FlowSolver<d, ent>
{
   Sol(const json &o, std::unique_ptr<mfem::Mesh> m) : FlowSolver<d, ent>(MPI_COMM_WORLD, o, std::move(m)) { }
   ~Sol() override { MPI_Comm_free(&this->comm); }
   using AbstractSolver2::calcStepSize;
   using AbstractSolver2::initialHook;
   using AbstractSolver2::iterationExit;
   using AbstractSolver2::iterationHook;
   using AbstractSolver2::terminalHook;
   using AbstractSolver2::nonlinear_solver;
   using AbstractSolver2::spatial_res;
   using PDESolver::fes;
   using PDESolver::fields;
};
/// parts that do not fit together are refused
template <int d, bool ent, int md>
void construct_one()
{
   fr::Quiet q;
   json o = base_options(md);
   bool es = choose(2, "entropy-state");
   int steady = choose(2, "steady");
   int fault = choose(6, "fault");
   o["flow-param"]["entropy-state"] = es;
   o["time-dis"]["steady"] = (bool)steady;
   o["time-dis"]["type"] = steady ? "PTC" : "RK4";
   if (md == 3) { o["space-dis"]["degree"] = 0; }
   bool bad = d != md || es != ent || (ent && !steady);
   switch (fault)
   {
   case 1: o["time-dis"]["type"] = "RK17"; bad = true; break;
   case 2: o["lin-solver"]["type"] = "magic"; bad = true; break;
   case 3: o["nonlin-solver"]["type"] = "magic"; bad = true; break;
   case 4: o["lin-prec"]["type"] = "magic"; bad = true; break;
   case 5: o["mesh"]["file"] = "nothing"; bad = true; break;
   default: break;
   }
   Here h(where());
   bool thrown = false;
   try
   {
      FlowSolver<d, ent> s(MPI_COMM_WORLD, o, box<md>(false));
      if (!bad)
      {
         MC_CHECK(s.getNumStates() == d + 2, "construct.states", "" << s.getNumStates() << " states");
         MC_CHECK(s.getStateSize() == s.getFieldSize("state") && s.getStateSize() > 0, "construct.size", "" << s.getStateSize());
         Vector qf(d + 2);
         s.getFreeStreamState(qf);
         double M = 0.4, a = 12.0 * M_PI / 180;
         Vector e(d + 2);
         e = 0.0;
         e(0) = 1;
         if (d == 1) { e(1) = M; }
         else
         {
            e(1) = M * cos(a);
            e(d == 3 ? 3 : 2) = M * sin(a);
         }
         e(d + 1) = 1 / 1.4 / 0.4 + 0.5 * M * M;
         same_vec("construct.freestream", qf, e, 1e-13);
      }
   }
   catch (const MISOException &) { thrown = true; }
   MC_CHECK(thrown == bad, "construct.refuse", "" << "mesh " << md << ", template " << d << "/" << ent << ", option " << es << ", steady " << steady << ", fault " << fault << (bad ? " was accepted" : " was refused"));
   step();
}
template <int d>
void construct_dim()
{
   bool ent = choose(2, "entropy template");
   int md = choose(3, "mesh");
   if (ent)
   {
      if (md == 0) { construct_one<d, true, 1>(); }
      else if (md == 1) { construct_one<d, true, 2>(); }
      else { construct_one<d, true, 3>(); }
   }
   else
   {
      if (md == 0) { construct_one<d, false, 1>(); }
      else if (md == 1) { construct_one<d, false, 2>(); }
      else { construct_one<d, false, 3>(); }
   }
}
void s_construct()
{
   switch (choose(3, "dim"))
   {
   case 0: return construct_dim<1>();
   case 1: return construct_dim<2>();
   default: return construct_dim<3>();
   }
}
template <int d, bool ent>
struct States
{
   std::vector<Vector> u;
   States(Ref<d, ent> &r)
   {
      int n = r.size();
      mfem::VectorFunctionCoefficient w(d + 2, wave<d, ent>), c(d + 2, calm<d, ent>);
      for (auto *f : {&w, &c})
      {
         auto &fld = r.fields.at("state");
         Vector t(n);
         fld.project(*f, t);
         u.push_back(t);
      }
      Vector m(u[0]);
      for (int i = 0; i < n; ++i) { m(i) = 0.6 * u[0](i) + 0.4 * u[1](i); }
      u.push_back(m);
   }
};
/// step size, stopping and the state they look at, after any history of calls
template <int d, bool ent>
void decisions()
{
   fr::Quiet q;
   json o = base_options(d);
   int mode = ent ? 0 : choose(3, "mode");  // steady, constant CFL, constant dt
   auto &td = o["time-dis"];
   o["flow-param"]["entropy-state"] = ent;
   o["space-dis"]["degree"] = d == 3 ? 0 : 1;
   if (d > 1) { o["bcs"] = {{"far-field", d == 2 ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 2, 3, 4, 5, 6}}}; }
   td["steady"] = mode == 0;
   td["type"] = mode == 0 ? "PTC" : "RK4";
   td["const-cfl"] = mode == 1;
   td["cfl"] = mode == 1 ? pick(std::vector<double>{0.5, 1.7}, "cfl") : 0.9;
   td["dt"] = 0.015;
   td["res-exp"] = mode == 0 ? pick(std::vector<double>{0.5, 2.0}, "exponent") : 2.0;
   if (mode == 0 && td["res-exp"] > 1.0) { td["const-cfl"] = true; }  // not looked at
   bool exact = mode == 0 || !choose(2, "past t-final");
   if (!exact) { td["exact-t-final"] = false; }
   Sol<d, ent> s(o, box<d>(false));
   auto m = box<d>(false);
   Ref<d, ent> r(o, *m);
   States<d, ent> st(r);
   double n[3];
   for (int i = 0; i < 3; ++i) { n[i] = r.norm(st.u[i]); }
   int first = choose(3, "initial state");
   s.initialHook(st.u[first]);
   // two calls, with something else in between
   for (int c = 0; c < 2; ++c)
   {
      int k = choose(3, "state"), before = choose(3, "before");
      if (before == 1)
      {
         Vector w(s.getStateSize());
         s.calcResidual(st.u[(k + 1) % 3], w);
      }
      else if (before == 2) { s.iterationHook(0, 0.0, 0.1, st.u[(k + 2) % 3]); }
      double t = c == 0 ? 0.0 : pick(std::vector<double>{0.0, 0.045}, "time");
      double dt_old = c == 0 ? 0.02 : mode == 0 ? pick(std::vector<double>{0.0, 0.02, 3.0}, "last step") : 0.0;
      double got = s.calcStepSize(c, t, 0.05, dt_old, st.u[k]), want;
      if (mode == 0) { want = std::max(0.015 * pow(n[first] / n[k], td["res-exp"].get<double>()), dt_old); }
      else
      {
         want = mode == 1 ? r.cfl_step(td["cfl"], st.u[k]) : 0.015;
         if (exact) { want = std::min(want, 0.05 - t); }
      }
      same_num(mode == 0 ? "step.ptc" : mode == 1 ? "step.cfl" : "step.dt", got, want, 1e-12, "step");
      fingerprint(got);
      if (mode != 0)
      {
         MC_CHECK(!s.iterationExit(c, t, 0.05, 0.01, st.u[k]) && s.iterationExit(c, 0.05, 0.05, 0.01, st.u[k]), "exit.unsteady", "wrong time to stop");
      }
   }
}
/// a steady run stops at a norm below either tolerance
template <int d, bool ent>
void stopping()
{
   fr::Quiet q;
   json o = base_options(d);
   auto &td = o["time-dis"];
   o["flow-param"]["entropy-state"] = ent;
   o["space-dis"]["degree"] = d == 3 ? 0 : 1;
   if (d > 1) { o["bcs"] = {{"far-field", d == 2 ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 2, 3, 4, 5, 6}}}; }
   td["steady"] = true;
   td["type"] = "PTC";
   auto m = box<d>(false);
   Ref<d, ent> r(o, *m);
   States<d, ent> st(r);
   double n[3];
   for (int i = 0; i < 3; ++i) { n[i] = r.norm(st.u[i]); }
   std::vector<double> sorted(n, n + 3);
   std::sort(sorted.begin(), sorted.end());
   // tolerances on either side of each norm
   int first = choose(3, "initial state"), ka = choose(4, "absolute tolerance"), kr = choose(4, "relative tolerance");
   double ta = ka == 0 ? 0.5 * sorted[0] : 1.0001 * sorted[ka - 1], tr = (kr == 0 ? 0.5 * sorted[0] : 1.0001 * sorted[kr - 1]) / n[first];
   td["steady-abstol"] = ta;
   td["steady-reltol"] = tr;
   Sol<d, ent> s(o, box<d>(false));
   s.initialHook(st.u[first]);
   for (int i = 0; i < 3; ++i)
   {
      bool want = n[i] <= ta || n[i] <= tr * n[first];
      bool got = s.iterationExit(i, 5.0, 1.0, 0.1, st.u[i]);
      MC_CHECK(got == want, "exit.steady", "" << "norm " << n[i] << ", first " << n[first] << ", tolerances " << ta << ", " << tr << ": exit " << got);
      step();
   }
}
void s_stopping()
{
   switch (choose(5, "instance"))
   {
   case 0: return stopping<1, false>();
   case 1: return stopping<1, true>();
   case 2: return stopping<2, false>();
   case 3: return stopping<2, true>();
   default: return stopping<3, false>();
   }
}
void s_decisions()
{
   switch (choose(5, "instance"))
   {
   case 0: return decisions<1, false>();
   case 1: return decisions<1, true>();
   case 2: return decisions<2, false>();
   case 3: return decisions<2, true>();
   default: return decisions<3, false>();
   }
}
/// a march is the method applied to the residual: states, times, logs, sums
template <int d>
void march()
{
   fr::Quiet q;
   json o = base_options(d);
   auto &td = o["time-dis"];
   S type = pick(std::vector<S>{"RK1", "RK4", "MIDPOINT", "RRK"}, "method");
   bool explicit_ = type == "RK1" || type == "RK4";
   bool cfl = explicit_ && choose(2, "const-cfl");
   bool periodic = choose(2, "periodic");
   int p = d == 1 ? choose(3, "degree") : d == 2 ? choose(thorough() ? 3 : 2, "degree") : 0;
   double lps = pick(std::vector<double>{0.0, 0.7}, "lps");
   bool log = choose(2, "entropy-log");
   double t0 = pick(std::vector<double>{0.0, 1.0}, "t-initial"), T = t0 + 0.05;
   int most = choose(2, "few iterations") ? 2 : 10000;
   if (d > 1 && (lps > 0) != periodic && !thorough()) { return; }
   if (d == 3 && periodic) { return; }
   o["space-dis"]["degree"] = p;
   o["space-dis"]["lps-coeff"] = lps;
   // one-dimensional meshes have no boundary terms
   if (!periodic && d > 1) { o["bcs"] = {{"far-field", d == 2 ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 2, 3, 4, 5, 6}}}; }
   td["type"] = type;
   td["const-cfl"] = cfl;
   td["cfl"] = 0.4;
   td["t-initial"] = t0;
   td["t-final"] = T;
   td["dt"] = 0.02;
   td["max-iter"] = most;
   td["entropy-log"] = log;
   Here h(where());
   Sol<d, false> s(o, box<d>(periodic));
   auto m = box<d>(periodic);
   Ref<d, false> r(o, *m);
   r.mass();
   Vector u(s.getStateSize()), u0;
   s.setState(wave<d, false>, u);
   u0 = u;
   int runs = log ? 2 : 1;  // a second run starts over
   for (int run = 0; run < runs; ++run)
   {
      u = u0;
      MISOInputs in({{"state", u}});
      s.solveForState(in, u);
      std::vector<std::pair<double, double>> want;
      if (explicit_)
      {
         Vector x(u0);
         double t = t0;
         int it = 0;
         while (it < most)
         {
            double dt = cfl ? r.cfl_step(0.4, x) : 0.02;
            dt = std::min(dt, T - t);
            want.emplace_back(t, r.entropy(x, t));
            x = r.step(type, x, dt);
            t += dt;
            ++it;
            if (t >= T - 1e-14 * dt) { break; }
         }
         want.emplace_back(t, r.entropy(x, t));
         same_vec("march.state", u, x, 1e-9);
      }
      else if (most == 2)
      {
         // undo: the equation each step satisfies is checked on one step
         td["max-iter"] = 1;
         td["entropy-log"] = false;
         Sol<d, false> one(o, box<d>(periodic));
         Vector a(u0);
         MISOInputs i1({{"state", a}});
         one.solveForState(i1, a);
         // the step solves M k + R(u + dt/2 k) = 0 and goes along k
         Vector k(a);
         k -= u0;
         if (type == "MIDPOINT")
         {
            k *= 1 / 0.02;
         }
         else
         {
            // relaxed: k is found along the direction, from the midpoint equation
            td["type"] = "MIDPOINT";
            Sol<d, false> mid(o, box<d>(periodic));
            Vector b(u0);
            MISOInputs i2({{"state", b}});
            mid.solveForState(i2, b);
            Vector e(b);
            e -= u0;
            double g = (k * e) / (e * e);
            MC_CHECK(fabs(g - 1) < 0.05, "march.relaxation", "" << "relaxation parameter " << g);
            Vector ge(e);
            ge *= g;
            Vector diff(k);
            diff -= ge;
            MC_CHECK(diff.Norml2() <= 1e-8 * k.Norml2(), "march.relaxation", "the step does not go along the midpoint step");
            k = e;
            k *= 1 / 0.02;
            td["type"] = type;
            // the entropy balance holds for the relaxed step
            Vector half(u0);
            half.Add(0.01, k);
            MISOInputs ci({{"state", half}, {"state_dot", k}, {"time", t0 + 0.01}, {"dt", 0.02}});
            double dS = r.entropy(a, t0) - r.entropy(u0, t0), rhs = -g * 0.02 * calcEntropyChange(*r.R, ci);
            MC_CHECK(fabs(dS - rhs) <= 1e-9, "march.entropy_balance", "" << "entropy changes by " << dS << ", balance says " << rhs);
         }
         Vector half(u0), Mk(k.Size());
         half.Add(0.01, k);
         r.M.Mult(k, Mk);
         Mk += r.res(half);
         MC_CHECK(Mk.Norml2() <= 1e-9 * std::max(1.0, r.norm(half)), "march.equation", "" << "midpoint residual " << Mk.Norml2());
         td["max-iter"] = most;
         td["entropy-log"] = log;
      }
      // conservation and entropy
      if (periodic)
      {
         Vector a = r.total(u0), b = r.total(u);
         for (int k = 0; k < d + 2; ++k) { MC_CHECK(fabs(a(k) - b(k)) <= 1e-10, "march.conservation", "" << "variable " << k << " changes from " << a(k) << " to " << b(k)); }
         double S0 = r.entropy(u0, t0), S1 = r.entropy(u, T);
         if (type == "RRK")
         {
            if (lps == 0.0) { MC_CHECK(fabs(S1 - S0) <= 1e-9 * fabs(S0) + 1e-11, "march.entropy", "" << "entropy changes from " << S0 << " to " << S1); }
            else { MC_CHECK(S1 <= S0 + 1e-11, "march.entropy", "" << "entropy grows from " << S0 << " to " << S1); }
         }
         step(d + 3);
      }
      // what the solver holds is the state it returns
      auto &g = s.getState().gridFunc();
      Vector held(u.Size());
      g.GetTrueDofs(held);
      same_vec("march.held", held, u, 1e-14);
      for (int e = -1; e < d + 2; ++e) { same_num("march.error", s.calcConservativeVarsL2Error(wave<d, false>, e), r.error(wave<d, false>, e, u), 1e-10, "L2 error"); }
      // the log
      auto got = read_log("entropy-log.txt");
      if (!log) { MC_CHECK(!fs::exists("entropy-log.txt"), "log.unasked", "an entropy log was written without being asked for"); }
      else
      {
         MC_CHECK(got.size() >= 2 && got.front().first == t0, "log.length", "" << "the log has " << got.size() << " lines");
         same_num("log.first", got.front().second, r.entropy(u0, t0), 1e-12, "first entropy");
         same_num("log.last", got.back().second, r.entropy(u, T), 1e-12, "last entropy");
         if (most != 2) { same_num("log.time", got.back().first, T, type == "RRK" ? 0.02 : 1e-12, "last time"); }
         else if (!explicit_) { MC_CHECK(got.size() == 3, "log.length", "" << "the log has " << got.size() << " lines after two steps"); }
         if (explicit_)
         {
            MC_CHECK(got.size() == want.size(), "log.length", "" << "the log has " << got.size() << " lines, expected " << want.size());
            for (size_t i = 0; i < want.size(); ++i)
            {
               MC_CHECK(fabs(got[i].first - want[i].first) <= 1e-12, "log.time", "" << "line " << i << " is at " << got[i].first << ", expected " << want[i].first);
               same_num("log.entropy", got[i].second, want[i].second, 1e-9, "entropy");
            }
         }
      }
      fingerprint(u.Norml2());
   }
}
void s_march1() { march<1>(); }
void s_march2() { march<2>(); }
void s_march3() { march<3>(); }
/// pseudo-transient continuation ends at the first state that meets a tolerance
template <bool ent>
void steady_run()
{
   fr::Quiet q;
   json o = base_options(2);
   auto &td = o["time-dis"];
   o["flow-param"]["entropy-state"] = ent;
   o["space-dis"]["lps-coeff"] = 1.0;
   o["bcs"] = {{"vortex", {1, 2, 3}}, {"slip-wall", {4}}};
   td["type"] = "PTC";
   td["steady"] = true;
   td["dt"] = pick(std::vector<double>{0.3, 0.6}, "dt");
   td["res-exp"] = 2.0;
   td["steady-abstol"] = 1e-12;
   td["steady-reltol"] = pick(std::vector<double>{1e-10, 1e-5, 0.02}, "tolerance");
   o["nonlin-solver"]["reltol"] = 1e-3;
   o["lin-solver"]["reltol"] = 1e-8;
   o["lin-solver"]["abstol"] = 0.0;  // the unknown is a rate, which gets very small
   bool log = choose(2, "entropy-log");
   td["entropy-log"] = log;
   Here h(where());
   auto m = annulus();
   Ref<2, ent> r(o, *m);
   Vector u0, u;
   double n0 = 0;
   int steps = -1;
   // fewer iterations first, to see the states on the way
   for (int k = 1; k <= 60; ++k)
   {
      td["max-iter"] = k;
      Sol<2, ent> s(o, annulus());
      u.SetSize(s.getStateSize());
      s.setState(vortex<ent>, u);
      u0 = u;
      n0 = r.norm(u0);
      MISOInputs in({{"state", u}});
      s.solveForState(in, u);
      double n = r.norm(u);
      if (n <= 1e-12 || n <= n0 * td["steady-reltol"].get<double>())
      {
         steps = k;
         break;
      }
   }
   MC_CHECK(steps > 0, "steady.converge", "no convergence");
   td["max-iter"] = 1000;
   Sol<2, ent> s(o, annulus());
   Vector v(u0);
   MISOInputs in({{"state", v}});
   s.solveForState(in, v);
   same_vec("steady.first", v, u, 1e-12);
   Vector held(v.Size());
   s.getState().gridFunc().GetTrueDofs(held);
   same_vec("steady.held", held, v, 1e-14);
   same_num("steady.error", s.calcConservativeVarsL2Error(vortex<ent>, 0), r.error(vortex<ent>, 0, v), 1e-10, "L2 error");
   if (log)
   {
      auto got = read_log("entropy-log.txt");
      MC_CHECK((int)got.size() == steps + 1, "steady.log", "" << got.size() << " lines for " << steps << " steps");
      same_num("steady.log", got.back().second, r.entropy(v, 0), 1e-11, "last entropy");
   }
   // the outputs of the solver are those of the residual
   for (auto f : {"drag", "lift", "entropy"})
   {
      json oo = {{"boundaries", {4}}};
      s.createOutput(f, oo);
      auto out = r.R->constructOutput(f, oo);
      MISOInputs oi({{"state", v}});
      setInputs(out, oi);
      same_num("steady.output", s.calcOutput(f, oi), calcOutput(out, oi), 1e-10, f);
   }
   bool thrown = false;
   try { s.createOutput("thrust"); }
   catch (const MISOException &) { thrown = true; }
   MC_CHECK(thrown, "steady.unknown", "an output that does not exist was made");
   outcome(steps);
}
void s_steady()
{
   if (choose(2, "entropy")) { steady_run<true>(); }
   else { steady_run<false>(); }
}
/// fields are saved at exactly the moments asked for
void s_files()
{
   fr::Quiet q;
   json o = base_options(1);
   auto &td = o["time-dis"], &pv = o["paraview"];
   int mask = choose(8, "moments");
   bool stated = choose(2, "stated when false");
   int n = choose(3, "steps") + 1;
   S dir = pick(std::vector<S>{"out", "elsewhere"}, "directory");
   td["type"] = pick(std::vector<S>{"RK4", "RK1"}, "method");
   td["max-iter"] = n;
   td["t-final"] = 1.0;
   pv["directory"] = dir;
   const char *name[3] = {"initial-state", "each-timestep", "final-state"};
   for (int i = 0; i < 3; ++i)
   {
      pv.erase(name[i]);
      if ((mask >> i & 1) || stated) { pv[name[i]] = (bool)(mask >> i & 1); }
   }
   Here h(where());
   Sol<1, false> s(o, box<1>(false));
   Vector u(s.getStateSize());
   s.setState(wave<1, false>, u);
   MISOInputs in({{"state", u}});
   s.solveForState(in, u);
   std::set<S> want, got;
   auto cyc = [](int i)
   {
      char b[32];
      snprintf(b, sizeof b, "Cycle%06d", i);
      return S(b);
   };
   if (mask & 1) { want.insert(cyc(0)); }
   if (mask & 2) { for (int i = 0; i < n; ++i) { want.insert(cyc(i)); } }
   if (mask & 4) { want.insert(cyc(n)); }
   if (fs::exists("ParaView"))
   {
      for (auto &e : fs::directory_iterator("ParaView")) { MC_CHECK(e.path().filename() == dir, "files.directory", "" << "wrote to " << e.path().string()); }
      if (fs::exists("ParaView/" + dir))
      {
         for (auto &e : fs::directory_iterator("ParaView/" + dir)) { if (e.is_directory()) { got.insert(e.path().filename().string()); } }
      }
   }
   S a, b;
   for (auto &x : want) { a += " " + x; }
   for (auto &x : got) { b += " " + x; }
   MC_CHECK(got == want, "files.moments", "" << "saved" << b << ", asked for" << a);
   // saving leaves the solver holding its last state
   Vector held(u.Size());
   s.getState().gridFunc().GetTrueDofs(held);
   same_vec("files.held", held, u, 1e-14);
   step();
}
}  // namespace

int main(int argc, char **argv)
{
   return run(argc, argv, "C37", [] { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
              {{"construct", s_construct},
               {"decisions", s_decisions},
               {"stopping", s_stopping},
               {"march1", s_march1},
               {"march2", s_march2},
               {"march3", s_march3},
               {"steady", s_steady, 100},
               {"files", s_files}});
}
