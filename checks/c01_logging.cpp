// C01: saved states are read back exactly.
#include <cmath>
#include <filesystem>
#include <fstream>
#include <limits>
#include <map>
#include <tuple>

#include "mc.hpp"
#include "mfem.hpp"
#include "data_logging.hpp"

using namespace mc;
using mfem::Vector;

namespace
{
const double INF = std::numeric_limits<double>::infinity();
const double QNAN = std::numeric_limits<double>::quiet_NaN();

struct Saved
{
   double time;
   std::vector<double> data;
};

bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || same_bits(a, b); }

void save(int lg, const Vector &v, const std::string &f, int ts, double t, int rank)
{
   if (lg == 0) { miso::ASCIILogger::saveState(v, f, ts, t, rank); }
   else { miso::BinaryLogger::saveState(v, f, ts, t, rank); }
}
void read(int lg, const std::string &f, int ts, int rank, double &t, Vector &v)
{
   if (lg == 0) { miso::ASCIILogger::readState(f, ts, rank, t, v); }
   else { miso::BinaryLogger::readState(f, ts, rank, t, v); }
}
const char *lname(int l) { return l == 0 ? "ascii" : "binary"; }

void compare(int lg, const std::string &f, int ts, int rank, const Saved &s, int presize, const std::string &kind)
{
   Vector v(presize);
   if (presize) { v = 123.0; }
   double t = -77.0;
   read(lg, f, ts, rank, t, v);
   Str id;
   id << lname(lg) << " field='" << f << "' timestep=" << ts << " rank=" << rank;
   MC_CHECK(same(t, s.time), kind + ":time", std::string(id) << ": time saved " << s.time << " read " << t);
   MC_CHECK(v.Size() == (int)s.data.size(), kind + ":size",
            std::string(id) << ": size saved " << s.data.size() << " read " << v.Size());
   for (int i = 0; i < v.Size(); ++i)
   {
      MC_CHECK(same(v(i), s.data[i]), kind + ":data",
               std::string(id) << ": entry " << i << " saved " << s.data[i] << " read " << v(i));
   }
}

void clean()
{
   std::filesystem::remove_all("ASCIILogger");
   std::filesystem::remove_all("BinaryLogger");
}

// every history of saves over a small key/payload alphabet
void history()
{
   clean();
   struct Key
   {
      const char *f;
      int ts, rank;
   };
   static const std::vector<Key> keys = {{"s", 0, 0}, {"s", 1, 0}, {"s", 0, 1}, {"s", 1, 1},
                                         {"s", 10, 0}, {"s_1", 0, 0}, {"s", -1, 0}, {"state_dot", 1, 10}};
   static const std::vector<std::vector<double>> payloads = {{}, {1.0 / 3.0}, {-0.1, 2e-300, 3.0, 4.0}};
   static const std::vector<double> times = {0.25, -1e-7};
   int depth = thorough() ? 4 : 3;  // deeper levels use fewer keys
   std::map<std::tuple<int, std::string, int, int>, Saved> model;
   std::string h;
   for (int d = 0; d < depth; ++d)
   {
      int nk = d < 2 ? (int)keys.size() : thorough() && d < 3 ? 5 : 4;
      int lg = choose(2, "logger");
      const auto &k = keys[choose(nk, "key")];
      int pl = choose((int)payloads.size(), "payload");
      double t = times[(d + pl) % 2] * (d + 1);
      Vector v((int)payloads[pl].size());
      for (int i = 0; i < v.Size(); ++i) { v(i) = payloads[pl][i] + d; }
      save(lg, v, k.f, k.ts, t, k.rank);
      note(Str() << lname(lg) << ".save(" << k.f << "," << k.ts << "," << k.rank << ",n=" << v.Size() << ",t=" << t << ")");
      Saved s{t, std::vector<double>(v.begin(), v.end())};
      model[{lg, k.f, k.ts, k.rank}] = s;
      h += std::to_string(lg) + std::to_string(pl);
   }
   for (auto &kv : model)
   {
      compare(std::get<0>(kv.first), std::get<1>(kv.first), std::get<2>(kv.first), std::get<3>(kv.first), kv.second,
              3, "history");
   }
   // keys that were never saved never yield another key's data
   for (int lg = 0; lg < 2; ++lg)
   {
      for (const auto &k : keys)
      {
         if (model.count({lg, k.f, k.ts, k.rank})) { continue; }
         Vector v;
         double t = -5;
         bool threw = false;
         try
         {
            read(lg, k.f, k.ts, k.rank, t, v);
         }
         catch (...)
         {
            threw = true;
         }
         MC_CHECK(threw || v.Size() == 0, "history:phantom",
                  lname(lg) << " never-saved key " << k.f << "," << k.ts << "," << k.rank << " returned " << v.Size()
                            << " entries");
      }
   }
   outcome(h + std::to_string(model.size()));
}

// every vector of up to three special values, every special time
void values()
{
   static const std::vector<double> vals = {0.0,     -0.0,   5e-324, -2.2250738585072014e-308, 1.7976931348623157e308,
                                            -1.7976931348623157e308, 0.1, 1.0 / 3.0, -M_PI, 9007199254740993.0,
                                            1.0 + 2.220446049250313e-16, 123456789.123456789, INF, -INF, QNAN};
   int lg = choose(2, "logger");
   int n = choose(thorough() ? 4 : 3, "size");
   Vector v(n);
   std::string d;
   bool special = false;
   for (int i = 0; i < n; ++i)
   {
      v(i) = vals[choose((int)vals.size(), "value")];
      special = special || !std::isfinite(v(i));
      d += Str() << v(i) << " ";
   }
   double t = vals[choose(n < 2 ? (int)vals.size() : 3, "time")];
   special = special || !std::isfinite(t);
   note(Str() << lname(lg) << " time=" << t << " data=[" << d << "]");
   save(lg, v, "q", 3, t, 0);
   compare(lg, "q", 3, 0, Saved{t, std::vector<double>(v.begin(), v.end())}, choose(2, "presize") * 5,
           std::string("values:") + lname(lg) + (special ? ":nonfinite" : ":finite"));
   outcome(d + lname(lg));
}

// every size in a range, overwriting a file of every other size
void sizes()
{
   static const std::vector<int> q = {0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025};
   int lg = choose(2, "logger");
   int a = pick(q, "first size"), b = pick(q, "second size");
   std::vector<double> va(a), vb(b);
   for (int i = 0; i < a; ++i) { va[i] = std::sin(i + 1.0) * std::pow(10.0, (i * 37) % 600 - 300); }
   for (int i = 0; i < b; ++i) { vb[i] = std::cos(i + 0.5) * std::pow(7.0, (i * 13) % 200 - 100); }
   note(Str() << lname(lg) << " save size " << a << " then size " << b << " under the same key");
   Vector A(va.data(), a), B(vb.data(), b);
   save(lg, A, "u", 1, 0.5, 2);
   compare(lg, "u", 1, 2, Saved{0.5, va}, 4, "sizes");
   save(lg, B, "u", 1, 0.75, 2);
   compare(lg, "u", 1, 2, Saved{0.75, vb}, a, "sizes");
   outcome(std::to_string(a) + "/" + std::to_string(b));
   // saving must not modify the state
   for (int i = 0; i < b; ++i)
   {
      MC_CHECK(same(B(i), std::cos(i + 0.5) * std::pow(7.0, (i * 13) % 200 - 100)), "sizes:state-modified",
               "saving changed entry " << i);
   }
}

// timestep/rank numbers of every digit pattern that could be confused
void keysgrid()
{
   static const std::vector<int> nums = {0, 1, 2, 10, 11, 12, 21, 100, 101, 110, 111, 121, 1000, -1, -11};
   static const std::vector<std::string> fs = {"a", "a_1", "a_1_1", "a1"};
   clean();
   int lg = choose(2, "logger");
   std::string f1 = pick(fs, "field"), f2 = pick(fs, "field");
   int t1 = pick(nums, "ts");
   // against all other keys at once
   std::vector<std::tuple<std::string, int, int, double>> all;
   double id = 1;
   for (int r = 0; r < 13; ++r)
   {
      for (int ts : nums)
      {
         all.push_back({f2, ts, nums[r], id});
         id += 1;
      }
   }
   for (auto &k : all)
   {
      Vector v(1);
      v = std::get<3>(k);
      save(lg, v, std::get<0>(k), std::get<1>(k), std::get<3>(k), std::get<2>(k));
   }
   if (f1 != f2)
   {
      Vector v(2);
      v = -1.0;
      for (int r : {0, 1, 11, 111}) { save(lg, v, f1, t1, -3.0, r); }
   }
   note(Str() << lname(lg) << " all keys of field " << f2 << " then " << f1 << " ts=" << t1);
   for (auto &k : all)
   {
      compare(lg, std::get<0>(k), std::get<1>(k), std::get<2>(k), Saved{std::get<3>(k), {std::get<3>(k)}}, 0, "keys");
   }
   outcome(f1 + f2);
}

// ParaView logger: a registered field takes on the state, cycle and time
void paraview()
{
   using namespace mfem;
   static int counter = 0;
   std::string name = "pv" + std::to_string(counter++);
   int dim = 1 + choose(2, "dim");
   int p = 1 + choose(2, "order");
   Mesh smesh = dim == 1 ? Mesh::MakeCartesian1D(2) : Mesh::MakeCartesian2D(2, 1, Element::TRIANGLE, true);
   ParMesh mesh(MPI_COMM_WORLD, smesh);
   H1_FECollection fec(p, dim);
   ParFiniteElementSpace fes(&mesh, &fec);
   ParGridFunction u(&fes), w(&fes);
   u = -1.0;
   w = -2.0;
   miso::ParaViewLogger lg(name, &mesh);
   bool reg_w = choose(2, "register second");
   lg.registerField("u", u);
   if (reg_w) { lg.registerField("w", w); }
   int nops = 2;
   std::map<std::string, std::vector<double>> model;
   model["u"] = std::vector<double>(fes.GetTrueVSize(), -1.0);
   model["w"] = std::vector<double>(fes.GetTrueVSize(), -2.0);
   for (int d = 0; d < nops; ++d)
   {
      static const std::vector<std::string> names = {"u", "w", "nosuch"};
      const auto &f = pick(names, "field");
      int ts = 3 * d + choose(2, "ts");
      Vector s(fes.GetTrueVSize());
      for (int i = 0; i < s.Size(); ++i) { s(i) = 0.5 * i + 10 * (d + 1); }
      lg.saveState(s, f, ts, 0.1 * ts, 0);
      note(Str() << "pv.save(" << f << "," << ts << ")");
      bool registered = f == "u" || (f == "w" && reg_w);
      if (registered)
      {
         model[f] = std::vector<double>(s.begin(), s.end());
         char cyc[32];
         snprintf(cyc, sizeof cyc, "Cycle%06d", ts);
         auto dirn = std::string("ParaView/") + name + "/" + cyc;
         MC_CHECK(std::filesystem::exists(dirn), "paraview:file", "no output directory " << dirn);
      }
   }
   for (auto &g : {std::make_pair(std::string("u"), &u), std::make_pair(std::string("w"), &w)})
   {
      Vector t;
      g.second->GetTrueDofs(t);
      for (int i = 0; i < t.Size(); ++i)
      {
         MC_CHECK(same(t(i), model[g.first][i]), "paraview:field",
                  "field " << g.first << " dof " << i << " is " << t(i) << " expected " << model[g.first][i]);
      }
   }
   std::filesystem::remove_all("ParaView/" + name);
   outcome(Str() << dim << p << reg_w);
}
}  // namespace

int main(int argc, char **argv)
{
   return run(argc, argv, "C01", []() { MPI_Init(nullptr, nullptr); },
              {{"history", history}, {"values", values}, {"sizes", sizes}, {"keys", keysgrid}, {"paraview", paraview}});
}
