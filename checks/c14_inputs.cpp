// C14: named inputs, elementwise helpers, type dispatch and output streams.
#include "mfem.hpp"
#include "mfem_throw.hpp"
#include "utils.hpp"
#include "miso_input.hpp"
#include "mc.hpp"
#include <limits>
using namespace mc;
using mfem::Vector;

namespace
{
const double INF = std::numeric_limits<double>::infinity();

// all histories of reading named inputs into one value and one vector
void inputs()
{
   // storage the inputs refer to; "c" is missing
   std::vector<double> store{1.5, -2.0, 0.25, 7.0, INF};
   static const std::vector<int> sizes{0, 1, 3};
   double da = choose(2, "a") ? -3.5 : 0.0;
   int nb = pick(sizes, "size b");
   Vector vb(store.data(), nb);
   Vector vd(store.data() + 3, 2);
   miso::MISOInputs in;
   // the fourth operation is explored for one way of building the inputs and b of size 3
   int build = choose(3, "build");
   int depth = thorough() && build == 1 && nb == 3 ? 4 : 3;
   if (build == 0) { in = {{"a", da}, {"b", vb}, {"d", vd}}; }
   else if (build == 1)
   {
      in.emplace("a", da);
      in.emplace("b", miso::InputVector(store.data(), nb));
      in.emplace("d", vd);
   }
   else
   {
      miso::MISOInputs tmp{{"d", vd}, {"b", vb}};
      tmp.emplace("a", da);
      in = tmp;  // copies still refer to the same data
   }
   double val = 42.0;
   Vector vec;
   // model of vec: owned entries, or a reference into the store
   bool alias = false;
   int off = 0, size = 0;
   std::vector<double> own;
   int start = choose(3, "initial vector");
   if (start)
   {
      vec.SetSize(start == 1 ? 3 : 2);
      vec = 9.0;
      own.assign(vec.Size(), 9.0);
      size = vec.Size();
   }
   double mval = val;
   for (int step = 0; step < depth; ++step)
   {
      static const char *keys[] = {"a", "b", "c", "d"};
      int k = choose(4, "key"), op = choose(8, "op");
      std::string where = Str() << "step " << step << " key " << keys[k] << " op " << op << " |b|=" << nb << " build " << build;
      note(where);
      bool threw = false;
      bool err = op == 1 || op == 4 || op == 6;
      bool deep = op == 4 || op == 5;
      if (deep && alias && (k == 1 || k == 3)) { prune(); }  // a deep copy into a view: target chosen by the caller
      try
      {
         switch (op)
         {
         case 0: miso::setValueFromInputs(in, keys[k], val); break;
         case 1: miso::setValueFromInputs(in, keys[k], val, true); break;
         case 2: if (k == 2) { prune(); } miso::setValueFromInput(in.at(keys[k]), val); break;
         case 3: miso::setVectorFromInputs(in, keys[k], vec); break;
         case 4: miso::setVectorFromInputs(in, keys[k], vec, true, true); break;
         case 5: miso::setVectorFromInputs(in, keys[k], vec, true); break;
         case 6: miso::setVectorFromInputs(in, keys[k], vec, false, true); break;
         default:
            // the data behind the inputs changes
            if (k != 1 || nb == 0) { prune(); }
            store[0] += 0.5;
         }
      }
      catch (const miso::MISOException &) { threw = true; }
      catch (const std::bad_variant_access &) { threw = true; }
      bool missing = k == 2, wrong = op < 3 ? (k == 1 || k == 3) : (op < 7 && k == 0);
      MC_CHECK(threw == ((missing && err) || wrong), "refuse", where << (threw ? ": refused" : ": not refused"));
      if (!threw && !missing && op < 7)
      {
         if (op < 3) { mval = da; }
         else
         {
            size = k == 1 ? nb : 2;
            off = k == 1 ? 0 : 3;
            alias = !deep;
            if (deep) { own.assign(store.begin() + off, store.begin() + off + size); }
         }
      }
      MC_CHECK(same_bits(val, mval), "value", where << ": value " << val << " instead of " << mval);
      MC_CHECK(vec.Size() == size, "size", where << ": vector of size " << vec.Size() << " instead of " << size);
      for (int i = 0; i < size; ++i)
      {
         double want = alias ? store[off + i] : own[i];
         MC_CHECK(same_bits(vec(i), want), alias ? "shallow" : "deep", where << ": entry " << i << " is " << vec(i) << " instead of " << want);
      }
      if (alias && size) { MC_CHECK(vec.GetData() == store.data() + off, "shallow", where << ": a shallow copy does not refer to the input"); }
      if (!alias && size) { MC_CHECK(vec.GetData() < store.data() || vec.GetData() >= store.data() + store.size(), "deep", where << ": a deep copy refers to the input"); }
      MC_CHECK(store[1] == -2.0 && store[2] == 0.25 && store[3] == 7.0 && store[4] == INF && in.size() == 3, "source", where << ": the inputs changed");
      MC_CHECK(std::get<double>(in.at("a")) == da && std::get<miso::InputVector>(in.at("b")).size == nb, "source", where << ": the inputs changed");
   }
   // conversion back to a vector refers to the same data
   Vector back = std::get<miso::InputVector>(in.at("d"));
   MC_CHECK(back.Size() == 2 && back.GetData() == store.data() + 3, "convert", "conversion of an input to a vector copies it");
   outcome(Str() << val << vec.Size());
}

void elementwise()
{
   static const std::vector<double> vals{0.0, -0.0, 1.0, -2.5, 1e200, 1e-200, INF, NAN};
   int n = choose(4, "n");
   Vector a(n), b(n), out(n);
   for (int i = 0; i < n; ++i)
   {
      // every pair in the first position, a rotated choice afterwards
      if (i == 0) { a(0) = pick(vals, "a"); b(0) = pick(vals, "b"); }
      else { int s = choose(3, "rest"); a(i) = vals[(2 * s + i) % 8]; b(i) = vals[(3 * s + 2 * i + 1) % 8]; }
      out(i) = 123.0;
   }
   Vector a0(a), b0(b);
   auto eq = [](double x, double y) { return (std::isnan(x) && std::isnan(y)) || same_bits(x, y); };
   int op = choose(6, "op");
   switch (op)
   {
   case 0: miso::multiplyElementwise(a, b, out); break;
   case 1: miso::divideElementwise(a, b, out); break;
   case 2: miso::invertElementwise(a, out); break;
   case 3: out = b0; miso::multiplyElementwise(a, out); break;       // out *= a
   case 4: out = a0; miso::multiplyElementwise(out, b, out); break;  // in place
   default: out = a0; miso::divideElementwise(out, b, out); break;
   }
   for (int i = 0; i < n; ++i)
   {
      double want = op == 0 || op == 3 || op == 4 ? a0(i) * b0(i) : op == 2 ? 1.0 / a0(i) : a0(i) / b0(i);
      MC_CHECK(eq(out(i), want), "elementwise", "operation " << op << " entry " << i << " of (" << a0(i) << ", " << b0(i) << ") is " << out(i));
      MC_CHECK(eq(a(i), a0(i)) && eq(b(i), b0(i)), "elementwise-input", "operation " << op << " changed an argument");
   }
}

template <int dim>
void dots(const std::vector<double> &a, const std::vector<double> &b)
{
   double w = 0;
   for (int i = 0; i < dim; ++i) { w += a[i] * b[i]; }
   double g = miso::dot<double, dim>(a.data(), b.data());
   MC_CHECK(close(g, w, 1e-14), "dot", "dot product of size " << dim << " is " << g << " instead of " << w);
}
void products()
{
   static const std::vector<double> vals{0.0, 1.0, -0.75, 2.0};
   std::vector<double> a(6, 5.0), b(6, -3.0);
   int n = 1 + choose(4, "n");
   for (int i = 0; i < std::min(n, 3); ++i) { a[i] = pick(vals, "a"); b[i] = pick(vals, "b"); }
   if (n == 4) { a[3] = 0.5; b[3] = 1.5; }
   if (n == 1) { dots<1>(a, b); }
   if (n == 2) { dots<2>(a, b); }
   if (n == 3) { dots<3>(a, b); }
   if (n == 4) { dots<4>(a, b); dots<5>(a, b); dots<6>(a, b); }
   for (double len : {0.5, 1.0, 3.0})
   {
      double r = 0;
      for (int i = 0; i < n; ++i) { r += (a[i] - b[i]) * (a[i] - b[i]); }
      Vector x(a.data(), n), xc(b.data(), n);
      double g = miso::squaredExponential(len, xc, x), w = std::exp(-r / (len * len));
      MC_CHECK(fabs(g - w) < 1e-12, "squared-exponential", "kernel of length " << len << " at distance^2 " << r << " is " << g << " instead of " << w);
   }
}

// useAny calls exactly the first function that takes the stored type
void dispatch()
{
   int stored = choose(5, "stored");
   std::any any;
   Vector v(2);
   v = 4.0;
   switch (stored)
   {
   case 0: any = 2.5; break;
   case 1: any = 7; break;
   case 2: any = v; break;
   case 3: any = std::function<double(double)>([](double x) { return 2 * x; }); break;
   default: break;  // empty
   }
   std::vector<int> called;
   int order = choose(6, "order");
   auto fd = [&](double &x) -> double { called.push_back(0); double r = x; x += 1; return r; };
   auto fi = [&](int x) -> double { called.push_back(1); return x; };
   auto fv = [&](const Vector &x) -> double { called.push_back(2); return x(0); };
   auto ff = [&](std::function<double(double)> &f) -> double { called.push_back(3); return f(1.5); };
   double r = 0;
   bool have[4] = {true, true, true, true};
   switch (order)
   {
   case 0: r = miso::useAny(any, fd, fi, fv, ff); break;
   case 1: r = miso::useAny(any, ff, fv, fi, fd); break;
   case 2: r = miso::useAny(any, fi, fd); have[2] = have[3] = false; break;
   case 3: r = miso::useAny(any, fv); have[0] = have[1] = have[3] = false; break;
   case 4: r = miso::useAny(any, fv, ff, fd); have[1] = false; break;
   default: r = miso::useAny(any, fd, fd, ff); have[1] = have[2] = false;
   }
   bool hit = stored < 4 && have[stored];
   MC_CHECK(called.size() == (size_t)hit && (!hit || called[0] == stored), "dispatch", "stored type " << stored << ", order " << order << ": " << called.size() << " functions called");
   static const double want[] = {2.5, 7, 4.0, 3.0};
   MC_CHECK(hit ? r == want[stored] : std::isnan(r), "dispatch", "stored type " << stored << ", order " << order << ": result " << r);
   if (stored == 0 && hit) { MC_CHECK(std::any_cast<double>(any) == 3.5, "dispatch", "the function got a copy of the stored object"); }
   // callables become std::functions of the same signature
   int calls = 0;
   auto f = miso::make_function([&calls](const Vector &x, double s) { ++calls; return s * x(1); });
   static_assert(std::is_same_v<decltype(f), std::function<double(const Vector &, double)>>, "signature");
   MC_CHECK(f(v, 0.5) == 2.0 && calls == 1, "dispatch", "make_function");
}

void streams()
{
   int rank = choose(3, "rank");
   bool silent = choose(2, "silent");
   std::ostringstream cap;
   std::streambuf *old = std::cout.rdbuf(cap.rdbuf());
   std::cout.clear();
   for (int i = 0; i < 2; ++i) { *miso::getOutStream(rank, silent) << "text " << i << std::endl; }
   std::cout.rdbuf(old);
   std::string want = rank == 0 && !silent ? "text 0\ntext 1\n" : "";
   MC_CHECK(cap.str() == want, "stream", "rank " << rank << (silent ? " silent" : "") << " printed '" << cap.str() << "'");
}

// buffers wrapped as parallel vectors
void buffers()
{
   static const std::vector<int> ps{1, 2};
   int p = pick(ps, "degree"), vd = 1 + choose(2, "vdim"), nel = 1 + choose(3, "elements");
   auto m = mfem::Mesh::MakeCartesian1D(nel);
   mfem::ParMesh pm(MPI_COMM_SELF, m);
   mfem::H1_FECollection fec(p, 1);
   mfem::ParFiniteElementSpace fes(&pm, &fec, vd);
   std::vector<double> buf(fes.GetTrueVSize());
   for (size_t i = 0; i < buf.size(); ++i) { buf[i] = 1.0 + i; }
   auto hv = miso::bufferToHypreParVector(buf.data(), fes);
   MC_CHECK(hv.Size() == (int)buf.size() && hv.GlobalSize() == (int)buf.size(), "buffer", "size " << hv.Size());
   hv(0) = -5.0;
   for (int i = 0; i < hv.Size(); ++i) { MC_CHECK(hv(i) == buf[i], "buffer", "entry " << i << " is a copy"); }
   MC_CHECK(buf[0] == -5.0, "buffer", "the vector does not refer to the buffer");
}
}  // namespace

int main(int argc, char **argv)
{
   return mc::run(argc, argv, "C14", []() { int a = 0; char **v = nullptr; MPI_Init(&a, &v); },
                  {{"inputs", inputs}, {"elementwise", elementwise}, {"products", products}, {"dispatch", dispatch}, {"streams", streams}, {"buffers", buffers}});
}
