// C16: operators, preconditioners and solvers do what they are configured for.
#include "mfem.hpp"
#include "mfem_throw.hpp"
#include "matrix_operators.hpp"
#include "mfem_extensions.hpp"
#include "relaxed_newton.hpp"
#include "utils.hpp"
#include "mc.hpp"
using namespace mc;
using nlohmann::json;
using mfem::Array;
using mfem::DenseMatrix;
using mfem::Operator;
using mfem::Vector;

namespace
{
typedef std::vector<std::vector<double>> Mat;
double entry(int seed, int i, int j) { return ((seed * 7 + i * 3 + j * 5) % 11 - 4) * 0.5; }
DenseMatrix dense(int seed, int h, int w)
{
   DenseMatrix m(h, w);
   for (int i = 0; i < h; ++i) { for (int j = 0; j < w; ++j) { m(i, j) = entry(seed, i, j); } }
   return m;
}
std::unique_ptr<mfem::HypreParMatrix> hypre(const DenseMatrix &m, bool full = true)
{
   int n = m.Height();
   mfem::SparseMatrix sp(n, n);
   for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { if (full || i == j || m(i, j) != 0) { sp.Set(i, j, m(i, j)); } } }
   sp.Finalize(0);
   HYPRE_BigInt rows[2] = {0, n};
   mfem::HypreParMatrix tmp(MPI_COMM_SELF, n, rows, &sp);
   return std::make_unique<mfem::HypreParMatrix>(tmp);
}

void sums()
{
   static const int hs[] = {1, 2, 2, 3}, ws[] = {1, 2, 3, 2};
   static const std::vector<double> cs{0.0, 1.0, -1.0, 2.5};
   int sh = choose(4, "shape"), h = hs[sh], w = ws[sh];
   DenseMatrix ops[3] = {dense(1, h, w), dense(2, h, w), dense(5, h, w)};
   DenseMatrix bad = dense(3, h + 1, w), bad2 = dense(3, h, w + 1);
   bool threw = false;
   for (int k = 0; k < 4; ++k)
   {
      threw = false;
      try { miso::SumOfOperators s(1.0, k & 1 ? ops[0] : k & 2 ? bad : bad2, 1.0, k & 1 ? (k & 2 ? bad : bad2) : ops[0]); }
      catch (const miso::MISOException &) { threw = true; }
      MC_CHECK(threw, "sum-size", "operators of different sizes were added");
   }
   std::unique_ptr<miso::SumOfOperators> s;
   double a = 0, b = 0;
   int ia = -1, ib = -1;
   int how = choose(h == w ? 3 : 2, "constructor");
   if (how == 0)
   {
      a = pick(cs, "a");
      b = pick(cs, "b");
      ia = 0;
      ib = 1;
      s = std::make_unique<miso::SumOfOperators>(a, ops[0], b, ops[1]);
   }
   else if (how == 1) { s = std::make_unique<miso::SumOfOperators>(h, w); }
   else { s = std::make_unique<miso::SumOfOperators>(h); }
   MC_CHECK(s->Height() == h && s->Width() == w, "sum-shape", "sum of " << h << "x" << w << " operators is " << s->Height() << "x" << s->Width());
   for (int step = 0; step < (thorough() ? 4 : 3); ++step)
   {
      int op = choose(3, "op");
      if (op == 0 && step > 0)
      {
         static const double pairs[][2] = {{0.0, 2.5}, {-1.0, 0.0}, {2.5, 1.0}, {1.0, -1.0}, {0.0, 0.0}};
         int k = choose(5, "coefficients");
         a = pairs[k][0];
         b = pairs[k][1];
         ia = choose(2, "operators") ? 2 : 1;
         ib = ia - 1;
         s->Add(a, ops[ia], b, ops[ib]);
         continue;
      }
      Vector x(w), y;
      for (int j = 0; j < w; ++j) { x(j) = op == 1 ? 1.0 + j : (j == w - 1 ? -0.5 : 0.0); }
      if (choose(2, "result size"))
      {
         y.SetSize(h);
         y = NAN;
      }
      Vector x0(x);
      s->Mult(x, y);
      MC_CHECK(y.Size() == h, "sum-shape", "result of size " << y.Size() << " instead of " << h);
      for (int i = 0; i < h; ++i)
      {
         double want = 0;
         for (int j = 0; j < w; ++j) { if (ia >= 0) { want += (a * ops[ia](i, j) + b * ops[ib](i, j)) * x(j); } }
         MC_CHECK(close(y(i), want, 1e-14), "sum", a << " A + " << b << " B (" << h << "x" << w << ", step " << step << "): entry " << i << " is " << y(i) << " instead of " << want);
      }
      for (int j = 0; j < w; ++j) { MC_CHECK(x(j) == x0(j), "sum-input", "Mult changed its argument"); }
   }
   // incompatible operators given later
   threw = false;
   try { s->Add(1.0, ops[0], 1.0, choose(2, "bad") ? bad : bad2); }
   catch (const miso::MISOException &) { threw = true; }
   MC_CHECK(threw, "sum-size", "Add accepted operators of different sizes");
}

// a residual A u + q u.u_next of a system of blocks
struct BData
{
   int n = 0, nb = 0;
   std::vector<int> off;
   DenseMatrix A;
   double q = 0;
   int type = 0;  // diagonal blocks: 0 dense, 1 hypre, 2 sparse
   std::vector<std::unique_ptr<Operator>> keep;
   int evals = 0;
   double R(const double *u, int i) const
   {
      double s = q * u[i] * u[(i + 1) % n];
      for (int j = 0; j < n; ++j) { s += A(i, j) * u[j]; }
      return s;
   }
   double J(const double *u, int i, int j) const { return A(i, j) + (i == j ? q * u[(i + 1) % n] : 0.0) + (j == (i + 1) % n ? q * u[i] : 0.0); }
};
struct BRes
{
   std::shared_ptr<BData> d;
   friend int getSize(const BRes &r) { return r.d->n; }
   friend MPI_Comm getMPIComm(const BRes &) { return MPI_COMM_SELF; }
   friend void setInputs(BRes &, const miso::MISOInputs &) { }
   friend void setOptions(BRes &, const json &) { }
   friend void evaluate(BRes &r, const miso::MISOInputs &in, Vector &out)
   {
      const auto &u = std::get<miso::InputVector>(in.at("state"));
      ++r.d->evals;
      for (int i = 0; i < r.d->n; ++i) { out(i) = r.d->R(u.data, i); }
   }
   friend Operator &getJacobian(BRes &r, const miso::MISOInputs &, const std::string &) { return r.d->A; }
   friend Operator &getJacobianBlock(BRes &r, const miso::MISOInputs &in, int b)
   {
      const auto &u = std::get<miso::InputVector>(in.at("state"));
      int o = r.d->off[b], m = r.d->off[b + 1] - o;
      auto dm = std::make_unique<DenseMatrix>(m);
      for (int i = 0; i < m; ++i) { for (int j = 0; j < m; ++j) { (*dm)(i, j) = r.d->J(u.data, o + i, o + j); } }
      if (r.d->type == 0) { r.d->keep.push_back(std::move(dm)); }
      else if (r.d->type == 1) { r.d->keep.push_back(hypre(*dm)); }
      else { r.d->keep.push_back(std::make_unique<mfem::SparseMatrix>(m, m)); }
      return *r.d->keep.back();
   }
};
std::shared_ptr<BData> block_system()
{
   static const std::vector<std::vector<int>> offs{{0, 1}, {0, 2}, {0, 1, 2}, {0, 1, 3}, {0, 2, 4}, {0, 1, 2, 3}};
   auto d = std::make_shared<BData>();
   d->off = pick(offs, "blocks");
   d->nb = (int)d->off.size() - 1;
   d->n = d->off.back();
   d->A = dense(choose(2, "A") ? 1 : 4, d->n, d->n);
   d->q = choose(2, "q") ? 0.75 : 0.0;
   return d;
}
Vector state_of(int k, int n)
{
   Vector u(n);
   for (int i = 0; i < n; ++i) { u(i) = k == 0 ? 0.0 : k == 1 ? 1.0 + 0.5 * i : -0.75 + i * i; }
   return u;
}
// explicit part: 0 none, 1 block operator, 2 dense, 3 block operator without the last diagonal block
struct Explicit
{
   Array<int> off;
   std::vector<std::unique_ptr<Operator>> own;
   std::unique_ptr<Operator> op;
   DenseMatrix full;
   Explicit(const BData &d, int kind, int type)
   {
      full.SetSize(d.n);
      full = 0.0;
      if (kind == 0) { return; }
      if (kind == 2)
      {
         full = dense(6, d.n, d.n);
         op = std::make_unique<DenseMatrix>(full);
         return;
      }
      off.SetSize(d.nb + 1);
      for (int i = 0; i <= d.nb; ++i) { off[i] = d.off[i]; }
      auto b = std::make_unique<mfem::BlockOperator>(off);
      for (int k = 0; k < d.nb; ++k)
      {
         if (kind == 3 && k == d.nb - 1) { continue; }
         int m = off[k + 1] - off[k];
         DenseMatrix e = dense(8 + k, m, m);
         for (int i = 0; i < m; ++i) { for (int j = 0; j < m; ++j) { full(off[k] + i, off[k] + j) = e(i, j); } }
         if (type == 0) { own.push_back(std::make_unique<DenseMatrix>(e)); }
         else { own.push_back(hypre(e)); }
         b->SetBlock(k, k, own.back().get());
      }
      if (d.nb > 1)
      {
         // an off-diagonal block acts too, but is not part of the diagonal
         int h = off[1] - off[0], w = off[d.nb] - off[d.nb - 1];
         DenseMatrix e = dense(9, h, w);
         for (int i = 0; i < h; ++i) { for (int j = 0; j < w; ++j) { full(i, off[d.nb - 1] + j) = e(i, j); } }
         own.push_back(std::make_unique<DenseMatrix>(e));
         b->SetBlock(0, d.nb - 1, own.back().get());
      }
      op = std::move(b);
   }
};

void jacfree()
{
   auto d = block_system();
   int n = d->n;
   miso::MISOResidual res{BRes{d}};
   int kind = choose(4, "explicit");
   Explicit ex(*d, kind, 0);
   std::unique_ptr<miso::JacobianFree> J;
   if (kind == 0) { J = std::make_unique<miso::JacobianFree>(res); }
   else { J = std::make_unique<miso::JacobianFree>(res, *ex.op); }
   MC_CHECK(J->Height() == n && J->Width() == n, "jacfree-size", "size " << J->Height() << "x" << J->Width());
   double scale = 1.0;
   Vector u;
   static const std::vector<double> scales{1.0, 0.0, -2.0, 0.25};
   for (int step = 0; step < (thorough() ? 4 : 3); ++step)
   {
      int op = step == 0 ? choose(2, "op") : choose(6, "op");
      if (op < 2)
      {
         u = state_of(choose(3, "state"), n);
         Vector tmp(u);
         if (op == 0) { J->setState(tmp); }
         else { J->setState({{"state", tmp}, {"time", 1.0}}); }
         tmp = 99.0;  // the operator keeps its own copy
         continue;
      }
      if (op == 2)
      {
         scale = pick(scales, "scale");
         J->setScaling(scale);
         continue;
      }
      if (op == 3)
      {
         // the residual is used elsewhere in between
         Vector v(n), r(n);
         v = 3.0;
         evaluate(res, {{"state", v}}, r);
         continue;
      }
      Vector x(n), y(n);
      for (int j = 0; j < n; ++j) { x(j) = op == 4 ? (j == step % n ? 1.0 : 0.0) : 20.0 - 7.0 * j; }
      if (op == 5 && choose(2, "zero")) { x = 0.0; }
      Vector x0(x);
      y = NAN;
      J->Mult(x, y);
      for (int i = 0; i < n; ++i)
      {
         double want = 0, mag = 0;
         for (int j = 0; j < n; ++j)
         {
            want += (scale * d->J(u.GetData(), i, j) + ex.full(i, j)) * x(j);
            mag += fabs(scale) * (fabs(d->J(u.GetData(), i, j)) + d->q) * fabs(x(j));
         }
         // forward differences: curvature times the step, and rounding
         double tol = 1e-12 * (1 + fabs(want)) + 1e-5 * mag + 1e-9 * (mag > 0);
         if (d->q == 0) { tol = 1e-12 * (1 + fabs(want)) + 1e-9 * (1 + mag) * (mag > 0); }
         fingerprint(y(i));
         MC_CHECK(fabs(y(i) - want) <= tol, "jacfree", "blocks " << d->nb << " explicit " << kind << " scale " << scale << " step " << step << ": entry " << i << " is " << y(i) << " instead of " << want);
         MC_CHECK(x(i) == x0(i), "jacfree-input", "Mult changed its argument");
      }
   }
}

// dense copy of an operator
DenseMatrix matrix(const Operator &op)
{
   DenseMatrix m(op.Height(), op.Width());
   Vector e(op.Width()), y(op.Height());
   for (int j = 0; j < op.Width(); ++j)
   {
      e = 0.0;
      e(j) = 1.0;
      y = NAN;
      op.Mult(e, y);
      for (int i = 0; i < op.Height(); ++i) { m(i, j) = y(i); }
   }
   return m;
}
void diagonal()
{
   auto d = block_system();
   d->type = choose(3, "type");
   miso::MISOResidual res{BRes{d}};
   int kind = choose(4, "explicit"), etype = choose(2, "explicit type");
   Explicit ex(*d, kind, etype);
   if (kind == 2 && etype) { prune(); }
   if (kind == 3 && d->nb == 1) { prune(); }
   std::unique_ptr<miso::JacobianFree> J;
   if (kind == 0) { J = std::make_unique<miso::JacobianFree>(res); }
   else { J = std::make_unique<miso::JacobianFree>(res, *ex.op); }
   static const std::vector<double> scales{1.0, 0.25, 0.0};
   double scale = pick(scales, "scale");
   J->setScaling(scale);
   for (int step = 0; step < 2; ++step)
   {
      Vector u = state_of(choose(3, "state"), d->n);
      J->setState(u);
      for (int b = 0; b < d->nb; ++b)
      {
         bool has = kind == 1 || (kind == 3 && b < d->nb - 1);
         bool refuse = kind == 2 || d->type == 2 || (has && etype != d->type);
         bool threw = false;
         Operator *blk = nullptr;
         try { blk = &J->getDiagonalBlock(b); }
         catch (const miso::MISOException &) { threw = true; }
         std::string where = Str() << "block " << b << " of " << d->nb << ", type " << d->type << ", explicit " << kind << " of type " << etype << ", scale " << scale;
         MC_CHECK(threw == refuse, "diagonal-refuse", where << (threw ? ": refused" : ": accepted"));
         if (threw) { continue; }
         int o = d->off[b], m = d->off[b + 1] - o;
         MC_CHECK(blk->Height() == m && blk->Width() == m, "diagonal", where << ": size " << blk->Height());
         DenseMatrix got = matrix(*blk);
         for (int i = 0; i < m; ++i)
         {
            for (int j = 0; j < m; ++j)
            {
               double want = scale * d->J(u.GetData(), o + i, o + j) + (has ? ex.full(o + i, o + j) : 0.0);
               MC_CHECK(close(got(i, j), want, 1e-13), "diagonal", where << ": entry (" << i << "," << j << ") is " << got(i, j) << " instead of " << want);
            }
         }
      }
   }
}

// a block solver: y = D^{-1} x (and x D^{-T} transposed) with the diagonal or all of the operator it was given
struct Blk : mfem::Solver
{
   static int alive;
   bool full;
   DenseMatrix inv;
   int sets = 0;
   Blk(bool f) : full(f) { ++alive; }
   ~Blk() override { --alive; }
   void SetOperator(const Operator &op) override
   {
      // like hypre's solvers it learns its size only here
      ++sets;
      inv = matrix(op);
      for (int i = 0; i < inv.Height(); ++i)
      {
         for (int j = 0; j < inv.Width(); ++j) { inv(i, j) = full ? inv(i, j) : (i == j ? 2.0 * inv(i, i) : 0.0); }
      }
   }
   void Mult(const Vector &x, Vector &y) const override
   {
      for (int i = 0; i < y.Size(); ++i)
      {
         double s = y(i);  // sees what it starts from
         for (int j = 0; j < x.Size(); ++j) { s += inv(i, j) * x(j); }
         y(i) = s;
      }
   }
   void MultTranspose(const Vector &x, Vector &y) const override
   {
      for (int i = 0; i < y.Size(); ++i)
      {
         double s = y(i);
         for (int j = 0; j < x.Size(); ++j) { s += inv(j, i) * x(j); }
         y(i) = s;
      }
   }
};
int Blk::alive = 0;
void blockjacobi()
{
   Blk::alive = 0;
   auto d = block_system();
   int nb = d->nb, n = d->n;
   miso::MISOResidual res{BRes{d}};
   Array<int> off(nb + 1);
   for (int i = 0; i <= nb; ++i) { off[i] = d->off[i]; }
   bool own = choose(2, "own");
   std::vector<std::unique_ptr<Blk>> mine;
   std::vector<Blk *> cur(nb, nullptr);
   std::vector<DenseMatrix> want(nb);  // what each block applies (empty: identity)
   {
      miso::BlockJacobiPreconditioner P(off);
      P.owns_blocks = own;
      MC_CHECK(P.Height() == n && P.Width() == n && P.NumBlocks() == nb, "bj-size", "size " << P.Height() << ", blocks " << P.NumBlocks());
      for (int i = 0; i <= nb; ++i) { MC_CHECK(P.Offsets()[i] == off[i], "bj-size", "offset " << i << " is " << P.Offsets()[i]); }
      for (int step = 0; step < (thorough() ? 5 : 4); ++step)
      {
         int op = choose(5, "op");
         if (op == 0)
         {
            int b = choose(nb, "block");
            int what = choose(3, "solver");
            Blk *s = what < 2 ? new Blk(what) : nullptr;
            if (s && !own) { mine.emplace_back(s); }
            P.SetDiagonalBlock(b, s);
            cur[b] = s;
            want[b].SetSize(0);
            // the operator is only passed on by SetOperator
            if (s)
            {
               DenseMatrix id(off[b + 1] - off[b]);
               id = 0.0;
               s->SetOperator(id);
               want[b] = s->inv;
            }
            if (own)
            {
               int c = 0;
               for (auto *q : cur) { c += q != nullptr; }
               MC_CHECK(Blk::alive == c, "bj-own", Blk::alive << " blocks alive instead of " << c);
            }
         }
         else if (op <= 2)
         {
            // 1: block operator, 2: Jacobian-free
            Explicit ex(*d, 1, 0);
            Vector u = state_of(1 + step % 2, n);
            std::vector<int> sets(nb);
            for (int b = 0; b < nb; ++b) { sets[b] = cur[b] ? cur[b]->sets : 0; }
            miso::JacobianFree J(res, *ex.op);
            J.setScaling(0.5);
            J.setState(u);
            P.SetOperator(op == 1 ? *ex.op : static_cast<Operator &>(J));
            for (int b = 0; b < nb; ++b)
            {
               if (!cur[b]) { continue; }
               int m = off[b + 1] - off[b];
               want[b].SetSize(m);
               MC_CHECK(cur[b]->sets == sets[b] + 1, "bj-set", "block " << b << " got " << cur[b]->sets - sets[b] << " operators");
               for (int i = 0; i < m; ++i)
               {
                  for (int j = 0; j < m; ++j)
                  {
                     double e = ex.full(off[b] + i, off[b] + j) + (op == 2 ? 0.5 * d->J(u.GetData(), off[b] + i, off[b] + j) : 0.0);
                     want[b](i, j) = cur[b]->full ? e : (i == j ? 2 * e : 0.0);
                  }
               }
            }
         }
         else
         {
            Vector x(n), y(n);
            for (int i = 0; i < n; ++i) { x(i) = 1.0 + i * (step + 0.5); }
            Vector x0(x);
            y = NAN;
            if (op == 3) { P.Mult(x, y); }
            else { P.MultTranspose(x, y); }
            for (int b = 0; b < nb; ++b)
            {
               for (int i = off[b]; i < off[b + 1]; ++i)
               {
                  double w = 0;
                  if (!cur[b]) { w = x(i); }
                  else
                  {
                     for (int j = off[b]; j < off[b + 1]; ++j) { w += (op == 3 ? want[b](i - off[b], j - off[b]) : want[b](j - off[b], i - off[b])) * x(j); }
                  }
                  MC_CHECK(close(y(i), w, 1e-13), "bj-apply", (op == 3 ? "Mult" : "MultTranspose") << " step " << step << ": entry " << i << " (block " << b << (cur[b] ? "" : ", not set") << ") is " << y(i) << " instead of " << w);
                  MC_CHECK(x(i) == x0(i), "bj-input", "the argument was changed");
               }
            }
         }
      }
      for (int b = 0; b < nb; ++b) { if (cur[b]) { MC_CHECK(&P.GetDiagonalBlock(b) == cur[b], "bj-get", "block " << b); } }
      bool threw = false;
      DenseMatrix other = dense(1, n, n);
      try { P.SetOperator(other); }
      catch (const miso::MISOException &) { threw = true; }
      MC_CHECK(threw, "bj-refuse", "an operator without blocks was accepted");
   }
   MC_CHECK(Blk::alive == (own ? 0 : (int)mine.size()), "bj-own", Blk::alive << " blocks alive after the preconditioner");
}

// ---- solvers built from options behave like the MFEM/hypre solver they name
struct Run
{
   Vector x;
   std::string log;
   int its = -1;
   bool conv = false;
};
template <class F>
std::string captured(F f)
{
   std::ostringstream s;
   mfem::out.SetStream(s);
   f();
   mfem::out.SetStream(std::cout);
   return s.str();
}
void linear()
{
   static const std::vector<std::string> types{"gmres", "fgmres", "pcg", "minres", "hypregmres", "hyprefgmres", "hyprepcg", "GMRES", "", "cg"};
   std::string type = pick(types, "type");
   static const std::vector<double> rel{1e-12, 1e-2, 0.0}, abs{-1.0, 0.0, 0.5};
   static const std::vector<int> iters{50, 3, 1}, kd{-1, 2, 10};
   double rt = pick(rel, "reltol"), at = pick(abs, "abstol");
   int mi = pick(iters, "maxiter"), k = pick(kd, "kdim"), ptl = choose(2, "printlevel") ? 1 : -1;
   int p = choose(3, "prec");  // none, hypre, mfem
   int which = choose(2, "matrix");
   if (rt == 0.0 && at <= 0.0) { prune(); }  // no tolerance at all
   // symmetric positive definite system of size 6
   int n = 6;
   DenseMatrix m(n);
   m = 0.0;
   for (int i = 0; i < n; ++i)
   {
      m(i, i) = which ? 2.0 + i : 2.0;
      if (i) { m(i, i - 1) = m(i - 1, i) = -0.9; }
   }
   auto A = hypre(m, false);
   Vector b(n);
   for (int i = 0; i < n; ++i) { b(i) = 1.0 + 0.5 * i * i; }
   std::unique_ptr<mfem::Solver> prec;
   if (p == 1)
   {
      auto ds = std::make_unique<mfem::HypreDiagScale>();
      prec = std::move(ds);
   }
   else if (p == 2) { prec = std::make_unique<mfem::DSmoother>(); }
   json o{{"type", type}, {"reltol", rt}, {"maxiter", mi}, {"printlevel", ptl}};
   if (at >= 0) { o["abstol"] = at; }
   if (k != -1) { o["kdim"] = k; }
   json o0 = o;
   bool hyp = type.substr(0, 5) == "hypre";
   bool known = std::find(types.begin(), types.begin() + 7, type) != types.begin() + 7;
   std::string where = o.dump() + (p == 0 ? "" : p == 1 ? " hypre preconditioner" : " MFEM preconditioner");
   note(where);
   std::unique_ptr<mfem::Solver> s;
   bool threw = false;
   try { s = miso::constructLinearSolver(MPI_COMM_SELF, o, prec.get()); }
   catch (const miso::MISOException &) { threw = true; }
   catch (const std::bad_cast &) { threw = true; }
   MC_CHECK(o == o0, "lin-options", where << ": the options changed");
   MC_CHECK(threw == (!known || (hyp && p == 2)), "lin-refuse", where << (threw ? ": refused" : ": accepted"));
   if (threw) { return; }
   if (p == 2) { return; }  // serial smoother: only the types of preconditioners matter
   // the solver that the options describe
   std::unique_ptr<mfem::Solver> r;
   auto *hp = static_cast<mfem::HypreSolver *>(static_cast<mfem::HypreDiagScale *>(prec.get()));
   double atol = at < 0 ? 0.0 : at;
   if (hyp)
   {
      if (type == "hypregmres")
      {
         auto g = std::make_unique<mfem::HypreGMRES>(MPI_COMM_SELF);
         g->SetTol(rt);
         g->SetAbsTol(atol);
         g->SetMaxIter(mi);
         if (k != -1) { g->SetKDim(k); }
         if (p) { g->SetPreconditioner(*hp); }
         r = std::move(g);
      }
      else if (type == "hyprefgmres")
      {
         auto g = std::make_unique<mfem::HypreFGMRES>(MPI_COMM_SELF);
         g->SetTol(rt);
         HYPRE_ParCSRFlexGMRESSetAbsoluteTol(static_cast<HYPRE_Solver>(*g), atol);
         g->SetMaxIter(mi);
         if (k != -1) { g->SetKDim(k); }
         if (p) { g->SetPreconditioner(*hp); }
         r = std::move(g);
      }
      else
      {
         auto g = std::make_unique<mfem::HyprePCG>(MPI_COMM_SELF);
         g->SetTol(rt);
         g->SetAbsTol(atol);
         g->SetMaxIter(mi);
         if (p) { g->SetPreconditioner(*hp); }
         r = std::move(g);
      }
      // hypre prints to stdout itself: not compared
      dynamic_cast<mfem::HypreSolver &>(*s).SetErrorMode(mfem::HypreSolver::IGNORE_HYPRE_ERRORS);
      dynamic_cast<mfem::HypreSolver &>(*r).SetErrorMode(mfem::HypreSolver::IGNORE_HYPRE_ERRORS);
      MC_CHECK(typeid(*s) == typeid(*r), "lin-type", where << ": a solver of another type");
   }
   else
   {
      std::unique_ptr<mfem::IterativeSolver> g;
      if (type == "gmres")
      {
         auto q = std::make_unique<mfem::GMRESSolver>(MPI_COMM_SELF);
         if (k != -1) { q->SetKDim(k); }
         g = std::move(q);
      }
      else if (type == "fgmres")
      {
         auto q = std::make_unique<mfem::FGMRESSolver>(MPI_COMM_SELF);
         if (k != -1) { q->SetKDim(k); }
         g = std::move(q);
      }
      else if (type == "pcg") { g = std::make_unique<mfem::CGSolver>(MPI_COMM_SELF); }
      else { g = std::make_unique<mfem::MINRESSolver>(MPI_COMM_SELF); }
      g->SetRelTol(rt);
      g->SetAbsTol(atol);
      g->SetMaxIter(mi);
      g->SetPrintLevel(-1);
      if (p) { g->SetPreconditioner(*prec); }
      MC_CHECK(typeid(*s) == typeid(*g), "lin-type", where << ": a solver of another type");
      r = std::move(g);
   }
   Vector x(n), y(n);
   std::string text = captured([&]()
                               {
      s->SetOperator(*A);
      x = 0.0;
      s->Mult(b, x);
      x = 0.0;
      s->Mult(b, x); });
   r->SetOperator(*A);
   y = 0.0;
   r->Mult(b, y);
   for (int i = 0; i < n; ++i) { MC_CHECK(same_bits(x(i), y(i)), "lin-result", where << ": entry " << i << " is " << x(i) << " instead of " << y(i)); }
   if (!hyp)
   {
      auto &is = dynamic_cast<mfem::IterativeSolver &>(*s);
      auto &ir = dynamic_cast<mfem::IterativeSolver &>(*r);
      MC_CHECK(is.GetNumIterations() == ir.GetNumIterations() && is.GetConverged() == ir.GetConverged(), "lin-result", where << ": " << is.GetNumIterations() << " iterations instead of " << ir.GetNumIterations());
      MC_CHECK(text.empty() == (ptl < 0), "lin-print", where << ": printed '" << text << "'");
   }
}

struct NL : Operator
{
   mutable DenseMatrix J;
   NL() : Operator(2), J(2) { }
   void Mult(const Vector &u, Vector &r) const override
   {
      r(0) = u(0) * u(0) + u(1) - 3.0;
      r(1) = std::exp(0.5 * u(1)) - u(0);
   }
   Operator &GetGradient(const Vector &u) const override
   {
      J(0, 0) = 2 * u(0);
      J(0, 1) = 1.0;
      J(1, 0) = -1.0;
      J(1, 1) = 0.5 * std::exp(0.5 * u(1));
      return J;
   }
};
void nonlinear()
{
   static const std::vector<std::string> types{"newton", "inexactnewton", "relaxednewton", "none", "Newton", ""};
   std::string type = pick(types, "type");
   static const std::vector<double> rel{1e-13, 1e-3, 0.0}, abs{1e-12, 0.1, 0.0};
   static const std::vector<int> iters{30, 2, 1, 0};
   double rt = pick(rel, "reltol"), at = pick(abs, "abstol");
   int mi = pick(iters, "maxiter"), ptl = choose(2, "printlevel") ? 1 : -1;
   if (rt == 0 && at == 0) { prune(); }
   json o{{"type", type}, {"reltol", rt}, {"abstol", at}, {"maxiter", mi}, {"printlevel", ptl}};
   int it = -1;
   double r0 = 0.5, rm = 0.9, al = 0.5 * (1 + std::sqrt(5.0)), ga = 1.0;
   if (type == "inexactnewton")
   {
      it = choose(3, "inexacttype") - 1;
      if (it >= 0) { o["inexacttype"] = it + 1; }
      int m = choose(5, "parameters");
      if (m == 1) { o["rtol0"] = r0 = 0.9; }
      if (m == 2) { o["rtol_max"] = rm = 0.2; }
      if (m == 3) { o["alpha"] = al = 1.2; }
      if (m == 4) { o["gamma"] = ga = 0.3; }
   }
   json o0 = o;
   mfem::GMRESSolver lin(MPI_COMM_SELF), lin2(MPI_COMM_SELF);
   for (auto *l : {&lin, &lin2})
   {
      l->SetRelTol(type == "inexactnewton" ? 1e-1 : 1e-14);
      l->SetAbsTol(0.0);
      l->SetMaxIter(50);
      l->SetPrintLevel(-1);
   }
   std::unique_ptr<mfem::NewtonSolver> s;
   bool threw = false;
   std::string where = o.dump();
   note(where);
   try { s = miso::constructNonlinearSolver(MPI_COMM_SELF, o, lin); }
   catch (const miso::MISOException &) { threw = true; }
   MC_CHECK(o == o0, "nonlin-options", where << ": the options changed");
   bool ok = type == "newton" || type == "inexactnewton" || type == "relaxednewton" || type == "none";
   MC_CHECK(threw == !ok, "nonlin-refuse", where << (threw ? ": refused" : ": accepted"));
   if (threw) { return; }
   if (type == "none")
   {
      MC_CHECK(s == nullptr, "nonlin-none", "a solver was constructed for type 'none'");
      return;
   }
   MC_CHECK(s && !s->iterative_mode, "nonlin-mode", where << ": the solver uses the initial value of its result");
   std::unique_ptr<mfem::NewtonSolver> r;
   if (type == "relaxednewton") { r = std::make_unique<miso::RelaxedNewton>(MPI_COMM_SELF, o); }
   else { r = std::make_unique<mfem::NewtonSolver>(MPI_COMM_SELF); }
   MC_CHECK(typeid(*r) == typeid(*s), "nonlin-type", where << ": a solver of another type");
   if (type == "inexactnewton") { r->SetAdaptiveLinRtol(it >= 0 ? it + 1 : 2, r0, rm, al, ga); }
   r->iterative_mode = false;
   r->SetSolver(lin2);
   r->SetPrintLevel(-1);
   r->SetRelTol(rt);
   r->SetAbsTol(at);
   r->SetMaxIter(mi);
   NL f, g;
   Vector b(2), x(2), y(2);
   bool guess = choose(2, "initial guess");
   if (guess) { s->iterative_mode = r->iterative_mode = true; }
   int rhs = choose(2, "rhs");
   b(0) = rhs ? 0.5 : 0.0;
   b(1) = rhs ? -0.25 : 0.0;
   x(0) = y(0) = 1.5;
   x(1) = y(1) = 0.25;
   bool t1 = false, t2 = false;
   std::string text = captured([&]()
                               {
      s->SetOperator(f);
      try { s->Mult(b, x); } catch (const std::exception &) { t1 = true; } });
   r->SetOperator(g);
   try { r->Mult(b, y); }
   catch (const std::exception &) { t2 = true; }
   MC_CHECK(t1 == t2, "nonlin-result", where << ": failed differently");
   if (t1) { return; }
   auto eq = [](double p, double q) { return (std::isnan(p) && std::isnan(q)) || same_bits(p, q); };
   MC_CHECK(eq(x(0), y(0)) && eq(x(1), y(1)), "nonlin-result", where << ": solution (" << x(0) << ", " << x(1) << ") instead of (" << y(0) << ", " << y(1) << ")");
   MC_CHECK(s->GetNumIterations() == r->GetNumIterations() && s->GetConverged() == r->GetConverged(), "nonlin-result", where << ": " << s->GetNumIterations() << " iterations instead of " << r->GetNumIterations());
   if (type != "relaxednewton") { MC_CHECK(text.empty() == (ptl < 0), "nonlin-print", where << ": printed '" << text << "'"); }
}
}  // namespace

int main(int argc, char **argv)
{
   return mc::run(argc, argv, "C16", []() { int a = 0; char **v = nullptr; MPI_Init(&a, &v); mfem::Hypre::Init(); },
                  {{"sums", sums}, {"jacfree", jacfree}, {"diagonal", diagonal}, {"blockjacobi", blockjacobi}, {"linear", linear}, {"nonlinear", nonlinear}});
}
