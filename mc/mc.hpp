// Exhaustive bounded explorer ("mc") used by every C++ check in /verif.
//
// A scenario is an ordinary function that drives the real code and asks
// mc::choose(n) whenever the environment, the input alphabet or the operation
// alphabet leaves more than one possibility.  The explorer re-executes the
// scenario for EVERY complete sequence of choices (stateless depth-first
// search); nothing is sampled.  Work is divided between forked workers by the
// first few choices, so that the union of the workers is the whole tree.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc
{
/// a property violation; `key` identifies the specific failing input/site
struct Fail
{
   std::string key, msg;
};
struct Skip
{ };

/// pick one of n alternatives (0..n-1); all are explored
int choose(int n, const char *what = "");
/// the same for a list of values
template <class T>
const T &pick(const std::vector<T> &v, const char *what = "")
{
   return v[choose((int)v.size(), what)];
}
/// abandon this execution (an assumption of the scenario does not hold)
[[noreturn]] void prune();
/// human readable description of the current execution (for samples/replays)
void note(const std::string &s);
/// record an observed outcome; distinct outcomes are counted
void outcome(const std::string &s);
void outcome(uint64_t h);
/// count model/implementation steps that were compared with the oracle
void step(uint64_t n = 1);
[[noreturn]] void fail(const std::string &key, const std::string &msg);
bool thorough();
/// scratch directory private to this worker (also the working directory)
const std::string &scratch();

struct Scenario
{
   std::string name;
   std::function<void()> fn;
   double limit_s = 60.0;  // time limit of one execution (a hang if exceeded)
   int split = 3;          // number of leading choices that divides the work
   bool thorough_only = false;
};

int run(int argc,
        char **argv,
        const std::string &property,
        const std::function<void()> &init,
        const std::vector<Scenario> &scenarios,
        int max_workers = 8);

struct Str
{
   std::ostringstream o;
   Str() { o.precision(17); }
   template <class T>
   Str &operator<<(const T &t)
   {
      o << t;
      return *this;
   }
   operator std::string() const { return o.str(); }
};

#define MC_CHECK(cond, key, msg)                                   \
   do                                                              \
   {                                                               \
      if (!(cond)) { ::mc::fail((key), ::mc::Str() << msg); }      \
      else { ::mc::step(); }                                       \
   } while (0)

/// mix an observed value into the outcome of this execution (close and
/// same_bits do so for their first argument; used if outcome() is not called)
void fingerprint(double a);

/// |a-b| <= tol*(1+max(|a|,|b|)), false for NaN
bool close(double a, double b, double tol);
/// bitwise identical
bool same_bits(double a, double b);
}  // namespace mc
#endif
