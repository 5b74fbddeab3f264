#include "mc.hpp"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <thread>
#include <unordered_set>

namespace mc
{
namespace
{
constexpr int MAXTRACE = 4096;
struct Shared
{
   volatile uint64_t execs;
   volatile double started;  // of the current execution
   volatile int scenario;
   volatile int len;
   volatile int finished;
   int trace[MAXTRACE];
};

struct Node
{
   int n, c;
   const char *what;
};

// explorer state of this process
bool g_thorough = false;
std::string g_scratch = ".";
std::vector<Node> g_path;  // choices of the current execution
size_t g_pos = 0;
bool g_replay = false;
std::vector<int> g_replay_choices;
int g_split = 3, g_worker = 0, g_workers = 1;
Shared *g_sh = nullptr;
std::string g_note;
uint64_t g_states = 0, g_steps = 0;
std::unordered_set<uint64_t> g_outcomes;
uint64_t g_auto = 0;          // fingerprint of the observed values of one execution
bool g_has_outcome = false;
bool g_owned = true;

double now()
{
   using namespace std::chrono;
   return duration<double>(steady_clock::now().time_since_epoch()).count();
}

uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
   const auto *b = static_cast<const unsigned char *>(p);
   for (size_t i = 0; i < n; ++i)
   {
      h ^= b[i];
      h *= 1099511628211ull;
   }
   return h;
}

std::string jstr(const std::string &s)
{
   std::string o = "\"";
   for (unsigned char ch : s)
   {
      switch (ch)
      {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      default:
         if (ch < 0x20 || ch >= 0x7f)
         {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
         }
         else
         {
            o += (char)ch;
         }
      }
   }
   return o + "\"";
}

std::string trace_json()
{
   std::string s = "[";
   for (size_t i = 0; i < g_pos && i < g_path.size(); ++i)
   {
      if (i) { s += ","; }
      s += std::to_string(g_path[i].c);
   }
   return s + "]";
}

struct Result
{
   bool failed = false;
   std::string key, msg;
};

Result execute(const Scenario &sc)
{
   Result r;
   g_pos = 0;
   g_note.clear();
   g_owned = true;
   try
   {
      sc.fn();
   }
   catch (const Skip &)
   {
      throw;
   }
   catch (const Fail &f)
   {
      r = {true, f.key, f.msg};
   }
   catch (const std::exception &e)
   {
      r = {true, sc.name + ":exception", std::string("unexpected exception: ") + e.what()};
   }
   catch (int i)
   {
      r = {true, sc.name + ":exception", "unexpected exception: int " + std::to_string(i)};
   }
   catch (const char *p)
   {
      r = {true, sc.name + ":exception", std::string("unexpected exception: ") + p};
   }
   catch (...)
   {
      r = {true, sc.name + ":exception", "unexpected exception of unknown type"};
   }
   return r;
}
}  // namespace

bool thorough() { return g_thorough; }
const std::string &scratch() { return g_scratch; }

void fingerprint(double a)
{
   uint64_t u;
   std::memcpy(&u, &a, 8);
   g_auto = (g_auto ^ u) * 1099511628211ull + 0x9e3779b9;
   g_auto ^= g_auto >> 29;
}

bool close(double a, double b, double tol)
{
   fingerprint(a);
   if (a == b) { return true; }
   double m = std::max(std::fabs(a), std::fabs(b));
   return std::fabs(a - b) <= tol * (1.0 + m);
}
bool same_bits(double a, double b)
{
   fingerprint(a);
   return std::memcmp(&a, &b, sizeof a) == 0;
}

int choose(int n, const char *what)
{
   if (n <= 0) { throw Fail{"harness:choose", std::string("choose(0) at ") + what}; }
   if (g_replay)
   {
      if (g_pos >= g_path.size())
      {
         if (g_pos >= g_replay_choices.size())
         {
            throw Fail{"harness:replay", "replay trace too short"};
         }
         g_path.push_back({n, g_replay_choices[g_pos], what});
         if (g_path.back().c >= n)
         {
            throw Fail{"harness:replay", "replay choice out of range"};
         }
      }
      return g_path[g_pos++].c;
   }
   if (g_pos < g_path.size())
   {
      if (g_path[g_pos].n != n)
      {
         fprintf(stderr, "mc: divergence while re-executing a prefix at '%s'\n", what);
         _exit(97);
      }
   }
   else
   {
      g_path.push_back({n, 0, what});
      if (g_pos >= (size_t)g_split || g_worker == 0) { ++g_states; }
   }
   int c = g_path[g_pos++].c;
   if (g_sh && g_pos <= (size_t)MAXTRACE)
   {
      g_sh->trace[g_pos - 1] = c;
      g_sh->len = (int)g_pos;
   }
   if (g_pos == (size_t)g_split)
   {
      uint64_t h = 0;
      for (int i = 0; i < g_split; ++i) { h = h * 31 + g_path[i].c; }
      h ^= h >> 7;
      if ((int)(h % g_workers) != g_worker) { throw Skip{}; }
   }
   return c;
}

void prune() { throw Skip{}; }

void note(const std::string &s)
{
   if (!g_note.empty()) { g_note += "; "; }
   if (g_note.size() < 4000) { g_note += s; }
}
void outcome(uint64_t h)
{
   g_has_outcome = true;
   if (g_outcomes.size() < 5000000) { g_outcomes.insert(h); }
}
void outcome(const std::string &s) { outcome(fnv(s.data(), s.size())); }
void step(uint64_t n) { g_steps += n; }
void fail(const std::string &key, const std::string &msg) { throw Fail{key, msg}; }

namespace
{
struct WorkerOut
{
   uint64_t execs = 0, states = 0, steps = 0;
};

// runs all scenarios of one worker; returns exit code
int worker_main(const std::vector<Scenario> &scs,
                const std::set<std::string> &known,
                const std::string &outbase)
{
   std::ofstream out(outbase + ".jsonl");
   std::set<std::string> reported;
   bool violated = false;
   for (size_t is = 0; is < scs.size(); ++is)
   {
      const auto &sc = scs[is];
      if (sc.thorough_only && !g_thorough) { continue; }
      double t0 = now();
      g_split = sc.split;
      g_path.clear();
      g_states = g_steps = 0;
      uint64_t execs = 0;
      g_outcomes.clear();
      std::vector<std::string> samples;
      uint64_t next_sample = 1;
      while (true)
      {
         if (g_sh)
         {
            g_sh->scenario = (int)is;
            g_sh->len = 0;
            g_sh->started = now();
            g_sh->execs = g_sh->execs + 1;
         }
         bool skipped = false;
         g_auto = 0;
         g_has_outcome = false;
         Result r;
         try
         {
            r = execute(sc);
         }
         catch (const Skip &)
         {
            skipped = true;
         }
         g_path.resize(g_pos);
         bool shortrun = !skipped && g_pos < (size_t)g_split;
         if (shortrun && g_worker != 0)
         {
            skipped = true;  // counted by worker 0
         }
         if (!skipped)
         {
            ++execs;
            if (!g_has_outcome && g_auto != 0) { outcome(g_auto); }
            if (execs == next_sample && samples.size() < 6)
            {
               samples.push_back("{\"scenario\":" + jstr(sc.name) + ",\"choices\":" + trace_json() +
                                 ",\"case\":" + jstr(g_note) + "}");
               next_sample = next_sample * 9 + 1;
            }
            if (r.failed && !reported.count(r.key))
            {
               bool k = known.count(r.key) > 0;
               reported.insert(r.key);
               out << "{\"kind\":\"" << (k ? "known" : "violation") << "\",\"scenario\":" << is
                   << ",\"key\":" << jstr(r.key) << ",\"msg\":" << jstr(r.msg)
                   << ",\"note\":" << jstr(g_note) << ",\"trace\":" << trace_json() << "}\n";
               out.flush();
               if (!k) { violated = true; }
            }
         }
         if (violated) { break; }
         // backtrack
         while (!g_path.empty() && g_path.back().c + 1 >= g_path.back().n) { g_path.pop_back(); }
         if (g_path.empty()) { break; }
         ++g_path.back().c;
         if (g_path.size() > (size_t)g_split || g_worker == 0) { ++g_states; }
      }
      std::string s;
      for (auto &x : samples) { s += (s.empty() ? "" : ",") + x; }
      out << "{\"kind\":\"stats\",\"scenario\":" << is << ",\"name\":" << jstr(sc.name)
          << ",\"execs\":" << execs << ",\"states\":" << g_states
          << ",\"steps\":" << g_steps << ",\"seconds\":" << (now() - t0) << ",\"samples\":[" << s << "]}\n";
      out.flush();
      {
         std::ofstream o(outbase + "." + std::to_string(is) + ".out", std::ios::binary);
         for (auto h : g_outcomes) { o.write(reinterpret_cast<const char *>(&h), 8); }
      }
      if (violated) { break; }
   }
   return 0;
}

void redirect_stdout()
{
   if (getenv("MC_VERBOSE")) { return; }
   int fd = open("/dev/null", O_WRONLY);
   dup2(fd, 1);
   if (!getenv("MC_STDERR")) { dup2(fd, 2); }
   ::close(fd);
}

// run one trace in a fresh child. returns: 0 ok, 1 fail, 2 crash, 3 hang
int replay_child(const Scenario &sc,
                 const std::vector<int> &trace,
                 const std::function<void()> &init,
                 const std::string &dir,
                 double limit,
                 Result &res,
                 std::string &notes)
{
   std::string f = dir + "/replay.out";
   unlink(f.c_str());
   pid_t pid = fork();
   if (pid == 0)
   {
      redirect_stdout();
      g_scratch = dir + "/rp";
      std::filesystem::create_directories(g_scratch);
      if (chdir(g_scratch.c_str()) != 0) { _exit(98); }
      g_sh = nullptr;
      if (init) { init(); }
      g_replay = true;
      g_replay_choices = trace;
      g_path.clear();
      Result r;
      try
      {
         r = execute(sc);
      }
      catch (const Skip &)
      { }
      std::ofstream o(f);
      o << (r.failed ? 1 : 0) << "\n" << r.key << "\n";
      o << g_note << "\n---\n" << r.msg;
      o.close();
      _exit(r.failed ? 1 : 0);
   }
   double t0 = now();
   int st = 0;
   while (true)
   {
      pid_t p = waitpid(pid, &st, WNOHANG);
      if (p == pid) { break; }
      if (now() - t0 > limit)
      {
         kill(pid, SIGKILL);
         waitpid(pid, &st, 0);
         return 3;
      }
      std::this_thread::sleep_for(std::chrono::milliseconds(5));
   }
   if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1))
   {
      std::ifstream i(f);
      std::string line, all;
      int failed = -1;
      if (std::getline(i, line)) { failed = atoi(line.c_str()); }
      if (failed < 0) { return 2; }
      std::getline(i, res.key);
      bool innote = true;
      while (std::getline(i, line))
      {
         if (innote && line == "---") { innote = false; continue; }
         (innote ? notes : res.msg) += line + "\n";
      }
      res.failed = failed == 1;
      return failed;
   }
   return 2;
}

// minimal parsing of the worker records we wrote ourselves
std::vector<int> parse_ints(const std::string &s)
{
   std::vector<int> v;
   size_t i = 0;
   while (i < s.size())
   {
      if (isdigit((unsigned char)s[i]))
      {
         v.push_back(atoi(s.c_str() + i));
         while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; }
      }
      else
      {
         ++i;
      }
   }
   return v;
}
std::string field(const std::string &l, const std::string &name)
{
   auto p = l.find("\"" + name + "\":");
   if (p == std::string::npos) { return ""; }
   p += name.size() + 3;
   while (p < l.size() && l[p] == ' ') { ++p; }
   if (l[p] == '"')
   {
      size_t q = p + 1;
      while (q < l.size() && l[q] != '"')
      {
         if (l[q] == '\\') { ++q; }
         ++q;
      }
      return l.substr(p, q - p + 1);
   }
   if (l[p] == '[')
   {
      int depth = 0;
      size_t q = p;
      bool instr = false;
      for (; q < l.size(); ++q)
      {
         if (instr)
         {
            if (l[q] == '\\') { ++q; }
            else if (l[q] == '"') { instr = false; }
            continue;
         }
         if (l[q] == '"') { instr = true; }
         if (l[q] == '[') { ++depth; }
         if (l[q] == ']' && --depth == 0) { break; }
      }
      return l.substr(p, q - p + 1);
   }
   size_t q = p;
   while (q < l.size() && l[q] != ',' && l[q] != '}') { ++q; }
   return l.substr(p, q - p);
}
}  // namespace

int run(int argc,
        char **argv,
        const std::string &property,
        const std::function<void()> &init,
        const std::vector<Scenario> &scs,
        int max_workers)
{
   std::string out = "part.json", replay, knownfile, replaydir = ".";
   std::string only;
   for (int i = 1; i < argc; ++i)
   {
      std::string a = argv[i];
      auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--thorough") { g_thorough = true; }
      else if (a == "--out") { out = next(); }
      else if (a == "--replay") { replay = next(); }
      else if (a == "--known") { knownfile = next(); }
      else if (a == "--replay-dir") { replaydir = next(); }
      else if (a == "--only") { only = next(); }
      else if (a == "--workers") { max_workers = atoi(next().c_str()); }
   }
   std::set<std::string> known;
   if (!knownfile.empty())
   {
      std::ifstream k(knownfile);
      std::string l;
      while (std::getline(k, l))
      {
         if (!l.empty()) { known.insert(l); }
      }
   }
   char tmpl[] = "/tmp/mcXXXXXX";
   std::string dir = mkdtemp(tmpl);
   double t0 = now();

   if (!replay.empty())
   {
      std::ifstream f(replay);
      std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
      std::string sname = field(all, "scenario");
      if (sname.size() >= 2) { sname = sname.substr(1, sname.size() - 2); }
      auto trace = parse_ints(field(all, "trace"));
      if (field(all, "thorough") == "true") { g_thorough = true; }
      for (const auto &sc : scs)
      {
         if (sc.name == sname)
         {
            Result r;
            std::string notes;
            int code = replay_child(sc, trace, init, dir, 4 * sc.limit_s, r, notes);
            printf("replay %s: %s\ncase: %s\n%s %s\n", sname.c_str(),
                   code == 0   ? "property holds on this case"
                   : code == 1 ? "VIOLATED"
                   : code == 2 ? "VIOLATED (crash)"
                               : "VIOLATED (hang)",
                   notes.c_str(), r.key.c_str(), r.msg.c_str());
            std::filesystem::remove_all(dir);
            return code == 0 ? 0 : 1;
         }
      }
      fprintf(stderr, "unknown scenario %s\n", sname.c_str());
      std::filesystem::remove_all(dir);
      return 2;
   }

   std::vector<Scenario> todo;
   for (const auto &s : scs)
   {
      if (only.empty() || s.name.find(only) != std::string::npos) { todo.push_back(s); }
   }

   int nw = std::max(1, std::min(max_workers, (int)std::thread::hardware_concurrency()));
   auto *sh = static_cast<Shared *>(
       mmap(nullptr, sizeof(Shared) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
   std::vector<pid_t> pids(nw);
   fflush(stdout);
   for (int w = 0; w < nw; ++w)
   {
      pids[w] = fork();
      if (pids[w] == 0)
      {
         redirect_stdout();
         g_worker = w;
         g_workers = nw;
         g_sh = &sh[w];
         g_sh->started = now();
         g_scratch = dir + "/w" + std::to_string(w);
         mkdir(g_scratch.c_str(), 0755);
         if (chdir(g_scratch.c_str()) != 0) { _exit(98); }
         if (init) { init(); }
         g_sh->started = now();
         int rc = worker_main(todo, known, dir + "/o" + std::to_string(w));
         g_sh->finished = 1;
         _exit(rc);
      }
   }
   std::string err;
   struct Viol
   {
      int scenario;
      std::string key, msg, note;
      std::vector<int> trace;
      std::string how;
   };
   std::vector<Viol> viols;
   std::map<std::string, std::string> knownhits;
   auto kill_all = [&]()
   {
      for (auto &p : pids)
      {
         if (p > 0)
         {
            kill(p, SIGKILL);
            int st;
            waitpid(p, &st, 0);
            p = -1;
         }
      }
   };
   auto suspect = [&](int w, const char *how)
   {
      int is = sh[w].scenario;
      std::vector<int> tr(sh[w].trace, sh[w].trace + std::min<int>((int)sh[w].len, (int)MAXTRACE));
      const auto &sc = todo[is];
      Result r;
      std::string notes;
      // the trace may be partial (crash between choices): complete with zeros
      std::vector<int> full = tr;
      full.resize(tr.size() + 512, 0);
      int code = replay_child(sc, full, init, dir, 4 * sc.limit_s, r, notes);
      if (code >= 2 || code == 1)
      {
         std::string key = code == 1 ? r.key : sc.name + (code == 2 ? ":crash" : ":hang");
         std::string msg = code == 1   ? r.msg
                           : code == 2 ? std::string("the code under test crashed or aborted")
                                       : "the code under test does not terminate";
         if (known.count(key)) { knownhits[key] = msg; }
         viols.push_back({is, key, msg, notes, full, how});
         return true;
      }
      return false;
   };
   int alive = nw;
   bool stop = false;
   while (alive > 0 && !stop)
   {
      std::this_thread::sleep_for(std::chrono::milliseconds(10));
      for (int w = 0; w < nw && !stop; ++w)
      {
         if (pids[w] <= 0) { continue; }
         int st = 0;
         pid_t p = waitpid(pids[w], &st, WNOHANG);
         if (p == pids[w])
         {
            pids[w] = -1;
            --alive;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].finished))
            {
               if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98))
               {
                  err = "worker divergence";
               }
               else if (!suspect(w, "crash"))
               {
                  err = "a worker died and its last execution did not reproduce it";
               }
               stop = true;
            }
            continue;
         }
         int is = sh[w].scenario;
         double lim = todo.empty() ? 60 : todo[std::min<size_t>(is, todo.size() - 1)].limit_s;
         uint64_t e = sh[w].execs;
         double started = sh[w].started;
         if (now() - started > lim && e == sh[w].execs && !sh[w].finished)
         {
            kill(pids[w], SIGKILL);
            waitpid(pids[w], &st, 0);
            pids[w] = -1;
            --alive;
            if (!suspect(w, "hang")) { err = "a worker timed out and its last execution did not reproduce it"; }
            stop = true;
         }
      }
   }
   kill_all();

   // merge
   std::vector<std::map<std::string, double>> tot(todo.size());
   std::vector<std::unordered_set<uint64_t>> outs(todo.size());
   std::string samples;
   int nsamples = 0;
   for (int w = 0; w < nw; ++w)
   {
      std::ifstream f(dir + "/o" + std::to_string(w) + ".jsonl");
      std::string l;
      while (std::getline(f, l))
      {
         int is = atoi(field(l, "scenario").c_str());
         auto kind = field(l, "kind");
         auto unq = [](std::string s)
         {
            // our own escaping: undo the simple cases
            std::string o;
            for (size_t i = 1; i + 1 < s.size(); ++i)
            {
               if (s[i] == '\\')
               {
                  ++i;
                  if (s[i] == 'n') { o += '\n'; }
                  else if (s[i] == 't') { o += '\t'; }
                  else if (s[i] == 'u') { o += '?'; i += 4; }
                  else { o += s[i]; }
               }
               else
               {
                  o += s[i];
               }
            }
            return o;
         };
         if (kind == "\"stats\"")
         {
            for (const char *k : {"execs", "states", "steps"})
            {
               tot[is][k] += atof(field(l, k).c_str());
            }
            tot[is]["seconds"] = std::max(tot[is]["seconds"], atof(field(l, "seconds").c_str()));
            auto s = field(l, "samples");
            if (s.size() > 2 && nsamples < 40 && (w == 0 || w == 1))
            {
               samples += (samples.empty() ? "" : ",") + s.substr(1, s.size() - 2);
               ++nsamples;
            }
         }
         else if (kind == "\"known\"")
         {
            knownhits[unq(field(l, "key"))] = unq(field(l, "msg"));
         }
         else if (kind == "\"violation\"")
         {
            viols.push_back({is, unq(field(l, "key")), unq(field(l, "msg")), unq(field(l, "note")),
                             parse_ints(field(l, "trace")), "oracle"});
         }
      }
      for (size_t is = 0; is < todo.size(); ++is)
      {
         std::ifstream o(dir + "/o" + std::to_string(w) + "." + std::to_string(is) + ".out", std::ios::binary);
         uint64_t h;
         while (o.read(reinterpret_cast<char *>(&h), 8)) { outs[is].insert(h); }
      }
   }
   // replay before reporting
   std::vector<Viol> confirmed;
   for (auto &v : viols)
   {
      if (confirmed.size() >= 3) { break; }
      Result r;
      std::string notes;
      int code = v.how == "oracle"
                     ? replay_child(todo[v.scenario], v.trace, init, dir, 4 * todo[v.scenario].limit_s, r, notes)
                     : 2;
      if (code == 0)
      {
         err = "violation '" + v.key + "' did not reproduce on replay (nondeterministic harness?)";
         continue;
      }
      confirmed.push_back(v);
   }
   std::ofstream o(out);
   o.precision(9);
   o << "{\"property\":" << jstr(property) << ",\"thorough\":" << (g_thorough ? "true" : "false")
     << ",\"workers\":" << nw << ",\"wall_s\":" << (now() - t0) << ",\"error\":" << jstr(err)
     << ",\n\"scenarios\":[";
   for (size_t is = 0; is < todo.size(); ++is)
   {
      o << (is ? ",\n" : "\n") << "{\"name\":" << jstr(todo[is].name);
      for (auto &kv : tot[is]) { o << ",\"" << kv.first << "\":" << kv.second; }
      o << ",\"outcomes\":" << outs[is].size() << "}";
   }
   o << "],\n\"samples\":[" << samples << "],\n\"known\":[";
   bool first = true;
   for (auto &kv : knownhits)
   {
      o << (first ? "" : ",") << "{\"key\":" << jstr(kv.first) << ",\"msg\":" << jstr(kv.second) << "}";
      first = false;
   }
   o << "],\n\"violations\":[";
   first = true;
   for (auto &v : confirmed)
   {
      if (known.count(v.key)) { continue; }
      std::string t;
      for (size_t i = 0; i < v.trace.size(); ++i) { t += (i ? "," : "") + std::to_string(v.trace[i]); }
      std::string body = "{\"property\":" + jstr(property) + ",\"scenario\":" + jstr(todo[v.scenario].name) +
                         ",\"thorough\":" + (g_thorough ? "true" : "false") + ",\"key\":" + jstr(v.key) +
                         ",\"msg\":" + jstr(v.msg) + ",\"case\":" + jstr(v.note) + ",\"trace\":[" + t + "]}";
      std::string fname =
          replaydir + "/" + property + "-" + std::to_string(fnv(body.data(), body.size()) % 100000000) + ".json";
      std::ofstream(fname) << body << "\n";
      o << (first ? "" : ",") << "{\"key\":" << jstr(v.key) << ",\"msg\":" << jstr(v.msg)
        << ",\"case\":" << jstr(v.note) << ",\"replay\":" << jstr(fname) << "}";
      first = false;
   }
   o << "]}\n";
   o.close();
   std::filesystem::remove_all(dir);
   return 0;
}
}  // namespace mc
