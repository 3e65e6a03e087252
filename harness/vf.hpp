// Run-time monitoring support: deterministic case generation, event logs,
// violation reports.
#ifndef VF_HPP
#define VF_HPP
#include <mpi.h>

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#include <malloc.h>

#include <atomic>
#include <new>
// The memory in use of everything that is written in C++. (That of C is left
// out: Zoltan as called by deal.II does not give everything back.) The blocks
// are still those of AddressSanitizer.
namespace vf
{
inline std::atomic<long> cxx_bytes{0};
inline void *cxx_new(std::size_t n, std::size_t align = 0)
{
  if (n == 0)
    n = 1;
  void *p = nullptr;
  if (align == 0)
    p = std::malloc(n);
  else if (::posix_memalign(&p, std::max(align, sizeof(void *)), n) != 0)
    p = nullptr;
  if (p)
    cxx_bytes += static_cast<long>(::malloc_usable_size(p));
  return p;
}
inline void *cxx_new_throw(std::size_t n, std::size_t align = 0)
{
  void *p = cxx_new(n, align);
  if (!p)
    throw std::bad_alloc();
  return p;
}
inline void cxx_delete(void *p)
{
  if (p)
    cxx_bytes -= static_cast<long>(::malloc_usable_size(p));
  std::free(p);
}
} // namespace vf
// each harness is one translation unit
void *operator new(std::size_t n) { return vf::cxx_new_throw(n); }
void *operator new[](std::size_t n) { return vf::cxx_new_throw(n); }
void *operator new(std::size_t n, std::nothrow_t const &) noexcept
{
  return vf::cxx_new(n);
}
void *operator new[](std::size_t n, std::nothrow_t const &) noexcept
{
  return vf::cxx_new(n);
}
void *operator new(std::size_t n, std::align_val_t a)
{
  return vf::cxx_new_throw(n, static_cast<std::size_t>(a));
}
void *operator new[](std::size_t n, std::align_val_t a)
{
  return vf::cxx_new_throw(n, static_cast<std::size_t>(a));
}
void operator delete(void *p) noexcept { vf::cxx_delete(p); }
void operator delete[](void *p) noexcept { vf::cxx_delete(p); }
void operator delete(void *p, std::size_t) noexcept { vf::cxx_delete(p); }
void operator delete[](void *p, std::size_t) noexcept { vf::cxx_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { vf::cxx_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept
{
  vf::cxx_delete(p);
}
void operator delete(void *p, std::size_t, std::align_val_t) noexcept
{
  vf::cxx_delete(p);
}
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept
{
  vf::cxx_delete(p);
}
void operator delete(void *p, std::nothrow_t const &) noexcept
{
  vf::cxx_delete(p);
}
void operator delete[](void *p, std::nothrow_t const &) noexcept
{
  vf::cxx_delete(p);
}
#endif
#endif
#ifdef VF_TSAN
#include <sanitizer/common_interface_defs.h>
extern "C"
{
int __tsan_get_report_data(void *report, const char **description, int *count,
                           int *stack_count, int *mop_count, int *loc_count,
                           int *mutex_count, int *thread_count,
                           int *unique_tid_count, void **sleep_trace,
                           unsigned long trace_size);
int __tsan_get_report_mop(void *report, unsigned long idx, int *tid,
                          void **addr, int *size, int *write, int *atomic,
                          void **trace, unsigned long trace_size);
}
#endif

namespace vf
{
#ifdef VF_TSAN
// The data races which ThreadSanitizer reported during the case
struct Race
{
  int write[2];
  void *trace[2][24];
};
struct Races
{
  static constexpr int capacity = 64;
  Race race[capacity];
  int n = 0;
};
inline Races &races()
{
  static Races r;
  return r;
}
#endif

inline uint64_t splitmix(uint64_t &s)
{
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline uint64_t hash_str(std::string const &t)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : t)
    h = (h ^ c) * 1099511628211ull;
  return h;
}

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { return splitmix(s); }
  // inclusive range
  long range(long lo, long hi)
  {
    return lo + static_cast<long>(next() % static_cast<uint64_t>(hi - lo + 1));
  }
  double uniform(double a = 0., double b = 1.)
  {
    return a + (b - a) * (static_cast<double>(next() >> 11) / 9007199254740992.0);
  }
  double sym() { return uniform(-1., 1.); }
  bool chance(double p) { return uniform() < p; }
  template <typename T>
  T pick(std::vector<T> const &v)
  {
    return v[next() % v.size()];
  }
  template <typename T>
  void shuffle(std::vector<T> &v)
  {
    for (size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[next() % i]);
  }
};

inline std::string esc(std::string const &in)
{
  std::string o;
  for (unsigned char c : in)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126)
      o += '?';
    else
      o += c;
  }
  return o;
}

struct Abandon : std::exception
{
  char const *what() const noexcept override { return "case abandoned"; }
};

struct Ctx
{
  std::string prop;
  uint64_t seed = 1;
  bool thorough = false;
  std::string variant;
  std::string out_dir;
  int rank = 0;
  int log_rank = 0; // in MPI_COMM_WORLD
  int size = 1;
  MPI_Comm comm = MPI_COMM_WORLD;
  long idx = 0;
  Rng rng;       // same stream on every rank
  Rng local_rng; // differs per rank
  FILE *log = nullptr;
  long n_viol = 0;
  std::map<std::string, double> counters;
  std::set<std::string> states;
  std::vector<std::string> notes;
  std::string skip_reason;
  std::string label;
  // ML keeps some memory
  bool uses_ml = false;

  void viol(std::string const &key, std::string const &msg)
  {
    ++n_viol;
    if (n_viol <= 12)
    {
      std::fprintf(log,
                   "{\"ev\":\"viol\",\"case\":%ld,\"rank\":%d,\"key\":\"%s\","
                   "\"label\":\"%s\",\"msg\":\"%s\"}\n",
                   idx, log_rank, esc(key).c_str(), esc(label).c_str(),
                   esc(msg).c_str());
      std::fflush(log);
    }
  }
  void obs(std::string const &name, double n = 1) { counters[name] += n; }
  void omax(std::string const &name, double v)
  {
    auto it = counters.find("max:" + name);
    if (it == counters.end())
      counters["max:" + name] = v;
    else if (v > it->second)
      it->second = v;
  }
  void state(std::string const &s) { states.insert(s); }
  // An observation: counts the evaluation, reports the failure
  bool check(bool ok, std::string const &key, std::string const &msg)
  {
    obs("checks");
    if (!ok)
      viol(key, msg);
    return ok;
  }
  // |got - want| <= tol
  bool close(double got, double want, double tol, std::string const &key,
             std::string const &what)
  {
    obs("checks");
    double const d = std::abs(got - want);
    if (!(d <= tol))
    {
      std::ostringstream o;
      o.precision(17);
      o << what << ": got " << got << " expected " << want << " (tol " << tol
        << ")";
      viol(key, o.str());
      return false;
    }
    if (tol > 0)
      omax("err/tol:" + key, d / tol);
    return true;
  }
  // quantity must stay below bound
  bool below(double got, double bound, std::string const &key,
             std::string const &what)
  {
    obs("checks");
    if (!(got <= bound))
    {
      std::ostringstream o;
      o.precision(17);
      o << what << ": " << got << " exceeds " << bound;
      viol(key, o.str());
      return false;
    }
    if (bound > 0)
      omax("err/tol:" + key, got / bound);
    return true;
  }
  void skip(std::string const &r) { skip_reason = r; }
};

template <typename... T>
std::string str(T const &... t)
{
  std::ostringstream o;
  o.precision(12);
  using expander = int[];
  (void)expander{0, ((void)(o << t), 0)...};
  return o.str();
}

// A random vector, sometimes related to the one before in the same case: the
// negative, a permutation (equal norms) or a small change of it
// the second run of a case: the same choices, but other values
inline bool &twin()
{
  static bool t = false;
  return t;
}

inline std::vector<double> &previous_vec()
{
  static std::vector<double> v;
  return v;
}
inline std::vector<double> random_vec(Rng &r, size_t n)
{
  std::vector<double> x(n);
  for (auto &v : x)
    v = r.sym();
  if (n > 0 && r.chance(0.25))
  {
    // vectors with a structure: exact zeros, constants, entries of very
    // different sizes
    size_t const one = static_cast<size_t>(r.range(0, n - 1));
    double const keep = x[one];
    int const kind = static_cast<int>(r.range(0, 4));
    for (size_t i = 0; i < n; ++i)
      if (kind == 0)
        x[i] = 0.;
      else if (kind == 1)
        x[i] = r.chance(0.7) ? 0. : x[i];
      else if (kind == 2)
        x[i] = keep;
      else if (kind == 3)
        x[i] = (i < one) == (keep < 0.) ? 0. : x[i];
      else
        x[i] *= r.chance(0.5) ? 1. : 1e-9;
    x[one] = keep;
  }
  auto &prev = previous_vec();
  if (prev.size() == n && n > 0 && r.chance(0.3))
  {
    x = prev;
    int const kind = static_cast<int>(r.range(0, 3));
    if (kind == 0)
      for (auto &v : x)
        v = -v;
    else if (kind == 1)
      std::reverse(x.begin(), x.end());
    else if (kind == 2)
      std::rotate(x.begin(), x.begin() + 1, x.end());
    else
      x[static_cast<size_t>(r.range(0, n - 1))] *= 1. + 1e-3;
  }
  prev = x;
  return x;
}

#ifdef VF_TSAN
// The functions of a stack, innermost first, without the inlined runtime
inline std::vector<std::string> functions_of(void *const *trace, int n)
{
  std::vector<std::string> out;
  for (int i = 0; i < n && trace[i]; ++i)
  {
    char buf[600] = "";
    __sanitizer_symbolize_pc(trace[i], "%f @%s", buf, sizeof buf - 2);
    // all the inlined functions, separated by zeros
    for (char const *p = buf; *p; p += std::strlen(p) + 1)
      out.push_back(p);
  }
  return out;
}

inline std::string first_of_mfmg(std::vector<std::string> const &fs)
{
  for (auto const &f : fs)
  {
    auto const at = f.find(" @");
    if (at == std::string::npos || (f.find("/include/mfmg/", at) == std::string::npos &&
                                    f.find("/source/", at) == std::string::npos))
      continue;
    auto const slash = f.rfind('/');
    return f.substr(slash + 1);
  }
  return "";
}

inline void report_races(Ctx &c)
{
  for (int i = 0; i < races().n; ++i)
  {
    auto const &race = races().race[i];
    std::string what, where;
    bool mfmg = false, mark = true;
    for (int q = 0; q < 2; ++q)
    {
      auto const fs = functions_of(race.trace[q], 24);
      auto const f = first_of_mfmg(fs);
      mfmg = mfmg || !f.empty();
      // reading the index of a cell, deal.II notes that there are indices
      mark = mark && !fs.empty() && fs[0].find("user_index") != std::string::npos &&
             fs[0].find("/tria_objects.h") != std::string::npos;
      where += (q ? " and " : "") + (f.empty() ? "?" : f);
      what += race.write[q] ? " WRITE" : " READ";
      for (size_t k = 0; k < fs.size() && k < 8; ++k)
        what += " < " + fs[k].substr(0, 90);
    }
    c.obs(mark ? "races-of-the-library" : "races-reported");
    if (mfmg && !mark)
      c.viol("data-race", where + ":" + what);
  }
  races().n = 0;
}
#endif

using CaseFn = std::function<void(Ctx &)>;

inline std::map<std::string, CaseFn> &registry()
{
  static std::map<std::string, CaseFn> r;
  return r;
}

struct Register
{
  Register(std::string const &id, CaseFn fn) { registry()[id] = fn; }
};

// usage: exe PROP seed start count tier variant outdir [max_viol]
inline int run(int argc, char **argv)
{
  if (argc < 8)
  {
    std::fprintf(stderr, "usage: %s PROP seed start count tier variant out\n",
                 argv[0]);
    return 3;
  }
  Ctx c;
  c.prop = argv[1];
  c.seed = std::strtoull(argv[2], nullptr, 10);
  long const start = std::atol(argv[3]);
  long const count = std::atol(argv[4]);
  c.thorough = std::string(argv[5]) == "thorough";
  c.variant = argv[6];
  c.out_dir = argv[7];
  long const max_viol = argc > 8 ? std::atol(argv[8]) : 5;
  MPI_Comm_rank(MPI_COMM_WORLD, &c.rank);
  MPI_Comm_size(MPI_COMM_WORLD, &c.size);
  std::string const path =
      c.out_dir + "/log." + std::to_string(c.rank) + ".jsonl";
  c.log_rank = c.rank;
  c.log = std::fopen(path.c_str(), "a");
  if (!c.log)
    return 3;
  auto it = registry().find(c.prop);
  if (it == registry().end())
  {
    std::fprintf(stderr, "unknown property %s\n", c.prop.c_str());
    return 3;
  }
  long total_viol = 0;
  // Every third case does not run on MPI_COMM_WORLD: the ranks are reversed, or
  // two groups of ranks work at the same time, each on its own communicator
  int const world_rank = c.rank, world_size = c.size;
  MPI_Comm reversed = MPI_COMM_WORLD, group = MPI_COMM_WORLD;
  if (world_size > 1)
  {
    MPI_Comm_split(MPI_COMM_WORLD, 0, world_size - world_rank, &reversed);
    MPI_Comm_split(MPI_COMM_WORLD, world_rank == 1 ? 1 : 0,
                   world_size - world_rank, &group);
  }
  for (long i = start; i < start + count; ++i)
  {
    c.idx = i;
    uint64_t s = c.seed * 0x9e3779b97f4a7c15ull + hash_str(c.prop) +
                 static_cast<uint64_t>(i) * 0xd1342543de82ef95ull;
    splitmix(s);
    c.rng = Rng(s);
    c.n_viol = 0;
    c.counters.clear();
    c.states.clear();
    previous_vec().clear();
    c.notes.clear();
    c.skip_reason.clear();
    c.label.clear();
    c.uses_ml = false;
    c.comm = MPI_COMM_WORLD;
    if (world_size > 1 && i % 3 == 2)
    {
      bool const split = i % 6 == 2 && world_size > 2 && c.prop != "C24";
      c.comm = split ? group : reversed;
      c.obs(split ? "cases-on-a-group-of-ranks" : "cases-with-reversed-ranks");
    }
    MPI_Comm_rank(c.comm, &c.rank);
    MPI_Comm_size(c.comm, &c.size);
    c.local_rng = Rng(s ^ (0xabcdefull * (c.rank + 17)));
    std::fprintf(c.log, "{\"ev\":\"begin\",\"case\":%ld}\n", i);
    std::fflush(c.log);
    bool thrown = false;
    std::string what;
    twin() = false;
    try
    {
      it->second(c);
      // Once more with the same choices, but with other values (the generators
      // look at twin()): what was kept of the first run and is found again by
      // its sizes or parameters shows
      int stop = c.n_viol > 0 || !c.skip_reason.empty();
      if (i % 4 == 1 && c.prop != "C24")
        MPI_Allreduce(MPI_IN_PLACE, &stop, 1, MPI_INT, MPI_MAX, c.comm);
      if (i % 4 == 1 && c.prop != "C24" && !stop)
      {
        twin() = true;
        c.rng = Rng(s);
        c.local_rng = Rng(s ^ (0xabcdefull * (c.rank + 17)));
        c.obs("twins");
        it->second(c);
      }
#ifdef VF_ASAN
      // Again and again the same: the memory of one run has to be free before
      // the next. Caches fill up in the first runs.
      if (world_size == 1 && i % 8 == 2 && !stop && !c.uses_ml)
      {
        twin() = false;
        long bytes[4];
        for (int run = 0; run < 4; ++run)
        {
          c.rng = Rng(s);
          c.local_rng = Rng(s ^ (0xabcdefull * (c.rank + 17)));
          previous_vec().clear();
          c.notes.clear();
          it->second(c);
          bytes[run] = cxx_bytes;
        }
        c.obs("repetitions-for-leaks", 4);
        c.obs("checks");
        if (bytes[0] + 128 < bytes[1] && bytes[1] + 128 < bytes[2] &&
            bytes[2] + 128 < bytes[3])
          c.viol("memory-not-returned",
                 str("bytes in use after runs of the same case: ", bytes[0],
                     ", ", bytes[1], ", ", bytes[2], ", ", bytes[3]));
      }
#endif
    }
    catch (Abandon const &)
    {
    }
    catch (std::exception const &e)
    {
      thrown = true;
      what = e.what();
    }
    catch (...)
    {
      thrown = true;
      what = "unknown exception";
    }
    if (thrown)
      c.viol("exception", what.substr(0, 1500));
#ifdef VF_TSAN
    report_races(c);
#endif
    std::string cs = "{", ss = "[";
    for (auto const &kv : c.counters)
    {
      char buf[64];
      std::snprintf(buf, sizeof buf, "%.6g",
                    std::isfinite(kv.second) ? kv.second : 1e300);
      cs += (cs.size() > 1 ? "," : "") + std::string("\"") + esc(kv.first) +
            "\":" + buf;
    }
    for (auto const &st : c.states)
      ss += (ss.size() > 1 ? "," : "") + std::string("\"") + esc(st) + "\"";
    std::fprintf(c.log,
                 "{\"ev\":\"end\",\"case\":%ld,\"label\":\"%s\",\"skip\":"
                 "\"%s\",\"obs\":%s},\"states\":%s]}\n",
                 i, esc(c.label).c_str(), esc(c.skip_reason).c_str(),
                 cs.c_str(), ss.c_str());
    std::fflush(c.log);
    if (thrown && world_size > 1)
    {
      // the other ranks may be blocked in a collective call
      MPI_Abort(MPI_COMM_WORLD, 42);
    }
    long nv = c.n_viol, all = 0;
    MPI_Allreduce(&nv, &all, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
    total_viol += all > 0;
    if (total_viol >= max_viol)
    {
      std::fprintf(c.log, "{\"ev\":\"stop\",\"case\":%ld}\n", i);
      break;
    }
  }
  std::fprintf(c.log, "{\"ev\":\"done\"}\n");
  std::fclose(c.log);
  return 0;
}
} // namespace vf

#ifdef VF_TSAN
extern "C" void __tsan_on_report(void *report)
{
  char const *description = "";
  int count, stacks, mops, locs, mutexes, threads, tids;
  void *sleep[4];
  __tsan_get_report_data(report, &description, &count, &stacks, &mops, &locs,
                         &mutexes, &threads, &tids, sleep, 4);
  auto &all = vf::races();
  if (std::strcmp(description, "data-race") != 0 || mops < 2 ||
      all.n == vf::Races::capacity)
    return;
  auto &race = all.race[all.n++];
  for (int i = 0; i < 2; ++i)
  {
    int tid, size, atomic;
    void *addr;
    std::memset(race.trace[i], 0, sizeof race.trace[i]);
    __tsan_get_report_mop(report, i, &tid, &addr, &size, &race.write[i],
                          &atomic, race.trace[i], 24);
  }
}
#endif
#endif
