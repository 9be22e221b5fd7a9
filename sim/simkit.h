// Deterministic-simulation kit: choice tape, event log, simulated process (session), simulated disk seam.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- violations
struct Violation { std::string cls, msg; };
[[noreturn]] void fail(const std::string& cls, const std::string& msg);
#define SIM_CHECK(cond, cls, msgexpr) do { if (!(cond)) { std::ostringstream oss_; oss_.precision(17); oss_ << msgexpr; sim::fail(cls, oss_.str()); } } while (0)

// ---------------------------------------------------------------- the choice tape: one integer decides everything
// In search mode every choice comes from a PRNG seeded by (VERIF_SEED, property, run index) and is recorded;
// in replay mode it comes from the tape. 0 is always the plainest choice (no fault, smallest, first).
uint64_t draw(uint64_t n);                         // [0,n)
inline bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
inline int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(draw(uint64_t(hi - lo + 1))); }
double real(double lo, double hi);                 // 2^20 grid, 0 -> lo
template <typename T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }

// a private PRNG for things decided wholesale by one recorded draw (e.g. short-write pattern of a session)
struct Prng {
  uint64_t s; explicit Prng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  uint64_t operator()() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return (*this)() % n; }
  double unit() { return double((*this)() >> 11) / 9007199254740992.0; }
};

// ---------------------------------------------------------------- event log (hashed; text kept only for replays)
void event(const std::string& text);
void eventBits(const char* tag, double v);
inline void eventBits(const char* tag, const std::vector<double>& v) { for (double d : v) eventBits(tag, d); }
#define SIM_EVENT(expr) do { std::ostringstream oss_; oss_.precision(17); oss_ << expr; sim::event(oss_.str()); } while (0)
void count(const std::string& key, uint64_t n = 1);   // fault counters ("fault:..."), probes ("probe:..."), other
void addSimTime(double t);                            // simulated time covered
void known(const std::string& cls, const std::string& msg);   // a genuine defect met: counted if SIM_KNOWN (from known_findings.txt, by check.py) lists the class, otherwise a violation
void shape(const std::string& s);                     // contributes to the distinct-run signature
void setSummary(const std::string& s);                // human-readable one-liner of this run (for samples)
void nontrivial();                                    // the run exercised what the property is about

// ---------------------------------------------------------------- scratch directory (removed by the kit)
const std::string& scratch();
std::string slurp(const std::string& path, bool* exists = nullptr);
void spit(const std::string& path, const std::string& data);
bool fileExists(const std::string& path);

// ---------------------------------------------------------------- simulated disk: every file operation of a session under scratch()
struct DiskPlan {
  // crash: the process dies at operation number crashOp (1-based over write-class operations, 0 = never);
  // a crashing write first puts crashNum/8 of its bytes on disk
  uint64_t crashOp = 0; unsigned crashNum = 0;
  // failing writes: from operation errOp on (errCount operations, 0 = all later ones) writes fail with errNo after errPart/8 of the bytes
  uint64_t errOp = 0; uint64_t errCount = 0; int errNo = 0; unsigned errPart = 0;
  // which files the error applies to: 0 any, 1 the data file, 2 the state file
  int errFile = 0;
  // a byte quota for the whole scratch directory (disk full), 0 = none
  uint64_t quota = 0;
  // legal-but-unusual: short writes / short reads / EINTR, 1 in N (0=never), pattern from seed
  unsigned shortW = 0, shortR = 0, eintr = 0; uint64_t seed = 0;
  // opening for writing fails with this errno at the openOp-th such open
  uint64_t openOp = 0; int openErr = 0;
  // reading fails with EIO from read op readOp on
  uint64_t readOp = 0;
  // allocation number allocOp fails with bad_alloc (counted while the session arms it)
  uint64_t allocOp = 0; uint64_t allocMin = 0;
};
struct DiskStats { uint64_t writeOps = 0, readOps = 0, opens = 0, bytes = 0, crashed = 0, errs = 0, shortW = 0, shortR = 0, eintr = 0, openErrs = 0, quotaErrs = 0, readErrs = 0, allocErrs = 0, allocs = 0; };

// ---------------------------------------------------------------- a simulated process
struct Outcome {
  enum Kind { Returned, Threw, SimCrash, Died, Hung } kind = Returned;
  std::string what;       // exception text / signal
  std::string payload;    // what the session returned
  DiskStats disk;
  const char* kindName() const { static const char* n[] = {"returned", "threw", "sim-crash", "died", "hung"}; return n[kind]; }
};
// Runs fn in a forked child under plan; fn returns the payload. stdout/stderr of the child go nowhere.
Outcome session(const DiskPlan& plan, const std::function<std::string()>& fn, unsigned limit_ms = 20000);
// to be called inside a session when its acknowledged part is complete (the payload so far is kept even if the process later dies)
bool inSession();
void armAlloc(bool on);
// step budget seam: call from seams; when exhausted, the run is reported as not making progress
struct Budget { uint64_t left; explicit Budget(uint64_t n) : left(n) {} void spend(const char* what) { if (!left--) fail("no-progress", std::string("step budget exhausted in ") + what); } };

// ---------------------------------------------------------------- (de)serialising payloads
struct Packer { std::string b; template <typename T> Packer& pod(const T& t) { b.append(reinterpret_cast<const char*>(&t), sizeof t); return *this; }
  Packer& str(const std::string& s) { pod<uint64_t>(s.size()); b += s; return *this; }
  Packer& vec(const std::vector<double>& v) { pod<uint64_t>(v.size()); b.append(reinterpret_cast<const char*>(v.data()), v.size() * 8); return *this; } };
struct Unpacker { const std::string& b; size_t p = 0; explicit Unpacker(const std::string& s) : b(s) {}
  template <typename T> T pod() { T t{}; if (p + sizeof t <= b.size()) { memcpy(&t, b.data() + p, sizeof t); } p += sizeof t; return t; }
  std::string str() { uint64_t n = pod<uint64_t>(); if (p + n > b.size()) n = p > b.size() ? 0 : b.size() - p; std::string s = b.substr(std::min(p, b.size()), n); p += n; return s; }
  std::vector<double> vec() { uint64_t n = pod<uint64_t>(); std::vector<double> v; if (p + n * 8 <= b.size()) { v.resize(n); memcpy(v.data(), b.data() + p, n * 8); } p += n * 8; return v; }
  bool end() const { return p >= b.size(); } };

uint64_t bitsOf(double d);
bool sameBits(const std::vector<double>& a, const std::vector<double>& b);

// ---------------------------------------------------------------- properties
using Scenario = void (*)();
struct Register { Register(const char* prop, Scenario s); };
#define SIM_PROPERTY(id, fn) static sim::Register reg_##id##_##fn(#id, fn)

}
