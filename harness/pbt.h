// Small property-based testing engine.
//
// A property is a function of a Src. Every random decision is drawn from the Src and
// recorded, so a case *is* its sequence of draws: a failing sequence is shrunk (chunks
// deleted, values lowered; a shorter or smaller sequence always means a simpler case)
// and written to a replay file. Cases run in forked workers, so a crash, a sanitizer
// report, a failed assert() or a hang is a failing case like any other.
#pragma once
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <cmath>
#include <limits>
#include <cstring>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

class Src {
public:
  // ---- drawing -----------------------------------------------------------
  uint64_t raw(uint64_t max);                       // 0..max inclusive, 0 is simplest
  bool boolean() { return raw(1); }
  bool chance(unsigned num, unsigned den) { return raw(den - 1) >= den - num; } // simplest: false
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)raw((uint64_t)(hi - lo)); }
  size_t index(size_t n) { return (size_t)raw(n - 1); }
  template <class C> auto pick(const C& c) -> decltype(c[0]) { return c[index(c.size())]; }
  template <class T> T oneof(std::initializer_list<T> l) { return *(l.begin() + index(l.size())); }
  // index with the given weights; earlier entries are simpler
  size_t weighted(std::initializer_list<unsigned> w)
  { uint64_t t = 0; for (auto x : w) t += x; uint64_t r = raw(t - 1); size_t i = 0; for (auto x : w) { if (r < x) return i; r -= x; ++i; } return 0; }
  // geometric-ish count in [lo,hi]: one continue decision per element, so deleting draws shrinks it
  bool more(unsigned avg) { return raw(avg) != 0; }
  // a real in [lo,hi]: mixes endpoints, integers, short decimals and full-precision values
  double real(double lo, double hi);
  double positive(double lo, double hi);            // log-uniform in [lo,hi], lo>0
  double signedReal(double mag);                    // sign * anything up to mag, mixes scales and 0
  // now and then all three return a value drawn earlier in the case (or its negation): inputs that coincide
  std::string ident(size_t maxlen = 8);
  std::string bytes(size_t maxlen);
  template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[i - 1 - index(i)]); }
  template <class T> std::vector<T> subset(const std::vector<T>& v) { std::vector<T> o; for (auto& x : v) if (boolean()) o.push_back(x); return o; }
  // ---- reporting ---------------------------------------------------------
  void label(const std::string& l);                 // classification counter
  void nontrivial() { nontrivial_ = true; }
  void discard() { throw Discard(); }
  // the case met the known finding `key`: passes when known_findings.txt lists it for this property, fails otherwise
  void known(const std::string& key, const std::string& what);
  bool verbose = false;
  void note(const std::string& s);

  // ---- engine side -------------------------------------------------------
  int logFd_ = -1; bool nontrivial_ = false;
  uint64_t seed_ = 0; bool replaying_ = false; size_t pos_ = 0;
  const std::vector<uint64_t>* in_ = nullptr;
  uint64_t next();
  std::vector<double> seen_; bool earlier(double lo, double hi, double& v); double keep(double v), realNew(double lo, double hi), positiveNew(double lo, double hi);
};

[[noreturn]] void fail(const std::string& msg);
[[noreturn]] void die(const std::string& msg);     // fail from any thread: ends the process running the case

#define PBT_CAT_(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT_(a, b)
#define CHECK(cond, ...) do { if (!(cond)) { std::ostringstream pbt_os_; pbt_os_ << __VA_ARGS__; ::pbt::fail(pbt_os_.str() + "   [violated: " #cond "]"); } } while (0)
#define FAIL(...) do { std::ostringstream pbt_os_; pbt_os_ << __VA_ARGS__; ::pbt::fail(pbt_os_.str()); } while (0)
#define NOTE(...) do { if (s.verbose) { std::ostringstream pbt_os_; pbt_os_.precision(17); pbt_os_ << __VA_ARGS__; s.note(pbt_os_.str()); } } while (0)

// names that only a careless comparison confuses: prefixes, letter case, namespaces, long common parts, suffixes
inline int& spelling() { static int s = 0; return s; }
inline void drawSpelling(Src& s, bool slashes = true) { spelling() = s.boolean() ? (int)s.index(6) : 0; if (spelling() == 3 && !slashes) spelling() = 1; }
inline std::string spelt(const std::string& word, size_t i)
{
  std::string n = std::to_string(i), w = word + n;
  switch (spelling()) {
    case 1: return word + std::string(i, 'a');
    case 2: w = word + std::to_string(i / 2); if (i % 2) w[0] = (char)toupper(w[0]); return w;
    case 3: return i ? (i % 2 ? "" : "u/") + std::string("n") + n + "/" + word : word;
    case 4: return word + std::string(80, '_') + n;
    case 5: return std::string(i + 1, 'a') + word;
    default: return w; }
}

struct Part {
  const char* property; const char* name; const char* rule;
  void (*fn)(Src&); unsigned quick; unsigned thorough;   // case counts
};
struct Register { Register(const Part& p); };
// PROPERTY(C20, simple, "rule", quick_cases, thorough_cases) { body using s }
#define PROPERTY(id, part, rule, quick, thorough) \
  static void PBT_CAT(prop_, PBT_CAT(id, PBT_CAT(_, part)))(::pbt::Src& s); \
  static ::pbt::Register PBT_CAT(reg_, PBT_CAT(id, PBT_CAT(_, part)))({#id, #part, rule, PBT_CAT(prop_, PBT_CAT(id, PBT_CAT(_, part))), quick, thorough}); \
  static void PBT_CAT(prop_, PBT_CAT(id, PBT_CAT(_, part)))(::pbt::Src& s)

// ---- small oracles ---------------------------------------------------------
inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
// |a-b| within rel of the magnitude of the terms involved
inline bool near(double a, double b, double scale, double rel = 1e-9)
{ if (same(a, b)) return true; return std::fabs(a - b) <= rel * (std::fabs(scale) + std::fabs(a) + std::fabs(b)) + 1e-300; }
template <class C> std::string show(const C& c) { std::ostringstream o; o << "["; bool f = true; for (auto& x : c) { if (!f) o << ", "; f = false; o << x; } o << "]"; return o.str(); }

} // namespace pbt
