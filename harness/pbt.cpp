#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace pbt {
namespace {
const size_t CAP = 1 << 16;
const int HANG_CPU_S = 20, HANG_WALL_S = 60;
enum Status : uint32_t { RUNNING = 0, PASSED = 1, FAILED = 2, DISCARDED = 3 };
// shared between the parent and one worker
struct Shared {
  volatile uint32_t status; volatile uint32_t n; volatile uint64_t caseIndex; volatile uint64_t beat;
  volatile uint64_t done, discarded, nontrivial; volatile uint32_t finished;
  char msg[16384];
  uint64_t vals[CAP];
};
Shared* sh = nullptr;
std::vector<Part>& parts() { static std::vector<Part> p; return p; }
std::map<std::string, uint64_t>* labels = nullptr;
uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
double nowS() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }
}

Register::Register(const Part& p) { parts().push_back(p); }
void fail(const std::string& m) { throw Failure{m}; }
void die(const std::string& m)
{
  strncpy(sh->msg, m.c_str(), sizeof sh->msg - 1); sh->status = FAILED;
#ifdef PBT_LIBFUZZER
  abort();
#endif
  _exit(0);
}

uint64_t Src::next() { seed_ += 0x9e3779b97f4a7c15ULL; uint64_t z = seed_; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
uint64_t Src::raw(uint64_t max)
{
  uint64_t v;
  if (replaying_) { v = pos_ < in_->size() ? (*in_)[pos_] : 0; if (v > max) v = max; }
  else if (pos_ >= CAP - 1) v = 0;
  else if (max == UINT64_MAX) v = next();
  else v = (uint64_t)(((unsigned __int128)next() * ((unsigned __int128)max + 1)) >> 64);
  if (pos_ < CAP) { sh->vals[pos_] = v; sh->n = (uint32_t)(pos_ + 1); }
  ++pos_;
  return v;
}
bool Src::earlier(double lo, double hi, double& v)
{
  if (seen_.empty() || !chance(1, 12)) return false;
  v = seen_[seen_.size() - 1 - index(std::min<size_t>(seen_.size(), 16))]; if (chance(1, 4)) v = -v;
  return v >= lo && v <= hi;
}
double Src::keep(double v) { if (seen_.size() < 256) seen_.push_back(v); return v; }
double Src::real(double lo, double hi)
{
  double e; if (earlier(lo, hi, e)) return e;
  return keep(realNew(lo, hi));
}
double Src::realNew(double lo, double hi)
{
  switch (raw(7)) {
    case 0: { double a = std::ceil(lo), b = std::floor(hi); if (a > b) return lo;   // whole numbers, closest to zero first
              double k = (double)raw(20);
              double v = a > 0 ? a + k : b < 0 ? b - k : (std::fmod(k, 2) != 0 ? -(k + 1) / 2 : k / 2);
              return std::min(std::max(v, a), b); }
    case 1: return lo;
    case 2: return hi;
    case 3: return lo + (hi - lo) * ((double)raw(100) / 100.0);
    case 4: return lo + (hi - lo) * ((double)raw(1000) / 1000.0);
    default: { double u = (double)raw((1ULL << 53) - 1) / (double)(1ULL << 53); return lo + (hi - lo) * u; }
  }
}
double Src::positive(double lo, double hi)
{
  double e; if (earlier(lo, hi, e)) return e;
  return keep(positiveNew(lo, hi));
}
double Src::positiveNew(double lo, double hi)
{
  switch (raw(3)) {
    case 0: { if (lo <= 1 && hi >= 1) { double v = 1.0 + (double)raw(9); return v > hi ? 1.0 : v; } return lo; }
    default: { double u = (double)raw((1ULL << 40) - 1) / (double)(1ULL << 40); return std::exp(std::log(lo) + u * (std::log(hi) - std::log(lo))); }
  }
}
double Src::signedReal(double mag)
{
  double v; if (earlier(-mag, mag, v)) return v;
  switch (raw(5)) {
    case 0: v = (double)raw(10); break;
    case 1: v = (double)raw(1000) / 100.0; break;
    case 2: v = mag * ((double)raw((1ULL << 53) - 1) / (double)(1ULL << 53)); break;
    case 3: v = positiveNew(1e-6, mag); break;
    case 4: v = 10.0 * ((double)raw((1ULL << 53) - 1) / (double)(1ULL << 53)); break;
    default: v = ((double)raw((1ULL << 53) - 1) / (double)(1ULL << 53)); break;
  }
  if (v > mag) v = mag;
  return keep(boolean() ? -v : v);
}
std::string Src::ident(size_t maxlen)
{ static const char c[] = "abcdefghijklmnopqrstuvwxyz_0123456789"; std::string o(1, c[raw(25)]); while (o.size() < maxlen && more(3)) o += c[raw(36)]; return o; }
std::string Src::bytes(size_t maxlen)
{ std::string o; while (o.size() < maxlen && more(12)) o += (char)raw(255); return o; }
void Src::note(const std::string& x) { if (verbose && logFd_ >= 0) { std::string l = x + "\n"; if (write(logFd_, l.data(), l.size()) < 0) {} } }
void Src::label(const std::string& l) { if (labels) ++(*labels)[l]; }

namespace { std::string currentProperty; std::map<std::string, std::string>& knownList()
{ // key -> text, for lines  "known: property=ID key=KEY text"
  static std::map<std::string, std::string>* m = nullptr; if (m) return *m; m = new std::map<std::string, std::string>;
  const char* fn = getenv("VERIF_KNOWN"); std::ifstream f(fn ? fn : ""); std::string l;
  while (std::getline(f, l)) { std::istringstream is(l); std::string k, p, key, rest; is >> k >> p >> key; if (k != "known:" || p != "property=" + currentProperty || key.compare(0, 4, "key=") != 0) continue; std::getline(is, rest); (*m)[key.substr(4)] = rest.empty() ? rest : rest.substr(1); }
  return *m; } }
void Src::known(const std::string& key, const std::string& what) { if (!knownList().count(key)) fail(what); label("KNOWN " + key); }

namespace {
struct Outcome { Status st = PASSED; std::string msg; };

std::string tail(const std::string& file)
{
  std::ifstream f(file); std::string l, o; int n = 0;
  bool in = false;
  while (std::getline(f, l)) {
    if (l.find("ERROR:") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("Assertion") != std::string::npos || l.find("terminate") != std::string::npos) in = true;
    if (in && n < 14) { o += "    " + l + "\n"; ++n; }
  }
  return o;
}

void armCpuLimit(int s) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_PROF, &it, nullptr); }

Status runOne(const Part& p, Src& s)
{
  try { p.fn(s); return PASSED; }
  catch (const Discard&) { return DISCARDED; }
  catch (const Failure& f) { strncpy(sh->msg, f.msg.c_str(), sizeof sh->msg - 1); return FAILED; }
  catch (const std::exception& e) { std::string m = std::string("unexpected exception escaped: ") + e.what(); strncpy(sh->msg, m.c_str(), sizeof sh->msg - 1); return FAILED; }
  catch (...) { strcpy(sh->msg, "unexpected exception (not derived from std::exception) escaped"); return FAILED; }
}

std::string tmpdir;

std::string describeDeath(int st, bool hang, const std::string& err)
{
  std::ostringstream o;
  if (hang) o << "the case did not finish (" << HANG_CPU_S << " s of CPU time or " << HANG_WALL_S << " s)";
  else if (WIFSIGNALED(st)) o << (WTERMSIG(st) == SIGPROF ? "the case did not finish (CPU limit), signal " : "the process died, signal ") << WTERMSIG(st);
  else o << "the process died, exit code " << WEXITSTATUS(st);
  std::string t = tail(err); if (!t.empty()) o << "\n" << t;
  return o.str();
}

// waits for pid; kills it after the wall limit of inactivity
int waitFor(pid_t pid, Shared* m, bool& hang, double limit = HANG_WALL_S)
{
  hang = false; int st = 0; uint64_t beat = m->beat; double t0 = nowS(); int us = 200;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) return st;
    if (m->beat != beat) { beat = m->beat; t0 = nowS(); }
    if (nowS() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; return st; }
    usleep(us); if (us < 5000) us *= 2;
  }
}

// runs one case, given by its draws, in a fresh process
Outcome runIsolated(const Part& p, const std::vector<uint64_t>& in, std::vector<uint64_t>* used = nullptr, std::string* log = nullptr, bool* nontriv = nullptr)
{
  Shared* m = sh; m->status = RUNNING; m->n = 0; m->msg[0] = 0; m->beat = 0;
  std::string err = tmpdir + "/iso.err", lg = tmpdir + "/iso.log"; unlink(lg.c_str());
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); dup2(fd, 1);
    armCpuLimit(HANG_CPU_S);
    std::map<std::string, uint64_t> lab; labels = &lab;
    Src s; s.replaying_ = true; s.in_ = &in; s.verbose = log != nullptr;
    if (log) s.logFd_ = open(lg.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    Status st = runOne(p, s);
    m->nontrivial = s.nontrivial_; m->status = st;
    _exit(0);
  }
  bool hang; int st = waitFor(pid, m, hang);
  Outcome o;
  if (m->status == RUNNING) { o.st = FAILED; o.msg = describeDeath(st, hang, err); }
  else { o.st = (Status)m->status; if (o.st == FAILED) o.msg = m->msg; }
  if (used) { used->assign(m->vals, m->vals + std::min<size_t>(m->n, CAP)); }
  if (log) { std::ifstream f(lg); std::stringstream ss; ss << f.rdbuf(); *log = ss.str(); }
  if (nontriv) *nontriv = m->nontrivial;
  return o;
}

uint64_t caseSeed(uint64_t seed, size_t part, uint64_t i) { return mix(mix(seed * 1000003 + part) + i * 0x2545F4914F6CDD1DULL); }

// Worker: cases w, w+W, ... < total of part pi
struct WorkerOut { std::map<std::string, uint64_t> labels; std::vector<uint64_t> hashes; };
void workerMain(const Part& p, size_t pi, uint64_t seed, uint64_t w, uint64_t W, uint64_t total, double deadline, const std::string& out)
{
  std::map<std::string, uint64_t> lab; labels = &lab;
  std::unordered_set<uint64_t> hashes; std::vector<std::pair<uint64_t, uint64_t>> ntIdx;
  for (uint64_t i = w; i < total; i += W) {
    if (nowS() > deadline) break;
    sh->caseIndex = i; sh->n = 0; sh->msg[0] = 0; sh->status = RUNNING; sh->beat = sh->beat + 1;
    armCpuLimit(HANG_CPU_S);
    Src s; s.seed_ = caseSeed(seed, pi, i);
    Status st = runOne(p, s);
    sh->status = st;
    if (st == FAILED) _exit(0);
    if (st == DISCARDED) { sh->discarded = sh->discarded + 1; continue; }
    sh->done = sh->done + 1;
    if (s.nontrivial_) {
      uint64_t h = 1469598103934665603ULL; for (size_t k = 0; k < sh->n && k < CAP; ++k) h = mix(h ^ sh->vals[k]);
      if (hashes.insert(h).second) { sh->nontrivial = sh->nontrivial + 1; if (ntIdx.size() < 4) ntIdx.push_back({i, 0}); }
    }
  }
  armCpuLimit(0);
  FILE* f = fopen(out.c_str(), "w");
  for (auto& l : lab) fprintf(f, "L %llu %s\n", (unsigned long long)l.second, l.first.c_str());
  for (auto h : hashes) fprintf(f, "H %llx\n", (unsigned long long)h);
  for (auto& x : ntIdx) fprintf(f, "N %llu\n", (unsigned long long)x.first);
  fclose(f);
  sh->finished = 1;
  _exit(0);
}

Shared* newShared() { void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } memset(p, 0, 256); return (Shared*)p; }

// ---- shrinking --------------------------------------------------------------
std::vector<uint64_t> shrink(const Part& p, std::vector<uint64_t> best, double budgetS)
{
  double end = nowS() + budgetS; int evals = 0;
  auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) { if (a.size() != b.size()) return a.size() < b.size(); return a < b; };
  std::set<std::vector<uint64_t>> seen;
  auto tryIt = [&](std::vector<uint64_t> c) {
    while (!c.empty() && c.back() == 0) c.pop_back();
    if (!better(c, best) || !seen.insert(c).second) return false;
    if (nowS() > end || evals > 6000) return false;
    ++evals; std::vector<uint64_t> used; Outcome o = runIsolated(p, c, &used);
    if (o.st != FAILED) return false;
    while (!used.empty() && used.back() == 0) used.pop_back();
    if (used.size() <= c.size() && !better(c, used)) best = used; else best = c;
    return true;
  };
  while (!best.empty() && best.back() == 0) best.pop_back();
  bool progress = true;
  while (progress && nowS() < end) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = best.size(); i-- > 0 && nowS() < end;) { if (i + len > best.size()) continue; auto c = best; c.erase(c.begin() + i, c.begin() + i + len); if (tryIt(c)) { progress = true; if (i > best.size()) i = best.size(); } else if (len > 4) i = i > len / 2 ? i - len / 2 : 0; }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size() && nowS() < end; ++i) {
      if (best[i] == 0) continue;
      auto c = best; c[i] = 0; if (tryIt(c)) { progress = true; continue; }
      uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
      while (hi - lo > 1 && i < best.size() && nowS() < end) { uint64_t mid = lo + (hi - lo) / 2; c = best; if (i >= c.size()) break; c[i] = mid; if (tryIt(c)) { hi = mid; progress = true; } else lo = mid; }
      for (size_t k = 1; k <= 6 && i < best.size(); ++k) { c = best; if (c[i] == 0 || i + 1 + k > c.size()) break; c[i]--; c.erase(c.begin() + i + 1, c.begin() + i + 1 + k); if (tryIt(c)) { progress = true; break; } }
    }
  }
  return best;
}

std::string jstr(const std::string& s)
{ std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }

// a failing case found elsewhere (by the fuzzer): shrinks it and writes it back; 1 when it fails here too
int shrinkFile(const std::string& path)
{
  std::ifstream f(path); std::string tok, prop, part; std::vector<uint64_t> v;
  while (f >> tok) { if (tok == "property") f >> prop; else if (tok == "part") f >> part; else if (tok == "draws") { uint64_t n; f >> n; for (uint64_t i = 0; i < n; ++i) { uint64_t x; f >> x; v.push_back(x); } } else std::getline(f, tok); }
  for (const Part& p : parts()) {
    if (prop != p.property || part != p.name) continue;
    currentProperty = prop; knownList(); sh = newShared();
    Outcome o = runIsolated(p, v); if (o.st != FAILED) return 0;
    v = shrink(p, v, 60); std::string log; o = runIsolated(p, v, nullptr, &log);
    FILE* g = fopen(path.c_str(), "w"); if (!g) return 2;
    fprintf(g, "property %s\npart %s\nmode draws\ndraws %zu\n", prop.c_str(), part.c_str(), v.size()); for (auto x : v) fprintf(g, "%llu ", (unsigned long long)x); fprintf(g, "\n"); fclose(g);
    printf("%s%s\n", log.c_str(), o.msg.c_str()); return 1;
  }
  return 2;
}
// starting inputs for the fuzzer: random cases in its encoding
int writeCorpus(const std::string& prop, const std::string& part, const std::string& dir, uint64_t seed, int count)
{
  for (size_t pi = 0; pi < parts().size(); ++pi) {
    const Part& p = parts()[pi]; if (prop != p.property || part != p.name) continue;
    currentProperty = prop; knownList();
    for (int i = 0; i < count; ++i) {
      sh = newShared(); pid_t pid = fork();
      if (pid == 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); Src s; s.seed_ = caseSeed(seed, pi, 1000000 + i); runOne(p, s); _exit(0); }
      bool hang; waitFor(pid, sh, hang); std::string o;
      for (size_t k = 0; k < sh->n && k < CAP && o.size() < 4000; ++k) { uint64_t v = sh->vals[k]; if (v < 248) { o += (char)v; continue; } int n = 1; while (n < 8 && (v >> (8 * n))) ++n; o += (char)(247 + n); for (int j = n - 1; j >= 0; --j) o += (char)(v >> (8 * j)); }
      std::ofstream(dir + "/seed" + std::to_string(i), std::ios::binary) << o; munmap(sh, sizeof(Shared));
    }
    return 0;
  }
  return 2;
}

int replayFile(const std::string& path)
{
  std::ifstream f(path); std::string tok, prop, part, mode; uint64_t seed = 0, w = 0, W = 1, upto = 0; std::vector<uint64_t> v;
  while (f >> tok) {
    if (tok == "property") f >> prop; else if (tok == "part") f >> part; else if (tok == "mode") f >> mode;
    else if (tok == "stream") f >> seed >> w >> W >> upto;
    else if (tok == "draws") { uint64_t n; f >> n; for (uint64_t i = 0; i < n; ++i) { uint64_t x; f >> x; v.push_back(x); } }
    else std::getline(f, tok);
  }
  for (size_t pi = 0; pi < parts().size(); ++pi) {
    const Part& p = parts()[pi]; if (prop != p.property || part != p.name) continue;
    currentProperty = prop; knownList();
    sh = newShared();
    if (mode == "stream") {
      pid_t pid = fork(); if (pid == 0) workerMain(p, pi, seed, w, W, upto + 1, nowS() + 1e9, tmpdir + "/w.out");
      bool hang; waitFor(pid, sh, hang);
      bool bad = !sh->finished; printf("%s\n", bad ? (sh->msg[0] ? sh->msg : "worker died") : "passed");
      if (bad) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
      return bad;
    }
    std::string log; Outcome o = runIsolated(p, v, nullptr, &log);
    printf("%s", log.c_str());
    if (o.st == FAILED) { printf("%s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(), prop.c_str(), path.c_str()); return 1; }
    printf("passed\n"); return 0;
  }
  fprintf(stderr, "replay file names no property of this binary\n"); return 2;
}
} // namespace
} // namespace pbt

#ifdef PBT_LIBFUZZER
// Coverage-guided mode: the input bytes are the draws.
namespace pbt { namespace { const Part* fuzzPart = nullptr; uint64_t fuzzRuns = 0, fuzzNontrivial = 0; std::unordered_set<uint64_t>* fuzzSeen;
struct FuzzStats { ~FuzzStats() {} };
void dumpStats() { const char* o = getenv("PBT_FUZZ_STATS"); if (!o) return; FILE* f = fopen(o, "w"); if (!f) return; fprintf(f, "{\"runs\": %llu, \"nontrivial\": %llu}\n", (unsigned long long)fuzzRuns, (unsigned long long)fuzzNontrivial); fclose(f); } } }
extern "C" int LLVMFuzzerInitialize(int*, char***)
{ using namespace pbt; sh = newShared(); fuzzSeen = new std::unordered_set<uint64_t>; const char* w = getenv("PBT_FUZZ_PART"); for (auto& p : parts()) if (w && std::string(p.property) + "." + p.name == w) { fuzzPart = &p; currentProperty = p.property; knownList(); } if (!fuzzPart) { fprintf(stderr, "set PBT_FUZZ_PART\n"); exit(2); } atexit(dumpStats); return 0; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
  using namespace pbt; std::vector<uint64_t> v; size_t i = 0;
  while (i < size) { uint8_t b = data[i++]; if (b < 248) v.push_back(b); else { size_t k = b - 247; uint64_t x = 0; for (size_t j = 0; j < k && i < size; ++j) x = x << 8 | data[i++]; v.push_back(x); } }
  Src s; s.replaying_ = true; s.in_ = &v; ++fuzzRuns;
  Status st = runOne(*fuzzPart, s);
  if (st == PASSED && s.nontrivial_) { uint64_t h = 1; for (size_t k = 0; k < sh->n && k < CAP; ++k) h = mix(h ^ sh->vals[k]); if (fuzzSeen->insert(h).second) ++fuzzNontrivial; }
  if (st == FAILED) { const char* d = getenv("PBT_FUZZ_FAIL"); if (d) { FILE* f = fopen(d, "w"); fprintf(f, "property %s\npart %s\nmode draws\ndraws %u\n", fuzzPart->property, fuzzPart->name, (unsigned)sh->n); for (size_t k = 0; k < sh->n; ++k) fprintf(f, "%llu ", (unsigned long long)sh->vals[k]); fprintf(f, "\n"); fclose(f); } fprintf(stderr, "FAILED: %s\n", sh->msg); dumpStats(); abort(); }
  return 0;
}
#else
int main(int argc, char** argv)
{
  using namespace pbt;
  std::string prop, tier = "quick", evid, rdir = ".", replay, shrinkIn, corpus, partName; uint64_t seed = 1; unsigned W = 6; double limit = 400; double scale = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = val(); else if (a == "--tier") tier = val(); else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--evidence") evid = val(); else if (a == "--replay-dir") rdir = val(); else if (a == "--replay") replay = val();
    else if (a == "--workers") W = atoi(val().c_str()); else if (a == "--time-limit") limit = atof(val().c_str()); else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--shrink") shrinkIn = val(); else if (a == "--corpus") corpus = val(); else if (a == "--part") partName = val();
    else if (a == "--list") { for (auto& p : parts()) printf("%s %s\n", p.property, p.name); return 0; }
  }
  char tmpl[] = "/tmp/pbt.XXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; } tmpdir = tmpl;
  struct Clean { ~Clean() { for (const char* n : {"iso.err", "iso.log", "w.out"}) unlink((tmpdir + "/" + n).c_str()); for (int i = 0; i < 64; ++i) { unlink((tmpdir + "/w" + std::to_string(i) + ".out").c_str()); unlink((tmpdir + "/w" + std::to_string(i) + ".err").c_str()); } rmdir(tmpdir.c_str()); } } clean;
  if (!replay.empty()) return replayFile(replay);
  if (!shrinkIn.empty()) return shrinkFile(shrinkIn);
  if (!corpus.empty()) return writeCorpus(prop, partName, corpus, seed, 40);
  double t0 = nowS(); uint64_t evals = 0, disc = 0, nontriv = 0; std::map<std::string, uint64_t> lab; std::vector<std::string> samples; std::string rules; std::map<std::string, uint64_t> perPart; int violations = 0; bool any = false; bool truncated = false;
  currentProperty = prop; knownList();
  unsigned nparts = 0; for (auto& p : parts()) if (prop == p.property) ++nparts;
  double deadlineAll = t0 + limit; unsigned partsDone = 0;
  for (size_t pi = 0; pi < parts().size() && !violations; ++pi) {
    const Part& p = parts()[pi]; if (prop != p.property) continue; any = true;
    uint64_t total = (uint64_t)((tier == "thorough" ? p.thorough : p.quick) * scale); if (total < 1) total = 1;
    double deadline = nowS() + (deadlineAll - nowS()) / (nparts - partsDone); ++partsDone;
    if (!rules.empty()) rules += " || ";
    rules += std::string(p.name) + ": " + p.rule;
    std::vector<Shared*> ms; std::vector<pid_t> pids;
    for (unsigned w = 0; w < W; ++w) {
      sh = newShared(); ms.push_back(sh); fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) { std::string e = tmpdir + "/w" + std::to_string(w) + ".err"; int fd = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); dup2(fd, 1); workerMain(p, pi, seed, w, W, total, deadline, tmpdir + "/w" + std::to_string(w) + ".out"); }
      pids.push_back(pid);
    }
    // wait for all; remember deaths
    std::vector<int> sts(W, 0); std::vector<bool> alive(W, true), hung(W, false); std::vector<uint64_t> beats(W, 0); std::vector<double> bt(W, nowS()); unsigned left = W;
    while (left) {
      for (unsigned w = 0; w < W; ++w) if (alive[w]) {
        if (waitpid(pids[w], &sts[w], WNOHANG) == pids[w]) { alive[w] = false; --left; continue; }
        if (ms[w]->beat != beats[w]) { beats[w] = ms[w]->beat; bt[w] = nowS(); }
        if (nowS() - bt[w] > HANG_WALL_S) { kill(pids[w], SIGKILL); waitpid(pids[w], &sts[w], 0); hung[w] = true; alive[w] = false; --left; }
      }
      usleep(2000);
    }
    int bad = -1; uint64_t bestIdx = UINT64_MAX; uint64_t partDone = 0, partDisc = 0;
    std::vector<uint64_t> nt;
    std::unordered_set<uint64_t> hs;
    for (unsigned w = 0; w < W; ++w) {
      partDone += ms[w]->done; partDisc += ms[w]->discarded;
      if (!ms[w]->finished) { if (ms[w]->caseIndex < bestIdx) { bestIdx = ms[w]->caseIndex; bad = (int)w; } continue; }
      std::ifstream f(tmpdir + "/w" + std::to_string(w) + ".out"); std::string k;
      while (f >> k) { if (k == "L") { uint64_t n; std::string l; f >> n; f.get(); std::getline(f, l); lab[std::string(p.name) + ": " + l] += n; } else if (k == "H") { std::string h; f >> h; hs.insert(strtoull(h.c_str(), nullptr, 16)); } else { uint64_t i; f >> i; nt.push_back(i); } }
    }
    evals += partDone; disc += partDisc; nontriv += hs.size(); perPart[p.name] = partDone; if (partDone + partDisc < total && bad < 0) truncated = true;
    if (bad >= 0) {
      Shared* m = ms[bad]; std::vector<uint64_t> draws(m->vals, m->vals + std::min<size_t>(m->n, CAP));
      std::string msg = m->status == FAILED ? std::string(m->msg) : describeDeath(sts[bad], hung[bad], tmpdir + "/w" + std::to_string(bad) + ".err");
      bool wasHang = hung[bad] || (WIFSIGNALED(sts[bad]) && WTERMSIG(sts[bad]) == SIGPROF);
      uint64_t idx = m->caseIndex;
      sh = newShared();
      Outcome o = runIsolated(p, draws);
      std::string mode = "draws";
      if (o.st == FAILED) { msg = o.msg; if (!wasHang) draws = shrink(p, draws, tier == "thorough" ? 60 : 30); }
      else mode = "stream";   // depends on what earlier cases left behind: replay the worker's whole stream
      int rep = 0; std::string log;
      for (int r = 0; r < 3; ++r) {
        if (mode == "draws") { Outcome q = runIsolated(p, draws, nullptr, &log); if (q.st == FAILED) { ++rep; msg = q.msg; } }
        else { memset(sh, 0, 256); pid_t pid = fork(); if (pid == 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); workerMain(p, pi, seed, bad, W, idx + 1, nowS() + 1e9, tmpdir + "/w.out"); } bool hang; waitFor(pid, sh, hang); if (!sh->finished && sh->caseIndex <= idx) ++rep; }
        if (wasHang && rep != r + 1) break;
      }
      if (rep == 3) {
        ++violations;
        mkdir(rdir.c_str(), 0755);
        std::string rf = rdir + "/" + prop + "-" + p.name + ".replay";
        std::ofstream f(rf); f << "property " << prop << "\npart " << p.name << "\nmode " << mode << "\n";
        if (mode == "stream") f << "stream " << seed << " " << bad << " " << W << " " << idx << "\n";
        else { f << "draws " << draws.size() << "\n"; for (auto x : draws) f << x << " "; f << "\n"; }
        f.close();
        printf("part %s, case %llu, minimal failing case:\n%s-> %s\n", p.name, (unsigned long long)idx, log.c_str(), msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rf.c_str()); fflush(stdout);
      } else printf("note: case %llu of part %s failed once (%s) and did not reproduce; not reported\n", (unsigned long long)idx, p.name, msg.c_str());
    } else {
      sh = newShared(); std::sort(nt.begin(), nt.end()); unsigned k = 0;
      for (auto i : nt) { if (k >= 2) break; // re-derive the draws of case i, then run it verbosely
        Src g; std::vector<uint64_t> d; pid_t pid; memset(sh, 0, 256); fflush(stdout);
        pid = fork(); if (pid == 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); std::map<std::string, uint64_t> l2; labels = &l2; g.seed_ = caseSeed(seed, pi, i); runOne(p, g); _exit(0); }
        bool hang; waitFor(pid, sh, hang); d.assign(sh->vals, sh->vals + std::min<size_t>(sh->n, CAP));
        std::string log; runIsolated(p, d, nullptr, &log); if (log.size() > 3000) log = log.substr(0, 3000) + "..."; samples.push_back(std::string(p.name) + " case " + std::to_string(i) + ":\n" + log); ++k; }
    }
    for (auto m : ms) munmap(m, sizeof(Shared));
  }
  if (!any) { fprintf(stderr, "no such property: %s\n", prop.c_str()); return 2; }
  double wall = nowS() - t0;
  printf("%s: %llu cases, %llu discarded, %llu distinct non-trivial, %.1f s%s\n", prop.c_str(), (unsigned long long)evals, (unsigned long long)disc, (unsigned long long)nontriv, wall, truncated ? " (stopped by the time limit)" : "");
  for (auto& l : lab) printf("  %-60s %llu\n", l.first.c_str(), (unsigned long long)l.second);
  for (auto& k : knownList()) { bool seen = false; for (auto& l : lab) if (l.first.size() > k.first.size() + 6 && l.first.compare(l.first.size() - k.first.size() - 6, std::string::npos, "KNOWN " + k.first) == 0) seen = true;
    if (seen) printf("KNOWN-FINDING: property=%s %s: %s\n", prop.c_str(), k.first.c_str(), k.second.c_str()); }
  if (!evid.empty()) {
    std::ofstream f(evid);
    f << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << nontriv << ",\n  \"rule\": " << jstr(rules) << ",\n  \"discarded\": " << disc << ",\n  \"stopped_by_time_limit\": " << (truncated ? "true" : "false") << ",\n  \"cases_per_part\": {";
    bool first = true; for (auto& x : perPart) { f << (first ? "" : ", ") << jstr(x.first) << ": " << x.second; first = false; }
    f << "},\n  \"labels\": {"; first = true; for (auto& x : lab) { f << (first ? "" : ", ") << jstr(x.first) << ": " << x.second; first = false; }
    f << "},\n  \"samples\": ["; first = true; for (auto& x : samples) { f << (first ? "" : ", ") << jstr(x); first = false; }
    f << "]\n },\n \"violations\": " << violations << ",\n \"wall_s\": " << wall << "\n}\n";
  }
  return violations ? 1 : 0;
}
#endif
