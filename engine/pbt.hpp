// Small property-based testing frame: isolated exploration, replay, structural shrinking. A case is a list of int lists.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <vector>
#include <string>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "poison.hpp"
namespace pbt {
struct Rng {
  uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int in(int a, int b) { return a + below(b - a + 1); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool p(double x) { return u() < x; }
  int pick(std::initializer_list<double> w) { double t = 0; for (double x : w) t += x; double r = u() * t; int i = 0; for (double x : w) { r -= x; if (r < 0) return i; ++i; } return (int)w.size() - 1; }
};
typedef std::vector<int> Op; typedef std::vector<Op> Ops;
struct Info { std::map<std::string, long> feats; bool nontrivial; long steps; Info() : nontrivial(false), steps(0) {} void f(const char* n) { ++feats[n]; } };
// supplied by the harness ---------------------------------------------------------------
Ops generate(Rng& r, const std::string& profile);
std::string execute(const Ops& ops, const std::string& profile, Info& info);   // "" = held
int minArg(int opKind, int position);     // smallest sensible value when shrinking (usually 0)
// -----------------------------------------------------------------------------------------
struct Shared { volatile long idx; char msg[800]; };
static Shared* shm = 0;
inline void note(const std::string& m) { if (shm && !shm->msg[0]) strncpy(shm->msg, m.c_str(), sizeof shm->msg - 1); }
inline std::string text(const Ops& o) { std::ostringstream s; for (auto& x : o) { for (size_t i = 0; i < x.size(); ++i) s << (i ? " " : "") << x[i]; s << "\n"; } return s.str(); }
inline Ops parse(std::istream& in) { Ops r; std::string l; while (std::getline(in, l)) { std::istringstream s(l); Op o; int x; while (s >> x) o.push_back(x); if (!o.empty()) r.push_back(o); } return r; }
inline void lim(int cpu) {
  struct rlimit l; l.rlim_cur = l.rlim_max = 0; setrlimit(RLIMIT_CORE, &l);
  if (cpu) { l.rlim_cur = cpu; l.rlim_max = cpu + 1; setrlimit(RLIMIT_CPU, &l); }
#ifndef VERIF_SAN
  l.rlim_cur = l.rlim_max = 3ul << 30; setrlimit(RLIMIT_AS, &l);
#endif
}
struct Iso { int code; std::string msg; };
static std::string g_profile;
inline Iso isolated(const Ops& o) {
  shm->msg[0] = 0; fflush(0);
  pid_t p = fork();
  if (p == 0) { lim(15); freopen("/dev/null", "w", stderr); alarm(40); std::string w;
#ifdef PBT_REPEAT
    time_t t0 = time(0); for (int k = 0; k < PBT_REPEAT && w.empty() && time(0) - t0 < 5; ++k)
#endif
    { Info i; w = execute(o, g_profile, i); }
    if (!w.empty()) { shm->msg[0] = 0; note(w); } _exit(w.empty() ? 0 : 2); }
  int st = 0; waitpid(p, &st, 0); Iso r; r.msg = shm->msg; r.code = 0;
  if (WIFEXITED(st)) { r.code = WEXITSTATUS(st); if (r.code != 0 && r.code != 2) { if (r.msg.empty()) r.msg = "process exit (sanitizer report?)"; r.code = 2; } }
  else { int sg = WTERMSIG(st); r.code = 2; if (sg == SIGKILL || sg == SIGXCPU || sg == SIGALRM) r.msg = "hang: the operation does not end"; else r.msg += std::string(" crash: signal ") + strsignal(sg); }
  return r;
}
#ifdef PBT_REPEAT
static const int shrinkSecs = 20;
#else
static const int shrinkSecs = 60;
#endif
inline Ops shrink(Ops c) {
  int runs = 0; time_t t0 = time(0); bool again = true;
  auto tryc = [&](const Ops& d) { if (runs++ > 1500 || time(0) - t0 > shrinkSecs) return false; if (isolated(d).code == 2) { c = d; again = true; return true; } return false; };
  while (again && runs < 1500) {
    again = false;
    for (size_t sz = (c.size() + 1) / 2; sz >= 1; sz /= 2) for (size_t i = 0; i + sz <= c.size();) { Ops d = c; d.erase(d.begin() + i, d.begin() + i + sz); if (!tryc(d)) i += sz; }
    for (size_t i = 0; i < c.size(); ++i) for (size_t j = 1; j < c[i].size(); ++j) {
      int m = minArg(c[i][0], (int)j); if (c[i][j] > m) { Ops d = c; d[i][j] = m; if (!tryc(d) && c[i][j] > m + 1) { d = c; d[i][j] = (c[i][j] + m) / 2; tryc(d); } }
    }
  }
  return c;
}
inline std::string jesc(const std::string& s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if ((unsigned char)ch < 32) r += ' '; else r += ch; } return r; }
inline int main_(int argc, char** argv) {
  std::map<std::string, std::string> A; for (int i = 1; i + 1 < argc; i += 2) A[argv[i]] = argv[i + 1];
  g_profile = A["--prof"];
  shm = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (A.count("--replay")) { std::ifstream in(A["--replay"].c_str()); Ops o = parse(in); Iso r = isolated(o); printf("%s %s\n", r.code == 2 ? "FAIL" : "OK", r.msg.c_str()); return r.code == 2 ? 1 : 0; }
  uint64_t seed = strtoull(A["--seed"].c_str(), 0, 10); long cases = atol(A["--cases"].c_str()); double secs = atof(A["--secs"].c_str()); int worker = atoi(A["--worker"].c_str());
  auto mk = [&](long i) { Rng r(seed * 1000003ull + (uint64_t)worker * 7919ull * 1000000007ull + (uint64_t)i); return generate(r, g_profile); };
  fflush(0);
  pid_t p = fork();
  if (p == 0) {
    lim(0); if (!getenv("VERIF_ERR")) freopen("/dev/null", "w", stderr);
    std::map<std::string, long> fc; long nontriv = 0, steps = 0; std::unordered_set<uint64_t> uniq; std::vector<std::string> samples;
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0); long i = 0;
    for (; i < cases; ++i) {
      if (secs > 0 && (i & 7) == 0) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); if (t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break; }
      shm->idx = i; shm->msg[0] = 0;
#ifdef PBT_REPEAT
      alarm(120);   // cases with real threads: time limit per case, the machine may be busy
#endif
      if ((i & 63) == 0) { struct rlimit l; struct rusage u; getrusage(RUSAGE_SELF, &u); l.rlim_cur = u.ru_utime.tv_sec + u.ru_stime.tv_sec + 25; l.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_CPU, &l); alarm(120); }
      Ops o = mk(i); Info inf; std::string w = execute(o, g_profile, inf);
      if (!w.empty()) { shm->msg[0] = 0; note(w); _exit(10); }
      steps += inf.steps; for (auto& x : inf.feats) fc[x.first] += x.second;
      if (inf.nontrivial) { ++nontriv; std::string t = text(o); uint64_t h = 1469598103934665603ull; for (char ch : t) { h ^= (unsigned char)ch; h *= 1099511628211ull; } if (uniq.insert(h).second && samples.size() < 2 && i > 3) samples.push_back(t); }
    }
    FILE* f = fopen(A["--stats"].c_str(), "w");
    fprintf(f, "{\"cases\": %ld, \"ops\": %ld, \"nontrivial\": %ld, \"distinct\": %zu, \"features\": {", i, steps, nontriv, uniq.size());
    bool first = true; for (auto& x : fc) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", x.first.c_str(), x.second); first = false; }
    fprintf(f, "}, \"samples\": ["); for (size_t k = 0; k < samples.size(); ++k) fprintf(f, "%s\"%s\"", k ? ", " : "", jesc(samples[k]).c_str()); fprintf(f, "]}\n"); fclose(f);
    if (A.count("--uniq")) { FILE* u = fopen(A["--uniq"].c_str(), "wb"); for (uint64_t h : uniq) fwrite(&h, 8, 1, u); fclose(u); }
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  std::string m0 = shm->msg; long bad = shm->idx; Ops c = mk(bad);
  int n = 0; for (int k = 0; k < 3; ++k) if (isolated(c).code == 2) ++n;
#ifdef PBT_REPEAT
  // real threads: the oracle holds for every schedule, so one failing schedule is enough (but a hang has to be seen again)
  if (n < 3 && (n > 0 || WIFEXITED(st))) { printf("FAIL case=%ld %s (depends on the schedule: failed again in %d of 3 repetitions)\n", bad, m0.empty() ? "process exit (sanitizer report?)" : m0.c_str(), n); FILE* f = fopen(A["--viol"].c_str(), "w"); std::string t = text(c); fwrite(t.data(), 1, t.size(), f); fclose(f); return 1; }
#endif
  if (n < 3) { printf("case %ld failed in the stream (status %x, %s) but only %d/3 times alone\n", bad, st, m0.c_str(), n); FILE* f = fopen(A["--viol"].c_str(), "w"); std::string t = text(c); fwrite(t.data(), 1, t.size(), f); fclose(f); return 5; }
  Ops s = shrink(c); for (int k = 0; k < 3; ++k) if (isolated(s).code != 2) { s = c; break; }
  Iso r = isolated(s); FILE* f = fopen(A["--viol"].c_str(), "w"); std::string t = text(s); fwrite(t.data(), 1, t.size(), f); fclose(f);
  printf("FAIL case=%ld %s\n", bad, r.msg.c_str());
  return 1;
}
}
#ifdef BOOST_ENABLE_ASSERT_HANDLER
namespace boost {
inline void verif_assert(char const* e, char const* file, long line) {
  char b[400]; const char* f = strrchr(file, '/'); snprintf(b, sizeof b, "assertion %.200s failed at %.60s:%ld", e, f ? f + 1 : file, line);
  if (pbt::shm) { pbt::shm->msg[0] = 0; pbt::note(b); } _exit(43);
}
#ifndef PBT_OWN_ASSERT
void assertion_failed(char const* e, char const*, char const* file, long line) { verif_assert(e, file, line); }
void assertion_failed_msg(char const* e, char const*, char const*, char const* file, long line) { verif_assert(e, file, line); }
#endif
}
#endif
#ifndef VERIF_NO_POISON
static void verif_badmem(const char* w) { if (pbt::shm) { pbt::shm->msg[0] = 0; pbt::note(w); } _exit(44); }
#endif
int main(int argc, char** argv) {
#ifndef VERIF_NO_POISON
  poison::onBad = verif_badmem;
#endif
  return pbt::main_(argc, argv);
}
#endif
