// Small run-time monitoring framework shared by all harnesses.
// One process runs a range of cases; every observation goes, one line at a time, to the report file, so that
// a crash or hang of the code under test can be attributed to the case that was running.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <array>
#include <numeric>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace vf {

struct Rng {                       // splitmix64: independent of the generators of the code under test
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  int in(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }   // inclusive
  bool p(double q) { return u() < q; }
  template <class T> void shuffle(std::vector<T> &v) { for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[in(0, i)]); }
  template <class T> T &pick(std::vector<T> &v) { return v[in(0, (int)v.size() - 1)]; }
};

inline int fd_ = -1;
inline long case_ = -1, nviol_ = 0;
inline int tier_ = 0;             // 0 quick, 1 thorough
inline uint64_t seed_ = 1;
inline int limit_cpu_ = 10;       // CPU seconds per case
inline std::map<std::string, double> counters_;
inline std::string stage_;
inline bool debug_ = false;

inline void emit(const std::string &s) { std::string t = s + "\n"; ssize_t r = write(fd_, t.data(), t.size()); (void)r; }
inline std::string fmtv(const char *f, va_list ap) { char b[4096]; vsnprintf(b, sizeof b, f, ap); for (char *p = b; *p; p++) if (*p == '\n') *p = ' '; return b; }
inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap); return s; }
inline void viol(const std::string &key, const char *f, ...) {
  va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap);
  if (nviol_++ < 200) emit("V " + key + " | " + s);
}
inline void count(const char *n, double k = 1) { counters_[n] += k; }
inline uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
// records the input of the case; `nontrivial` says whether the case counts as one
inline void input(const std::string &desc, bool nontrivial) {
  emit(fmt("H %016llx %d", (unsigned long long)hash_str(desc), nontrivial ? 1 : 0));
  static int ns = 0; if (ns < 2 && nontrivial) { ns++; emit("E " + desc.substr(0, 700)); }
}
inline void stage(const char *s) { stage_ = s; emit(std::string("G ") + s); }   // names what is about to run, for crash keys
inline bool close(double a, double b, double tol = 1e-9) {
  if (std::isnan(a) && std::isnan(b)) return true;
  if (std::isnan(a) || std::isnan(b)) return false;
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol * (1.0 + std::max(std::fabs(a), std::fabs(b)));
}
#define CHECK(cond, key, ...) do { vf::count("oracle.checks"); if (!(cond)) vf::viol(key, __VA_ARGS__); } while (0)
#define CHECK_NEAR(a, b, tol, key, what) do { vf::count("oracle.checks"); double a_ = (a), b_ = (b); if (!vf::close(a_, b_, tol)) vf::viol(key, "%s: got %.12g expected %.12g", std::string(what).c_str(), a_, b_); } while (0)

inline void on_timer(int) { char b[64]; int n = snprintf(b, sizeof b, "T %ld\n", case_); ssize_t r = write(fd_, b, n); (void)r; _exit(97); }
inline void arm(int secs) {
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &it, nullptr);
}
}  // namespace vf

// provided by each harness
long n_cases(int tier);
void run_case(long k, vf::Rng &r);

int main(int argc, char **argv) {
  long from = 0, to = -1; std::string out, err = "/dev/null";
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i]; const char *v = argv[i + 1];
    if (a == "--seed") vf::seed_ = strtoull(v, 0, 10);
    else if (a == "--tier") vf::tier_ = !strcmp(v, "thorough");
    else if (a == "--from") from = atol(v);
    else if (a == "--to") to = atol(v);
    else if (a == "--out") out = v;
    else if (a == "--err") err = v;
    else if (a == "--cpu") vf::limit_cpu_ = atoi(v);
    else if (a == "--debug") vf::debug_ = atoi(v);
  }
  if (out == "count") { printf("%ld\n", n_cases(vf::tier_)); return 0; }
  if (out.empty()) { vf::fd_ = dup(2); vf::debug_ = true; }
  else vf::fd_ = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (vf::fd_ < 0) { perror("report"); return 3; }
  if (to < 0) to = n_cases(vf::tier_);
  if (!vf::debug_) { int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); int en = open(err.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); dup2(en, 2); }
  signal(SIGPROF, vf::on_timer);
  for (long k = from; k < to; k++) {
    vf::case_ = k; vf::emit(vf::fmt("C %ld", k));
    vf::Rng r(vf::seed_ * 0x9E3779B97F4A7C15ull + (uint64_t)k * 0xD1B54A32D192ED03ull + 12345); r.next(); r.next();
    vf::arm(vf::limit_cpu_);
    run_case(k, r);
  }
  vf::arm(0);
  for (auto &c : vf::counters_) vf::emit(vf::fmt("K %s %.17g", c.first.c_str(), c.second));
  vf::emit("END");
  fflush(nullptr);
  _exit(0);
}
