// Runtime of the replay engines: seeded generator, failing-case report, time budget.
#pragma once
#include <fcntl.h>
#include <exception>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <chrono>
#include <functional>
#include <string>
#include <vector>
#if __has_include(<sanitizer/common_interface_defs.h>)
#include <sanitizer/common_interface_defs.h>
#endif
namespace rt {
inline std::string& desc() { static std::string s; return s; }
inline std::string& path() { static std::string s; return s; }
inline std::string& dir() { static std::string s; return s; }
inline uint64_t& cases() { static uint64_t n = 0; return n; }
inline double& budget() { static double b = 5; return b; }
inline std::chrono::steady_clock::time_point& t0() { static auto t = std::chrono::steady_clock::now(); return t; }
inline uint64_t& st() { static uint64_t s = 88172645463325252ULL; return s; }
inline uint64_t rnd() { uint64_t& s = st(); s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ULL; }
inline size_t below(size_t n) { return n ? (rnd() >> 11) % n : 0; }
inline bool chance(int p) { return below(100) < (size_t)p; }
template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
inline std::string show(const std::string& s) {
  std::string o = "\""; char b[8];
  for (unsigned char c : s) {
    if (c >= 32 && c < 127 && c != '"' && c != '\\') o += (char)c;
    else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  return o + "\"";
}
inline bool& failing() { static bool f = false; return f; }
inline void report(const char* why) {
  if (failing()) return;
  failing() = true;
  int fd = ::creat(path().c_str(), 0644);
  if (fd >= 0) {
    std::string t = std::string(why) + "\n" + desc() + "\n";
    (void)!write(fd, t.data(), t.size());
    ::close(fd);
  }
}
[[noreturn]] inline void fail(const std::string& why) {
  report(why.c_str());
  fprintf(stderr, "FAIL %s\n%s\n", why.c_str(), desc().c_str());
  fflush(stderr);
  _exit(77);
}
inline void onalarm(int) { report("does not terminate (no progress in 20 s)"); _exit(77); }
inline void onsig(int s) { report("crash (signal)"); _exit(77); }
inline void ondeath() { report("memory error or undefined behaviour (sanitizer)"); }
inline void onterm() { report("uncaught exception"); _exit(77); }
// call before every case: the text that identifies the input
inline void begin(const std::string& d) { desc() = d; cases()++; if ((cases() & 1023) == 0) alarm(20); }
inline bool more() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0()).count() < budget(); }
inline bool within(double f) { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0()).count() < budget() * f; }
inline std::vector<std::string>& knownv() { static std::vector<std::string> v; return v; }
inline void known(const std::string& k) { for (auto& x : knownv()) if (x == k) return; knownv().push_back(k); }
inline void init(int argc, char** argv) {
  t0();
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  st() = 88172645463325252ULL ^ (seed * 0x9E3779B97F4A7C15ULL);
  for (int i = 0; i < 16; i++) rnd();
  if (argc > 2) budget() = atof(argv[2]);
  path() = argc > 3 ? argv[3] : "/dev/null";
  dir() = argc > 4 ? argv[4] : ".";
  signal(SIGALRM, onalarm);
  alarm(20);
  std::set_terminate(onterm);
  __sanitizer_set_death_callback(ondeath);
}
inline int done() {
  std::string k;
  for (auto& x : knownv()) { if (!k.empty()) k += ", "; std::string e; for (char c : x) { if (c == '"' || c == '\\') e += '\\'; e += c; } k += "\"" + e + "\""; }
  printf("STATS {\"cases\": %llu, \"known\": [%s]}\n", (unsigned long long)cases(), k.c_str());
  return 0;
}
#define CHECK(c, why) do { if (!(c)) rt::fail(why); } while (0)
// random string over an alphabet
inline std::string word(const std::string& alpha, size_t maxlen) {
  std::string s; size_t n = below(maxlen + 1);
  for (size_t i = 0; i < n; i++) s += alpha[below(alpha.size())];
  return s;
}
// all strings over alpha with length <= n
inline void allwords(const std::string& alpha, size_t n, const std::function<bool(const std::string&)>& f) {
  std::vector<std::string> cur{""};
  for (size_t l = 0; l <= n; l++) {
    std::vector<std::string> nx;
    for (auto& s : cur) { if (!f(s)) return; if (l < n) for (char c : alpha) nx.push_back(s + c); }
    cur.swap(nx);
  }
}
}  // namespace rt
