// Small common part of the runtime drivers: violation lines, statistics, crash reporting.
#pragma once
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>
static unsigned long long n_hist, n_steps, n_viol;
static std::unordered_set<size_t> g_states, g_outcomes;
static std::string g_cur;                 // the case being run
static bool g_live;
static std::string F(const char *fmt, ...) {
  va_list a; va_start(a, fmt); char *p = nullptr; if (vasprintf(&p, fmt, a) < 0) abort(); va_end(a); std::string s(p); free(p); return s;
}
static std::string clean(const std::string &s) { std::string r; for (unsigned char c : s) { if (c < 32 || c > 126) r += F("\\x%02x", c); else r += c; } return r.size() > 900 ? r.substr(0, 900) + "..." : r; }
static void stats() { printf("STATS {\"histories\":%llu,\"steps\":%llu,\"states\":%zu,\"outcomes\":%zu,\"viol\":%llu}\n", n_hist, n_steps, g_states.size(), g_outcomes.size(), n_viol); fflush(stdout); }
static void viol(const std::string &key, const std::string &why) {
  if (n_viol++ < 20) { printf("VIOL x %s :: %s\n", key.c_str(), clean(why).c_str()); fflush(stdout); }
  if (n_viol > 200) { stats(); _exit(0); }
}
static void onsig(int s) { printf("VIOL crash %s :: signal %d\n", g_cur.c_str(), s); fflush(stdout); _exit(0); }
static void onexit_() { if (g_live) { printf("VIOL exit %s :: the process was ended by the code under test\n", g_cur.c_str()); fflush(stdout); _exit(0); } }
static void drv_init(bool sig = true) { if (sig) for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGALRM}) signal(s, onsig); atexit(onexit_); setvbuf(stdout, nullptr, _IOFBF, 1 << 16); }
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)());
static void ondeath() { printf("VIOL memory %s :: the sanitizer reported a memory error (see its report)\n", g_cur.c_str()); fflush(stdout); }
struct Death_ { Death_() { __sanitizer_set_death_callback(ondeath); } } death_;
#endif
static size_t H(const std::string &s) { return std::hash<std::string>()(s); }
static std::vector<std::string> splitc(const std::string &s) { std::vector<std::string> r; std::string c; for (char x : s) { if (x == ',') { r.push_back(c); c.clear(); } else c += x; } if (!c.empty()) r.push_back(c); return r; }
