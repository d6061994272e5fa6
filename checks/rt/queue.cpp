// R07: the expectation queues (C and C++) under address and leak checking against a list.
#include "drv.hpp"
#include "easyMock_hxa.h"
#include "easyMock_hxb.h"
#include "easyMock_hxc.h"
#include <easyMock.h>
#include <MockedFunction.h>
#include <fcntl.h>
#include <sys/wait.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __lsan_do_recoverable_leak_check();
static size_t allocated() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t allocated() { return 0; }
static int __lsan_do_recoverable_leak_check() { return 0; }
#endif
static std::vector<unsigned char> blk(size_t sz, unsigned serial) { std::vector<unsigned char> v(sz); for (size_t i = 0; i < sz; i++) v[i] = (unsigned char)(serial * 151 + i * 13 + (serial >> 8) + 1); return v; }
struct Obj { int a; std::string s; std::vector<int> v; };
static Obj mk(unsigned serial) { Obj o; o.a = serial; o.s = std::string(serial % 40, (char)('a' + serial % 26)); o.v.assign(serial % 5, serial); return o; }
static bool eq(const Obj &x, const Obj &y) { return x.a == y.a && x.s == y.s && x.v == y.v; }

template <class Q> struct Ops;
struct CQ { MockedFunction m; size_t sz; 
  void init(size_t s) { sz = s; MockedFunction_init(&m, "queue", s); }
  void add(unsigned n) { auto *b = (unsigned char *)malloc(sz); auto v = blk(sz, n); memcpy(b, v.data(), sz); MockedFunction_addExpectedCall(&m, b); memset(b, 0xee, sz); free(b); }
  bool call() { return MockedFunction_addActualCall(&m); }
  bool get(unsigned want, std::string &why) { auto *b = (unsigned char *)malloc(sz); memset(b, 0x11, sz); bool r = MockedFunction_getCurrentCallParam(&m, b); auto v = blk(sz, want); if (!r) why = "no data for a served call"; else if (memcmp(b, v.data(), sz)) { r = false; why = "the data of the call is not what was queued for it"; } free(b); return r; }
  bool getempty() { auto *b = (unsigned char *)malloc(sz); bool r = MockedFunction_getCurrentCallParam(&m, b); free(b); return r; }
  void reset() { MockedFunction_reset(&m); }
  bool verify() { return MockedFunction_verify(&m); }
  unsigned nb() { return MockedFunction_getNbActualCall(&m); }
  const char *name() { return MockedFunction_getName(&m); }
  static const unsigned cap = EASYMOCK_MAX_MOCKED_CALL;
};
struct XQ { MockedCppFunction<Obj> m;
  void init(size_t) { MockedFunction_init(&m, "queue", (easyMock_size_t)sizeof(Obj)); }
  void add(unsigned n) { Obj o = mk(n); MockedFunction_addExpectedCall(&m, &o); o.a = -1; o.s = "gone"; }
  bool call() { return MockedFunction_addActualCall(&m); }
  bool get(unsigned want, std::string &why) { Obj o; if (!MockedFunction_getCurrentCallParam(&m, &o)) { why = "no data for a served call"; return false; } if (!eq(o, mk(want))) { why = "the data of the call is not what was queued for it"; return false; } return true; }
  bool getempty() { return false; }
  void reset() { MockedFunction_reset(&m); }
  bool verify() { return MockedFunction_verify(&m); }
  unsigned nb() { return MockedFunction_getNbActualCall(&m); }
  const char *name() { return MockedFunction_getName(&m); }
  static const unsigned cap = 1u << 30;
};
// ops: a add, c call (+ read its data), r reset, v verify; a digit string repeats the op before it: a256
template <class Q> static void run(const char *kind, size_t sz, const std::string &ops) {
  g_cur = F("%s:%zu:%s", kind, sz, ops.c_str()); g_live = true; n_hist++;
  easyMock_init();
  size_t base = allocated();
  {
    Q q; q.init(sz); unsigned serial = 0, e = 0, c = 0, first = 0; std::string why;
    for (size_t i = 0; i < ops.size();) {
      char o = ops[i++]; int rep = 1; if (i < ops.size() && isdigit(ops[i])) { rep = 0; while (i < ops.size() && isdigit(ops[i])) rep = rep * 10 + ops[i++] - '0'; }
      for (int k = 0; k < rep && why.empty(); k++) {
        n_steps++;
        if (o == 'a') { q.add(serial++); e++; }
        else if (o == 'c') { bool s = q.call(); c++; if (s != (c <= e)) why = F("call %u with %u expectations was %sserved", c, e, s ? "" : "not "); else if (s) q.get(first + c - 1, why); }
        else if (o == 'r') { q.reset(); e = c = 0; first = serial; }
        else if (o == 'v') { bool v = q.verify(); if (v != (e == c)) why = F("verify says %d with %u expected and %u called", v, e, c); }
        if (q.nb() != c) why = F("the number of calls is %u, should be %u", q.nb(), c);
        if (strcmp(q.name(), "queue")) why = "the name changed";
        g_states.insert(H(F("%s %u %u %u", kind, (unsigned)sz, e, c)));
      }
    }
    if (!why.empty()) viol(g_cur, why);
    q.reset();
  }
  easyMock_init();
  unsigned dummy; easyMock_getErrorArr(&dummy); 
  size_t after = allocated();
  g_outcomes.insert(H(F("%zu", after - base)));
  g_live = false;
  if (n_hist % 512 == 0 && __lsan_do_recoverable_leak_check()) viol(g_cur, "memory leaked by this or one of the 512 cases before it");
}
static void rungeneric(const std::string &key) { auto p = key.find(':'), r = key.find(':', p + 1); std::string k = key.substr(0, p); size_t sz = atoi(key.c_str() + p + 1); if (k == "c") run<CQ>("c", sz, key.substr(r + 1)); else run<XQ>("x", sz, key.substr(r + 1)); }
// one expectation too many: the process must end with a non-zero status and say something
static void over(int which, int calls) {
  g_cur = F("over:%d:%d", which, calls); n_hist++;
  int fd[2]; if (pipe(fd)) abort();
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    dup2(fd[1], 2); dup2(fd[1], 1); g_live = false;
    CQ q; q.init(24); easyMock_setPrintCallStack(easyMock_false); easyMock_init();
    auto add = [&](int i) { if (which == 0) q.add(i); else if (which == 1) hx_i_ExpectAndReturn(i, i, i, 0, 0); else hx_v_ExpectAndReturn(); };
    auto call = [&](int i) { std::string w; if (which == 0) { if (!q.call() || !q.get(i, w)) _exit(0); } else if (which == 1) { if (hx_i(0, 0) != i) _exit(0); } else hx_v(); };
    for (int i = 0; i < 256; i++) { add(i); if (i < calls) call(i); }
    add(256);
    _exit(0);   // not refused
  }
  close(fd[1]); std::string out; char b[256]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) out.append(b, k); close(fd[0]);
  int st; waitpid(p, &st, 0); n_steps += 257 + calls;
  g_outcomes.insert(H(F("over %d", st)));
  if (!WIFEXITED(st) || WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 77) viol(g_cur, F("queueing one expectation more than the capacity ended with wait status %#x instead of a non-zero exit: %s", st, out.c_str()));
  else if (out.empty()) viol(g_cur, "the process ended without any message");
}
static int shard, nsh;
int main(int argc, char **argv) {
  drv_init(false);
  std::string mode = argv[1];
  easyMock_setPrintCallStack(easyMock_false); easyMock_init();
  if (mode == "replay") { std::string k = argv[2]; if (k.rfind("over", 0) == 0) over(k[5] - '0', atoi(k.c_str() + 7)); else rungeneric(k); if (__lsan_do_recoverable_leak_check()) viol(k, "memory leaked"); stats(); return 0; }
  int depth = atoi(argv[2]); shard = atoi(argv[3]); nsh = atoi(argv[4]);
  unsigned c = 0;
  if (mode == "seq") {
    long tot = 1; for (int i = 0; i < depth; i++) tot *= 4;
    for (long t = 0; t < tot; t++) { if ((int)(t % nsh) != shard) continue; std::string s; long x = t; for (int i = 0; i < depth; i++, x /= 4) s += "acrv"[x % 4]; size_t szs[] = {1, 8, 24, 100}; run<CQ>("c", szs[t / nsh % 4], s); run<XQ>("x", 1, s); }
  } else if (mode == "size") {
    for (int sz = 1; sz <= depth; sz++) if (sz % nsh == shard) for (const char *s : {"a3c2a2c3v", "a5rc1a2c2v", "aca2c2cr", "a20c20rv"}) run<CQ>("c", sz, s);
    for (int sz : {1023, 1024, 4095, 4096, 4097, 65536, 1 << 20}) if ((int)(c++ % nsh) == shard) run<CQ>("c", sz, "a3c2a2c3v");
  } else if (mode == "fill") {
    for (int e = 0; e <= 256; e++) for (int k = 0; k <= e + 2; k += (k < 4 || k > e - 4 || depth > 1) ? 1 : e / 8 + 1) { if ((int)(c++ % nsh) != shard) continue; run<CQ>("c", 24, F("a%dc%dv", e, k)); run<CQ>("c", 16, F("a%dc%dra%dc%dv", e, k, e, k)); run<XQ>("x", 1, F("a%dc%drva%dc%dv", e, k, k, e)); }
    if (shard == 0) for (int e : {257, 300, 512, 1000, 1024, 5000}) run<XQ>("x", 1, F("a%dc%dv", e, e + 1));
  } else if (mode == "over") { for (int w = 0; w < 3; w++) for (int k = 0; k <= 256; k++) if ((int)(c++ % nsh) == shard && (k < 3 || k > 253 || k % depth == 0)) over(w, k); }
  if (__lsan_do_recoverable_leak_check()) viol(g_cur, "memory leaked");
  stats();
  fflush(stdout); _exit(0);
}
