// Exhaustive exploration of operation histories of generated mocks against the reference model in hist.hpp.
// usage: hist <mode> <depth> <shard> <nshards>   |   hist replay <history>
#include "hist.hpp"
#include <csignal>
#include <unistd.h>
static unsigned long long n_hist, n_steps, n_viol;
static std::unordered_set<size_t> g_states;
static std::unordered_set<size_t> g_outcomes;
static std::vector<Op> cur;
static void viol(const char *tag, const std::vector<Op> &h, size_t upto, const std::string &why) {
  std::vector<Op> p(h.begin(), h.begin() + upto + 1);
  if (n_viol++ < 5) { printf("VIOL %s %s :: %s\n", tag, histstr(p).c_str(), why.c_str()); fflush(stdout); }
  if (n_viol > 200) { printf("STATS {\"histories\":%llu,\"steps\":%llu,\"states\":%zu,\"outcomes\":%zu,\"viol\":%llu}\n", n_hist, n_steps, g_states.size(), g_outcomes.size(), n_viol); fflush(stdout); _exit(0); }
}
static bool g_track = true;
static const std::vector<Op> *g_running;
static size_t g_at;
static void onsig(int s) {
  // the code under test crashed in the middle of a history: that history is the counterexample
  std::vector<Op> p(g_running->begin(), g_running->begin() + g_at + 1);
  printf("VIOL crash %s :: signal %d\n", histstr(p).c_str(), s); fflush(stdout); _exit(0);
}
static void onexit() {
  if (!g_running) return;
  std::vector<Op> p(g_running->begin(), g_running->begin() + g_at + 1);
  printf("VIOL exit %s :: the mock ended the process\n", histstr(p).c_str()); fflush(stdout); _exit(0);
}
static void runhist(const char *tag, const std::vector<Op> &h, bool order0 = false) {
  easyMock_setCheckCallsOrder(order0);
  easyMock_init();
  Model m; m.order = order0;
  Fail f;
  n_hist++;
  g_running = &h;
  for (size_t i = 0; i < h.size(); i++) {
    g_at = i;
    n_steps++;
    step(m, h[i], f);
    if (!f.bad && i + 1 == h.size()) cmpstr(m, f);
    if (f.bad) { viol(tag, h, i, f.why); break; }
    if (g_track) g_states.insert(modelhash(m));
  }
  g_running = nullptr;
  if (g_track) { size_t x = m.err.size(); for (auto &e : m.err) x = x * 31 + std::hash<std::string>()(e); g_outcomes.insert(x); }
}
static int shard, nshards; static unsigned long long ctr;
static void enumerate(const char *tag, const std::vector<Op> &al, int depth, std::vector<Op> &h, const std::vector<Op> &suffix) {
  if (depth == 0) {
    std::vector<Op> x = h; x.insert(x.end(), suffix.begin(), suffix.end());
    runhist(tag, x);
    return;
  }
  for (auto &o : al) {
    if (h.size() == 1 && (ctr++ % nshards) != (unsigned)shard) continue;
    h.push_back(o); enumerate(tag, al, depth - 1, h, suffix); h.pop_back();
  }
}
static std::vector<Op> alpha(std::initializer_list<int> fns, bool allvar, const char *extra) {
  std::vector<Op> a;
  for (int f : fns) for (int v = 0; v < (allvar ? NEXP[f] : 1); v++) a.push_back({'E', f, v});
  for (int f : fns) for (int v = 0; v < (allvar ? NCALL[f] : 1); v++) a.push_back({'C', f, v});
  for (; *extra; extra++) a.push_back({*extra, 0, 0});
  return a;
}
int main(int argc, char **argv) {
  std::string mode = argv[1];
  discover();
  signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); signal(SIGALRM, onsig);
  atexit(onexit);
  if (mode == "replay") {
    auto h = parsehist(argv[2]);
    bool order0 = argc > 3 && argv[3][0] == '1';
    runhist("replay", h, order0);
    printf("STATS {\"viol\":%llu}\n", n_viol);
    return 0;
  }
  int depth = atoi(argv[2]); shard = atoi(argv[3]); nshards = atoi(argv[4]);
  std::vector<Op> h, K = {{'K', 0, 0}};
  if (mode == "match") {            // R01: full expectation/call variants, every history of the given depth
    enumerate("match", alpha({F_I, F_V, F_O, F_F, F_M}, true, ""), depth, h, K);
  } else if (mode == "match3f") {   // R01: three functions, deeper
    enumerate("match3f", alpha({F_I, F_V, F_F}, true, ""), depth, h, K);
  } else if (mode == "matcho") {    // R01/R10: struct, output and member functions, deeper
    enumerate("matcho", alpha({F_O, F_M}, true, ""), depth, h, K);
  } else if (mode == "matchdeep") { // R01: every history of the given depth after p served/unserved expectations of one function
    std::vector<int> ps = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 250, 252};
    unsigned c = 0;
    for (int p : ps) for (int fn : {F_I, F_O, F_F, F_M, F_VV}) for (int served = 0; served < 2; served++) {
      if (c++ % nshards != (unsigned)shard) continue;
      auto al = alpha({fn, F_V}, true, "");
      std::vector<Op> pre; for (int i = 0; i < p; i++) pre.push_back({'E', fn, i % NEXP[fn]});
      if (served) for (int i = 0; i < p; i++) pre.push_back({'C', fn, i % NCALL[fn]});
      std::vector<std::vector<Op>> tails = {{}};
      for (int d = 0; d < depth; d++) { std::vector<std::vector<Op>> n; for (auto &t : tails) for (auto &o : al) { auto x = t; x.push_back(o); n.push_back(x); } tails.swap(n); }
      for (auto &t : tails) {
        auto x = pre; x.insert(x.end(), t.begin(), t.end());
        if (!served) for (int i = 0; i < p; i++) x.push_back({'C', fn, i % NCALL[fn]});
        x.push_back({'K', 0, 0});
        runhist("matchdeep", x);
      }
    }
  } else if (mode == "linear") {    // R01/R02/R07: every (expected, called) pair up to capacity, for every function, in three shapes
    unsigned c = 0;
    g_track = false;
    for (int fn = 0; fn < NFN; fn++) for (int e = 0; e <= depth; e++) {
      if (c++ % nshards != (unsigned)shard) continue;
      std::vector<int> cs;
      if (e <= 40) for (int k = 0; k <= e + 3; k++) cs.push_back(k);
      else { for (int k : {0, 1, 2, e / 2, e - 2, e - 1, e, e + 1, e + 2}) cs.push_back(k); }
      for (int k : cs) {
        std::vector<Op> x;
        for (int i = 0; i < e; i++) x.push_back({'E', fn, i % NEXP[fn]});
        for (int i = 0; i < k; i++) x.push_back({'C', fn, i % NCALL[fn]});
        x.push_back({'K', 0, 0});
        runhist("linear", x);
        x.clear();                                   // interleaved, with another function in between
        for (int i = 0; i < e || i < k; i++) { if (i < e) { x.push_back({'E', fn, 0}); if (e < 120) x.push_back({'E', F_V, 0}); } if (i < k) x.push_back({'C', fn, 0}); if (e < 120 && i < e) x.push_back({'C', F_V, 0}); }
        x.push_back({'K', 0, 0});
        runhist("linear", x);
      }
    }
  } else if (mode == "counts") {    // R02: expected/called counts of every pair of functions, with early checks
    unsigned c = 0;
    for (int f1 = 0; f1 < NFN; f1++) for (int f2 = 0; f2 < NFN; f2++) for (int e1 = 0; e1 <= depth; e1++) for (int c1 = 0; c1 <= depth; c1++) for (int e2 = 0; e2 <= depth; e2++) for (int c2 = 0; c2 <= depth; c2++) for (int early = 0; early < 3; early++) {
      if (f1 == f2) continue;
      if (c++ % nshards != (unsigned)shard) continue;
      std::vector<Op> x;
      for (int i = 0; i < e1; i++) x.push_back({'E', f1, 0});
      for (int i = 0; i < e2; i++) x.push_back({'E', f2, 0});
      if (early == 1) x.push_back({'K', 0, 0});
      for (int i = 0; i < c1; i++) x.push_back({'C', f1, 0});
      if (early == 2) x.push_back({'K', 0, 0});
      for (int i = 0; i < c2; i++) x.push_back({'C', f2, 0});
      x.push_back({'K', 0, 0});
      runhist("counts", x);
    }
  } else if (mode == "verdict") {   // R02: histories with checks (and initialisations) anywhere
    auto al = alpha({F_I, F_V, F_LA, F_F}, false, "KI");
    al.push_back({'C', F_I, 1});
    enumerate("verdict", al, depth, h, K);
  } else if (mode == "allmis") {    // R02: every non-empty subset of functions miscounted at once, surplus or missing
    for (int mask = 0; mask < 6561; mask++) {
      int t = mask; std::vector<Op> x, y;
      for (int f = 0; f < NFN; f++, t /= 3) {
        if (t % 3 >= 1) x.push_back({'E', f, 0});
        if (t % 3 == 1) y.push_back({'C', f, 0});
        if (t % 3 == 0) { if ((mask >> f) & 1) y.push_back({'C', f, 0}); }
      }
      x.insert(x.end(), y.begin(), y.end()); x.push_back({'K', 0, 0});
      if (mask % nshards == shard) runhist("allmis", x);
    }
  } else if (mode == "order") {     // R03
    enumerate("order", alpha({F_I, F_V, F_LA, F_LB, F_F}, false, "OU"), depth, h, K);
  } else if (mode == "order2") {    // R03: other function mixes, order enabled from the start
    std::vector<Op> on = {{'O', 0, 0}};
    for (auto fns : std::vector<std::vector<int>>{{F_VV, F_V, F_O}, {F_O, F_M, F_VV}, {F_LB, F_LA, F_M}}) {
      std::vector<Op> al; for (int f : fns) al.push_back({'E', f, 0}); for (int f : fns) for (int v = 0; v < (f == F_M ? 2 : 1); v++) al.push_back({'C', f, v});
      std::vector<Op> hh; 
      // prefix with 'O'
      struct R { static void go(std::vector<Op> &al, int d, std::vector<Op> &h) { if (!d) { auto x = h; x.push_back({'K', 0, 0}); runhist("order2", x); return; } for (auto &o : al) { if (h.size() == 2 && (ctr++ % nshards) != (unsigned)shard) continue; h.push_back(o); go(al, d - 1, h); h.pop_back(); } } };
      hh = on; R::go(al, depth, hh);
    }
  } else if (mode == "orderperm") { // R03: every permutation of calls for up to `depth` expectations over 3 functions
    std::vector<int> fns = {F_I, F_LA, F_F};
    for (int n = 1; n <= depth; n++) {
      long tot = 1; for (int i = 0; i < n; i++) tot *= 3;
      for (long e = 0; e < tot; e++) for (long c = 0; c < tot; c++) {
        if ((unsigned)(c % nshards) != (unsigned)shard) continue;
        std::vector<Op> x = {{'O', 0, 0}}; long t = e; for (int i = 0; i < n; i++, t /= 3) x.push_back({'E', fns[t % 3], 0});
        t = c; for (int i = 0; i < n; i++, t /= 3) x.push_back({'C', fns[t % 3], 0});
        x.push_back({'K', 0, 0});
        runhist("orderperm", x);
      }
    }
  } else if (mode == "orderdeep") { // R03: long in-order runs with one swap at every position
    unsigned c = 0; g_track = false;
    for (int n : {2, 3, 8, 16, 32, 64, 128, 200, 255, 256, 400, 600}) for (int i = -1; i < n - 1; i++) {
      if (c++ % nshards != (unsigned)shard) continue;
      if (n > 64 && i > 3 && i < n - 5 && i % 16 > 1) continue;
      std::vector<Op> x = {{'O', 0, 0}};
      std::vector<int> s; for (int k = 0; k < n; k++) s.push_back(k % 4 == 0 ? F_I : k % 4 == 1 ? F_LA : k % 4 == 2 ? F_V : F_LB);
      if (n > 1000) break;
      for (int f : s) x.push_back({'E', f, 0});
      if (i >= 0) std::swap(s[i], s[i + 1]);
      for (int f : s) x.push_back({'C', f, 0});
      x.push_back({'K', 0, 0});
      runhist("orderdeep", x);
    }
  } else if (mode == "init") {      // R04: every (earlier, later) pair of histories
    auto al = alpha({F_I, F_O, F_LA, F_F}, false, "KOU"); al.push_back({'C', F_I, 1});
    int d1 = depth / 10, d2 = depth % 10;
    std::vector<std::vector<Op>> a = {{}}, b = {{}};
    auto grow = [&](std::vector<std::vector<Op>> &v, int d) { std::vector<std::vector<Op>> level = {{}}; for (int i = 0; i < d; i++) { std::vector<std::vector<Op>> n; for (auto &t : level) for (auto &o : al) { auto x = t; x.push_back(o); n.push_back(x); } level.swap(n); } v = level; };
    grow(a, d1); grow(b, d2);
    for (size_t i = 0; i < a.size(); i++) {
      if (i % nshards != (unsigned)shard) continue;
      for (auto &t : b) { auto x = a[i]; x.push_back({'I', 0, 0}); x.insert(x.end(), t.begin(), t.end()); x.push_back({'K', 0, 0}); runhist("init", x); }
    }
  } else if (mode == "initdeep") {  // R04: any number of leftovers before init
    unsigned c = 0; g_track = false;
    for (int fn = 0; fn < NFN; fn++) for (int e = 0; e <= 256; e++) {
      if (c++ % nshards != (unsigned)shard) continue;
      for (int k : {0, 1, 2, e / 2, e - 1, e, e + 1}) { if (k < 0) continue;
        std::vector<Op> x;
        for (int i = 0; i < e; i++) x.push_back({'E', fn, 0});
        for (int i = 0; i < k; i++) x.push_back({'C', fn, 0});
        x.push_back({'I', 0, 0});
        x.push_back({'K', 0, 0}); x.push_back({'O', 0, 0}); x.push_back({'E', F_V, 0}); x.push_back({'E', fn, 0}); x.push_back({'E', fn, 0});
        x.push_back({'C', F_V, 0}); x.push_back({'C', fn, 0}); x.push_back({'C', fn, 0}); x.push_back({'C', fn, 0}); x.push_back({'K', 0, 0});
        runhist("initdeep", x);
      }
    }
  } else { fprintf(stderr, "unknown mode\n"); return 2; }
  printf("STATS {\"histories\":%llu,\"steps\":%llu,\"states\":%zu,\"outcomes\":%zu,\"viol\":%llu}\n", n_hist, n_steps, g_states.size(), g_outcomes.size(), n_viol);
  return 0;
}
