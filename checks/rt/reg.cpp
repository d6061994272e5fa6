// R06: registration of mock files: fake registrations with counting callbacks, and real mocks in shared objects.
// reg <mode> <depth> <shard> <nshards> ; modes: fake, dl (needs EM_SO_A / EM_SO_B: paths of the shared mocks)
#include "drv.hpp"
#include <easyMock.h>
#include <easyMock_framework.h>
#include <dlfcn.h>
static int nreset[4], nverify[4]; static bool fails[4];
#define CB(i) static void reset##i() { nreset[i]++; } static easyMock_bool verify##i() { nverify[i]++; return fails[i] ? easyMock_false : easyMock_true; }
CB(0) CB(1) CB(2) CB(3)
static easyMock_mockedFileRegister_t regs[4];
static int shard, nsh; static unsigned long long ctr;
// ---- fake registrations: R<i> register, U<i> unregister, X<i> toggle failing verify, I init, K check
static void runfake(const std::string &h) {
  g_cur = h; g_live = true; n_hist++;
  bool on[4] = {}; for (int i = 0; i < 4; i++) { easyMock_unregisterMockedFile(&regs[i]); fails[i] = false; }
  easyMock_init();
  std::string why;
  auto zero = [] { memset(nreset, 0, sizeof nreset); memset(nverify, 0, sizeof nverify); };
  auto expect = [&](int r, int v) { for (int i = 0; i < 4; i++) if (nreset[i] != (on[i] ? r : 0) || nverify[i] != (on[i] ? v : 0)) { why = F("file %d (%s): reset called %d times, verify %d times, expected %d and %d", i, on[i] ? "registered" : "not registered", nreset[i], nverify[i], on[i] ? r : 0, on[i] ? v : 0); return; } };
  auto ops = splitc(h); ops.push_back("I"); ops.push_back("K");
  for (auto &o : ops) {
    int i = o.size() > 1 ? o[1] - '0' : 0; zero(); n_steps++;
    if (o[0] == 'R') { easyMock_registerMockedFile(&regs[i]); on[i] = true; expect(0, 0); }
    else if (o[0] == 'U') { easyMock_unregisterMockedFile(&regs[i]); on[i] = false; expect(0, 0); }
    else if (o[0] == 'X') fails[i] = !fails[i];
    else if (o[0] == 'I') { easyMock_init(); expect(1, 0); }
    else if (o[0] == 'K') { int v = easyMock_check(); expect(0, 1); int w = 1; for (int k = 0; k < 4; k++) if (on[k] && fails[k]) w = 0; if (why.empty() && v != w) why = F("easyMock_check returned %d, expected %d", v, w); }
    std::string st; for (int k = 0; k < 4; k++) st += F("%d%d", on[k], fails[k]); g_states.insert(H(st));
    if (!why.empty()) { viol(h, "at " + o + ": " + why); break; }
  }
  g_outcomes.insert(H(F("%d%d%d%d", on[0], on[1], on[2], on[3])));
  for (int i = 0; i < 4; i++) easyMock_unregisterMockedFile(&regs[i]);
  g_live = false;
}
// ---- real mocks: L<i> load, U<i> unload, E<i> expect, C<i> call, I init, K check
struct Lib { const char *path; void *h; int exp, call; int first; int serial; };
static Lib L[2];
static bool loaded_check(Lib &l) { void *p = dlopen(l.path, RTLD_NOLOAD | RTLD_NOW); if (p) { dlclose(p); return true; } return false; }
static void rundl(const std::string &h) {
  g_cur = h; g_live = true; n_hist++;
  for (auto &l : L) { if (l.h) dlclose(l.h); l.h = nullptr; l.exp = l.call = l.first = l.serial = 0; }
  easyMock_init();
  std::string why; unsigned err = 0; bool fuzzy = false;
  auto ops = splitc(h); ops.push_back("K");
  for (auto &o : ops) {
    int i = o.size() > 1 ? o[1] - '0' : 0; Lib &l = L[i]; n_steps++;
    if (o[0] == 'L') { if (!l.h) { l.h = dlopen(l.path, RTLD_NOW | RTLD_LOCAL); if (!l.h) { why = F("cannot load: %s", dlerror()); } l.exp = l.call = 0; l.first = l.serial; } }
    else if (o[0] == 'U') { if (l.h) { dlclose(l.h); l.h = nullptr; if (loaded_check(l)) { printf("VIOL x %s :: harness: the shared mock was not unloaded\n", h.c_str()); fflush(stdout); _exit(3); } } }
    else if (o[0] == 'E') { if (l.h) { int s = l.serial++; if (i == 0) ((void (*)(int, int, int, EasyMock_Matcher, EasyMock_Matcher))dlsym(l.h, "hd_ExpectAndReturn"))(1, 2, s * 3 + 1, cmp_int, cmp_int); else ((void (*)(int))dlsym(l.h, "he_ExpectAndReturn"))(s * 3 + 2); l.exp++; } }
    else if (o[0] == 'C') { if (l.h) { int r = i == 0 ? ((int (*)(int, int))dlsym(l.h, "hd"))(1, 2) : ((int (*)(void))dlsym(l.h, "he"))();
        l.call++; if (l.call <= l.exp) { int w = (l.first + l.call - 1) * 3 + 1 + i; if (r != w) why = F("call returned %d, expected %d", r, w); } else err++; } }
    else if (o[0] == 'I') { easyMock_init(); err = 0; fuzzy = false; for (auto &x : L) { x.first = x.serial; x.exp = x.call = 0; } }
    else if (o[0] == 'K') { bool bad = err || fuzzy; unsigned cnt = 0; for (auto &x : L) if (x.h && x.exp != x.call) { bad = true; cnt++; }
      int v = easyMock_check(); unsigned n; easyMock_getErrorArr(&n);
      if (v != !bad) why = F("easyMock_check returned %d, expected %d", v, !bad);
      else if (n != err + cnt) why = F("%u errors after the check, expected %u", n, err + cnt);
      err += cnt; }
    unsigned n; easyMock_getErrorArr(&n);
    if (why.empty() && n != err) why = F("%u errors recorded, expected %u", n, err);
    g_states.insert(H(F("%d %d %d|%d %d %d|%u", !!L[0].h, L[0].exp, L[0].call, !!L[1].h, L[1].exp, L[1].call, err)));
    if (!why.empty()) { viol(h, "at " + o + ": " + why); break; }
  }
  g_outcomes.insert(H(F("%d%d%u", !!L[0].h, !!L[1].h, err)));
  g_live = false;
}
static bool g_dl;
static void run(const std::string &h) { g_dl ? rundl(h) : runfake(h); }
static void en(const std::vector<std::string> &al, int d, const std::string &h, int lvl) {
  if (!d) { run(h); return; }
  for (auto &o : al) { if (lvl == 1 && (int)(ctr++ % nsh) != shard) continue; en(al, d - 1, h.empty() ? o : h + "," + o, lvl + 1); }
}
int main(int argc, char **argv) {
  drv_init();
  easyMock_setPrintCallStack(0); easyMock_setCheckCallsOrder(0);
  memset(regs, 0, sizeof regs);
#define RG(i) regs[i].resetMockedFile = reset##i; regs[i].verifyMockedFile = verify##i;
  RG(0) RG(1) RG(2) RG(3)
  L[0].path = getenv("EM_SO_A"); L[1].path = getenv("EM_SO_B");
  std::string mode = argv[1];
  if (mode == "replay") { std::string h = argv[2]; g_dl = h.find('L') != std::string::npos; run(h); stats(); return 0; }
  int depth = atoi(argv[2]); shard = atoi(argv[3]); nsh = atoi(argv[4]);
  if (mode == "fake3") en({"R0", "R1", "R2", "U0", "U1", "U2", "I", "K", "X1"}, depth, "", 0);
  else if (mode == "fake4") en({"R0", "R1", "R2", "R3", "U0", "U1", "U2", "U3"}, depth, "", 0);   // I,K follow every history
  else if (mode == "failsets") { for (int m = 0; m < 81; m++) if (m % nsh == shard) { std::string h; int t = m; for (int i = 0; i < 4; i++, t /= 3) { if (t % 3) h += F("R%d,", i); if (t % 3 == 2) h += F("X%d,", i); } run(h + "K,I,K,U0,K,I,K,U3,K,R0,K"); } }
  else if (mode == "dl") { g_dl = true; en({"L0", "U0", "E0", "C0", "L1", "U1", "E1", "C1", "I", "K"}, depth, "", 0); }
  else if (mode == "dlloop") { g_dl = true; for (int n = 1; n <= depth; n++) if (n % nsh == shard) { std::string h; for (int i = 0; i < n; i++) h += "L0,L1,E0,E1,C0,C1,K,U0,I,E1,C1,K,U1,"; run(h); } }
  for (auto &l : L) if (l.h) { dlclose(l.h); l.h = nullptr; }
  stats();
  return 0;
}
