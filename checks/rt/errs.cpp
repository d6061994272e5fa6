// R05: every history of errors, reads, checks and initialisations; the error string, array and verdict must agree with a list.
#include "drv.hpp"
#include "easyMock_hxa.h"
#include "easyMock_hxc.h"
#include <easyMock.h>
#include <easyMock_framework.h>
static int rej(const void *, const void *, const char *, char *e) { strcpy(e, "REJ"); return -1; }
static std::string P_v, P_i, P_vv, P_f;
static std::string pat(size_t n, int salt) { std::string s(n, 'x'); for (size_t i = 0; i < n; i++) s[i] = (char)(1 + (i * 7 + salt * 31 + i / 251) % 255); return s; }
struct Mod { std::vector<std::string> e; bool stack = false; unsigned calls = 0; };
extern "C" { // named callers: their names must be in the call stack
__attribute__((noinline, noclone)) void caller_of_v() { hx_v(); asm volatile(""); }
__attribute__((noinline, noclone)) void caller_of_i() { hx_i(1, 2); asm volatile(""); }
__attribute__((noinline, noclone)) void caller_of_f() { hx_f(1, 2); asm volatile(""); }
}
// an element of the model list: exact text, or message + call stack
static bool same(const std::string &w, const char *g, std::string &why) {
  size_t k = w.find("\2\2");
  if (k == std::string::npos) { if (w != g) { why = "message is [" + std::string(g) + "], expected [" + w + "]"; return false; } return true; }
  std::string msg = w.substr(0, k), who = w.substr(k + 2);
  if (strncmp(g, msg.c_str(), msg.size())) { why = "message is [" + std::string(g) + "], expected it to start with [" + msg + "]"; return false; }
  const char *t = g + msg.size();
  if (*t == 0) { why = "message has no call stack although call stacks are enabled"; return false; }
  const char *mk = strstr(t, who.substr(0, who.find('<')).c_str()), *cl = strstr(t, who.substr(who.find('<') + 1).c_str());
  if (!mk || !cl || cl < mk) { why = "the call stack does not name the mock and its caller (" + who + "): [" + std::string(t) + "]"; return false; }
  return true;
}
static bool cmparr(const Mod &m, std::string &why) {
  unsigned n = 4242; const char **a = easyMock_getErrorArr(&n);
  if (n != m.e.size()) { why = F("array has %u errors, %zu were recorded", n, m.e.size()); return false; }
  if (!n) { if (a) { why = "array is not null without errors"; return false; } return true; }
  if (!a) { why = "array is null with errors"; return false; }
  for (unsigned i = 0; i < n; i++) { if (!a[i]) { why = F("entry %u is null", i); return false; } if (!same(m.e[i], a[i], why)) { why = F("error %u: ", i) + why; return false; } }
  if (a[n]) { why = "array is not followed by a null pointer"; return false; }
  return true;
}
static bool cmpstr(const Mod &m, std::string &why) {
  const char *s = easyMock_getErrorStr();
  if (m.e.empty()) { if (s) { why = "string is not null without errors"; return false; } return true; }
  if (!s) { why = "string is null with errors"; return false; }
  std::string got = s, w; bool exact = true;
  for (auto &x : m.e) { if (x.find("\2\2") != std::string::npos) exact = false; w += x + "\n\r"; }
  if (exact) { if (got != w) { why = "string is [" + got + "], expected [" + w + "]"; return false; } return true; }
  unsigned n; const char **a = easyMock_getErrorArr(&n); w.clear();
  for (unsigned i = 0; i < n; i++) w += std::string(a[i]) + "\n\r";
  if (got != w) { why = "string differs from the array: [" + got + "] / [" + w + "]"; return false; }
  return true;
}
static bool apply(Mod &m, const std::string &op, std::string &why) {
  n_steps++;
  auto mock = [&](const std::string &msg, const char *fn, const char *caller) { m.e.push_back(m.stack ? msg + "\2\2" + fn + "<" + caller : msg); };
  switch (op[0]) {
    case 'a': { int n = atoi(op.c_str() + 1); std::string t = pat(n, (int)m.e.size()); easyMock_addError(easyMock_false, "%s", t.c_str()); m.e.push_back(t); break; }
    case 'f': easyMock_addError(easyMock_false, "%d %s|%%|%c", 42, "%s%n%d", 'q'); m.e.push_back("42 %s%n%d|%|q"); break;
    case 'v': caller_of_v(); m.calls++; mock(F("Error : unexpected call of '%s'.", P_v.c_str()), "hx_v", "caller_of_v"); break;
    case 'i': easyMock_setCheckCallsOrder(easyMock_false); { // a rejecting matcher
      // i: unexpected call of an int function: one error
      caller_of_i(); m.calls++; unsigned n; const char **a = easyMock_getErrorArr(&n);
      mock(P_i, "hx_i", "caller_of_i"); break; }
    case 'F': caller_of_f(); m.calls++; mock(P_f, "hx_f", "caller_of_f"); break;
    case 'S': return cmpstr(m, why);
    case 'G': return cmparr(m, why);
    case 'K': {
      unsigned before = m.e.size(); int v = easyMock_check();
      bool bad = before || m.calls;
      if (v != !bad) { why = F("easyMock_check says %d with %u errors", v, before); return false; }
      unsigned n; const char **a = easyMock_getErrorArr(&n);
      if (n < before) { why = "check removed errors"; return false; }
      for (unsigned i = before; i < n; i++) m.e.push_back(a[i]);
      break; }
    case 'I': easyMock_init(); m.e.clear(); m.calls = 0; break;
    case 'P': easyMock_setPrintCallStack(easyMock_true); m.stack = true; if (!easyMock_printCallStack()) { why = "easyMock_printCallStack is false after being set"; return false; } break;
    case 'N': easyMock_setPrintCallStack(easyMock_false); m.stack = false; if (easyMock_printCallStack()) { why = "easyMock_printCallStack is true after being cleared"; return false; } break;
  }
  return true;
}
static void run(const std::string &hist) {
  g_cur = hist; g_live = true; n_hist++;
  easyMock_setPrintCallStack(easyMock_false); easyMock_init();
  Mod m; std::string why;
  for (auto &o : splitc(hist)) {
    if (!apply(m, o, why)) { viol(hist, "at " + o + ": " + why); g_live = false; return; }
    std::string st; for (auto &x : m.e) st += x + "\3"; st += (char)m.stack; st += (char)m.calls; g_states.insert(H(st));
  }
  if (!cmparr(m, why) || !cmpstr(m, why) || !cmparr(m, why)) viol(hist, "at the end: " + why);
  std::string st; for (auto &x : m.e) st += x + "\3"; g_outcomes.insert(H(st));
  g_live = false;
}
static int shard, nsh; static unsigned long long ctr;
static void en(const std::vector<std::string> &al, int d, const std::string &h, int lvl) {
  if (!d) { run(h); return; }
  for (auto &o : al) { if (lvl == 1 && (int)(ctr++ % nsh) != shard) continue; en(al, d - 1, h.empty() ? o : h + "," + o, lvl + 1); }
}
int main(int argc, char **argv) {
  drv_init();
  std::string mode = argv[1];
  easyMock_setPrintCallStack(easyMock_false); easyMock_init();
  unsigned n; const char **a;
  hx_v(); a = easyMock_getErrorArr(&n); { std::string t = n ? a[0] : ""; size_t x = t.find('\''), y = t.rfind('\''); P_v = n && x != y ? t.substr(x + 1, y - x - 1) : "?"; } easyMock_init();
  hx_i(1, 2); a = easyMock_getErrorArr(&n); P_i = n ? a[0] : "?"; easyMock_init();
  hx_f(1, 2); a = easyMock_getErrorArr(&n); P_f = n ? a[0] : "?"; easyMock_init();
  if (mode == "replay") { run(argv[2]); stats(); return 0; }
  int depth = atoi(argv[2]); shard = atoi(argv[3]); nsh = atoi(argv[4]);
  if (mode == "hist") en({"a3", "a0", "a300", "f", "v", "i", "S", "G", "K", "I"}, depth, "", 0);
  else if (mode == "stack") en({"P", "N", "v", "i", "F", "a3", "S", "I"}, depth, "", 0);
  else if (mode == "len") { for (int l = 0; l <= depth; l++) if (l % nsh == shard) { run(F("a%d,G,S,K", l)); run(F("a%d,a%d,S,G", l, depth - l)); } }
  else if (mode == "len2") { std::vector<int> L = {0, 1, 2, 7, 8, 14, 15, 16, 17, 30, 31, 32, 127, 128, 253, 254, 255, 256, 257, 258, 510, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 65535, 65536}; int c = 0;
    for (int x : L) for (int y : L) for (int z : L) if (c++ % nsh == shard) run(F("a%d,a%d,S,a%d,G", x, y, z)); }
  else if (mode == "count") { for (int k = 0; k <= depth; k++) if (k % nsh == shard) { std::string h; for (int j = 0; j < k; j++) h += j % 3 ? "a5," : j % 2 ? "v," : "a2,"; run(h + "G,S,K,I,a1,G,S"); } }
  stats();
  return 0;
}
