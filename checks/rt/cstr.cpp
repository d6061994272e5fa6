// R08: cstring against std::string, every history of small depth and every length around the built-in buffer.
#include "drv.hpp"
#include <cstring.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __lsan_do_recoverable_leak_check();
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
static char *piece(size_t n, int salt) { char *p = (char *)malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = (char)(1 + (i * 5 + salt * 37 + i / 255) % 255); p[n] = 0; return p; }   // exact-size heap block: any overread is seen
static int sgn(int x) { return (x > 0) - (x < 0); }
struct Guard { unsigned char a[32]; cstring s; unsigned char b[32]; };
static bool same(cstring *s, const std::string &w, std::string &why) {
  const char *c = cstring_c_str(s); 
  if (!c) { why = "null text"; return false; }
  size_t l = strlen(c);
  if (l != w.size() || memcmp(c, w.data(), l)) { size_t k = 0; while (k < l && k < w.size() && c[k] == w[k]) k++; why = F("text has length %zu instead of %zu (first difference at %zu)", l, w.size(), k); return false; }
  if ((size_t)cstring_length(s) != w.size()) { why = F("cstring_length is %zu, should be %zu", (size_t)cstring_length(s), w.size()); return false; }
  if (cstring_compare_const_char(s, w.c_str()) != 0) { why = "does not compare equal to its own text"; return false; }
  return true;
}
static void cmpall(cstring *s, const std::string &w, std::string &why) {
  std::vector<std::string> o = {"", w + "a", w.empty() ? "b" : w.substr(0, w.size() - 1)};
  if (!w.empty()) for (size_t k : {(size_t)0, w.size() / 2, w.size() - 1, (size_t)254, (size_t)255, (size_t)256}) if (k < w.size()) { auto x = w; x[k] = (char)(x[k] == 'A' ? 'B' : 'A'); o.push_back(x); x[k] = (char)200; if (x != w) o.push_back(x); }
  for (auto &x : o) {
    n_steps++;
    int want = sgn(strcmp(w.c_str(), x.c_str()));
    if (sgn(cstring_compare_const_char(s, x.c_str())) != want) { why = F("compare_const_char with a text of length %zu gives %d instead of %d", x.size(), cstring_compare_const_char(s, x.c_str()), want); return; }
    cstring t = cstring_new_init(x.c_str());
    int g1 = sgn(cstring_compare_const_cstring(s, &t)), g2 = sgn(cstring_compare_const_cstring(&t, s));
    cstring_free(&t);
    if (g1 != want || g2 != -want) { why = F("compare_const_cstring gives %d/%d instead of %d", g1, g2, want); return; }
  }
}
// history: n = new, iL = new_init of length L, aL = append of length L, f = free (then again), each checked
static void run(const std::string &h, bool full) {
  g_cur = h; g_live = true; n_hist++;
  Guard *g = (Guard *)malloc(sizeof(Guard)); memset(g, 0x7e, sizeof *g);
  std::string w, why; int salt = 0; bool alive = false;
  for (auto &o : splitc(h)) {
    n_steps++;
    if (o[0] == 'n') { if (alive) cstring_free(&g->s); g->s = cstring_new(); w.clear(); alive = true; }
    else if (o[0] == 'i') { if (alive) cstring_free(&g->s); size_t n = atoi(o.c_str() + 1); char *p = piece(n, ++salt); g->s = cstring_new_init(p); w = p; free(p); alive = true; }
    else if (o[0] == 'a') { size_t n = atoi(o.c_str() + 1); char *p = piece(n, ++salt); cstring_append(&g->s, p); w += p; free(p); }
    else if (o[0] == 'c') { cmpall(&g->s, w, why); }
    else if (o[0] == 'f') { cstring_free(&g->s); cstring_free(&g->s); alive = false; }
    if (why.empty() && alive) same(&g->s, w, why);
    for (int i = 0; i < 32; i++) if (g->a[i] != 0x7e || g->b[i] != 0x7e) { why = "bytes outside the cstring were modified"; break; }
    g_states.insert(H(F("%zu %d", w.size(), alive)));
    if (!why.empty()) { viol(h, "at " + o + ": " + why); break; }
  }
  if (why.empty() && alive && full) cmpall(&g->s, w, why);
  if (!why.empty() && full) viol(h, why);
  if (alive) { cstring_free(&g->s); cstring_free(&g->s); }
  free(g);
  g_outcomes.insert(H(w));
  { CSTRING_AUTOCLEAN(z) = cstring_new_init("auto"); for (int k = 0; k < (int)(n_hist % 3) * 60; k++) cstring_append(&z, "12345"); }
  g_live = false;
}
static int shard, nsh; static unsigned long long ctr;
static void en(const std::vector<std::string> &al, int d, const std::string &h, int lvl) {
  if (!d) { run(h, true); return; }
  for (auto &o : al) { if (lvl == 1 && (int)(ctr++ % nsh) != shard) continue; en(al, d - 1, h + "," + o, lvl + 1); }
}
int main(int argc, char **argv) {
  drv_init(false);
  std::string mode = argv[1];
  if (mode == "replay") run(argv[2], true);
  else {
    int depth = atoi(argv[2]); shard = atoi(argv[3]); nsh = atoi(argv[4]);
    if (mode == "hist") { std::vector<std::string> al; for (int n : {0, 1, 2, 126, 127, 128, 129, 253, 254, 255, 256, 257, 511, 512}) al.push_back(F("a%d", n)); for (const char *s : {"n", "i0", "i255", "i256", "i300"}) en(al, depth, s, 0); }
    else if (mode == "reuse") { std::vector<std::string> al = {"a1", "a128", "a255", "a256", "n", "i3", "i255", "i256", "i600", "c"}; for (const char *s : {"n", "i300"}) en(al, depth, s, 0); }
    else if (mode == "two") { for (int i = 0; i <= depth; i++) { if (i % nsh != shard) continue; for (int j = 0; j <= depth; j++) run(F("i%d,a%d", i, j), false); } }
    else if (mode == "chain") { for (int n = 1; n <= depth; n++) { if (n % nsh != shard) continue; std::string h = "n"; for (int k = 0, t = 0; t <= 4 * depth && k < 1200; k++, t += n) h += F(",a%d", n); run(h, true); } }
    else if (mode == "single") { for (int i = 0; i <= depth; i++) if (i % nsh == shard) { run(F("i%d,c", i), true); run(F("n,a%d,c", i), true); } }
  }
#if defined(__SANITIZE_ADDRESS__)
  if (__lsan_do_recoverable_leak_check()) viol(g_cur, "memory leaked");
#endif
  stats(); fflush(stdout); _exit(0);
}
