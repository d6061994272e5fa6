// R09: every built-in matcher on all pairs of boundary values, names and texts of all lengths.
#include "drv.hpp"
#include <easyMock.h>
#include <cfloat>
#include <climits>
#include <cmath>
#include <limits>
#include <set>
typedef int (*M)(const void *, const void *, const char *, char *);
#define D(n) extern "C" int cmp_deref_ptr_##n(const void *, const void *, const char *, char *);
D(char) D(u_char) D(short) D(u_short) D(int) D(u_int) D(long) D(u_long) D(long_long) D(u_long_long) D(float) D(double) D(long_double) D(pointer)
static int shard, nsh; static unsigned long long ctr;
static char *g_buf;   // exactly EASYMOCK_MAX_CMP_ERR bytes
static bool mine() { return (int)(ctr++ % nsh) == shard; }
static std::string ideal(const std::string &nm, const std::string &a, const std::string &e) { std::string s = "Parameter '" + nm + "' has value '" + a + "', was expecting '" + e + "'"; return s; }
static std::string asC(const std::string &s) { return s.substr(0, s.find('\0')); }
// run one matcher call; want is the full text of the message (cut to 255), empty when values are equal
static void one(const std::string &key, M m, const void *a, const void *e, size_t sz, const std::string &nm, bool equal, const std::string &act, const std::string &exp, bool int128 = false) {
  g_cur = key; g_live = true; n_hist++;
  memset(g_buf, 0x7e, EASYMOCK_MAX_CMP_ERR);
  std::string sa((const char *)a, sz), se((const char *)e, sz);
  int r = m(a, e, nm.c_str(), g_buf);
  g_live = false;
  n_steps++;
  if ((r == 0) != equal) { viol(key, F("returns %d for %s / %s", r, act.c_str(), exp.c_str())); return; }
  if (memcmp(a, sa.data(), sz) || memcmp(e, se.data(), sz)) { viol(key, "the compared values were modified"); return; }
  if (equal) { for (int i = 0; i < EASYMOCK_MAX_CMP_ERR; i++) if (g_buf[i] != 0x7e) { viol(key, "writes a message although the values are equal"); return; } return; }
  size_t l = strnlen(g_buf, EASYMOCK_MAX_CMP_ERR);
  if (l == EASYMOCK_MAX_CMP_ERR) { viol(key, "message is not terminated within its 256 bytes"); return; }
  std::string got(g_buf, l);
  std::string w = ideal(nm, act, exp); if (w.size() > 255) w = w.substr(0, 255);
  g_outcomes.insert(H(got));
  if (got == w) return;
  if (w.find('\0') != std::string::npos && got == asC(w)) { viol("nul:" + key, "the message stops at the NUL character value: " + got); return; }
  viol(key, "message is [" + got + "], expected [" + w + "]");
}
template <class T> static std::string fmt(const char *f, T v) { char b[6000]; int k = snprintf(b, sizeof b, f, v); std::string s(b, k); if (s == std::string(1, '\0')) s = "\\0"; return s; }
template <class T> static void pair_(const char *tn, M m, M d, const char *f, T x, T y, const std::string &nm) {
  T *a = (T *)malloc(sizeof(T)), *e = (T *)malloc(sizeof(T)); memset(a, 0xa5, sizeof(T)); memset(e, 0x5a, sizeof(T));
  *a = x; *e = y;
  std::string fa = fmt(f, x), fe = fmt(f, y);
  std::string key = F("%s:%s:%s:n%zu", tn, clean(fa).substr(0, 60).c_str(), clean(fe).substr(0, 60).c_str(), nm.size());
  for (char &c : key) if (c == ' ') c = '_';
  bool eq = x == y;
  one(key, m, a, e, sizeof(T), nm, eq, fa, fe);
  if (d) { const T **pa = (const T **)malloc(sizeof(T *)), **pe = (const T **)malloc(sizeof(T *)); *pa = a; *pe = e; one("deref-" + key, d, pa, pe, sizeof(T *), nm, eq, fa, fe);
    *pe = a; one("alias-" + key, d, pa, pe, sizeof(T *), nm, x == x, fa, fa); free(pa); free(pe); }
  free(a); free(e);
}
template <class T> static std::vector<T> ints() {
  std::set<T> s; int W = sizeof(T) * 8;
  for (int k = 0; k < W; k++) for (int d = -1; d <= 1; d++) { T v = (T)(((unsigned long long)1 << k) + d); s.insert(v); s.insert((T)(0ull - (unsigned long long)v)); s.insert((T)~v); }
  s.insert(std::numeric_limits<T>::min()); s.insert(std::numeric_limits<T>::max()); s.insert((T)0x0123456789abcdefull); s.insert((T)0xfedcba9876543210ull);
  return std::vector<T>(s.begin(), s.end());
}
template <class T> static std::vector<T> flts() {
  typedef std::numeric_limits<T> L; std::vector<T> s;
  for (T v : {(T)0, L::min(), L::max(), L::denorm_min(), L::epsilon(), L::infinity(), L::quiet_NaN(), (T)1, (T)1 + L::epsilon(), (T)1 - L::epsilon() / 2, (T)0.1f, (T)0.1, (T)0.1L, (T)16777216, (T)16777217, (T)1e10, (T)4294967296.0, (T)9007199254740993.0L, (T)18446744073709551615.0L}) { s.push_back(v); s.push_back(-v); s.push_back(std::nextafter(v, (T)0)); }
  for (int e = L::min_exponent; e < L::max_exponent; e += L::max_exponent > 2000 ? 977 : L::max_exponent > 200 ? 61 : 9) s.push_back(std::ldexp((T)1, e));
  return s;
}
static std::vector<std::string> names(bool all) { std::vector<std::string> r; if (!all) return {"p"}; for (int n : {0, 1, 2, 10, 100, 200, 210, 215, 220, 225, 230, 235, 240, 241, 242, 243, 244, 245, 254, 255, 256, 257, 300, 600}) { std::string s; for (int i = 0; i < n; i++) s += (char)('a' + i % 26); r.push_back(s); } r.push_back("%s%n'\\"); return r; }
template <class T> static void suite(const char *tn, M m, M d, const char *f, const std::vector<T> &v) {
  for (size_t i = 0; i < v.size(); i++) { if (!mine()) continue; g_states.insert(H(F("%s%zu", tn, i))); for (size_t j = 0; j < v.size(); j++) pair_<T>(tn, m, d, f, v[i], v[j], "p"); }
  for (auto &n : names(true)) for (size_t i = 0; i < v.size(); i += v.size() / 6 + 1) for (size_t j = 0; j < v.size(); j += v.size() / 6 + 1) if (mine()) pair_<T>(tn, m, d, f, v[i], v[j], n);
}
// 128-bit values: the message must show both values, in decimal or hexadecimal
static bool parse128(const std::string &t, unsigned __int128 want, bool sg) {
  if (t.empty()) return false;
  auto dig = [&](const std::string &s, int base, unsigned __int128 &r) { if (s.empty()) return false; r = 0; for (char c : s) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; if (d >= base) return false; r = r * base + d; } return true; };
  unsigned __int128 r;
  if (t.size() > 2 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X')) return dig(t.substr(2), 16, r) && r == want;
  if (t[0] == '-' && sg) return dig(t.substr(1), 10, r) && (unsigned __int128)0 - r == want;
  return dig(t, 10, r) && r == want;
}
template <class T> static void suite128(const char *tn, M m, bool sg) {
  std::vector<unsigned __int128> v; std::vector<unsigned long long> w = {0, 1, 0xf, 0x10, 0x8000000000000000ull, 0x7fffffffffffffffull, 0xffffffffffffffffull, 0xfffffffffffffffeull, 0x0123456789abcdefull, 0x100000000ull, 0x0000abcd00000000ull};
  for (auto h : w) for (auto l : w) v.push_back((unsigned __int128)h << 64 | l);
  for (int k = 0; k < 128; k++) v.push_back((unsigned __int128)1 << k);
  for (auto x : v) { if (!mine()) continue; for (auto y : v) {
    T *a = (T *)malloc(sizeof(T)), *e = (T *)malloc(sizeof(T)); *a = (T)x; *e = (T)y;
    std::string key = F("%s:%llx_%016llx:%llx_%016llx", tn, (unsigned long long)(x >> 64), (unsigned long long)x, (unsigned long long)(y >> 64), (unsigned long long)y);
    g_cur = key; g_live = true; n_hist++; n_steps++; g_states.insert(H(key));
    memset(g_buf, 0x7e, EASYMOCK_MAX_CMP_ERR);
    int r = m(a, e, "par", g_buf); g_live = false;
    if ((r == 0) != (x == y)) viol(key, F("returns %d", r));
    else if (*a != (T)x || *e != (T)y) viol(key, "values modified");
    else if (x == y) { if (g_buf[0] != 0x7e) viol(key, "writes a message although the values are equal"); }
    else {
      size_t l = strnlen(g_buf, EASYMOCK_MAX_CMP_ERR); std::string s(g_buf, l < 256 ? l : 255);
      const std::string p1 = "Parameter 'par' has value '", p2 = "', was expecting '";
      size_t k = s.find(p2);
      if (l == 256 || s.compare(0, p1.size(), p1) || k == std::string::npos || s.back() != '\'') viol(key, "message is [" + s + "]");
      else { std::string A = s.substr(p1.size(), k - p1.size()), E = s.substr(k + p2.size()); E.pop_back(); if (!parse128(A, x, sg) || !parse128(E, y, sg)) viol(key, "message does not show the values: [" + s + "]"); }
      g_outcomes.insert(H(s));
    }
    free(a); free(e);
  } }
}
static void str1(const std::string &x, const std::string &y, const std::string &nm, bool alias = false) {
  char *a = strdup(x.c_str()), *e = alias ? a : strdup(y.c_str());
  char **pa = (char **)malloc(sizeof(char *)), **pe = (char **)malloc(sizeof(char *)); *pa = a; *pe = e;
  size_t k = 0; while (k < x.size() && k < y.size() && x[k] == y[k]) k++;
  one(F("str:%zu:%zu:diff%zu:n%zu", x.size(), y.size(), k, nm.size()), cmp_str, pa, pe, sizeof(char *), nm, x == y, x, y);
  if (strcmp(a, x.c_str()) || strcmp(e, y.c_str())) viol("str-modified", "the compared text was modified");
  if (!alias) free(e); free(a); free(pa); free(pe);
}
static void nulls() {
  struct { const char *n; M m; } t[] = {{"str", cmp_str}, {"deref_char", cmp_deref_ptr_char}, {"deref_int", cmp_deref_ptr_int}, {"deref_long_double", cmp_deref_ptr_long_double}, {"deref_pointer", cmp_deref_ptr_pointer}, {"deref_u_long_long", cmp_deref_ptr_u_long_long}};
  alignas(16) static char obj[32] = "text";
  for (auto &x : t) for (int c = 0; c < 3; c++) {
    if (!mine()) continue;
    const void *a = c == 1 ? obj : nullptr, *e = c == 2 ? obj : nullptr;
    g_cur = F("null:%s:%d", x.n, c); g_live = true; n_hist++; n_steps++;
    memset(g_buf, 0x7e, 256);
    int r = x.m(&a, &e, "q", g_buf); g_live = false;
    if ((r == 0) != (c == 0)) viol(g_cur, F("returns %d for a null and a %s pointer", r, c ? "valid" : "null"));
    else if (c == 0 ? g_buf[0] != 0x7e : strnlen(g_buf, 256) == 256 || strncmp(g_buf, "Parameter 'q' has value '", 25)) viol(g_cur, "wrong message: " + std::string(g_buf, strnlen(g_buf, 256)));
  }
}
template <class T> static void cppcmp(const char *tn, const std::vector<T> &v) {
  for (auto x : v) { if (!mine()) continue; for (auto y : v) for (const char *nm : {"p", "", "a_rather_long_parameter_name_a_rather_long_parameter_name_a_rather_long_parameter_name_a_rather_long_parameter_name_a_rather_long_parameter_name_a_rather_long_parameter_name_a_rather_long_parameter_name_a_rather_long_parameter_name_a_rather_long_parameter_name_"}) {
    std::ostringstream os, w; const T a = x, e = y; n_hist++; n_steps++;
    g_cur = F("cpp-%s", tn); bool r = EasyMock::cmp<T>(a, e, nm, os);
    if (r != !(x == y)) viol(g_cur, F("cmp returns %d", r));
    if (!(x == y)) w << "Parameter '" << nm << "' has value '" << x << "', was expecting '" << y << "'";
    if (os.str() != w.str()) viol(g_cur, "message is [" + os.str() + "], expected [" + w.str() + "]");
    g_outcomes.insert(H(os.str()));
  } }
}
int main(int argc, char **argv) {
  drv_init();
  g_buf = (char *)malloc(EASYMOCK_MAX_CMP_ERR);
  std::string mode = argv[1];
  int depth = argc > 2 ? atoi(argv[2]) : 0; shard = argc > 4 ? atoi(argv[3]) : 0; nsh = argc > 4 ? atoi(argv[4]) : 1;
  if (mode == "replay") { mode = "basic"; depth = 0; std::string k = argv[2]; /* the case is found again by running its suite */ }
  if (mode == "basic") {
    std::vector<char> ch; for (int i = 0; i < 256; i++) ch.push_back((char)i);
    std::vector<unsigned char> uch(ch.begin(), ch.end());
    suite<char>("char", cmp_char, cmp_deref_ptr_char, "%c", ch);
    suite<unsigned char>("u_char", cmp_u_char, cmp_deref_ptr_u_char, "%c", uch);
    suite<short>("short", cmp_short, cmp_deref_ptr_short, "%hi", ints<short>());
    suite<unsigned short>("u_short", cmp_u_short, cmp_deref_ptr_u_short, "%hu", ints<unsigned short>());
    suite<int>("int", cmp_int, cmp_deref_ptr_int, "%d", ints<int>());
    suite<unsigned>("u_int", cmp_u_int, cmp_deref_ptr_u_int, "%u", ints<unsigned>());
    suite<long>("long", cmp_long, cmp_deref_ptr_long, "%li", ints<long>());
    suite<unsigned long>("u_long", cmp_u_long, cmp_deref_ptr_u_long, "%lu", ints<unsigned long>());
    suite<long long>("long_long", cmp_long_long, cmp_deref_ptr_long_long, "%lli", ints<long long>());
    suite<unsigned long long>("u_long_long", cmp_u_long_long, cmp_deref_ptr_u_long_long, "%llu", ints<unsigned long long>());
    suite<float>("float", cmp_float, cmp_deref_ptr_float, "%f", flts<float>());
    suite<double>("double", cmp_double, cmp_deref_ptr_double, "%lf", flts<double>());
    suite<long double>("long_double", cmp_long_double, cmp_deref_ptr_long_double, "%Lf", flts<long double>());
    std::vector<void *> pv; for (auto x : ints<unsigned long>()) pv.push_back((void *)x);
    suite<void *>("pointer", cmp_pointer, cmp_deref_ptr_pointer, "%p", pv);
    suite128<__int128>("int128", cmp_int128, true); suite128<unsigned __int128>("uint128", cmp_uint128, false);
    cppcmp<int>("int", ints<int>()); cppcmp<long long>("long long", ints<long long>()); cppcmp<double>("double", flts<double>());
    cppcmp<char>("char", {'a', 'b', 'Z', (char)200}); cppcmp<bool>("bool", {true, false}); cppcmp<std::string>("string", {"", "a", "ab", "b", std::string(300, 'x'), std::string(300, 'x') + "y", "%s"});
    nulls();
  } else if (mode == "shortall") {   // every 16-bit value against every boundary value, both ways
    for (short b : ints<short>()) { if (!mine()) continue; for (int x = -32768; x <= 32767; x++) { pair_<short>("short", cmp_short, nullptr, "%hi", (short)x, b, "p"); if (depth) pair_<unsigned short>("u_short", cmp_u_short, nullptr, "%hu", (unsigned short)b, (unsigned short)x, "p"); } }
  } else if (mode == "all16") {      // every pair of 16-bit values (return values only)
    for (int x = shard; x < 65536; x += nsh) for (int y = 0; y < 65536; y++) { unsigned short a = x, b = y; n_hist++; if ((cmp_u_short(&a, &b, "p", g_buf) == 0) != (a == b)) viol(F("u_short:%d:%d:n1", x, y), "wrong return value"); if ((cmp_short(&a, &b, "p", g_buf) == 0) != (a == b)) viol(F("short:%d:%d:n1", (short)x, (short)y), "wrong return value"); }
    n_steps = n_hist;
  } else if (mode == "str") {
    auto base = [](size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (char)(33 + (i * 7) % 94); return s; };
    for (int la = 0; la <= depth; la++) { if (!mine()) continue; std::string x = base(la); g_states.insert(H(x));
      for (int lb = 0; lb <= depth; lb++) str1(x, base(lb), "p");
      for (int k = 0; k < la; k++) { auto y = x; y[k] ^= 1; str1(x, y, "p"); y[k] = (char)(x[k] | 0x80); str1(x, y, "p"); str1(y, x, "p"); }
      str1(x, x, "p", true);
      for (int n = 0; n <= 300; n += la % 16 ? 37 : 1) str1(x, base(la + 1), std::string(n, 'n')); }
    for (int n = 0; n <= 700; n++) if (mine()) { str1("abc", "abd", std::string(n, 'n')); str1("%s%n", "%d", std::string(n, '%')); pair_<int>("int", cmp_int, cmp_deref_ptr_int, "%d", INT_MIN, INT_MAX, std::string(n, 'n')); pair_<long double>("long_double", cmp_long_double, cmp_deref_ptr_long_double, "%Lf", -LDBL_MAX, LDBL_MAX, std::string(n, 'n')); }
  }
  stats(); fflush(stdout); _exit(0);
}
