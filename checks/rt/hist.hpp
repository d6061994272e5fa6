// Shared by the runtime history explorers: operations on generated mocks and the reference model.
#pragma once
#include "easyMock_hxa.h"
#include "easyMock_hxb.h"
#include "easyMock_hxc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

enum { F_I, F_V, F_VV, F_O, F_LA, F_LB, F_F, F_M, NFN };
static const char *FNAME[NFN] = {"hx_i", "hx_v", "hx_vv", "hx_o", "xxx_A", "xxx_B", "hx_f", "m"};
static const int NEXP[NFN] = {3, 1, 1, 3, 1, 1, 2, 2};
static const int NCALL[NFN] = {3, 1, 1, 2, 1, 1, 2, 3};
static const bool HASRET[NFN] = {true, false, true, true, true, true, true, true};

struct Op { char k; int fn; int var; };
static std::string opstr(const Op &o) {
  char b[32];
  if (o.k == 'E' || o.k == 'C') snprintf(b, sizeof b, "%c%d.%d", o.k, o.fn, o.var);
  else snprintf(b, sizeof b, "%c", o.k);
  return b;
}
static std::string histstr(const std::vector<Op> &h) { std::string s; for (auto &o : h) { if (!s.empty()) s += ","; s += opstr(o); } return s; }
static std::vector<Op> parsehist(const char *s) {
  std::vector<Op> r;
  while (*s) {
    Op o{*s, 0, 0}; s++;
    if (o.k == 'E' || o.k == 'C') { char *e; o.fn = strtol(s, &e, 10); s = e + 1; o.var = strtol(s, &e, 10); s = e; }
    r.push_back(o);
    if (*s == ',') s++;
  }
  return r;
}

// ---- recording matchers -------------------------------------------------
struct Rec { int kind; std::string p; long long act, exp; bool operator==(const Rec &o) const { return kind == o.kind && p == o.p && act == o.act && exp == o.exp; } };
static std::vector<Rec> g_rec;
static std::string mmsg(int kind, const char *p, long long a, long long e) {
  char b[256];
  if (kind == 2) return "";                       // a matcher that rejects without a message
  snprintf(b, sizeof b, "M%d %s %lld!=%lld", kind, p, a, e);
  if (kind == 1) { std::string s(b); s.resize(255, '#'); return s; }  // longest legal message
  return b;
}
template <int KIND> static int mint(const void *c, const void *e, const char *p, char *err) {
  int a = *(const int *)c, x = *(const int *)e;
  g_rec.push_back({KIND, p, a, x});
  if (a == x) return 0;
  std::string m = mmsg(KIND, p, a, x);
  memcpy(err, m.c_str(), m.size() + 1);
  return KIND == 0 ? -1 : KIND == 1 ? 256 : 1 << 30;
}
static int mstruct(const void *c, const void *e, const char *p, char *err) {
  const hx_s *a = (const hx_s *)c, *x = (const hx_s *)e;
  g_rec.push_back({3, p, a->c * 1000 + a->a, x->c * 1000 + x->a});
  if (a->a == x->a && a->c == x->c && !memcmp(a->b, x->b, 5)) return 0;
  std::string m = mmsg(3, p, a->c * 1000 + a->a, x->c * 1000 + x->a);
  memcpy(err, m.c_str(), m.size() + 1);
  return 1;
}
static int mptr(const void *c, const void *e, const char *p, char *err) {
  long long a = (long long)*(void *const *)c, x = (long long)*(void *const *)e;
  g_rec.push_back({4, p, a, x});
  if (a == x) return 0;
  std::string m = mmsg(4, p, a, x);
  memcpy(err, m.c_str(), m.size() + 1);
  return -1;
}
template <int KIND> static bool mcpp(const int &a, const int &x, const std::string p, std::ostringstream &os) {
  g_rec.push_back({KIND, p, a, x});
  if (a == x) return false;
  os << mmsg(KIND, p.c_str(), a, x);
  return true;
}

// ---- model --------------------------------------------------------------
static HxK g_k1, g_k2;
static hx_s g_out, g_outsrc[4];
static unsigned char g_raw[16];
static unsigned char g_rawsrc[4][16];

struct Exp { int var; int serial; };
struct Model {
  std::vector<Exp> q[NFN];
  unsigned calls[NFN] = {};
  std::deque<int> fifo;
  std::vector<std::string> err;       // exact, or prefix when it ends in '\1'
  bool order = false;
  int serial = 0;
  bool rechecked = false;             // the exact error list is only specified up to the first check
  void init() { for (auto &v : q) v.clear(); memset(calls, 0, sizeof calls); fifo.clear(); err.clear(); rechecked = false; }
};
static std::string g_proto[NFN];

static int argA(int fn, int serial) { return serial * 4 + fn * 100003 + 1; }
static int argB(int fn, int serial) { return serial * 4 + fn * 100003 + 3; }
static int retI(int serial) { return serial * 7 + 5; }
static hx_s mkS(int base) { hx_s s; memset(&s, 0, sizeof s); s.a = base; memcpy(s.b, "abcd", 5); s.b[base & 3] = (char)('A' + (base & 15)); s.c = (long long)base << 33 | 1; return s; }
static bool eqS(const hx_s &x, const hx_s &y) { return x.a == y.a && x.c == y.c && !memcmp(x.b, y.b, 5); }
static long long keyS(const hx_s &x) { return x.c * 1000 + x.a; }

static std::string F(const char *fmt, ...) {
  va_list a; va_start(a, fmt); char *p = nullptr; if (vasprintf(&p, fmt, a) < 0) abort(); va_end(a); std::string s(p); free(p); return s;
}

struct Fail { bool bad = false; std::string why; void set(const std::string &w) { if (!bad) { bad = true; why = w; } } };
static bool g_lenient_names = false;

static bool errmatch(const std::string &want, const char *got) {
  if (!want.empty() && want.back() == '\1') return strncmp(got, want.c_str(), want.size() - 1) == 0 && strlen(got) > want.size() - 1;
  return want == got;
}
static void cmperrs(const Model &m, Fail &f) {
  unsigned n = 12345;
  const char **a = easyMock_getErrorArr(&n);
  if (m.rechecked) return;
  if (n != m.err.size()) {
    std::string got; for (unsigned i = 0; i < n && i < 6; i++) got += std::string(" [") + a[i] + "]";
    std::string want; for (size_t i = 0; i < m.err.size() && i < 6; i++) want += " [" + m.err[i] + "]";
    f.set(F("%u errors recorded, %zu expected; recorded:%s expected:%s", n, m.err.size(), got.c_str(), want.c_str())); return;
  }
  if (n == 0) { if (a) f.set("error array not null although there is no error"); return; }
  for (unsigned i = 0; i < n; i++) if (!a[i] || !errmatch(m.err[i], a[i])) { f.set(F("error %u is [%s], expected [%s]", i, a[i] ? a[i] : "(null)", m.err[i].c_str())); return; }
  if (a[n]) f.set("error array not terminated by a null pointer");
}
static void cmpstr(const Model &m, Fail &f) {
  if (m.rechecked) return;
  const char *s = easyMock_getErrorStr();
  if (m.err.empty()) { if (s) f.set("error string not null although there is no error"); return; }
  if (!s) { f.set("error string is null although errors were recorded"); return; }
  unsigned n; const char **a = easyMock_getErrorArr(&n);
  std::string w; for (unsigned i = 0; i < n; i++) { w += a[i]; w += "\n\r"; }
  if (w != s) f.set(F("error string [%s] is not the list of errors [%s]", s, w.c_str()));
}

static const int NOSERIAL = -1;
// out-of-order: are the bytes written by an out-of-order call specified? no.
static bool g_outspec;

static void step(Model &m, const Op &o, Fail &f) {
  g_rec.clear();
  std::vector<Rec> wrec;
  if (o.k == 'E') {
    int s = m.serial++;
    switch (o.fn) {
      case F_I:
        if (o.var == 0) hx_i_ExpectAndReturn(argA(F_I, s), argB(F_I, s), retI(s), mint<0>, mint<0>);
        else if (o.var == 1) hx_i_ExpectAndReturn(argA(F_I, s), argB(F_I, s), retI(s), nullptr, mint<1>);
        else hx_i_ExpectAndReturn(argA(F_I, s), argB(F_I, s), retI(s), mint<2>, nullptr);
        break;
      case F_V: hx_v_ExpectAndReturn(); break;
      case F_VV: hx_vv_ExpectAndReturn(retI(s)); break;
      case F_O: {
        hx_s a = mkS(argA(F_O, s)), r = mkS(retI(s));
        g_outsrc[s & 3] = mkS(s * 11 + 2);
        for (int i = 0; i < 16; i++) g_rawsrc[s & 3][i] = (unsigned char)(s * 16 + i + 100);
        if (o.var == 0) hx_o_ExpectAndReturn(a, &g_out, g_raw, r, mstruct, mptr, nullptr);
        else if (o.var == 1) hx_o_ExpectReturnAndOutput(a, &g_out, g_raw, r, nullptr, nullptr, mptr, &g_outsrc[s & 3], g_rawsrc[s & 3], (easyMock_size_t)(s % 12 + 1));
        else hx_o_ExpectReturnAndOutput(a, &g_out, g_raw, r, mstruct, nullptr, nullptr, nullptr, g_rawsrc[s & 3], (easyMock_size_t)(s % 3));
        break;
      }
      case F_LA: hx_longA_ExpectAndReturn(retI(s)); break;
      case F_LB: hx_longB_ExpectAndReturn(retI(s)); break;
      case F_F:
        EasyMock::hx_f::ExpectAndReturn(argA(F_F, s), argB(F_F, s), retI(s), o.var == 0 ? mcpp<0> : nullptr, mcpp<1>);
        break;
      case F_M:
        EasyMock::HxK::m::ExpectAndReturn(o.var == 0 ? &g_k1 : nullptr, argA(F_M, s), retI(s), mcpp<0>);
        break;
    }
    m.q[o.fn].push_back({o.var, s});
    m.fifo.push_back(o.fn);
  } else if (o.k == 'C') {
    unsigned idx = m.calls[o.fn]++;
    bool served = idx < m.q[o.fn].size();
    Exp e = served ? m.q[o.fn][idx] : Exp{0, NOSERIAL};
    int s = served ? e.serial : 77;
    int a = argA(o.fn, s), b = argB(o.fn, s);
    long long r = 0; hx_s rs;
    memset(&g_out, 0x5a, sizeof g_out); memset(g_raw, 0x5a, sizeof g_raw);
    hx_s before = g_out;
    hx_s as = mkS(a); void *rawp = g_raw;
    const std::string &P = g_proto[o.fn];
    // expected errors
    auto rej = [&](const std::string &msg) { m.err.push_back(F("Error : at call %u of '%s': %s", idx + 1, P.c_str(), msg.c_str())); };
    auto wm = [&](int kind, const char *p, long long act, long long exp) { wrec.push_back({kind, p, act, exp}); if (act != exp) rej(mmsg(kind, p, act, exp)); };
    if (!served) {
      m.err.push_back(HASRET[o.fn] ? F("Error : unexpected call of '%s'. \1", P.c_str()) : F("Error : unexpected call of '%s'.", P.c_str()));
      if (HASRET[o.fn]) { std::string &x = m.err.back(); x = x.substr(0, x.size() - 2) + " \1"; }
    }
    switch (o.fn) {
      case F_I: {
        int ca = o.var >= 1 ? a + 1 : a, cb = o.var == 2 ? b + 2 : b;
        if (served) {
          if (e.var == 0) { wm(0, "a", ca, a); wm(0, "b", cb, b); }
          if (e.var == 1) wm(1, "b", cb, b);
          if (e.var == 2) wm(2, "a", ca, a);
        }
        r = hx_i(ca, cb); break;
      }
      case F_V: hx_v(); break;
      case F_VV: r = hx_vv(); break;
      case F_O: {
        if (o.var == 1) { as.b[4] = 'z'; as.a++; rawp = g_raw + 1; }
        if (served) {
          hx_s xs = mkS(a);
          if (e.var == 0) { wm(3, "s", keyS(as), keyS(xs)); wm(4, "out", (long long)&g_out, (long long)&g_out); }
          if (e.var == 1) wm(4, "raw", (long long)rawp, (long long)g_raw);
          if (e.var == 2) wm(3, "s", keyS(as), keyS(xs));
        }
        rs = hx_o(as, &g_out, rawp); break;
      }
      case F_LA: r = hx_longA(); break;
      case F_LB: r = hx_longB(); break;
      case F_F: {
        int ca = o.var >= 1 ? a + 1 : a, cb = o.var == 1 ? b + 2 : b;
        if (served) { if (e.var == 0) wm(0, "a", ca, a); wm(1, "b", cb, b); }
        r = hx_f(ca, cb); break;
      }
      case F_M: {
        HxK &k = o.var == 1 ? g_k2 : g_k1;
        int ca = o.var == 2 ? a + 1 : a;
        if (served) {
          if (e.var == 0 && &k != &g_k1) m.err.push_back(F("Error : at call %u of '%s': \1", idx + 1, P.c_str()));
          wm(0, "a", ca, a);
        }
        r = k.m(ca); break;
      }
    }
    bool ooo = false;
    if (served) {
      int head = m.fifo.front(); m.fifo.pop_front();
      if (m.order && head != o.fn) { ooo = true; m.err.push_back(F("Error : got call to '%s',  but was expecting call to '%s'", P.c_str(), g_proto[head].c_str())); }
      if (HASRET[o.fn]) {
        if (o.fn == F_O) { if (!eqS(rs, mkS(retI(s)))) f.set(F("%s returned a=%d, expectation %d says %d", FNAME[o.fn], rs.a, s, retI(s))); }
        else if (r != retI(s)) f.set(F("%s returned %lld, its expectation (number %u of this function) says %d", FNAME[o.fn], r, idx + 1, retI(s)));
      }
    }
    if (o.fn == F_O) {
      unsigned char wraw[16]; memset(wraw, 0x5a, 16);
      bool wout = served && e.var == 1 && !ooo;
      size_t nraw = served && !ooo ? (e.var == 1 ? s % 12 + 1 : e.var == 2 ? s % 3 : 0) : 0;
      // sources in g_outsrc/g_rawsrc are reused every 4 serials: only the newest 4 are specified
      bool known = served && m.serial - s <= 4;
      if (!ooo && (known || !served)) {
        if (wout) { if (!eqS(g_out, mkS(s * 11 + 2))) f.set("output structure not the configured one"); }
        else if (memcmp(&g_out, &before, sizeof before)) f.set("output written although none was configured");
        for (size_t i = 0; i < nraw; i++) wraw[(unsigned char *)rawp - g_raw + i] = (unsigned char)(s * 16 + i + 100);
        if (memcmp(wraw, g_raw, 16)) f.set("untyped output bytes are not the configured ones");
      }
    }
    if (!(g_rec == wrec)) {
      std::string got, want;
      for (auto &x : g_rec) got += F(" (%d %s %lld %lld)", x.kind, x.p.c_str(), x.act, x.exp);
      for (auto &x : wrec) want += F(" (%d %s %lld %lld)", x.kind, x.p.c_str(), x.act, x.exp);
      f.set(F("matchers run:%s expected:%s", got.c_str(), want.c_str()));
    }
  } else if (o.k == 'K') {
    bool bad = !m.err.empty();
    std::set<std::string> cnt; size_t base = m.err.size();
    for (int i = 0; i < NFN; i++) if (m.q[i].size() != m.calls[i]) {
      bad = true;
      cnt.insert(F("Error: For function '%s' bad number of call. Expected %zu, got %u", g_proto[i].c_str(), m.q[i].size(), m.calls[i]));
    }
    int v = easyMock_check();
    if (v != (bad ? 0 : 1)) f.set(F("easyMock_check returned %d, expected %d", v, bad ? 0 : 1));
    unsigned n; const char **a = easyMock_getErrorArr(&n);
    std::multiset<std::string> got; for (unsigned i = base; i < n; i++) got.insert(a[i]);
    if (!m.rechecked) {
      if (got != std::multiset<std::string>(cnt.begin(), cnt.end())) {
        std::string g, w; for (auto &x : got) g += " [" + x + "]"; for (auto &x : cnt) w += " [" + x + "]";
        f.set("count errors reported by easyMock_check:" + g + " expected:" + w);
      }
      for (unsigned i = base; i < n; i++) m.err.push_back(a[i]);
      if (!cnt.empty()) m.rechecked = true;   // a second check may repeat count errors: only the verdict is specified
    } else if (n < m.err.size()) f.set("errors disappeared after a second check");
    int v2 = easyMock_check();
    if (v2 != v) f.set(F("asking again changed the verdict from %d to %d", v, v2));
    if (v == 1) { easyMock_getErrorArr(&n); if (n) f.set("passing check left errors behind"); }
    if (bad) m.rechecked = m.rechecked || !cnt.empty();
  } else if (o.k == 'I') { easyMock_init(); m.init(); }
  else if (o.k == 'O') { easyMock_setCheckCallsOrder(1); m.order = true; }
  else if (o.k == 'U') { easyMock_setCheckCallsOrder(0); m.order = false; }
  cmperrs(m, f);
}

static void discover() {
  easyMock_setPrintCallStack(0);
  easyMock_setCheckCallsOrder(0);
  for (int fn = 0; fn < NFN; fn++) {
    easyMock_init();
    hx_s s = mkS(1);
    switch (fn) {
      case F_I: hx_i(0, 0); break; case F_V: hx_v(); break; case F_VV: hx_vv(); break; case F_O: hx_o(s, &g_out, g_raw); break;
      case F_LA: hx_longA(); break; case F_LB: hx_longB(); break; case F_F: hx_f(0, 0); break; case F_M: g_k1.m(0); break;
    }
    unsigned n; const char **a = easyMock_getErrorArr(&n);
    const char *pre = "Error : unexpected call of '";
    if (n != 1 || strncmp(a[0], pre, strlen(pre))) { printf("VIOL probe C%d.0 :: an unexpected first call records %u errors (first: %s)\n", fn, n, n ? a[0] : ""); exit(0); }
    std::string t = a[0] + strlen(pre);
    size_t e = t.find("'.");
    g_proto[fn] = t.substr(0, e);
    if (g_proto[fn].find(FNAME[fn]) == std::string::npos) { printf("VIOL probe C%d.0 :: error does not name the function: %s\n", fn, a[0]); exit(0); }
  }
  for (int i = 0; i < NFN; i++) for (int j = 0; j < i; j++) if (g_proto[i] == g_proto[j]) { printf("VIOL probe - :: two functions share the name %s\n", g_proto[i].c_str()); exit(0); }
  easyMock_init();
}
static size_t modelhash(const Model &m) {
  std::string s;
  for (int i = 0; i < NFN; i++) { s += (char)m.calls[i]; s += '|'; for (size_t j = 0; j < m.q[i].size(); j++) { s += (char)m.q[i][j].var; s += (char)m.q[i][j].serial; } s += ';'; }
  for (int x : m.fifo) s += (char)x;
  s += (char)m.order;
  size_t h = std::hash<std::string>()(s);
  for (auto &e : m.err) h = h * 1000003 ^ std::hash<std::string>()(e);
  return h;
}
