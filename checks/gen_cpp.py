"""G10: C++ mocks. Real generator, real compiler, and a driver that observes every value, reference, instance and expectation."""
import itertools, os
import embuild
from emcheck import *

PRE = r'''#include <cstdarg>
#include <cstddef>
#include <string>
#include <vector>
struct Drv;
enum E0 { E0_A, E0_B = 5, E0_C = -3 };
enum class EC0 : short { A, B = 7 };
struct G { int a; char b[3]; };
typedef G GT;
using GU = G;
typedef int TI;
typedef int (*FT)(int);
union UN { int a; double d; };
class GC { public: int v; int peek() const { return v; } private: int hid = 4; };
struct HasStr { std::string s; int k; };
struct Fwd;
typedef wchar_t TW;
typedef std::nullptr_t TN;
typedef int TA3[3];
struct WB { int a; int w : 300; int b; };
struct HT { int a; char b[3]; };
enum HE { HE_0, HE_4 = 4 };
typedef int HD;
struct Abst { virtual int pure(int) = 0; virtual ~Abst() {} int ab; };
struct NoDef { int nd; explicit NoDef(int x) : nd(x) {} };
class NoMake { NoMake(); ~NoMake(); NoMake(const NoMake &) = delete; public: int nm; };
struct NoCopy { NoCopy() : nc(0) {} NoCopy(const NoCopy &) = delete; NoCopy &operator=(const NoCopy &) = delete; int nc; };
struct NoAssign { int na; NoAssign &operator=(const NoAssign &) = delete; };
struct MoveOnly { int mo; MoveOnly() : mo(0) {} MoveOnly(MoveOnly &&) = default; MoveOnly &operator=(MoveOnly &&) = default; };
struct ConstMember { const int cm; };
namespace t {
  struct T { int a; char b[3]; };
  enum TE { TE_A, TE_B = 9 };
  enum class TEC : unsigned char { X, Y = 200 };
  typedef T TT;
  using TU = T;
  typedef T *TP;
  class KC { public: struct In { short q; }; enum KE { KE_A, KE_B = 77 }; typedef int KI; int v; In in; };
  namespace u { struct T { double d; }; }
}
'''

# (spelling in the header, its canonical spelling for the driver); by name of the kind
TYPES = [("int", 0), ("const int", "int"), ("unsigned long long", 0), ("double", 0), ("bool", 0), ("char", 0), ("TI", "int"), ("E0", 0), ("EC0", 0), ("G", 0), ("struct G", "G"), ("GT", "G"), ("GU", "G"), ("GC", 0), ("UN", 0), ("HasStr", 0),
         ("t::T", 0), ("::t::T", "t::T"), ("struct t::T", "t::T"), ("t::TE", 0), ("enum t::TE", "t::TE"), ("t::TEC", 0), ("t::TT", "t::T"), ("t::TU", "t::T"), ("t::TP", "t::T*"), ("t::KC", 0), ("class t::KC", "t::KC"), ("t::KC::In", 0), ("t::KC::KE", 0), ("t::KC::KI", "int"),
         ("t::u::T", 0), ("std::string", 0), ("std::vector<int>", 0), ("FT", 0), ("const t::T", "t::T"), ("const GT", "G")]
PTRS = ["int *", "const int *", "int *const", "const int *const", "int **", "const char *", "G *", "const G *", "t::T *", "const t::T *", "t::T *const", "t::TT *", "t::KC *", "const t::KC::In *", "Fwd *", "const Fwd *", "std::string *", "E0 *", "t::TEC *", "FT *", "void *", "const void *", "t::u::T *", "UN *", "GC *", "HasStr *"]
REFS = [x + r for x in ("int", "E0", "G", "GT", "GC", "UN", "HasStr", "t::T", "t::TT", "t::TE", "t::TEC", "t::KC", "t::KC::In", "t::u::T", "std::string", "std::vector<int>", "int *", "t::T *", "FT", "bool", "double") for r in (" &", " &&")] + \
    ["const " + x + " &" for x in ("int", "E0", "G", "GU", "GC", "UN", "HasStr", "t::T", "t::TU", "t::TE", "t::TEC", "t::KC", "t::KC::In", "t::u::T", "std::string", "std::vector<int>", "bool", "char *")] + ["int *const &", "const t::T *&", "const char *const &"]
# declarators that do not end with the name
DECLS = ["int (*%s)(int)", "int (*%s)(t::T, int)", "void (&%s)(int)", "int (&%s)[3]", "const int (&%s)[3]", "t::T (*%s)[2]", "int (t::KC::*%s)", "int %s[4]", "t::T %s[]", "t::T *(*%s)(const t::T &)"]

# types that exist in C++ only, or whose parameters are not what their name says
TYPES2 = ["wchar_t", "char16_t", "char32_t", "const wchar_t", "TW", "std::nullptr_t", "decltype(nullptr)", "TN", "std::wstring", "WB", "wchar_t *", "const wchar_t *", "const char16_t *const", "char32_t **", "TW *", "WB *", "const WB *", "const wchar_t &", "char16_t &", "char32_t &&", "TW &", "TN &", "const TN &", "const std::wstring &", "std::u16string &", "const WB &", "WB &&",
          "std::va_list", "va_list", "TA3", "const TA3", "TA3 *", "TA3 &", "const TA3 &", "Abst &", "const Abst &", "Abst &&", "Abst *", "NoDef &", "const NoDef &", "NoDef *", "NoMake &", "const NoMake &", "NoMake *", "NoMake &&", "NoCopy &", "const NoCopy &", "NoCopy &&", "const NoCopy *", "NoAssign &", "const NoAssign &", "MoveOnly &", "MoveOnly &&", "const ConstMember &", "ConstMember *", "Fwd &", "const Fwd &", "Fwd &&",
          "wchar_t %s[4]", "WB (*%s)[2]", "wchar_t (*%s)(char16_t, TN)"]
RETS2 = ["wchar_t", "char16_t", "char32_t", "TW", "std::nullptr_t", "TN", "std::wstring", "WB", "const wchar_t *", "TW *", "WB *", "wchar_t &", "const char32_t &", "const std::wstring &", "WB &", "TA3 *", "TA3 &",
         "Abst &", "const Abst &", "Abst &&", "Abst *", "NoDef &", "const NoDef &", "NoDef &&", "NoMake &", "const NoMake &", "NoMake *", "NoCopy &", "const NoCopy &&", "NoAssign &", "MoveOnly &", "MoveOnly &&", "ConstMember &", "Fwd &", "const Fwd &", "Fwd &&"]
# objects that the mock would have to create, copy or assign and that can't be
BYVALUE = ["NoDef", "NoAssign", "MoveOnly", "ConstMember"]


def spell(t, name):
    if "%s" in t:
        return t % name
    return "%s %s" % (t, name)


class Scope:
    """where a function is declared: the namespaces around it, the classes around it"""
    def __init__(self, key, nss=(), classes=(), inline=False, cname=None):
        self.key, self.nss, self.classes = key, list(nss), list(classes)    # classes: [(keyword, name)]
        self.em = "::".join(["EasyMock"] + self.nss + [n for _, n in self.classes])
        self.full = "".join("::" + x for x in self.nss + [n for _, n in self.classes])
        self.inline = inline

    def nest(self, decls, extra=""):
        """open the namespaces and classes around the declarations"""
        o = "".join("%snamespace %s { " % ("inline " if self.inline and i == len(self.nss) - 1 else "", n) for i, n in enumerate(self.nss))
        for kw, n in self.classes:
            o += "%s %s { friend struct ::Drv; public: int em_pad_%s; " % (kw, n, n)
        o += extra + "\n" + "\n".join(decls) + "\n"
        return o + "};" * len(self.classes) + " " + "}" * len(self.nss) + "\n"


SCOPES = [Scope("global"), Scope("ns", ["n1"]), Scope("ns2", ["n1", "n2"]), Scope("ns3", ["n1", "n2", "n3"]), Scope("inline_ns", ["n4", "v1"], inline=True),
          Scope("class", [], [("class", "K")]), Scope("struct", [], [("struct", "Q")]), Scope("ns_class", ["n1"], [("class", "NK")]), Scope("ns2_struct", ["n1", "n2"], [("struct", "NQ")]),
          Scope("nested", [], [("class", "O"), ("class", "I")]), Scope("nested_struct", [], [("struct", "OS"), ("struct", "IS")]), Scope("ns_nested", ["n1"], [("class", "NO"), ("struct", "NI")]), Scope("nested3", ["n1"], [("class", "A3"), ("class", "B3"), ("class", "C3")])]
CLS = [s for s in SCOPES if s.classes]
FREE = [s for s in SCOPES if not s.classes]

# (key, before the return type, after the parameters, access, static)
MEMFORMS = [("plain", "", "", "public", 0), ("const", "", " const", "public", 0), ("virtual", "virtual ", "", "public", 0), ("virtual const", "virtual ", " const", "public", 0), ("static", "static ", "", "public", 1), ("noexcept", "", " noexcept", "public", 0),
            ("const noexcept", "", " const noexcept", "public", 0), ("static noexcept", "static ", " noexcept", "public", 1), ("volatile", "", " volatile", "public", 0), ("const volatile", "", " const volatile", "public", 0), ("lref", "", " &", "public", 0), ("rref", "", " &&", "public", 0), ("const lref", "", " const &", "public", 0),
            ("protected", "", "", "protected", 0), ("private", "", "", "private", 0), ("private static", "static ", "", "private", 1), ("private virtual", "virtual ", " const", "private", 0), ("protected const", "", " const", "protected", 0), ("trailing", "auto ", "", "public", 0), ("virtual noexcept", "virtual ", " noexcept", "public", 0), ("pure", "virtual ", " = 0", "public", 0), ("nodiscard", "[[nodiscard]] ", "", "public", 0)]
FREEFORMS = [("plain", "", "", "", 0), ("extern", "extern ", "", "", 0), ("noexcept", "", " noexcept", "", 0), ("trailing", "auto ", "", "", 0), ("trailing noexcept", "auto ", " noexcept", "", 0), ("nodiscard", "[[nodiscard]] ", "", "", 0), ("externc", "extern \"C\" ", "", "", 0)]


class CF:
    def __init__(self, scope, form, name, ret, params, key):
        self.scope, self.form, self.name, self.ret, self.params, self.key = scope, form, name, ret, params, key.replace(" ", "_")

    def decl(self):
        k, pre, post, acc, st = self.form
        ps = ", ".join(spell(t, n) for t, n in self.params)
        if k.startswith("trailing"):
            d = "auto %s(%s)%s -> %s;" % (self.name, ps, post, self.ret)
        elif "%s" in self.ret:
            d = pre + self.ret % ("%s(%s)" % (self.name, ps)) + post + ";"
        else:
            d = "%s%s %s(%s)%s;" % (pre, self.ret, self.name, ps, post)
        return (acc + ": " if acc else "") + d

    def instance(self):
        return bool(self.scope.classes) and not self.form[4]

    def proto(self):
        return self.scope.nest([self.decl()]).replace("\n", " ")


# ---------------------------------------------------------------------------------------------- driver
DHEAD = r'''#include "@H@"
#include "easyMock_@H@"
#include <easyMock.h>
// printing call stacks takes most of the time
#define easyMock_init() (easyMock_init(), easyMock_setPrintCallStack(easyMock_false))
#include <cstdio>
#include <cstring>
#include <memory>
#include <utility>
#include <type_traits>
template<class X> using bare = std::remove_cv_t<std::remove_reference_t<X>>;
static int bad; static const char *cur;
static void fail(const char *what, int a, int b) { if(bad++ < 200) std::printf("BAD %s %s %d %d\n", cur, what, a, b); }
// values
template<class X> struct V { static bare<X> *at(int s); };
static void set(int &x, int s) { x = s * 1000003 - 2000000; }
static void set(unsigned long long &x, int s) { x = s * 0x1234567890abcdULL + 1; }
static void set(double &x, int s) { x = s * 1e100 + 0.5; }
static void set(bool &x, int s) { x = s & 1; }
static void set(char &x, int s) { x = (char)(s * 50 + 1); }
static void set(E0 &x, int s) { x = s % 3 == 0 ? E0_A : s % 3 == 1 ? E0_B : E0_C; }
static void set(EC0 &x, int s) { x = (EC0)(s * 1111); }
static void set(G &x, int s) { set(x.a, s); x.b[0] = s; x.b[1] = -s; x.b[2] = 3 * s; }
static void set(GC &x, int s) { set(x.v, s); }
static void set(UN &x, int s) { x.d = s * 7e77; }
static void set(std::string &x, int s) { x = std::string(s * 9, 'a' + s) + "z"; }
static void set(std::vector<int> &x, int s) { x.assign(s + 1, s * 3); }
static void set(HasStr &x, int s) { set(x.s, s); x.k = s; }
static void set(t::T &x, int s) { set(x.a, s); x.b[0] = s + 1; x.b[1] = -s; x.b[2] = 5 * s; }
static void set(t::TE &x, int s) { x = s & 1 ? t::TE_A : t::TE_B; }
static void set(t::TEC &x, int s) { x = (t::TEC)(s * 40); }
static void set(t::KC &x, int s) { set(x.v, s); x.in.q = s * 5000; }
static void set(t::KC::In &x, int s) { x.q = s * 5001; }
static void set(t::KC::KE &x, int s) { x = s & 1 ? t::KC::KE_A : t::KC::KE_B; }
static void set(t::u::T &x, int s) { x.d = s * 1e-3; }
static void set(wchar_t &x, int s) { x = s * 30000 + 3; }
static void set(char16_t &x, int s) { x = s * 10000 + 4; }
static void set(char32_t &x, int s) { x = s * 200000000u + 5; }
static void set(std::nullptr_t &x, int) { x = nullptr; }
static void set(std::wstring &x, int s) { x = std::wstring(s * 7, 0x1F600 + s) + L"z"; }
static void set(std::u16string &x, int s) { x = std::u16string(s * 7, 0x4E00 + s) + u"z"; }
static void set(NoCopy &x, int s) { x.nc = s * 3; }
static void set(NoAssign &x, int s) { x.na = s * 3; }
static void set(MoveOnly &x, int s) { x.mo = s * 3; }
static void set(WB &x, int s) { x.a = s * 3; x.w = s * 0x1234567; x.b = s * 7 + 1; }
typedef std::remove_pointer_t<std::decay_t<va_list>> VaTag;
static void set(VaTag &x, int s) { std::memset(&x, s + 1, sizeof x); }
template<class X> static void set(X *&x, int s)
{
  if constexpr(std::is_function_v<X> || std::is_same_v<bare<X>, Fwd> || std::is_void_v<X>) { static char mem[8]; std::memset((void*)&x, 0, sizeof x); char *p = mem + s; std::memcpy((void*)&x, &p, sizeof x); }
  else x = V<X>::at(s);
}
template<class X, unsigned long N> static void set(X (&x)[N], int s) { for(unsigned long i = 0; i < N; ++i) set(const_cast<bare<X>&>(x[i]), s + (int)i); }
template<class X> static std::enable_if_t<std::is_enum_v<X>> set(X &x, int s) { x = (X)(s & 1 ? 0 : 4); }
template<class X, class = decltype(&X::b)> static void set(X &x, int s) { set(x.a, s); x.b[0] = s + 2; x.b[1] = -s; x.b[2] = 7 * s; }
static void set(int t::KC::*&x, int s) { x = s & 1 ? &t::KC::v : nullptr; }
struct Other : Abst { int pure(int) override { return 0; } };
template<class X> struct Made : std::integral_constant<int, std::is_same_v<bare<X>, NoMake> ? 1 : std::is_same_v<bare<X>, Fwd> ? 2 : std::is_same_v<bare<X>, Abst> ? 3 : std::is_same_v<bare<X>, NoDef> || std::is_same_v<bare<X>, ConstMember> ? 4 : 0> {};
template<class X> bare<X> *V<X>::at(int s)
{
  if constexpr(Made<X>::value == 3) { static Other o[8]; o[s].ab = s * 77; return &o[s]; }
  else if constexpr(Made<X>::value != 0) { alignas(16) static char mem[8][64]; int v = s * 55; std::memcpy(mem[s], &v, sizeof v); return reinterpret_cast<bare<X>*>(mem[s]); }
  else {
  static bare<X> tab[8]; static bool done[8];
  if(!done[s]) { done[s] = true; set(tab[s], s); }
  return &tab[s];
  }
}
// what a value is
static std::string ser(int x) { return std::to_string(x); }
static std::string ser(unsigned long long x) { return std::to_string(x); }
static std::string ser(double x) { return std::to_string(x); }
static std::string ser(bool x) { return std::to_string(x); }
static std::string ser(char x) { return std::to_string((int)x); }
template<class X, class = std::enable_if_t<std::is_enum_v<X>>> static std::string ser(X x) { return std::to_string((long)x); }
static std::string ser(const G &x) { return std::string((const char*)&x.a, sizeof x.a) + std::string(x.b, 3); }
static std::string ser(const GC &x) { return ser(x.v); }
static std::string ser(const UN &x) { return ser(x.d); }
static std::string ser(const std::string &x) { return x; }
static std::string ser(const std::vector<int> &x) { std::string r; for(int i : x) r += ser(i) + ","; return r; }
static std::string ser(const HasStr &x) { return x.s + "/" + ser(x.k); }
static std::string ser(const t::T &x) { return std::string((const char*)&x.a, sizeof x.a) + std::string(x.b, 3); }
static std::string ser(const t::KC &x) { return ser(x.v) + "/" + ser((int)x.in.q); }
static std::string ser(const t::KC::In &x) { return ser((int)x.q); }
static std::string ser(const t::u::T &x) { return ser(x.d); }
static std::string ser(wchar_t x) { return std::to_string((long)x); }
static std::string ser(char16_t x) { return std::to_string((long)x); }
static std::string ser(char32_t x) { return std::to_string((long)x); }
static std::string ser(std::nullptr_t) { return "null"; }
static std::string ser(const std::wstring &x) { return std::string((const char*)x.data(), x.size() * sizeof(wchar_t)); }
static std::string ser(const std::u16string &x) { return std::string((const char*)x.data(), x.size() * 2); }
static std::string ser(const Abst &x) { return ser(x.ab); }
static std::string ser(const NoDef &x) { return ser(x.nd); }
static std::string ser(const NoMake &x) { return ser(x.nm); }
static std::string ser(const NoCopy &x) { return ser(x.nc); }
static std::string ser(const NoAssign &x) { return ser(x.na); }
static std::string ser(const MoveOnly &x) { return ser(x.mo); }
static std::string ser(const ConstMember &x) { return ser(x.cm); }
static std::string ser(const Fwd &x) { int v; std::memcpy(&v, reinterpret_cast<const char*>(&x), sizeof v); return ser(v); }
static std::string ser(const WB &x) { return ser(x.a) + "/" + ser((int)x.w) + "/" + ser(x.b); }
static std::string ser(const VaTag &x) { return std::string((const char*)&x, sizeof x); }
template<class X> static std::string ser(X *const &x) { return std::string((const char*)&x, sizeof x); }
template<class X, class = decltype(&X::b), class = void> static std::string ser(const X &x) { return ser(x.a) + "/" + std::string(x.b, 3); }
static std::string ser(int t::KC::*const &x) { return std::string((const char*)&x, sizeof x); }
template<class X, unsigned long N> static std::string sera(X (&x)[N]) { std::string r; for(unsigned long i = 0; i < N; ++i) r += ser(x[i]) + ";"; return r; }
template<class X> static std::string sv(const X &x)
{
  if constexpr(std::is_array_v<X>) return sera(x);
  else if constexpr(std::is_function_v<X>) { auto p = &x; return std::string((const char*)&p, sizeof p); }
  else return ser(x);
}
// argument of type P with seed s
template<class P> static decltype(auto) arg(int s)
{
  using R = std::remove_reference_t<P>;
  if constexpr(std::is_lvalue_reference_v<P> && std::is_function_v<R>) { R *p; set(p, s); return static_cast<P>(*p); }
  else if constexpr(std::is_lvalue_reference_v<P>) return static_cast<P>(*V<R>::at(s));
  else if constexpr(std::is_rvalue_reference_v<P>) return static_cast<P>(*V<R>::at(s));
  else if constexpr(!std::is_copy_constructible_v<R>) return bare<P>(std::move(*V<R>::at(s)));
  else return bare<P>(*V<R>::at(s));
}
template<class P> static const void *addr(int s)
{
  using R = std::remove_reference_t<P>;
  if constexpr(std::is_reference_v<P> && !std::is_function_v<R>) return V<R>::at(s); else { (void)s; return nullptr; }
}
template<class P> static std::string want(int s)
{
  using R = std::remove_reference_t<P>;
  if constexpr(std::is_function_v<R>) { R *p; set(p, s); return sv(*p); }
  else return sv(*V<R>::at(s));
}
// matchers record what they are given
struct Rec { std::string a, e, n; const void *pa, *pe; int count; };
static Rec rec[12]; static int order[12]; static int nrec; static bool answer[12];
template<class X> static const void *adr(const X &x) { if constexpr(std::is_function_v<X>) { (void)x; return nullptr; } else return std::addressof(x); }
template<int J, class T> static bool m(const T &a, const T &e, const std::string n, std::ostringstream &os)
{
  if(nrec < 12) order[nrec++] = J;
  rec[J].a = sv(a); rec[J].e = sv(e); rec[J].n = n; rec[J].pa = adr(a); rec[J].pe = adr(e); rec[J].count++;
  if(answer[J]) os << "differs" << J;
  return answer[J];
}
static int nerr() { unsigned n = 0; easyMock_getErrorArr(&n); return n; }
static const char *err(int i) { unsigned n = 0; return easyMock_getErrorArr(&n)[i]; }
template<class P> static void check_arg(int j, int sa, int se, const char *name, int v)
{
  if(rec[j].count != 1) { fail("matcher_count", j, rec[j].count); return; }
  if(rec[j].a != want<P>(sa)) fail("actual", j, v);
  if(rec[j].e != want<P>(se)) fail("expected", j, v);
  if(*name && rec[j].n != name) fail("name", j, v);
  if(addr<P>(sa) && rec[j].pa != addr<P>(sa)) fail("actual_not_the_argument", j, v);
  if(addr<P>(se) && rec[j].pe != addr<P>(se)) fail("expected_not_the_argument", j, v);
}
template<class X> struct Storage { alignas(16) static char mem[2][sizeof(X) < 64 ? 64 : sizeof(X)]; static X *at(int k) { return k < 0 ? nullptr : reinterpret_cast<X*>(mem[k]); } };
template<class X> alignas(16) char Storage<X>::mem[2][sizeof(X) < 64 ? 64 : sizeof(X)];
'''


def canon(t):
    return t


def call_expr(f, inst, args):
    """text of a call on instance expression inst"""
    if not f.scope.classes:
        return "%s::%s(%s)" % (f.scope.full, f.name, ", ".join(args))
    cls = f.scope.full
    if f.form[4]:
        return "%s::%s(%s)" % (cls, f.name, ", ".join(args))
    cv = "const " if "const" in f.form[2] else "volatile " if "volatile" in f.form[2] else ""
    obj = "std::move(*%s)" % inst if "&&" in f.form[2] else "(*%s)" % inst
    return "%s.%s::%s(%s)" % (obj, cls, f.name, ", ".join(args))


def driver(fns, hname):
    o = [DHEAD.replace("@H@", hname)]
    o.append("struct Drv {\n")
    names = []
    for i, f in enumerate(fns):
        n = len(f.params)
        isvoid = f.ret == "void"
        for j, (t, pn) in enumerate(f.params):
            # parameters decay
            o.append("  typedef %s;\n" % spell(t, "P%d_%d_" % (i, j)))
            o.append("  typedef std::conditional_t<std::is_array_v<P%d_%d_>, std::decay_t<P%d_%d_>, P%d_%d_> P%d_%d;\n" % ((i, j) * 4))
        if not isvoid:
            o.append("  typedef %s;\n" % spell(f.ret, "R%d" % i))
        em = "::%s::%s::ExpectAndReturn" % (f.scope.em, f.name)
        inst = f.instance()
        if inst:
            o.append("  static %s *i%d(int k) { return Storage<%s>::at(k); }\n" % (f.scope.full, i, f.scope.full))
        o.append("  static void expect%d(int inst, int s, int r, bool match) {\n    (void)inst; (void)s; (void)r; (void)match;\n" % i)
        ea = (["i%d(inst)" % i] if inst else []) + ["arg<P%d_%d>((s + %d) %% 6)" % (i, j, j) for j in range(n)] + ([] if isvoid else ["arg<R%d>(r)" % i])
        ea += ["match ? &m<%d, P%d_%d> : nullptr" % (j, i, j) for j in range(n)]
        o.append("    %s(%s);\n  }\n" % (em, ", ".join(ea)))
        o.append("  static void call%d(int inst, int s, int r) {\n    (void)inst; (void)s; (void)r; nrec = 0; for(Rec &x : rec) x = Rec{};\n" % i)
        cl = call_expr(f, "i%d(inst)" % i, ["arg<P%d_%d>((s + %d) %% 6)" % (i, j, j) for j in range(n)])
        if isvoid:
            o.append("    %s;\n  }\n" % cl)
        else:
            o.append("    R%d &&got = %s;\n    if(r >= 0) { if(sv(got) != want<R%d>(r)) fail(\"return\", r, s); if(addr<R%d>(r) && (const void*)std::addressof(got) != addr<R%d>(r)) fail(\"returned_reference\", r, s); }\n  }\n" % (i, cl, i, i, i))
        # values
        o.append("  static void t%d() {\n    cur = \"%s\";\n" % (i, f.key))
        k0 = "k" if inst else "0"
        o.append("    for(int v = 0; v < 6; ++v) {\n      easyMock_init();\n")
        o.append("      for(int k = 0; k < 2; ++k) expect%d(%s, v + k, (v + 3 + k) %% 6, true);\n" % (i, k0))
        o.append("      for(int k = 0; k < 2; ++k) {\n        call%d(%s, v + 2 + 3 * k, (v + 3 + k) %% 6);\n" % (i, k0))
        o.append("        if(nrec != %d) fail(\"matchers\", nrec, v);\n" % n)
        for j, (t, pn) in enumerate(f.params):
            o.append("        if(order[%d] != %d) fail(\"order\", %d, order[%d]);\n" % (j, j, j, j))
            o.append("        check_arg<P%d_%d>(%d, (v + 2 + 3 * k + %d) %% 6, (v + k + %d) %% 6, \"%s\", v);\n" % (i, j, j, j, j, pn))
        o.append("      }\n      if(nerr() || !easyMock_check()) fail(\"errors\", nerr(), v);\n    }\n")
        # which matcher's answer is an error; null matchers compare nothing; one call too many, one too few
        o.append("    for(int j = -1; j < %d; ++j) {\n      easyMock_init(); for(bool &x : answer) x = false; if(j >= 0) answer[j] = true;\n" % n)
        o.append("      expect%d(%s, 1, 2, true); expect%d(%s, 1, 2, false); call%d(0, 2, 2); int e = nerr(); if(e != (j >= 0)) fail(\"matcher_answer\", j, e);\n" % (i, "0", i, "0", i))
        o.append("      call%d(0, 3, 2); if(nerr() != e) fail(\"null_matcher\", j, nerr());\n      if(nrec) fail(\"null_matcher_called\", j, nrec);\n" % i)
        o.append("      if((bool)easyMock_check() != (j < 0)) fail(\"check\", j, 0);\n      for(bool &x : answer) x = false;\n    }\n")
        o.append("    easyMock_init(); expect%d(0, 1, 2, true); if(easyMock_check()) fail(\"uncalled_accepted\", 0, 0);\n" % i)
        o.append("    easyMock_init(); call%d(0, 1, -1); if(nerr() != 1 || easyMock_check()) fail(\"unexpected_accepted\", nerr(), 0);\n" % i)
        if inst:
            o.append("    for(int p = 0; p < 36; ++p) {\n      int ei[2] = { p %% 3 - 1, p / 3 %% 3 - 1 }, ci[2] = { p / 9 %% 2, p / 18 };\n      easyMock_init();\n"
                     "      for(int k = 0; k < 2; ++k) expect%d(ei[k], k, k + 1, true);\n      int n = 0;\n"
                     "      for(int k = 0; k < 2; ++k) { call%d(ci[k], k, k + 1); bool bad_i = ei[k] >= 0 && ei[k] != ci[k]; n += bad_i; if(nerr() != n) fail(\"instance\", p, nerr()); else if(bad_i && !std::strstr(err(n - 1), \"Expecting this object being\")) fail(\"instance_error\", p, k); }\n"
                     "      if((bool)easyMock_check() != (n == 0)) fail(\"instance_check\", p, n);\n    }\n" % (i, i))
        # output parameters
        outs = [j for j, (t, pn) in enumerate(f.params) if t in ("int *", "G *", "t::T *", "E0 *", "t::TT *", "t::TEC *", "HasStr *", "t::KC *")]
        if outs:
            allout = outs == [j for j, (t, pn) in enumerate(f.params) if "*" in t and "&" not in t and "(" not in t and not t.startswith("const ")] and not any("[" in t or "t::TP" in t or t == "FT" or "(" in t for t, _ in f.params)
            if allout:
                o.append("    for(int mask = 0; mask < %d; ++mask) { easyMock_init();\n" % (1 << len(outs)))
                for x, j in enumerate(outs):
                    o.append("      std::remove_pointer_t<P%d_%d> out%d; set(out%d, 5); set(*V<std::remove_pointer_t<P%d_%d>>::at((1 + %d) %% 6), (1 + %d) %% 6);\n" % (i, j, j, j, i, j, j, j))
                a = (["i%d(0)" % i] if inst else []) + ["arg<P%d_%d>(%d)" % (i, j, j % 6) for j in range(n)] + ([] if isvoid else ["arg<R%d>(0)" % i])
                a += ["&m<%d, P%d_%d>" % (j, i, j) for j in range(n)] + ["mask & %d ? &out%d : nullptr" % (1 << x, j) for x, j in enumerate(outs)]
                o.append("      ::%s::%s::ExpectReturnAndOutput(%s);\n      call%d(0, 1, 0);\n" % (f.scope.em, f.name, ", ".join(a), i))
                same = len(set(f.params[j][0] for j in outs)) == len(outs)
                if same:
                    for x, j in enumerate(outs):
                        o.append("      { std::remove_pointer_t<P%d_%d> w; set(w, mask & %d ? 5 : (1 + %d) %% 6); if(sv(*V<std::remove_pointer_t<P%d_%d>>::at((1 + %d) %% 6)) != sv(w)) fail(\"output\", %d, mask); set(*V<std::remove_pointer_t<P%d_%d>>::at((1 + %d) %% 6), (1 + %d) %% 6); }\n" % (i, j, 1 << x, j, i, j, j, j, i, j, j, j))
                o.append("      if(nerr() || !easyMock_check()) fail(\"output_errors\", nerr(), mask);\n    }\n")
        o.append("  }\n")
        names.append("t%d" % i)
    # the expectations of one function are never used by another: all histories over expect/call of all functions
    if len(fns) <= 14:
        k = len(fns)
        depth = 5 if k <= 2 else 4 if k <= 3 else 3
        o.append("  static void isolation() {\n    void (*ex[])(int, int, int, bool) = { %s };\n    void (*ca[])(int, int, int) = { %s };\n" % (", ".join("expect%d" % i for i in range(k)), ", ".join("call%d" % i for i in range(k))))
        o.append("    const char *keys[] = { %s };\n" % ", ".join('"%s"' % f.key for f in fns))
        o.append("    const int K = %d, D = %d; long total = 1; for(int d = 0; d < D; ++d) total *= 2 * K;\n" % (k, depth))
        o.append(r'''    for(long h = 0; h < total; ++h) {
      easyMock_init(); int q[K][8], head[K], tail[K], errs = 0; for(int i = 0; i < K; ++i) head[i] = tail[i] = 0;
      long c = h;
      for(int d = 0; d < D; ++d, c /= 2 * K) {
        int op = c % (2 * K), i = op / 2; cur = keys[i];
        if(op % 2 == 0) { int r = d % 6; q[i][tail[i]++] = r; ex[i](-1, 0, r, false); }
        else if(head[i] < tail[i]) { ca[i](0, 1, q[i][head[i]++]); if(nerr() != errs) { fail("isolation", (int)h, d); errs = nerr(); } }
        else { ++head[i]; ca[i](0, 1, -1); ++errs; if(nerr() != errs) { fail("isolation_unexpected", (int)h, d); errs = nerr(); } }
      }
      bool ok = errs == 0; for(int i = 0; i < K; ++i) ok = ok && head[i] == tail[i];
      // the k-th call is served by the k-th expectation
      if((bool)easyMock_check() != ok) fail("isolation_check", (int)h, 0);
    }
    std::printf("HIST %ld\n", total);
  }
''')
        names.append("isolation")
    o.append("};\nint main() { easyMock_init();\n%s  std::printf(\"END %%d\\n\", bad); return 0; }\n" % "".join("  Drv::%s();\n" % n for n in names))
    return "".join(o)


def header(fns, pre=PRE, distract="", cdistract=""):
    """all functions, grouped by scope so that a class is declared once"""
    o = "#ifndef HDR_G10\n#define HDR_G10\n" + pre + distract + "\n"
    seen = []
    for f in fns:
        if f.scope not in seen:
            seen.append(f.scope)
    for s in seen:
        if s.classes:
            o += s.nest([f.decl() for f in fns if f.scope is s], cdistract)
        else:
            # every function reopens its namespaces
            o += s.types_before() if hasattr(s, "types_before") else ""
            for f in fns:
                if f.scope is s:
                    o += s.nest([f.decl()])
    return o + "#endif\n"


class CppLab:
    CXX = ["g++", "-std=gnu++17", "-w", "-O0", "-g0"]

    def __init__(self, c, gen, fw):
        import threading
        self.c, self.gen, self.fw, self.n, self.headers, self.hist, self.nfail, self.l = c, gen, fw, 0, 0, 0, 0, threading.Lock()

    def stage(self, fns, d, hdr, args=()):
        write(d + "/h.h", hdr)
        rc, out = generate(self.gen, d + "/h.h", d, ["--mock-cpp"] + list(args))
        with self.l:
            self.headers += 1
        if rc != 0:
            return "generate", "exit %s: %s" % (rc, out[-600:])
        rc, out = sh(self.CXX + ["-c", "-I" + d, "-I" + FWINC, d + "/easyMock_h.cpp", "-o", d + "/m.o"])
        if rc != 0:
            return "compile", "\n".join([l for l in out.splitlines() if "error" in l][:4])
        write(d + "/d.cpp", driver(fns, "h.h"))
        rc, out = sh(self.CXX + ["-I" + d, "-I" + FWINC, d + "/d.cpp", d + "/m.o", "-o", d + "/d", self.fw, "-Wl,-rpath," + os.path.dirname(self.fw)], timeout=400)
        if rc != 0:
            return "use", "\n".join([l for l in out.splitlines() if "error" in l or "undefined" in l][:4])
        rc, out = sh([d + "/d"], timeout=100)
        if rc != 0 or not out.rstrip().endswith("END 0"):
            return "run", "exit %s\n%s" % (rc, "\n".join([l for l in out.splitlines() if l.startswith("BAD")][:6]) or out[-300:])
        for l in out.splitlines():
            if l.startswith("HIST "):
                with self.l:
                    self.hist += int(l[5:])
        return None

    def job(self, fns, key, split=True, **hk):
        """run one header; returns the list of (key, stage, text, files)"""
        with self.l:
            self.n += 1
            d = os.path.join(self.c.work, "b%d" % self.n)
        os.makedirs(d)
        try:
            r = self.stage(fns, d, header(fns, **hk))
            if r is None:
                return []
            if not split or len(fns) == 1 or self.nfail > 100:
                self.nfail += 1
                files = {n: open(d + "/" + n).read() for n in ("h.h", "d.cpp") if os.path.exists(d + "/" + n)}
                return [(key if not split or len(fns) > 1 else fns[0].key, r, files)]
        finally:
            shutil.rmtree(d, True)
        m = len(fns) // 2
        res = self.job(fns[:m], key, **hk) + self.job(fns[m:], key, **hk)
        if not res:
            return self.job(fns, key, split=False, **hk) or [(key, r, {})]
        return res

    def run(self, jobs):
        """jobs: (fns, key, kwargs)"""
        for bad in pmap(lambda j: self.job(j[0], j[1], **j[2]), jobs):
            for key, (stage, text), files in bad:
                self.c.violation("%s:%s" % (stage, key), "%s: %s" % (stage, text), files,
                                 script="d=$(mktemp -d); cp \"$(dirname \"$0\")\"/* $d; %s -i $d/h.h -o $d --mock-cpp && g++ -std=gnu++17 -w -I$d -I%s -c $d/easyMock_h.cpp -o $d/m.o && g++ -std=gnu++17 -w -I$d -I%s $d/d.cpp $d/m.o -o $d/d %s -Wl,-rpath,%s && $d/d" % (
                                     self.gen, FWINC, FWINC, self.fw, os.path.dirname(self.fw)))


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


RETS = ["void", "int", "E0", "EC0", "G", "GT", "t::T", "struct t::T", "t::TE", "t::TEC", "t::TT", "t::KC", "t::KC::In", "t::KC::KE", "t::u::T", "std::string", "std::vector<int>", "int *", "const t::T *", "t::T *", "FT", "const char *", "bool", "double", "UN", "GC", "HasStr", "const int", "t::TP",
        "int &", "const int &", "t::T &", "const t::T &", "G &", "std::string &", "const std::string &", "t::TEC &", "int *&", "t::KC &", "const t::KC::In &", "std::vector<int> &", "int &&", "t::T &&", "std::string &&", "const GT &", "Fwd *"]


def single_functions(quick):
    fns = []
    # every form in every scope
    sigs = [("int", [("int", "a")]), ("t::T", [("const t::T &", "x"), ("t::TEC", "y")]), ("void", [("std::string", "s"), ("t::T *", "p")]), ("const std::string &", [])]
    n = 0
    for sc in SCOPES:
        for form in MEMFORMS if sc.classes else FREEFORMS:
            for k, (r, ps) in enumerate(sigs):
                if form[0] == "externc" and r not in ("int", "void"):
                    continue
                fns.append(CF(sc, form, "ff%d" % n, r, ps, "form:%s/%s/%d" % (sc.key, form[0], k)))
                n += 1
    # every type as parameter and as return value, in every scope (types x scopes)
    alltypes = [t for t, _ in TYPES] + PTRS + REFS + DECLS
    for i, t in enumerate(alltypes):
        for q, sc in enumerate(SCOPES):
            if (i + q) % (4 if quick else 2):
                continue
            form = (MEMFORMS if sc.classes else FREEFORMS)[0 if q % 3 else 1]
            fns.append(CF(sc, form, "pt%d_%d" % (i, q), "int" if q % 2 else "void", [(t, "a")], "param:%s/%s" % (t, sc.key)))
    for i, t in enumerate(RETS):
        for q, sc in enumerate(SCOPES):
            if (i + q) % (4 if quick else 2):
                continue
            for form in (MEMFORMS[0], MEMFORMS[18], MEMFORMS[2], MEMFORMS[4]) if sc.classes else (FREEFORMS[0], FREEFORMS[3]):
                if quick and (i + q) % 8 and form is not MEMFORMS[0] and form is not FREEFORMS[0]:
                    continue
                fns.append(CF(sc, form, "rt%d_%d_%s" % (i, q, form[0]), t, [("int", "a")] if q % 2 else [], "return:%s/%s/%s" % (t, sc.key, form[0])))
    for i, t in enumerate(TYPES2):
        for q, sc in enumerate(SCOPES):
            if (i + q) % (5 if quick else 1):
                continue
            form = (MEMFORMS if sc.classes else FREEFORMS)[0 if q % 3 else 1]
            fns.append(CF(sc, form, "p2t%d_%d" % (i, q), RETS2[(i + q) % len(RETS2)] if q % 2 else "void", [(t, "a")] if q % 4 < 2 else [("int", "b"), (t, "a"), (TYPES2[(i * 7 + q) % len(TYPES2)], "c")], "param:%s/%s" % (t, sc.key)))
    for i, t in enumerate(RETS2):
        for q, sc in enumerate(SCOPES):
            if (i + q) % (4 if quick else 1):
                continue
            for form in (MEMFORMS[0], MEMFORMS[18]) if sc.classes else (FREEFORMS[0], FREEFORMS[3]):
                fns.append(CF(sc, form, "r2t%d_%d_%s" % (i, q, form[0]), t, [("int", "a")] if q % 2 else [], "return:%s/%s/%s" % (t, sc.key, form[0])))
    # pairs of types
    mix = ["int", "const t::T &", "t::T", "std::string", "const std::string &", "G *", "t::TEC", "int &", "t::T &&", "FT", "const char *", "t::KC::In &", "HasStr", "t::TT *", "double", "std::vector<int>"]
    if quick:
        mix = mix[:12]
    for (i, a), (j, b_) in itertools.product(enumerate(mix), repeat=2):
        sc = SCOPES[(i * 5 + j) % len(SCOPES)]
        fns.append(CF(sc, (MEMFORMS if sc.classes else FREEFORMS)[0], "pp%d_%d" % (i, j), RETS[(i + 3 * j) % len(RETS)], [(a, "p"), (b_, "q")], "pair:%s,%s" % (a, b_)))
    # unnamed parameters, counts
    for i, t in enumerate(mix):
        sc = SCOPES[i % len(SCOPES)]
        fns.append(CF(sc, (MEMFORMS if sc.classes else FREEFORMS)[0], "un%d" % i, "int", [(t, ""), ("int", ""), (t, "z")], "unnamed:" + t))
    for n in range(0, 11):
        sc = SCOPES[(3 * n) % len(SCOPES)]
        fns.append(CF(sc, (MEMFORMS if sc.classes else FREEFORMS)[0], "cn%d" % n, "int", [(mix[(n + j) % len(mix)], "c%d" % j) for j in range(n)], "count:%d" % n))
    # types of the own scope, spelled without it
    return fns


# types declared in the scope of the function and spelled relative to it
REL = [("T", "struct T { int a; char b[3]; };"), ("EE", "enum EE { EE_A, EE_B = 4 };"), ("CE", "enum class CE { A, B = 4 };"), ("TD", "typedef int TD;"), ("FP", "typedef int (*FP)(int);"), ("UU", "using UU = double;")]


def relative(quick):
    """headers where parameter and return types belong to the scope of the function (the name hides one of an outer scope)"""
    jobs = []
    for sc in SCOPES:
        if sc.key == "global":
            continue
        decls, fns, dset = [], [], []
        for n, d in REL:
            decls.append(d)
        for i, (n, d) in enumerate(REL):
            for j, suf in enumerate(["", " &", " *"]):
                f = CF(sc, (MEMFORMS if sc.classes else FREEFORMS)[0], "rl%d_%d" % (i, j), n if suf in ("", " &") else "int", [(n + suf, "a"), ("int", "b")], "relative:%s%s/%s" % (n, suf, sc.key))
                fns.append(f)
        jobs.append((sc, decls, fns))
    return jobs


# types of the global scope whose names mean other types in the scope of the function
HIDE = ["struct HT { double other; };", "struct HE { char other[5]; };", "typedef char *HD;"]
HPARAMS = ["::HT", "::HT *", "const ::HT *", "::HT &", "const ::HT &", "::HT &&", "::HT **", "::HE", "::HE *", "const ::HE &", "::HD", "::HD *", "const ::HD &", "::HD **", "struct ::HT *", "enum ::HE"]
HRETS = ["int", "::HT", "::HT *", "const ::HT &", "::HE", "::HD", "::HD *", "void", "const ::HT *", "::HE &"]


def hidden():
    jobs = []
    for sc in SCOPES:
        if sc.key == "global":
            continue
        fns = []
        for i, t in enumerate(HPARAMS):
            f = CF(sc, (MEMFORMS if sc.classes else FREEFORMS)[0], "hd%d" % i, HRETS[i % len(HRETS)], [(t, "a"), (HPARAMS[(i * 3 + 1) % len(HPARAMS)], "b")], "hidden:%s/%s" % (t, sc.key))
            fns.append(f)
        for i, t in enumerate(HRETS):
            f = CF(sc, (MEMFORMS if sc.classes else FREEFORMS)[0], "hr%d" % i, t, [], "hidden_return:%s/%s" % (t, sc.key))
            fns.append(f)
        jobs.append((sc, HIDE, fns))
    return jobs


SLOTS = [("f", "int", [("int", "a")], "global", "plain"), ("f", "int", [("double", "a")], "global", "plain"), ("g", "int", [("int", "a")], "global", "plain"), ("f", "int", [("int", "a")], "ns", "plain"), ("f", "int", [("t::T", "a")], "ns", "plain"), ("f", "int", [("int", "a")], "ns2", "plain"),
         ("f", "int", [("int", "a")], "class", "plain"), ("f", "int", [("double", "a")], "class", "plain"), ("f", "int", [("int", "a"), ("int", "b")], "class", "static"), ("f", "int", [("int", "a")], "struct", "virtual"), ("f", "int", [("int", "a")], "ns_class", "const"),
         ("f", "int", [("int", "a")], "nested", "plain"), ("f", "int", [("int", "a")], "ns_nested", "plain"), ("f", "int", [("int", "a")], "inline_ns", "plain"), ("g", "int", [], "class", "static"), ("f", "int", [("int *", "a")], "global", "plain"), ("f", "int", [("const int *", "a")], "global", "plain"), ("f", "int", [("HasStr &&", "a")], "struct", "plain"), ("f_2", "int", [("int", "a")], "global", "plain"), ("f_ExpectAndReturn", "int", [("int", "a")], "global", "plain"), ("f_mocked", "int", [("int", "a")], "global", "plain"), ("f_data", "int", [("int", "a")], "global", "plain")]


def slot(k):
    n, r, ps, sc, form = SLOTS[k]
    s = [x for x in SCOPES if x.key == sc][0]
    fm = [x for x in (MEMFORMS if s.classes else FREEFORMS) if x[0] == form][0]
    return CF(s, fm, n, r, ps, "slot%d:%s(%s)@%s" % (k, n, ",".join(t for t, _ in ps), sc))


# other declarations of the header: at namespace level, or in the class
DISTRACT = ["template<class X> X tf(X a);", "template<class X> X tf2(X a) { return a; }\ntemplate int tf2<int>(int);", "template<class X> struct TS { X x; int m(X a); X n(int); };", "template<> struct std::hash<G>;", "inline int inl(int a) { return a; }", "static int sta(int a) { return a; }", "constexpr int cex(int a) { return a; }",
            "namespace { int anon(int a); }", "G operator+(const G &a, const G &b);", "bool operator==(const G &a, const G &b);", "struct Cd { Cd(); Cd(int); Cd(const Cd &); Cd(Cd &&); ~Cd(); Cd &operator=(const Cd &); operator int() const; explicit operator bool() const; int operator()(int); int operator[](int); void *operator new(unsigned long); };",
            "struct Del { Del() = delete; int m(int) = delete; Del &operator=(const Del &) = default; };", "int del(int) = delete;", "struct Fr { friend int frf(Fr &); friend struct G; int x; };", "struct Loc { int m() { struct In { int k(int a) { return a; } }; return In().k(1); } };", "static auto lam = [](int a) { return a; };", "extern int gv; extern const G gg; extern std::string gs;",
            "struct Base { virtual ~Base() {} virtual int vb(int) { return 1; } }; struct Der : Base { int vb(int) override { return 2; } using Base::Base; };", "struct Ab { virtual int pv() = 0; int q(Ab *); };", "using namespace t;", "using t::T;", "namespace al = t;", "static_assert(sizeof(int) == 4, \"\");", "struct Vb : virtual G { int m(); };", "union Um { int i; float g; int um(int); };",
            "struct Bit { int a : 3; unsigned b : 5; int m(Bit); };", "template<class... A> int va(A... a);", "template<class X> using Al = std::vector<X>; Al<int> alf(Al<int> a);", "struct { int an; } anv;", "struct Stm { static int sm; static const int sc = 4; static constexpr double sd = 1.5; static int f(); };", "enum : long { BIG = 1l << 40 };", "extern \"C\" { int cfun(int a); typedef int cint; }", "extern \"C++\" int cppf(int);",
            "struct Self { Self *next; Self &ref(); Self val(Self); const Self *const *pp(Self **); };", "struct Mut; struct Mut2 { int m(Mut *); }; struct Mut { int m(Mut2 *); };", "int dflt(int a = 3, const char *s = \"x,y)\");", "int ell(int a, ...);", "[[deprecated(\"no\")]] int depr(int);", "int noret(int) __attribute__((noinline));", "namespace n1 { int f_other(int); }", "int arr(int a[3], char b[][4]);", "void fpf(void (*cb)(int, void *), void *u);",
            "struct Ov { int f(int); int f(double) const; static int f(char); };", "class Priv { int hidden(int); protected: int prot(int); public: int pub(int); };", "struct Fin final { int f() const noexcept; };", "struct Out { struct In { struct In2 { int d(In2 &); }; int c(In2); }; int b(In); };", "struct Opq; Opq *mk(); void rm(Opq *);", "volatile int *volp(volatile int *p);", "int rest(int *__restrict p);", "typedef int FnT(int); FnT fnt;", "long long unsigned int llu(long long unsigned int);", "std::vector<std::string> vs(const std::vector<t::T> &a, std::vector<int> *b);", "std::pair<int, t::T> pr(std::pair<int, int> p);"]
CDISTRACT = ["K_D() {}", "virtual void dummyv() {}", "int operator()(int);", "operator int() const;", "template<class X> X tm(X);", "int inl(int a) { return a; }", "int del(int) = delete;", "friend int fr(int);", "struct Inn { int q(int); };", "enum En { EnA };", "typedef int Ty;", "static int sv;", "static const int sc = 3;", "int *p; int arr[3];", "int (*fp)(int);", "bool operator==(int) const;", "using Al = int;", "mutable int mu;", "union { int ua; float ub; };", "int bf : 3;", "private: int pm(int); public:", "protected: virtual int pv(int) { return 0; } public:", "class FwdIn; FwdIn *fi();", "static_assert(true, \"\");", "template<class X> struct TI { int z(X); };", "constexpr int cx() const { return 1; }"]


def G10(c):
    gen, fw = embuild.generator(), embuild.framework("plain")
    lab = CppLab(c, gen, fw)
    jobs = []
    fns = single_functions(c.quick)
    # functions of a few scopes in one header; neighbours differ in scope
    for k, part in enumerate(chunks(sorted(fns, key=lambda f: hash_(f.name)), 24)):
        jobs.append((part, "together:%d" % k, {}))
    nsingle = len(fns)
    for sc, decls, rf in relative(c.quick):
        jobs.append((rel_adapt(sc, decls, rf), "relative:" + sc.key, {"pre": PRE}))
        nsingle += len(rf)
    for sc, decls, rf in hidden():
        jobs.append((rel_adapt(sc, decls, rf), "hidden:" + sc.key, {}))
        nsingle += len(rf)
    pairs = list(itertools.combinations(range(len(SLOTS)), 2))
    if c.quick:
        pairs = [p for p in pairs if p[0] < 4 or (p[0] + p[1]) % 3 == 0]
    for p in pairs:
        jobs.append(([slot(k) for k in p], "slots:" + ",".join(map(str, p)), {"split": False}))
    trip = list(itertools.combinations(range(len(SLOTS)), 3))
    if c.quick:
        trip = [x for x in trip if sum(x) % 29 == 0]
    else:
        trip = [x for x in trip if x[0] < 1 or sum(x) % 7 == 0]
    for p in trip:
        jobs.append(([slot(k) for k in reversed(p)], "slots:" + ",".join(map(str, p)), {"split": False}))
    for st in range(0, 3):
        ks = list(range(len(SLOTS)))[st * 4:st * 4 + 13]
        jobs.append(([slot(k) for k in ks], "slots:%d-" % (st * 4), {"split": False}))
    g_ = [x for x in SCOPES if x.key == "global"][0]
    jobs.append(([CF(g_, FREEFORMS[0], "mk", "int", [("int", "a")], "mk"), CF(g_, FREEFORMS[0], "mocked_mk", "int", [("int", "a")], "mocked_mk")], "reserved:mocked_", {"split": False}))
    for t in BYVALUE:
        for what, f in (("param", CF(g_, FREEFORMS[0], "bv", "int", [(t, "a")], "byvalue:param:" + t)), ("return", CF(g_, FREEFORMS[0], "bv", t, [("int", "a")], "byvalue:return:" + t))):
            jobs.append(([f], f.key, {}))
            nsingle += 1
    base = lambda i: [slot(3), slot(6), slot(10)] if i % 2 else [slot(0), slot(5), slot(12)]
    for i, dtext in enumerate(DISTRACT):
        jobs.append((base(i), "beside:%d:%s" % (i, dtext[:30].replace(" ", "_")), {"split": False, "distract": dtext}))
    for i, dtext in enumerate(CDISTRACT):
        if "K_D" in dtext:
            continue
        jobs.append(([slot(6), slot(14)], "member_beside:%d:%s" % (i, dtext[:30].replace(" ", "_")), {"split": False, "cdistract": dtext}))
    if not c.quick:
        for i, j in itertools.combinations(range(len(DISTRACT)), 2):
            if (i + j) % 7 == 0:
                jobs.append((base(i + j), "beside:%d,%d" % (i, j), {"split": False, "distract": DISTRACT[i] + "\n" + DISTRACT[j]}))
    lab.run(jobs)
    c.add(states=lab.hist + nsingle * 60, transitions=nsingle * 100 + lab.hist * 3, traces_validated_against_impl=lab.headers, headers=lab.headers, functions=nsingle, isolation_histories=lab.hist, header_jobs=len(jobs))
    for f in fns[:: max(1, len(fns) // 10)]:
        c.sample(f.proto())
    c.assumptions += ["gcc 13 decides what compiles and links", "C++ declarations beyond the grammar of checks/gen_cpp.py are not enumerated"]


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


def rel_adapt(sc, decls, fns):
    """functions whose header spelling is relative to their scope and whose driver spelling is qualified"""
    s = Scope(sc.key, sc.nss, sc.classes, sc.inline)
    text = "\n".join(decls)
    out = []
    for f in fns:
        g = CF(s, f.form, f.name, f.ret, f.params, f.key)
        hd = g.decl()
        q = lambda t: ("%s::%s" % (s.full, t)) if t.split()[0] in [n for n, _ in REL] else t
        g2 = CF(s, f.form, f.name, q(f.ret), [(q(t), n) for t, n in f.params], f.key)
        g2.decl = (lambda hd: lambda: hd)(hd)
        out.append(g2)
    nest0 = s.nest
    if s.classes:
        s.nest = lambda d, extra="": nest0(d, "public: " + text + extra)
    else:
        # the types once, before the functions
        # the types once, before the functions
        s.types_before = lambda: nest0([text])
    return out
