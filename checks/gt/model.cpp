// G14: every model object up to a nesting depth, built in every way the classes offer, against a structural specification of
// equality, hashing, moving and the queries. A term knows how to build the object and carries the identity it must have.
#include <ClassType.h>
#include <ComposableBitfield.h>
#include <ComposableField.h>
#include <ConstQualifiedType.h>
#include <EasyMock_CType.h>
#include <Enum.h>
#include <FunctionDeclaration.h>
#include <FunctionType.h>
#include <IncompleteType.h>
#include <Namespace.h>
#include <Pointer.h>
#include <Reference.h>
#include <StructType.h>
#include <TypedefType.h>
#include <UnionType.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
using std::shared_ptr; using std::string; using std::vector; using std::to_string;
typedef shared_ptr<TypeItf> T;
enum K { KC, KS, KU, KE, KI, KP, KR, KQ, KT, KF };

// how the finished object is obtained: as built, with its hash cached, moved, moved into another object, cached then moved, cached twice
enum V { FRESH, CACHED, MOVED, ASSIGNED, CACHED_MOVED, CACHED_TWICE, NV };
static const char* vname[] = {"fresh", "cached", "moved", "move-assigned", "cached and moved", "cached twice"};
template <class C> static shared_ptr<C> finish(shared_ptr<C> o, V v, const std::function<shared_ptr<C>()>& other)
{
  if constexpr(!std::is_move_constructible_v<C> || !std::is_move_assignable_v<C>)
  {
    if(v == CACHED || v == CACHED_MOVED || v == CACHED_TWICE) o->cacheHash();
    if(v == CACHED_TWICE) o->cacheHash();
    return o;
  }
  else switch(v)
  {
    case FRESH: return o;
    case CACHED: o->cacheHash(); return o;
    case MOVED: return std::make_shared<C>(std::move(*o));
    case ASSIGNED: { shared_ptr<C> x = other(); x->cacheHash(); *x = std::move(*o); return x; }
    case CACHED_MOVED: { o->cacheHash(); return std::make_shared<C>(std::move(*o)); }
    default: o->cacheHash(); o->cacheHash(); return o;
  }
}

struct Term
{
  string id;    // identity: two objects are equal exactly when these are
  string raw;   // identity with the typedefs removed (pointers, references and qualifiers kept)
  string how;   // the construction
  K kind; bool isConst, incomplete;
  int under = -1; // the term pointed to, qualified or typedef'd
  std::function<T(V)> mk;
};
static vector<Term> terms;
static long checks, nbad;
static void bad(const string& key, const string& why) { if(nbad++ < 40) printf("BAD %s | %s\n", key.c_str(), why.c_str()); }
#define REQ(c, key, why) do { checks++; if(!(c)) bad(key, why); } while(0)

// what removing the typedefs from the members of a structure or the parameters of a function type does to the raw hash isn't specified
static bool hasTypedef(const string& id) { return id.find("Tt(") != string::npos || id.find("Tu(") != string::npos; }
static string under(const char* k, const Term& t) { return t.raw.empty() ? "" : string(k) + "(" + t.raw + ")"; }
static int add(Term t) { if((t.kind == KS || t.kind == KU || t.kind == KF) && hasTypedef(t.id)) t.raw = ""; terms.push_back(std::move(t)); return (int)terms.size() - 1; }
static Term mkterm(const string& id, const string& raw, const string& how, K k, std::function<T(V)> mk, int under = -1, bool c = false, bool inc = false)
{ Term t; t.id = id; t.raw = raw; t.how = how; t.kind = k; t.mk = std::move(mk); t.under = under; t.isConst = c; t.incomplete = inc; return t; }
template <class C> static std::function<T(V)> maker(std::function<shared_ptr<C>()> b, std::function<shared_ptr<C>()> other)
{ return [b, other](V v) -> T { return finish<C>(b(), v, other); }; }

// ------------------------------------------------------------------ constructions
static int ctype(easyMock_cTypes_t c)
{ return add(mkterm(string("C") + to_string(c), string("C") + to_string(c), string("ctype ") + easyMock_arrayCTypeStr[c], KC, maker<CType>([c] { return std::make_shared<CType>(c); }, [] { return std::make_shared<CType>(CTYPE_FLOAT); }))); }
static int ctypeVia(easyMock_cTypes_t from, bool uns, easyMock_cTypes_t to)
{ return add(mkterm(string("C") + to_string(to), string("C") + to_string(to), string("ctype ") + easyMock_arrayCTypeStr[from] + " setUnsigned(" + (uns ? "true)" : "false)"), KC,
    maker<CType>([=] { auto x = std::make_shared<CType>(from); x->setUnsigned(uns); return x; }, [] { return std::make_shared<CType>(CTYPE_FLOAT); }))); }

struct FieldSpec { int type; string name; int64_t array = -1; vector<uint64_t> inner; int bits = -1; string declared; bool viaCType = false; };
static string fieldId(const FieldSpec& f) { string s = f.bits >= 0 ? "b" : "f"; s += "[" + terms[f.type].id + "|" + f.name + "|" + to_string(f.array); for(auto i : f.inner) s += "," + to_string(i); return s + "|" + to_string(f.bits) + "|" + f.declared + "]"; }
static ComposableType::ComposableFieldType mkField(const FieldSpec& f)
{
  T t = terms[f.type].mk(FRESH);
  if(f.bits >= 0)
  {
    ComposableBitfield b = f.viaCType ? ComposableBitfield{t->getCType(), f.name, (uint8_t)f.bits} : ComposableBitfield{t, f.name, (uint8_t)f.bits};
    if(!f.declared.empty()) b.setDeclareString(f.declared);
    return b;
  }
  ComposableField c = f.viaCType ? ComposableField{t->getCType(), f.name} : ComposableField{t, f.name, {.arraySize = f.array}};
  if(f.viaCType && f.array >= 0) c.setArraySize(f.array);
  if(!f.inner.empty()) c.setInnerArraySizes(f.inner);
  if(!f.declared.empty()) c.setDeclareString(f.declared);
  return c;
}
struct CompSpec { int kind = 0; string name; bool emb = false, fwd = false; string attr; vector<FieldSpec> fields; bool addLater = false; vector<string> methods; };
static const char* kw[] = {"struct", "union", "class"};
static string compId(const CompSpec& c) { string s = string(kw[c.kind]) + "(" + c.name + "," + to_string(c.emb) + to_string(c.fwd) + "," + c.attr; for(auto& f : c.fields) s += "," + fieldId(f); for(auto& m : c.methods) s += ",m" + m; return s + ")"; }
template <class C> static shared_ptr<C> mkCompAs(const CompSpec& c)
{
  shared_ptr<C> o;
  if(c.addLater) { o = std::make_shared<C>(c.name, c.emb); for(auto& f : c.fields) o->addField(mkField(f)); }
  else { ComposableType::ComposableFieldTypeVector v; for(auto& f : c.fields) v.push_back(mkField(f)); o = std::make_shared<C>(c.name, std::move(v), c.emb); }
  if(c.fwd) o->setForwardDecl(true);
  if(!c.attr.empty()) o->setAttributes(c.attr);
  for(auto& m : c.methods) o->addFunction(std::make_shared<FunctionDeclaration>(m, VoidReturnValue(), Parameter::Vector{}));
  return o;
}
template <class C> static std::function<T(V)> compMaker(const CompSpec& c)
{ return maker<C>([c] { return mkCompAs<C>(c); }, [] { ComposableType::ComposableFieldTypeVector v; v.push_back(ComposableField{CTYPE_DOUBLE, "other"}); auto o = std::make_shared<C>("Other", std::move(v), false); o->setAttributes("other"); return o; }); }
static int comp(const CompSpec& c)
{
  string id = compId(c), how = id + (c.addLater ? " by addField" : "");
  auto mk = c.kind == 0 ? compMaker<StructType>(c) : c.kind == 1 ? compMaker<UnionType>(c) : compMaker<ClassType>(c);
  return add(mkterm(id, id, how, c.kind == 1 ? KU : KS, mk));
}
static int enumt(const string& name, vector<std::pair<int64_t, string>> vals, bool reverse = false)
{
  // the names of one value keep the order they are added in
  if(reverse) std::reverse(vals.begin(), vals.end());
  auto s = vals; std::stable_sort(s.begin(), s.end(), [](auto& a, auto& b) { return a.first < b.first; });
  string id = "enum(" + name; for(auto& p : s) id += "," + to_string(p.first) + "=" + p.second; id += ")";
  return add(mkterm(id, id, id + (reverse ? " reversed" : ""), KE, maker<Enum>([=] { auto e = std::make_shared<Enum>(name); for(auto& p : vals) e->addEnumValue(p.first, p.second); return e; },
    [] { auto e = std::make_shared<Enum>("other"); e->addEnumValue(7, "O"); return e; })));
}
static int incomplete(int kind, const string& name)
{
  string id = string("incomplete ") + kw[kind] + "(" + name + ")";
  auto b = [=] {
    IncompleteType::Type it[] = {IncompleteType::Type::STRUCT, IncompleteType::Type::UNION, IncompleteType::Type::CLASS};
    if(kind == 1) return std::make_shared<IncompleteType>(UnionType{name, false}, it[kind]);
    if(kind == 2) return std::make_shared<IncompleteType>(ClassType{name, false}, it[kind]);
    return std::make_shared<IncompleteType>(StructType{name, false}, it[kind]);
  };
  return add(mkterm(id, id, id, KI, maker<IncompleteType>(b, [] { return std::make_shared<IncompleteType>(UnionType{"Oi", false}, IncompleteType::Type::UNION); }), -1, false, true));
}
static int pointer(int t, bool via = false)
{ return add(mkterm("P(" + terms[t].id + ")", under("P", terms[t]), "pointer to " + terms[t].how + (via ? " by setPointedType" : ""), KP,
    maker<Pointer>([=] { if(!via) return std::make_shared<Pointer>(terms[t].mk(FRESH)); auto p = std::make_shared<Pointer>(std::make_shared<CType>(CTYPE_FLOAT)); p->setPointedType(terms[t].mk(FRESH)); return p; },
                   [] { return std::make_shared<Pointer>(std::make_shared<CType>(CTYPE_FLOAT)); }), t)); }
static int reference(int t)
{ return add(mkterm("R(" + terms[t].id + ")", under("R", terms[t]), "reference to " + terms[t].how, KR,
    maker<Reference>([=] { return std::make_shared<Reference>(terms[t].mk(FRESH)); }, [] { return std::make_shared<Reference>(std::make_shared<CType>(CTYPE_FLOAT)); }), t)); }
static int constt(int t, bool via = false)
{ return add(mkterm("Q(" + terms[t].id + ")", under("Q", terms[t]), "const " + terms[t].how + (via ? " by setUnqualifiedType" : ""), KQ,
    maker<ConstQualifiedType>([=] { if(!via) return std::make_shared<ConstQualifiedType>(terms[t].mk(FRESH)); auto p = std::make_shared<ConstQualifiedType>(std::make_shared<CType>(CTYPE_FLOAT)); p->setUnqualifiedType(terms[t].mk(FRESH)); return p; },
                              [] { return std::make_shared<ConstQualifiedType>(std::make_shared<CType>(CTYPE_FLOAT)); }), t, true)); }
static int typedeft(const string& n, int t)
{ return add(mkterm("T" + n + "(" + terms[t].id + ")", terms[t].raw, "typedef " + n + " of " + terms[t].how, KT,
    maker<TypedefType>([=] { return std::make_shared<TypedefType>(n, terms[t].mk(FRESH)); }, [] { return std::make_shared<TypedefType>("other", std::make_shared<CType>(CTYPE_FLOAT)); }), t)); }
static int functype(int rv, vector<int> ps, bool variadic)
{
  string id = "F(" + terms[rv].id; for(int p : ps) id += "," + terms[p].id; id += variadic ? ",...)" : ")";
  string how = "function type " + id;
  return add(mkterm(id, id, how, KF, maker<FunctionType>([=] { Parameter::Vector v; int n = 0; for(int p : ps) v.emplace_back(terms[p].mk(FRESH), n++ & 1 ? "" : "p"); auto f = std::make_shared<FunctionType>(ReturnValue{terms[rv].mk(FRESH)}, std::move(v)); f->setVariadic(variadic); return f; },
    [] { Parameter::Vector v; v.push_back(NamedParameter(CTYPE_FLOAT, "o")); auto f = std::make_shared<FunctionType>(VoidReturnValue(), std::move(v)); f->setVariadic(true); return f; })));
}

// ------------------------------------------------------------------ the laws
static void queries(const Term& t, TypeItf* o, const char* v)
{
  const string key = "query:" + t.how;
  const TypeItf* c = o;
  K k = t.kind;
#define Q(expr, want) REQ((expr) == (want), key, string(#expr) + " on the " + v + " object")
  Q(c->isCType(), k == KC); Q((bool)c->asCType(), k == KC); Q((bool)o->asCType(), k == KC);
  Q(c->isStruct(), k == KS); Q(c->isUnion(), k == KU);
  Q(c->isComposableType(), k == KS || k == KU); Q((bool)c->asComposableType(), k == KS || k == KU); Q((bool)o->asComposableType(), k == KS || k == KU);
  Q(c->isEnum(), k == KE); Q((bool)c->asEnum(), k == KE); Q((bool)o->asEnum(), k == KE);
  Q(c->isPointer(), k == KP); Q((bool)c->asPointer(), k == KP); Q((bool)o->asPointer(), k == KP);
  Q(c->isReference(), k == KR); Q((bool)c->asReference(), k == KR);
  Q(c->isQualified(), k == KQ); Q((bool)c->asQualifiedType(), k == KQ); Q((bool)o->asQualifiedType(), k == KQ);
  Q(c->isConst(), k == KQ);
  Q(c->isTypedDef(), k == KT); Q((bool)c->asTypedefType(), k == KT); Q((bool)o->asTypedefType(), k == KT);
  Q(c->isFunctionType(), k == KF); Q((bool)c->asFunctionType(), k == KF); Q((bool)o->asFunctionType(), k == KF);
  Q(c->isIncompleteType(), k == KI); Q((bool)c->asIncompleteType(), k == KI); Q((bool)o->asIncompleteType(), k == KI);
  // the type underneath
  int r = (int)(&t - &terms[0]); bool td = false;
  const TypeItf* walk = c;
  for(;;)
  {
    const Term& x = terms[r];
    const TypeItf* next = nullptr;
    if(x.kind == KP) next = walk->asPointer()->getPointedType();
    else if(x.kind == KR) next = walk->asReference()->getPointedType();
    else if(x.kind == KQ) next = walk->asQualifiedType()->getUnqualifiedType();
    else if(x.kind == KT) { td = true; next = walk->asTypedefType()->getTypee(); }
    else break;
    walk = next; r = x.under;
  }
  Q(c->getRawType(), walk); Q(o->getRawType(), walk); Q(c->containsTypeDef(), td);
  Q(c->unqualify(), k == KQ ? c->asQualifiedType()->getUnqualifiedType() : c);
  Q(o->unqualify(), k == KQ ? o->asQualifiedType()->getUnqualifiedType() : o);
  if(k == KP) { const TypeItf* m = c; int i = (int)(&t - &terms[0]); while(terms[i].kind == KP) { m = m->asPointer()->getPointedType(); i = terms[i].under; } Q(c->asPointer()->getMostPointedType(), m); }
  if(k == KT) { const TypeItf* m = c; int i = (int)(&t - &terms[0]); while(terms[i].kind == KT) { m = m->asTypedefType()->getTypee(); i = terms[i].under; } Q(c->asTypedefType()->getMostDefinedTypee(), m); }
  if(k == KS || k == KU)
    for(auto& f : c->asComposableType()->getContainedFields())
    {
      const ComposableFieldItf* i = std::visit([](auto& x) -> const ComposableFieldItf* { return &x; }, f);
      bool bit = std::holds_alternative<ComposableBitfield>(f);
      Q(i->isComposableField(), !bit); Q(i->isComposableBitfield(), bit);
      Q((const ComposableFieldItf*)i->asComposableField(), bit ? nullptr : i); Q((const ComposableFieldItf*)i->asComposableBitfield(), bit ? i : nullptr);
      Q(i->isAnonymous(), i->getName().empty());
    }
#undef Q
}

static void single(const Term& t)
{
  vector<T> v;
  for(int i = 0; i < NV; i++) v.push_back(t.mk((V)i));
  string p = v[0]->getDeclarationPrefix(), q = v[0]->getDeclarationPostfix(), n = v[0]->getFullDeclarationName();
  for(int i = 0; i < NV; i++)
  {
    queries(t, v[i].get(), vname[i]);
    REQ(v[i]->getDeclarationPrefix() == p && v[i]->getDeclarationPostfix() == q && v[i]->getFullDeclarationName() == n, "name:" + t.how, string("the ") + vname[i] + " object is declared differently");
    size_t h = v[i]->getHash();
    REQ(h == v[i]->getHash(), "hash:" + t.how, "two calls differ");
    for(int j = 0; j < NV; j++)
    {
      string w = string(vname[i]) + " and " + vname[j];
      REQ(*v[i] == *v[j] && !(*v[i] != *v[j]), "eq:" + t.how, w + " objects are unequal");
      REQ(v[i]->getHash() == v[j]->getHash(), "hash:" + t.how, w + " objects have different hashes");
      REQ(v[i]->getRawHash() == v[j]->getRawHash(), "rawhash:" + t.how, w + " objects have different raw hashes");
    }
  }
}
static vector<T> obj[3];
static void pairs(int part, int np)
{
  static const V vs[3] = {FRESH, CACHED, CACHED_MOVED};
  int n = terms.size();
  for(int k = 0; k < 3; k++) { obj[k].clear(); for(auto& t : terms) obj[k].push_back(t.mk(vs[k])); }
  vector<size_t> hash(n), raw(n);
  for(int i = 0; i < n; i++) { hash[i] = obj[0][i]->getHash(); raw[i] = obj[1][i]->getRawHash(); }
  for(int i = part; i < n; i += np)
    for(int j = i + 1; j < n; j++)
    {
      const TypeItf &a = *obj[(i + j) % 3][i], &b = *obj[j % 3][j];
      bool same = terms[i].id == terms[j].id;
      checks += 5;
      if((a == b) != same || (b == a) != same || (a != b) == same || (b != a) == same) bad("pair:" + terms[i].how + " / " + terms[j].how, string("equality is ") + (a == b ? "true" : "false") + ", the other way round " + (b == a ? "true" : "false") + ", they are " + (same ? "the same" : "different"));
      if((hash[i] == hash[j]) != same) bad("hash:" + terms[i].how + " / " + terms[j].how, same ? "equal objects have different hashes" : "different objects have the same hash");
      if(!terms[i].raw.empty() && !terms[j].raw.empty() && (raw[i] == raw[j]) != (terms[i].raw == terms[j].raw)) bad("rawhash:" + terms[i].how + " / " + terms[j].how, raw[i] == raw[j] ? "the same raw hash" : "different raw hashes for types that differ in typedefs only");
    }
}

// ------------------------------------------------------------------ universes
static void grow(const vector<int>& from)
{
  for(int t : from)
  {
    K k = terms[t].kind;
    pointer(t); pointer(t, true); reference(t); if(k != KQ) { constt(t); constt(t, true); }
    typedeft("t", t); typedeft("u", t);
    for(int v = 0; v < 2; v++) { functype(t, {}, v); functype(0, {t}, v); }
    functype(0, {t, 0}, false); functype(0, {0, t}, false);
    comp({.name = "G", .fields = {{.type = t, .name = "x"}}}); comp({.kind = 1, .name = "G", .fields = {{.type = t, .name = "x"}}, .addLater = true});
    comp({.name = "G", .fields = {{.type = t, .name = "x"}}, .addLater = true});
  }
}
static vector<int> range(int a, int b) { vector<int> r; for(int i = a; i < b; i++) r.push_back(i); return r; }
static void atoms(bool all)
{
  ctype(CTYPE_INT);
  for(int c = 0; c < CTYPE_INVALID; c++) if(c != CTYPE_INT && (all || c == CTYPE_UINT || c == CTYPE_CHAR || c == CTYPE_VOID || c == CTYPE_UCHAR)) ctype((easyMock_cTypes_t)c);
  easyMock_cTypes_t su[][2] = {{CTYPE_SHORT, CTYPE_USHORT}, {CTYPE_INT, CTYPE_UINT}, {CTYPE_LONG, CTYPE_ULONG}, {CTYPE_LONG_LONG, CTYPE_ULONG_LONG}, {CTYPE_INT128, CTYPE_UINT128}, {CTYPE_SCHAR, CTYPE_UCHAR}};
  if(all) { for(auto& p : su) { ctypeVia(p[0], true, p[1]); ctypeVia(p[1], false, p[0]); } ctypeVia(CTYPE_CHAR, true, CTYPE_UCHAR); ctypeVia(CTYPE_FLOAT, true, CTYPE_FLOAT); ctypeVia(CTYPE_VOID, false, CTYPE_VOID); }
  for(int k = 0; k < 3; k++) for(const char* n : {"A", ""}) comp({.kind = k, .name = n});
  enumt("A", {{0, "X"}}); enumt("", {{0, "X"}}); enumt("A", {});
  for(int k = 0; k < 3; k++) incomplete(k, "A");
  incomplete(0, "B"); incomplete(0, "");
}
static void wideComp(bool thorough)
{
  int I = ctype(CTYPE_INT), U = ctype(CTYPE_UINT), C = ctype(CTYPE_CHAR), P = pointer(I), A = comp({.name = "", .emb = true, .fields = {{.type = I, .name = "q"}}}), E = enumt("E", {{1, "X"}});
  int TD = typedeft("t", I), INC = incomplete(0, "A");
  vector<FieldSpec> f = {{.type = I, .name = "a"}, {.type = I, .name = "b"}, {.type = U, .name = "a"}, {.type = I, .name = "a", .array = 0}, {.type = I, .name = "a", .array = 3}, {.type = I, .name = "a", .array = 4},
    {.type = I, .name = "a", .array = 3 + (1LL << 8)}, {.type = I, .name = "a", .array = 3 + (1LL << 16)}, {.type = I, .name = "a", .array = 3 + (1LL << 32)}, {.type = I, .name = "a", .bits = 3 + 64}, {.type = I, .name = "a", .bits = 3 + 128},
    {.type = I, .name = "a", .array = 6, .inner = {2 + (1ULL << 32), 3}}, {.type = I, .name = "a", .array = 6, .inner = {2, 3}}, {.type = I, .name = "a", .array = 6, .inner = {3, 2}}, {.type = I, .name = "a", .array = 6, .inner = {6}}, {.type = I, .name = "a", .bits = 3}, {.type = I, .name = "a", .bits = 4}, {.type = I, .name = "b", .bits = 3}, {.type = U, .name = "a", .bits = 3},
    {.type = I, .name = "", .bits = 0}, {.type = E, .name = "a", .bits = 3}, {.type = P, .name = "a"}, {.type = A, .name = ""}, {.type = A, .name = "a"}, {.type = TD, .name = "a"}, {.type = TD, .name = "a", .bits = 3}, {.type = INC, .name = "a"}, {.type = I, .name = "a", .declared = "myint"},
    {.type = I, .name = "a", .bits = 3, .declared = "myint"}, {.type = C, .name = "a"}, {.type = C, .name = "a", .viaCType = true}, {.type = I, .name = "a", .array = 3, .viaCType = true}, {.type = I, .name = "a", .bits = 3, .viaCType = true}};
  vector<vector<FieldSpec>> lists = {{}};
  for(auto& x : f) lists.push_back({x});
  for(auto& x : f) for(auto& y : f) lists.push_back({x, y});
  for(size_t i = 0; i < lists.size(); i++)
  {
    bool few = lists[i].size() < 2;
    for(int kind = 0; kind < 3; kind++) for(const char* n : {"A", "B", ""}) for(int emb = 0; emb < 2; emb++) for(int fwd = 0; fwd < 2; fwd++) for(const char* at : {"", "packed", "aligned(8)"})
    {
      int diff = (kind != 0) + (*n != 'A') + emb + fwd + (*at != 0);
      if(!few && diff > (thorough ? 1 : 0)) continue;
      if(few && lists[i].size() == 1 && i > 8 && diff > (thorough ? 3 : 1)) continue;
      comp({.kind = kind, .name = n, .emb = (bool)emb, .fwd = (bool)fwd, .attr = at, .fields = lists[i], .addLater = (bool)((i + kind) & 1)});
      if(diff == 0) comp({.kind = kind, .name = n, .emb = (bool)emb, .fwd = (bool)fwd, .attr = at, .fields = lists[i], .addLater = !((i + kind) & 1)});
    }
  }
  for(vector<string> m : vector<vector<string>>{{"m"}, {"n"}, {"m", "n"}, {"n", "m"}, {"m", "m"}}) for(int kind = 0; kind < 3; kind++) for(int l = 0; l < 3; l++) comp({.kind = kind, .name = "A", .fields = lists[l], .methods = m});
  // enums: every list of values up to two or three entries
  vector<std::pair<int64_t, string>> v = {{0, "X"}, {0, "Y"}, {1, "X"}, {-1, "X"}, {INT64_MAX, "X"}, {INT64_MIN, "X"}, {4294967296LL, "X"}, {1, "Y"}};
  for(const char* n : {"A", "B", ""})
  {
    enumt(n, {});
    for(size_t a = 0; a < v.size(); a++) { enumt(n, {v[a]}); for(size_t b = 0; b < v.size(); b++) if(a != b) { enumt(n, {v[a], v[b]}, (a + b) & 1); for(size_t c = 0; c < v.size() && thorough; c++) if(c != a && c != b && a < b) enumt(n, {v[a], v[b], v[c]}, c & 1); } }
  }
}

// ------------------------------------------------------------------ functions: every combination of their respects; compared with all those that differ in at most two
static void functions(bool thorough, int part, int np)
{
  int I = ctype(CTYPE_INT), C = ctype(CTYPE_CHAR), P = pointer(C), QP = pointer(constt(C)), TD = typedeft("t", I), S = comp({.name = "A", .fields = {{.type = I, .name = "x"}}}), S2 = comp({.name = "A", .fields = {{.type = I, .name = "y"}}}), VO = ctype(CTYPE_VOID), TD2 = typedeft("t2", TD), PT = pointer(TD), PI = pointer(I);
  auto parent1 = std::make_shared<StructType>("Par", false), parent2 = std::make_shared<StructType>("Par", false), parent3 = std::make_shared<StructType>("Par2", false);
  parent2->addField(ComposableField{CTYPE_INT, "z"});
  auto parent1b = std::make_shared<StructType>("Par", false);
  shared_ptr<const ComposableType> parents[] = {nullptr, parent1, parent2, parent3, parent1b}; const char* pid[] = {"0", "1", "2", "3", "1"};
  auto g = getGlobalNamespace();
  auto na = std::make_shared<Namespace>("a", g), nb = std::make_shared<Namespace>("b", g), nab = std::make_shared<Namespace>("b", na), na2 = std::make_shared<Namespace>("a", g), nab2 = std::make_shared<Namespace>("b", na2);
  na2->cacheHash();
  shared_ptr<const Namespace> nss[] = {g, na, nb, nab, na2, nab2}; const char* nid[] = {"::", "a", "b", "a::b", "a", "a::b"};
  for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { bool s = !strcmp(nid[i], nid[j]); REQ((*nss[i] == *nss[j]) == s && (*nss[i] != *nss[j]) == !s && (nss[i]->getHash() == nss[j]->getHash()) == s, string("namespace:") + nid[i] + "/" + nid[j], "equality or hash"); }
  vector<vector<int>> pl = {{}, {I}, {C}, {P}, {QP}, {TD}, {S}, {S2}, {I, C}, {C, I}, {I, I}, {TD2}, {PT}, {PI}, {VO}};
  vector<int> rv = {VO, I, TD, P, S, PT, PI};
  struct At { vector<std::pair<string, vector<string>>> l; };
  vector<At> at = {{{}}, {{{"cold", {}}}}, {{{"hot", {}}}}, {{{"format", {"printf", "1", "2"}}}}, {{{"format", {"printf", "1", "3"}}}}, {{{"cold", {}}, {"hot", {}}}}, {{{"hot", {}}, {"cold", {}}}}, {{{"format", {"printf,1", "2"}}}}};
  // radices: name, parameters, return value, variadic, inline, static, class const, access, attributes, body, namespace, parent, (not an identity:) origin file, parameter names
  vector<int> rad = {2, (int)pl.size(), (int)rv.size(), 2, 2, 2, 2, 4, (int)at.size(), 2, 6, 5, 2, 2};
  const int D = rad.size();
  auto build = [&](const vector<int>& d, V v) {
    auto b = [&] {
      Parameter::Vector ps; for(int p : pl[d[1]]) ps.emplace_back(terms[p].mk(FRESH), d[13] ? "name" : "");
      shared_ptr<const ComposableType> par = parents[d[11]];
      auto f = std::make_shared<FunctionDeclaration>(d[0] ? "foo" : "fo", ReturnValue{terms[rv[d[2]]].mk(FRESH)}, std::move(ps), nss[d[10]], par ? std::weak_ptr<const ComposableType>(par) : std::weak_ptr<const ComposableType>());
      f->setVariadic(d[3]); f->setInlined(d[4]); f->setIsStatic(d[5]); f->setClassConst(d[6]);
      FunctionAccessSpecifier as[] = {FunctionAccessSpecifier::NA, FunctionAccessSpecifier::PUBLIC, FunctionAccessSpecifier::PROTECTED, FunctionAccessSpecifier::PRIVATE}; f->setAccessSpecifier(as[d[7]]);
      for(auto& a : at[d[8]].l) { FunctionAttribute x = a.second.empty() ? FunctionAttribute{a.first} : FunctionAttribute{a.first, FunctionAttribute::ParametersList(a.second.begin(), a.second.end())}; f->addAttribute(std::move(x)); }
      f->setDoesThisDeclarationHasABody(d[9]); if(d[12]) f->setOriginFile("/x/h.h");
      return f;
    };
    return finish<FunctionDeclaration>(b(), v, [] { Parameter::Vector ps; ps.push_back(NamedParameter(CTYPE_FLOAT, "o")); auto f = std::make_shared<FunctionDeclaration>("other", TypedReturnValue(CTYPE_FLOAT), std::move(ps)); f->setVariadic(true); f->setInlined(true); f->addAttribute(FunctionAttribute{"o"}); return f; });
  };
  auto same = [&](const vector<int>& a, const vector<int>& b) {
    for(int i = 0; i < D - 2; i++) { if(i == 10 ? strcmp(nid[a[i]], nid[b[i]]) != 0 : i == 11 ? strcmp(pid[a[i]], pid[b[i]]) != 0 : a[i] != b[i]) return false; }
    return true;
  };
  auto rawSame = [&](const vector<int>& a, const vector<int>& b) {
    if(a[0] != b[0] || a[3] != b[3] || terms[rv[a[2]]].raw != terms[rv[b[2]]].raw || pl[a[1]].size() != pl[b[1]].size()) return false;
    for(size_t i = 0; i < pl[a[1]].size(); i++) if(terms[pl[a[1]][i]].raw != terms[pl[b[1]][i]].raw) return false;
    return true;
  };
  auto show = [&](const vector<int>& d) { string s; for(int x : d) s += (s.empty() ? "" : ".") + to_string(x); return s; };
  long cnt = 0;
  auto cmp = [&](const vector<int>& x, const vector<int>& y) {
    auto a = build(x, (V)(cnt % NV)); auto b = build(y, (V)(cnt / NV % NV)); cnt++;
    bool s = same(x, y); checks += 4;
    string key = "function:" + show(x) + "/" + show(y);
    if((*a == *b) != s || (*b == *a) != s || (*a != *b) == s) bad(key, string("equality is ") + (*a == *b ? "true" : "false") + " for " + (s ? "the same" : "different"));
    if(s && a->getHash() != b->getHash()) bad(key, "equal functions have different hashes");
    if(!s && x[11] == y[11] && a->getHash() == b->getHash()) bad(key, "different functions have the same hash");
    if((a->getRawHash() == b->getRawHash()) != rawSame(x, y)) bad(key, a->getRawHash() == b->getRawHash() ? "the same raw hash" : "different raw hashes for functions that differ in typedefs only");
    if(s && (*a->getName() != *b->getName())) bad(key, "names");
  };
  // bases: nothing set, everything set, and every single respect set on the first
  vector<vector<int>> bases = {vector<int>(D, 0)};
  { vector<int> m; for(int r : rad) m.push_back(r - 1); bases.push_back(m); }
  for(int i = 0; i < D; i++) for(int v = 1; v < rad[i]; v++) { auto b = bases[0]; b[i] = v; bases.push_back(b); if(thorough) for(int j = i + 1; j < D; j++) for(int w = 1; w < rad[j]; w++) { auto c = b; c[j] = w; bases.push_back(c); } }
  for(size_t k = 0; k < bases.size(); k++)
  {
    if((int)(k % np) != part) continue;
    auto& b = bases[k];
    for(int rep = 0; rep < NV * NV; rep++) cmp(b, b);
    for(int i = 0; i < D; i++) for(int v = 0; v < rad[i]; v++)
    {
      if(v == b[i]) continue;
      auto o = b; o[i] = v; cmp(b, o);
      for(int j = i + 1; j < D; j++) for(int w = 0; w < rad[j]; w++) { if(w == b[j]) continue; auto q = o; q[j] = w; cmp(b, q); }
    }
  }
}

int main(int argc, char** argv)
{
  // argv: mode thorough part nparts
  string mode = argv[1]; bool th = atoi(argv[2]); int part = atoi(argv[3]), np = atoi(argv[4]);
  terms.reserve(600000);
  if(mode == "nest")
  {
    // every atom, one constructor (thorough: two)
    atoms(true);
    int a = terms.size(); grow(range(0, a));
    if(th) grow(range(a, terms.size()));
  }
  if(mode == "deep")
  {
    // fewer atoms, two constructors (thorough: three on the first of them)
    atoms(false);
    int a = terms.size();
    if(!th) { grow(range(0, a)); grow(range(a, terms.size())); }
    else { a = 6; grow(range(0, a)); int b = terms.size(); grow(range(b - a * 15, b)); int c = terms.size(); vector<int> l; for(int i = b; i < c; i++) if(!hasTypedef(terms[i].id) || terms[i].kind == KT || terms[i].kind == KP) l.push_back(i); grow(l); }
  }
  if(mode == "wide") wideComp(true);
  if(mode == "fun") functions(true, part, np);
  else
  {
    for(size_t i = part; i < terms.size(); i += np) single(terms[i]);
    pairs(part, np);
  }
  printf("TERMS %zu CHECKS %ld BAD %ld\n", terms.size(), checks, nbad);
  fflush(stdout);
  _exit(0);
}
