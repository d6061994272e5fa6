"""A small grammar of C types: rendering of declarations, value construction and comparison code.

A type is a tuple:
  ("b", spelling, kind)             basic or named type; kind in INT,BOOL,FLT,PTR,STRUCT,ENUM,INC,VOID,FN,ARR
  ("q", qualifier, T)               const / volatile
  ("p", T, pquals)                  pointer to T, pquals is "" or "const", "volatile", "restrict"
  ("a", T, n)                       array of n T (n None: [])
  ("f", R, (P...), variadic)        function
"""

PRELUDE = """
struct S { int a; char b[5]; long long c; };
struct S1 { char x; };
struct S2 { struct S in; double d; void *p; };
struct Inc;
union U { long long i; double d; char c[8]; };
enum E { E_A, E_B = 5, E_C };
enum Eneg { EN_A = -3, EN_B = 7 };
typedef int Ti;
typedef unsigned char Tuc;
typedef double Td;
typedef struct S Ts;
typedef struct { short u; long v; } Tas;
typedef union U Tu;
typedef union { int k; float f; } Tau;
typedef enum E Te;
typedef enum { TE_A, TE_B = 9 } Tae;
typedef int *Tpi;
typedef const char *Tpcc;
typedef const int Tci;
typedef void *Tpv;
typedef void Tvoid;
typedef struct Inc Tinc;
typedef struct Inc *Tpinc;
typedef int Tarr[4];
typedef int (*Tfp)(int, char);
typedef void (*Tfpv)(void);
typedef int Tfn(int);
typedef Ti Tti;
typedef Ts *Tpts;
"""

def b(s, k): return ("b", s, k)

INTS = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long",
        "long long", "unsigned long long", "__int128", "unsigned __int128"]
FLTS = ["float", "double", "long double"]
BASIC = [b(x, "INT") for x in INTS] + [b(x, "FLT") for x in FLTS] + [b("_Bool", "BOOL")]
NAMED = [b("struct S", "STRUCT"), b("struct S1", "STRUCT"), b("struct S2", "STRUCT"), b("union U", "STRUCT"), b("enum E", "ENUM"), b("enum Eneg", "ENUM"),
         b("Ti", "INT"), b("Tuc", "INT"), b("Td", "FLT"), b("Ts", "STRUCT"), b("Tas", "STRUCT"), b("Tu", "STRUCT"), b("Tau", "STRUCT"), b("Te", "ENUM"), b("Tae", "ENUM"),
         b("Tpi", "PTR"), b("Tpcc", "PTR"), b("Tci", "INT"), b("Tpv", "PTR"), b("Tpinc", "PTR"), b("Tfp", "FP"), b("Tfpv", "FP"), b("Tti", "INT"), b("Tpts", "PTR")]
POINTEE_ONLY = [b("void", "VOID"), b("struct Inc", "INC"), b("Tvoid", "VOID"), b("Tinc", "INC")]
VOID = b("void", "VOID")


def decl(t, name=""):
    k = t[0]
    if k == "b":
        return (t[1] + " " + name).rstrip()
    if k == "q":
        i = t[2]
        if i[0] == "b":
            return (t[1] + " " + i[1] + " " + name).rstrip()
        if i[0] == "p":      # qualified pointer
            return decl(("p", i[1], (i[2] + " " + t[1]).strip()), name)
        return decl(i, name)
    if k == "p":
        n = "*" + (t[2] + " " if t[2] else "") + name
        if t[1][0] in "af":
            n = "(" + n.rstrip() + ")"
        return decl(t[1], n)
    if k == "a":
        return decl(t[1], name + "[%s]" % ("" if t[2] is None else t[2]))
    if k == "f":
        ps = ", ".join(decl(p) for p in t[2]) or "void"
        if t[3] == "noproto":
            ps = ""
        elif t[3]:
            ps += ", ..."
        return decl(t[1], name + "(" + ps + ")")
    raise ValueError(t)


def kind(t):
    """kind of the value as a parameter or return value"""
    k = t[0]
    if k == "b":
        return t[2]
    if k == "q":
        return kind(t[2])
    if k == "p":
        return "FP" if strip(t[1])[0] == "f" or strip(t[1])[1] == "Tfn" else "PTR"
    if k == "a":
        return "PTR"
    return "FN"


def strip(t):
    while t[0] == "q":
        t = t[2]
    return t


def decay(t):
    """the type a parameter declared like this really has"""
    if t[0] == "a":
        return ("p", t[1], "")
    if t[0] == "f":
        return ("p", t, "")
    if t == b("Tarr", "ARR"):
        return ("p", b("int", "INT"), "")
    if t == b("Tfn", "FN"):
        return ("p", t, "")
    if t[0] == "b" and t[1] in ("va_list", "__builtin_va_list", "Tva"):
        # an array of one anonymous structure
        return ("p", VOID, "")
    return t


def name_of(t):
    return decl(t).replace(" ", "_")


def unq(t):
    """type with the top qualifier removed (usable for a local variable)"""
    t = decay(t)
    if t[0] == "q":
        return unq(t[2])
    if t[0] == "p":
        return ("p", t[1], "")
    return t


def constructors(t, fn=True):
    """all types one constructor larger"""
    r = []
    k = t[0]
    void = kind(t) == "VOID"
    inc = kind(t) == "INC"
    isfn = k == "f"
    isarr = k == "a"
    if not isfn:
        r.append(("p", t, ""))
        if k in ("b",):
            r.append(("p", ("q", "const", t), ""))
            if t[1] not in ("Tci",):
                r.append(("p", ("q", "volatile", t), ""))
        if k == "p" and not t[2]:
            r.append(("p", ("p", t[1], "const"), ""))
    if not void and not inc and not isfn and not isarr:
        if k == "b" and t[1] != "Tci":
            r += [("q", "const", t), ("q", "volatile", t)]
        if k == "p" and not t[2]:
            r += [("p", t[1], "const"), ("p", t[1], "volatile"), ("p", t[1], "restrict")] if strip(t[1])[0] != "f" else [("p", t[1], "const")]
    return r


def fnptrs(ret, params, variadic=False):
    return ("p", ("f", ret, tuple(params), variadic), "")


def arrays(t):
    if kind(t) in ("VOID", "INC") or t[0] == "f":
        return []
    return [("a", t, None), ("a", t, 3)] if t[0] != "a" else [("a", t, 2)]
