"""Structure hashes: the values are read from the compiled IR of /repo's current
headers and compared with an independent rendering of the documented function."""
import re
import ir, witness

(VOID, BOOLEAN, CHARACTER, INTEGER, FLOAT, ENUM, ARRAY, TUPLE, SEQUENCE, SET, MAP, OPTIONAL, DURATION, TIME_POINT,
 UNIQUE, SHARED, WEAK, FUNCTION, CLASS, BASE, FIELD, CUSTOM, SEEN) = range(23)
M = 0xffffffff


def leaf(fam, signed, size):
    return (fam | (int(signed) << 7) | (size << 8)) & M


def add(*hs):
    b = 0
    for h in hs:
        b = ((b * 16777619) & M) ^ h
    return b


class T:
    """spelling + how it hashes"""

    def __init__(self, s, f, desc=None):
        self.s = s
        self.f = f
        self.desc = desc or s

    def h(self, seen=()):
        if self.s in seen:
            return leaf(SEEN, 0, seen.index(self.s))
        return self.f(seen + (self.s,))


def lf(s, *a):
    return T(s, lambda seen: leaf(*a))


def comb(s, fam, flag, size, *parts):
    return T(s, lambda seen: add(leaf(fam, flag, size), *[p.h(seen) for p in parts]))


VO = lf("void", VOID, 0, 0)
SC = [lf("bool", BOOLEAN, 0, 1), lf("char", CHARACTER, 0, 1)] + \
     [lf("std::%sint%d_t" % ("" if sg else "u", w), INTEGER, sg, w // 8) for w in (8, 16, 32, 64) for sg in (0, 1)] + \
     [lf("float", FLOAT, 1, 4), lf("double", FLOAT, 1, 8), lf("long double", FLOAT, 1, 16)] + \
     [lf("En%s%d" % ("i" if sg else "u", w), ENUM, sg, w // 8) for w in (8, 16, 32, 64) for sg in (0, 1)]
BOOL, CHAR = SC[0], SC[1]
U8, I8, U16, I16, U32, I32, U64, I64 = SC[2:10]
FLT, DBL = SC[10], SC[11]
seq = lambda x, c="std::vector": comb("%s<%s>" % (c, x.s), SEQUENCE, 0, 0, x)
STR = comb("std::string", SEQUENCE, 0, 0, CHAR)
arr = lambda x, n: comb("std::array<%s, %d>" % (x.s, n), ARRAY, 0, n, x)
carr = lambda x, n: comb("%s[%d]" % (x.s, n), ARRAY, 0, n, x)
opt = lambda x: comb("std::optional<%s>" % x.s, OPTIONAL, 0, 0, x)
up = lambda x: comb("std::unique_ptr<%s>" % x.s, UNIQUE, 0, 0, x)
sp = lambda x: comb("std::shared_ptr<%s>" % x.s, SHARED, 0, 0, x)
wp = lambda x: comb("std::weak_ptr<%s>" % x.s, WEAK, 0, 0, x)
tup = lambda *x: comb("std::tuple<%s>" % ", ".join(y.s for y in x), TUPLE, 0, len(x), *x)
pair = lambda x, y: comb("std::pair<%s, %s>" % (x.s, y.s), TUPLE, 0, 2, x, y)
sett = lambda x, c="std::set", m=0: comb("%s<%s>" % (c, x.s), SET, m, 0, x)
mapp = lambda k, v, c="std::map", m=0: comb("%s<%s, %s>" % (c, k.s, v.s), MAP, m, 0, pair(k, v))
fun = lambda r, *a: comb("%s(%s)" % (r.s, ", ".join(x.s for x in a)), FUNCTION, 0, 0, r, *a)
cfun = lambda r, *a: comb("%s(%s) const" % (r.s, ", ".join(x.s for x in a)), FUNCTION, 1, 0, r, *a)


def dur(s, num, den, fam=DURATION):
    return lf(s, fam, den > num, abs(den - num))


DECL = []
CUSTOM_VERSION_USED = lambda v: 1      # known finding C10: every version counts as 1


def cls(name, fields, bases=(), version=None, order=None, decl=True):
    """fields: (name, T or None for self reference, spelling override)"""
    def f(seen):
        ver = 0 if version is None else CUSTOM_VERSION_USED(version)
        nb, nf = len(bases), len(fields)
        pb = T("pack<%s>" % ",".join(b.s for b in bases), lambda sn: add(*[b.h(sn) for b in bases]))
        fd = [T("fd<&%s::%s>" % (name, n), (lambda tt: lambda sn: tt().h(sn))(t if callable(t) else (lambda t=t: t))) for n, t in fields]
        pf = T("pack<%s>" % ",".join(x.s for x in fd), lambda sn: add(*[x.h(sn) for x in fd]))
        return add(leaf(CLASS, 0, nb + nf + ver), leaf(BASE, 0, nb), pb.h(seen), leaf(FIELD, 0, nf), pf.h(seen), leaf(CUSTOM, 0, ver))
    t = T(name, f)
    if decl:
        fl = "".join(("%s %s; " % (x.s, n)) for n, x in ((n, tt() if callable(tt) else tt) for n, tt in fields))
        mac = "ARPC_FIELDS(%s); " % ", ".join(n for n, _ in fields) if fields else ""
        if version is not None:
            mac += "ARPC_CUSTOM_SERIALIZATION_VERSION(%d); " % version
        DECL.append("struct %s : arpc::serializable<%s> { %s%s};" % (name, ", ".join([name] + [b.s for b in bases]), fl, mac))
    return t


def agg(name, *x):
    DECL.append("struct %s { %s};" % (name, "".join("%s m%d; " % (y.s, k) for k, y in enumerate(x))))
    # an aggregate hashes as the tuple of its members, which is then a type of its own in the chain of enclosing types
    return T(name, lambda seen: T("std::tuple<%s>" % ", ".join(y.s + "&&" for y in x), lambda sn: add(leaf(TUPLE, 0, len(x)), *[y.h(sn) for y in x])).h(seen))


def universe():
    DECL.clear()
    del DECL[:]
    U = []
    U += [VO] + SC + [STR]
    base = [BOOL, CHAR, U8, I32, U64, DBL, STR]
    for x in base:
        U += [seq(x), opt(x), up(x), sp(x), wp(x), arr(x, 1), arr(x, 2), arr(x, 300), tup(x), tup(x, I32), tup(I32, x), tup(x, x, I32), tup(x, I32, x), tup(I32, x, x)]
    for x in (CHAR, I32, STR, U64):
        U += [sett(x), sett(x, "std::multiset", 1)]
        for v in (BOOL, I32, STR):
            U += [mapp(x, v), mapp(x, v, "std::multimap", 1)]
    for x in (I32, STR):
        for w1 in (seq, opt, up, sp, wp):
            for w2 in (seq, opt, up, sp, wp):
                U.append(w1(w2(x)))
        U += [seq(pair(x, I32)), sett(pair(x, I32)), seq(tup(x)), tup(seq(x)), tup(opt(x), I32), opt(tup(x, I32)), arr(arr(x, 2), 3), arr(arr(x, 3), 2), mapp(I32, seq(x)), mapp(I32, mapp(x, I32))]
    U += [tup(), tup(tup(), tup()), tup(tup(I32), I32), tup(I32, tup(I32)), tup(tup(I32, I32)), tup(BOOL, CHAR, U8, I8, DBL)]
    for r in (VO, I32, STR, DBL):
        for a in ((), (I32,), (STR,), (I32, STR), (STR, I32), (I32, I32), (tup(I32, I32),)):
            U += [fun(r, *a), cfun(r, *a)]
    U += [dur("std::chrono::" + n, a, b) for n, a, b in (("nanoseconds", 1, 10**9), ("microseconds", 1, 10**6), ("milliseconds", 1, 1000), ("seconds", 1, 1), ("minutes", 60, 1), ("hours", 3600, 1))]
    U += [dur("std::chrono::time_point<std::chrono::system_clock, std::chrono::%s>" % n, a, b, TIME_POINT) for n, a, b in (("nanoseconds", 1, 10**9), ("microseconds", 1, 10**6), ("milliseconds", 1, 1000), ("seconds", 1, 1), ("hours", 3600, 1))]
    # classes: one change away from each other
    k = [0]

    def c(fields, bases=(), version=None):
        k[0] += 1
        t = cls("S%d" % k[0], [("f%d" % j, x) for j, x in enumerate(fields)], bases, version)
        U.append(t)
        return t
    c([I32]); c([STR]); c([I32, STR]); c([STR, I32]); c([I32, STR, DBL]); c([I32, I32]); c([I32, U32]); c([U32, I32]); c([I64, STR]); c([I32, opt(STR)]); c([opt(I32), STR])
    b1 = c([DBL]); b2 = c([BOOL, BOOL])
    c([I32], [b1]); c([I32], [b2]); c([I32], [b1, b2]); c([I32], [b2, b1]); c([STR], [b1]); c([b1, I32]); c([I32, b1]); c([DBL, I32]); c([tup(I32, STR)]); c([b2]); c([seq(b2)]); c([seq(b1)])
    c([I32], (), 1); c([I32, STR], (), 1); c([I32], [b1], 1); c([], (), 1)
    U += [seq(b1), opt(b1), sp(b1), up(b1), wp(b1), tup(b1, I32), mapp(I32, b1), fun(b1, I32), fun(VO, b1), fun(VO, b2)]
    # recursive ones
    rec = []

    def r(name, *wraps, **kw):
        box = {}
        self_t = T(name, lambda seen: box["t"].f(seen))
        fields = [("f%d" % j, w(self_t) if callable(w) else w) for j, w in enumerate(wraps)]
        box["t"] = cls(name, fields, kw.get("bases", ()))
        rec.append(box["t"])
        U.append(box["t"])
        return box["t"]
    r("R1", up); r("R2", sp); r("R3", wp); r("R4", I32, up); r("R5", up, I32); r("R6", up, up); r("R7", I32, sp, wp); r("R8", seq); r("R9", lambda x: seq(sp(x)))
    r("R10", lambda x: up(mapp(I32, x))); r("R11", I32, seq); r("R12", up, bases=[b1]); r("R13", lambda x: opt(up(x)))
    U += [seq(rec[0]), sp(rec[1]), tup(rec[0], rec[1]), tup(rec[1], rec[0])]
    # classes that refer to one another: which one a reference leads back to matters

    def mutual(tag, *shapes):
        """shapes: per class a list of (wrapper, index of the class pointed to) or types"""
        names = ["M%s%d" % (tag, j) for j in range(len(shapes))]
        box = {}
        refs = [T(nm, lambda seen, nm=nm: box[nm].f(seen)) for nm in names]
        DECL.append(" ".join("struct %s;" % nm for nm in names))
        for nm, sh in reversed(list(zip(names, shapes))):
            box[nm] = cls(nm, [("f%d" % j, w if isinstance(w, T) else w[0](refs[w[1]])) for j, w in enumerate(sh)])
        U.append(box[names[0]])
    mutual("a", [(up, 1)], [(up, 1)])
    mutual("b", [(up, 1)], [(up, 0)])
    mutual("c", [(up, 1)], [(sp, 0), I32])
    mutual("d", [(up, 1)], [(sp, 1), I32])
    mutual("e", [(up, 1)], [(up, 2)], [(sp, 0)])
    mutual("f", [(up, 1)], [(up, 2)], [(sp, 1)])
    mutual("g", [(up, 1)], [(up, 2)], [(sp, 2)])
    mutual("h", [(up, 1), I32], [(sp, 0), (sp, 1)])
    mutual("i", [(up, 1), I32], [(sp, 1), (sp, 0)])
    mutual("j", [(up, 1), I32], [(sp, 1), (sp, 1)])
    # a class mentioned twice without recursion is spelled out both times
    c([b1, b1]); c([seq(b1), b1])
    # aggregates
    A1 = agg("Ag1", I32, STR)
    c([A1]); c([seq(A1)])
    U.append(sp(cls("S9000", [("f0", A1), ("f1", A1)])))
    return U, list(DECL)


PRE = r'''
#include "arpc/type_hash.h"
#include "arpc/serializable.h"
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include <chrono>
#include <cstdint>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <array>
#include <mutex>
''' + "".join("enum class En%s%d : std::%sint%d_t { a };\n" % ("i" if sg else "u", w, "" if sg else "u", w) for w in (8, 16, 32, 64) for sg in (0, 1))


def values(decls, spells):
    """The hashes the current headers give: {index: value}, {index: error}."""
    d = ir.scratch()
    import os

    def comp(name, idx):
        p = os.path.join(d, name)
        with open(p, "w") as f:
            f.write(PRE + "\n".join(decls) + "\n")
            for k in idx:
                f.write("extern const unsigned hash_value_%d; const unsigned hash_value_%d = arpc::traits::type_hash_v<%s>;\n" % (k, k, spells[k]))
        r = ir.run([ir.CLANG] + ir.BASE_FLAGS + ["-O0", "-S", "-emit-llvm", "-o", "-", "-w", "-ferror-limit=0", p])
        vals = {int(a): int(b) & M for a, b in re.findall(r"@hash_value_(\d+) = (?:dso_local )?constant i32 (-?\d+)", r.stdout)}
        return r, vals
    from concurrent.futures import ThreadPoolExecutor
    idx = list(range(len(spells)))
    parts = [idx[k::8] for k in range(8)]
    vals, bad = {}, {}
    with ThreadPoolExecutor(8) as ex:
        for r, v in ex.map(lambda k: comp("hash-all-%d.cpp" % k, parts[k]), range(8)):
            vals.update(v)

        def one(k):
            q, v = comp("hash-%d.cpp" % k, [k])
            e = [l for l in q.stderr.splitlines() if "error:" in l]
            return k, v.get(k), (e[0] if e else "not a compile-time constant")
        for k, v, e in ex.map(one, [k for k in idx if k not in vals]):
            if v is None:
                bad[k] = e
            else:
                vals[k] = v
    return vals, bad


WH = "src/arpc/type_hash.h new_type_hash"


def c10(rep, tier):
    """Different structures, different hashes."""
    U, decls = universe()
    extra = ["std::chrono::duration<std::int64_t, std::ratio<1, 100>>", "std::chrono::duration<std::int64_t, std::ratio<2, 101>>", "V1", "V2"]
    decls = decls + ["struct V1 : arpc::serializable<V1> { ARPC_CUSTOM_SERIALIZATION_VERSION(1); };", "struct V2 : arpc::serializable<V2> { ARPC_CUSTOM_SERIALIZATION_VERSION(2); };"]
    spells = [t.s for t in U] + extra
    vals, bad = values(decls, spells)
    dsc = {s.split()[1]: s for s in decls}
    desc = lambda k: (dsc.get(spells[k]) or spells[k])[:160]
    rep.note("types hashed", len(vals))
    for k in bad:
        rep.bad("hash:" + spells[k], "%s: no structure hash for %s: %s" % (WH, desc(k), bad[k][-200:]))
    n = len(U)
    # structurally different: different reference trees, not merely different names
    by = {}
    for k in range(n):
        if k in vals:
            by.setdefault(vals[k], []).append(k)
    refs = [t.h() for t in U]
    assert len(refs) == n
    pairs = 0
    for k in range(n):
        if k not in vals:
            continue
        # pairs on which the published function itself cancels are the findings below
        clash = [j for j in by[vals[k]] if j < k and structure(U[j]) != structure(U[k]) and refs[j] != refs[k]]
        pairs += k
        rep.check(not clash, "distinct:%s" % spells[k], "differs from the hashes of %d other types" % k,
                  "%s: %s and %s are encoded differently but have the same structure hash %d" % (WH, desc(k), desc(clash[0]) if clash else "", vals[k]))
    rep.note("pairs of types compared", pairs)
    at = {s: k for k, s in enumerate(spells)}
    for x, y, key, what in FINDINGS:
        a, b = at[x], at[y]
        if a in vals and b in vals:
            rep.check(vals[a] != vals[b], key, "differ", "%s: %s: %s and %s have the same structure hash %d" % (WH, what, x, y, vals[a]))


FINDINGS = [
    ("std::chrono::duration<std::int64_t, std::ratio<1, 100>>", "std::chrono::duration<std::int64_t, std::ratio<2, 101>>", "duration-ratio", "two durations of different periods"),
    ("V1", "V2", "custom-version", "the same class with custom serialization versions 1 and 2"),
    ("std::vector<std::string>", "char", "cancel:vector<string>", "a sequence of sequences cancels to its element"),
    ("std::optional<std::optional<std::int32_t>>", "std::int32_t", "cancel:optional<optional>", "an optional optional cancels to its value"),
    ("std::map<std::int32_t, std::map<std::int32_t, std::int32_t>>", "std::int32_t", "cancel:map<map>", "a map of maps cancels"),
    ("std::optional<std::vector<std::int32_t>>", "std::vector<std::optional<std::int32_t>>", "cancel:order", "the order of two directly nested wrappers does not matter"),
    ("std::array<std::array<std::int32_t, 3>, 2>", "std::array<std::array<std::int32_t, 2>, 3>", "cancel:array", "the order of two directly nested array sizes does not matter"),
]


def structure(t):
    """Two types with equal structures share a hash."""
    return t.s.replace("std::string", "std::vector<char>").replace("Ag1", "std::tuple<std::int32_t, std::vector<char>>")


def c11(rep, tier):
    """Same structure, same hash; the same value in every build."""
    U, decls = universe()
    groups = [
        ("qualifiers", ["int", "const int", "int&", "const int&", "int&&", "volatile int"]),
        ("qualifiers of char", ["char", "const char", "const char&", "volatile char"]),
        ("qualifiers of bool", ["bool", "const bool", "const bool&", "bool&&"]),
        ("qualifiers of classes", ["Eq2", "const Eq2", "Eq2&", "const Eq2&", "Eq2&&"]),
        ("qualifiers of containers", ["std::map<int, bool>", "const std::map<int, bool>&", "std::map<int, bool>&&"]),
        ("qualifiers of wrappers", ["std::optional<bool>", "const std::optional<bool>&", "const std::optional<bool>"]),
        ("qualifiers of pointees", ["std::shared_ptr<bool>", "std::shared_ptr<const bool>", "const std::shared_ptr<bool>&"]),
        ("qualifiers of time", ["std::chrono::seconds", "const std::chrono::seconds&"]),
        ("string and its relatives", ["std::string", "std::vector<char>", "std::list<char>", "std::deque<char>"]),
        ("sequences", ["std::vector<int>", "std::list<int>", "std::deque<int>"]),
        ("sets", ["std::set<int>", "std::unordered_set<int>", "arpc::flat_set<int>", "std::set<int, std::greater<int>>"]),
        ("multisets", ["std::multiset<int>", "std::unordered_multiset<int>", "arpc::flat_multiset<int>"]),
        ("maps", ["std::map<int, std::string>", "std::unordered_map<int, std::string>", "arpc::flat_map<int, std::string>"]),
        ("multimaps", ["std::multimap<int, std::string>", "std::unordered_multimap<int, std::string>", "arpc::flat_multimap<int, std::string>"]),
        ("tuples, pairs and aggregates", ["std::tuple<int, std::string>", "std::pair<int, std::string>", "Eq1", "const Eq1&"]),
        ("arrays", ["int[3]", "std::array<int, 3>"]),
        ("owning pointers", ["std::unique_ptr<int>", "std::unique_ptr<int, Del>", "std::unique_ptr<const int>", "std::unique_ptr<int, Del2>", "std::unique_ptr<int, void (*)(int*)>", "std::unique_ptr<int, Del2&>", "std::unique_ptr<int, std::default_delete<int>>"]),
        ("allocators", ["std::vector<int>", "std::vector<int, Al<int>>", "std::deque<int, Al<int>>", "std::list<int, Al<int>>"]),
        ("allocators of strings", ["std::string", "std::basic_string<char, std::char_traits<char>, Al<char>>"]),
        ("comparators and hashers of maps", ["std::map<int, bool>", "std::map<int, bool, std::greater<int>>", "std::map<int, bool, Cmp>", "std::unordered_map<int, bool, Hsh>", "arpc::flat_map<int, bool, std::greater<int>>", "std::map<int, bool, std::less<int>, Al<std::pair<const int, bool>>>"]),
        ("comparators and hashers of sets", ["std::set<int>", "std::set<int, Cmp>", "std::unordered_set<int, Hsh>", "std::set<int, std::less<>, Al<int>>"]),
        ("enumerations", ["EnA", "EnB", "EnC", "const EnA&"]),
        ("qualifiers of optional values", ["std::optional<int>", "std::optional<const int>"]),
        ("qualifiers of weak pointees", ["std::weak_ptr<int>", "std::weak_ptr<const int>"]),
        ("qualifiers of members", ["Eq1", "Eq6", "std::tuple<const int, std::string>", "std::tuple<int&, const std::string&>", "std::pair<const int, std::string>"]),
        ("qualifiers of fields", ["Eq2", "Eq7"]),
        ("time points, however represented", ["std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>", "std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<int>>", "std::chrono::time_point<Clk, std::chrono::duration<short>>"]),
        ("const and other member functions", ["int(bool) const", "int(const bool&) const"]),
        ("class names and field names", ["Eq2", "Eq3"]),
        ("durations, however represented", ["std::chrono::milliseconds", "std::chrono::duration<int, std::milli>", "std::chrono::duration<unsigned long long, std::milli>"]),
        ("time points, whatever the clock", ["std::chrono::time_point<std::chrono::system_clock, std::chrono::milliseconds>", "std::chrono::time_point<std::chrono::steady_clock, std::chrono::milliseconds>"]),
        ("argument qualifiers", ["void(int, std::string)", "void(const int&, const std::string&)", "void(int, std::string&&)"]),
        ("recursive classes", ["Rq1", "Rq2"]),
        ("nested relatives", ["std::vector<std::map<int, std::list<char>>>", "std::list<arpc::flat_map<int, std::string>>"]),
        ("classes holding relatives", ["Eq4", "Eq5"]),
    ]
    decls = decls + ["struct Del2 { long state[3]; void operator()(int*) const; };", "template <typename T> struct Al : std::allocator<T> { template <typename U> struct rebind { using other = Al<U>; }; long state; };",
                     "struct Cmp { long state; bool operator()(int, int) const; };", "struct Hsh { long state; std::size_t operator()(int) const; };", "enum EnA : short { EnA1 };", "enum class EnB : short { X, Y, Z };", "enum EnC : std::int16_t {};",
                     "struct Clk { using duration = std::chrono::duration<short>; using rep = short; using period = std::ratio<1>; using time_point = std::chrono::time_point<Clk, duration>; static constexpr bool is_steady = true; };",
                     "struct Eq6 { const int a; const std::string b; };", "struct Eq7 : arpc::serializable<Eq7> { volatile int a; ARPC_FIELDS(a); };",
                     "struct Del { void operator()(const int*); };", "struct Eq1 { int a; std::string b; };",
                     "struct Eq2 : arpc::serializable<Eq2> { int a; ARPC_FIELDS(a); };", "struct Eq3 : arpc::serializable<Eq3> { int another; char skipped; ARPC_FIELDS(another); };",
                     "struct Rq1 : arpc::serializable<Rq1> { std::unique_ptr<Rq1> a; ARPC_FIELDS(a); };", "struct Rq2 : arpc::serializable<Rq2> { std::unique_ptr<Rq2> b; ARPC_FIELDS(b); };",
                     "struct Eq4 : arpc::serializable<Eq4> { std::map<int, std::string> a; std::pair<int, char> b; ARPC_FIELDS(a, b); };",
                     "struct Eq5 : arpc::serializable<Eq5> { arpc::flat_map<int, std::vector<char>> a; std::tuple<int, char> b; ARPC_FIELDS(a, b); };"]
    spells = [t.s for t in U]
    n = len(spells)
    for _, g in groups:
        spells += g
    vals, bad = values(decls, spells)
    rep.note("types hashed", len(vals))
    dsc = {s.split()[1]: s for s in decls}
    for k, t in enumerate(U):
        if k in bad:
            rep.bad("value:" + t.s, "%s: no structure hash for %s: %s" % (WH, (dsc.get(t.s) or t.s)[:160], bad[k][-200:]))
        else:
            rep.check(vals[k] == t.h(), "value:" + t.s, "hash %d as published" % vals[k],
                      "%s: the structure hash of %s is %d; every other build computes %d" % (WH, (dsc.get(t.s) or t.s)[:160], vals[k], t.h()))
    k = n
    for name, g in groups:
        ks = list(range(k, k + len(g)))
        k += len(g)
        for j in ks:
            if j in bad:
                rep.bad("same:" + spells[j], "%s: no structure hash for %s: %s" % (WH, spells[j], bad[j][-200:]))
            elif ks[0] in vals:
                rep.check(vals[j] == vals[ks[0]], "same:%s" % spells[j], "same hash", "%s: %s: %s and %s have the same encoding but different structure hashes (%d, %d)" % (WH, name, spells[ks[0]], spells[j], vals[ks[0]], vals[j]))
