"""Declaration macros: what they expand to is decided on the preprocessor's
output, for every list length; what the declarations mean, on types and IR."""
import re
import ir, witness
import absint
from absint import Int, Ptr
from packets import fn1
from serial import POL

PH = "src/arpc/preprocessor.h"


def expansion(rep, tier):
    lines = ['#include "arpc/preprocessor.h"', "#define W(x) [x]", "#define WI(x, ...) [x __VA_ARGS__]", "#define SEP() ;", "#define PAIR_IMPL(A, B) B->A", "#define PAIR(...) ARPC_NO_PARENS(PAIR_IMPL, __VA_ARGS__)",
             "#define IN(n, ...) <ARPC_DEFER_2(ARPC_FOR_AGAIN)()(n, WI, SEP)>", "#define CMA() ,"]
    want = []

    def case(cid, text, exp, what):
        lines.append("@@%d %s" % (len(want), text))
        want.append((cid, exp, what, text))
    for n in range(257):
        a = ["a%d" % i for i in range(n)]
        s = ", ".join(a)
        if n <= 256:
            case("count:%d" % n, "ARPC_ARG_COUNT(%s)" % s, str(n), "the number of arguments")
        case("foreach:%d" % n, "ARPC_FOREACH(W, SEP%s)" % (", " + s if n else ", "), ";".join("[%s]" % x for x in a), "every argument once, in order, with a separator between each two")
        case("for:%d" % n, "ARPC_FOR(%d, WI, SEP, p, q)" % n, ";".join("[%dp,q]" % k for k in range(n, 0, -1)), "every number from n down to 1, with the further arguments, separators only between")
    for n in (1, 2, 5, 30):
        case("foreach-paren:%d" % n, "ARPC_FOREACH(PAIR, CMA, %s)" % ", ".join("(n%d, v%d)" % (i, i) for i in range(n)), ",".join("v%d->n%d" % (i, i) for i in range(n)), "parenthesised arguments stay whole")
        case("nested-for:%d" % n, "ARPC_EXPAND(ARPC_FOR(%d, IN, SEP))" % n, ";".join("<%s>" % ";".join("[%d]" % j for j in range(k, 0, -1)) for k in range(n, 0, -1)), "a deferred inner loop runs for every outer step")
    for c, e in (("", 1), ("a", 0), ("a, b", 0), ("()", 0), ("(a)", 0), ("(a, b)", 0), ("(a) b", 0), ("a()", 0), ("a(b)", 0), ("f (x), y", 0), ("1", 0), ("::a<b>", 0), ('"s"', 0), ("CMA", 0), ("W", 0), ("SEP", 0), ("CMA()", 0)):
        case("empty:%s" % c, "ARPC_IS_EMPTY(%s)" % c, str(e), "whether the list is empty")
        if c != "CMA()" and "," not in c or c.startswith("("):
            case("count1:%s" % c, "ARPC_ARG_COUNT(%s)" % c, str(1 - e), "the number of arguments")
    for c, v in (("0", 0), ("1", 1), ("2", 1), ("x", 1), ("ARPC_IS_EMPTY()", 1), ("ARPC_IS_EMPTY(a)", 0), ("ARPC_NOT(0)", 1), ("ARPC_NOT(7)", 0)):
        case("if:%s" % c, "ARPC_IF(%s)(yes, yes2)" % c, "yes,yes2" if v else "", "the argument is kept exactly when the condition holds")
        case("if-else:%s" % c, "ARPC_IF_ELSE(%s)(yes, yes2)(no, no2)" % c, "yes,yes2" if v else "no,no2", "the first or the second argument")
        case("not:%s" % c, "ARPC_NOT(%s) ARPC_BOOL(%s)" % (c, c), "%d%d" % (1 - v, v), "negation and truth value")
    import os
    p = os.path.join(ir.scratch(), "macros.cpp")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n@@end\n")
    r = ir.run([ir.CLANG] + ir.BASE_FLAGS + ["-E", "-P", "-w", p])
    if "@@0" not in r.stdout:
        raise ir.AnalysisError("preprocessor: " + r.stderr[:500])
    got = {}
    for m in re.finditer(r"@@(\d+)(.*?)(?=@@)", r.stdout, re.S):
        got[int(m.group(1))] = re.sub(r"\s+", "", m.group(2))
    for k, (cid, exp, what, text) in enumerate(want):
        rep.check(got.get(k) == exp, "expand:" + cid, "expansion as specified", "%s: %s expands to %s, not to %s (%s)" % (PH, text[:120], (got.get(k) or "nothing")[:160], exp[:160] or "nothing", what))
    rep.note("expansions", "%d macro expansions, lists of 0 to 256 arguments" % len(want))


SIZES = (1, 2, 3, 8, 17, 40)


def ret(st):
    r = [e[1] for e in st.events if e[0] == "ret"]
    return r[0] if r else None


def source():
    s = ['#include "arpc/serializable.h"', '#include "arpc/enum.h"', "#include <string>", "#include <utility>"]
    for n in SIZES:
        s.append("struct F%d : arpc::serializable<F%d> { %s ARPC_FIELDS(%s); };" % (n, n, " ".join("%s f%d;" % (("int", "std::string", "char", "double")[i % 4], i) for i in range(n)), ", ".join("f%d" % i for i in range(n))))
        # declared in another order than listed
        s.append("struct G%d : arpc::serializable<G%d> { %s ARPC_FIELDS(%s); };" % (n, n, " ".join("int f%d;" % i for i in range(n)), ", ".join("f%d" % i for i in reversed(range(n)))))
        for t in "FG":
            for i in range(n):
                s.append("const char* probe_%s%d_%d() { return arpc::field_descriptor<&%s%d::f%d>::name(); }" % (t, n, i, t, n, i))
    s.append("template <typename T> struct TT : arpc::serializable<TT<T>> { ARPC_OWN_TYPE(TT<T>); T a; T b; ARPC_FIELDS(b, a); };")
    s.append("const char* probe_TT_a() { return arpc::field_descriptor<&TT<int>::a>::name(); }")
    s.append("const char* probe_TT_b() { return arpc::field_descriptor<&TT<int>::b>::name(); }")
    return s


def fields(rep):
    s = source()
    claims = []
    for n in SIZES:
        claims.append(("fields:F%d" % n, "std::is_same_v<F%d::field_descriptors, arpc::mpt::pack<%s>>" % (n, ", ".join("arpc::field_descriptor<&F%d::f%d>" % (n, i) for i in range(n))), "the fields as listed", "src/arpc/serializable_base.h"))
        claims.append(("fields:G%d" % n, "std::is_same_v<G%d::field_descriptors, arpc::mpt::pack<%s>>" % (n, ", ".join("arpc::field_descriptor<&G%d::f%d>" % (n, i) for i in reversed(range(n)))), "the fields in the order listed, not declared", "src/arpc/serializable_base.h"))
    claims.append(("fields:TT", "std::is_same_v<TT<int>::field_descriptors, arpc::mpt::pack<arpc::field_descriptor<&TT<int>::b>, arpc::field_descriptor<&TT<int>::a>>>", "the fields as listed", "src/arpc/serializable_base.h"))
    witness.decide(rep, "fields", "\n".join(s) + "\n", claims, "src/arpc/serializable_base.h")
    prog = ir.extract([ir.compile_bc("fields.cpp", (), "\n".join(s))], POL + "inline ^std::array::\ninline ^std::__array_traits\ninline ::field_names$\ninline ^TT\n")
    n = 0
    for fn in prog.functions:
        m = re.match(r"probe_(\w+)_(\w+)$", fn.name)
        if not m:
            continue
        want = m.group(2) if m.group(1) == "TT" else "f" + m.group(2)
        ip = absint.Interp(fn, lambda *a: (False, None))
        ip.guard = 1
        ip.run()
        got = set()
        for kind, st in ip.done:
            v = ret(st)
            got.add(ip.strs.get(v.obj[1]) if isinstance(v, Ptr) and v.obj[0] == "g" and v.off == 0 else repr(v))
        n += 1
        rep.check(got == {want}, "name:%s:%s" % m.groups(), "the descriptor's name is the field's", "src/arpc/serializable_base.h: the name of field %s of a class with fields %s is %s" % (want, m.group(1), sorted(map(str, got))))
    rep.require(100, "field name functions", n)


ENUM = '''#include <string>
#include "arpc/enum.h"
enum class pe : unsigned char { z = 0 };
const char* probe_enum(pe v) { return arpc::enum_names<pe>::name(v); }
'''


def enums(rep, tier):
    EH = "src/arpc/enum.h"
    P = '#include <string>\n#include <utility>\n#include "arpc/enum.h"\ntemplate <typename T, typename U> constexpr bool same = std::is_same_v<T, U>;\n'
    claims = []
    for n in (1, 2, 3, 10):
        P += 'ARPC_ENUM(en%d, short, "none", %s);\n' % (n, ", ".join("(n%d, %d)" % (i, (i * 37) % 101 - 20) for i in range(n)))
        for i in range(n):
            claims.append(("enum:%d:%d" % (n, i), "static_cast<short>(en%d::n%d) == %d" % (n, i, (i * 37) % 101 - 20), "the enumerator has the value given", EH))
        claims.append(("enum:%d:base" % n, "same<std::underlying_type_t<en%d>, short> && !std::is_convertible_v<en%d, int>" % (n, n), "a scoped enumeration with the base type given", EH))
    witness.decide(rep, "enum", P, claims, EH)
    for n in (1, 2, 3, 10):
        P += "const char* probe_en%d(en%d v) { return arpc::enum_names<en%d>::name(v); }\n" % (n, n, n)
    pol = POL + "inline ^std::(find_if|__find_if|__iterator_category|__pred_iter|pair|__ops|begin|end|__find_if_not)\ninline ^__gnu_cxx::__ops::\ninline ^std::\n"
    prog = ir.extract([ir.compile_bc("enums.cpp", (), P)], pol)
    prog.consts.update(prog.inits)
    for n in (1, 2, 3, 10):
        fn = fn1(prog, "probe_en%d" % n)
        vals = [(i * 37) % 101 - 20 for i in range(n)]
        for v, want in [(x, "n%d" % k) for k, x in enumerate(vals)] + [(1000, "none"), (-21, "none"), (vals[-1] + 256, "none")]:
            ip = absint.Interp(fn, lambda *a: (False, None), max_visits=300)
            ip.guard = 1

            def init(ip, st):
                st.env[("a", 0)] = Int.const(16, v & 0xffff)
            ip.run(init)
            got = set()
            for kind, st in ip.done:
                r = ret(st)
                got.add(ip.strs.get(r.obj[1]) if isinstance(r, Ptr) and r.obj[0] == "g" and r.off == 0 else "%s %r" % (kind, r))
            rep.check(got == {want}, "enum-name:%d:%d" % (n, v), "the name of the value", "%s: the name of value %d of an enumeration with %d entries is %s, not %s" % (EH, v, n, sorted(map(str, got)), want))


def c04(rep, tier):
    expansion(rep, tier)
    fields(rep)
    enums(rep, tier)
