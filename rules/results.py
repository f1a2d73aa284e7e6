"""result_holder: exactly one of value, exception, nothing - in and out."""
import re
import ir, absint, objs, errs
from absint import Int, Ptr, Sym, TOP, NULL, Throw, May, Agg
from packets import fn1
from serial import POL
import par, witness

RH = "src/arpc/result_holder.h"
ACC = (("star_l", "h.operator*()"), ("star_c", "std::as_const(h).operator*()"), ("star_r", "std::move(h).operator*()"), ("star_cr", "std::move(std::as_const(h)).operator*()"),
       ("value_l", "h.value()"), ("value_c", "std::as_const(h).value()"), ("value_r", "std::move(h).value()"), ("value_cr", "std::move(std::as_const(h)).value()"))
HEAD = r'''
#include <exception>
#include <optional>
#include <utility>
#include <string>
#include "arpc/result_holder.h"
using arpc::result_holder;
using EP = std::exception_ptr;
struct V { long v; V(const V&); V(V&&) noexcept; V& operator=(const V&); V& operator=(V&&) noexcept; ~V(); };
struct arch { template <typename T> void operator()(const T&); };
struct unarch { template <typename T> void operator()(T&); };
extern "C" { void sink(const void*); void mark(int); }
using H = result_holder<V>; using HV = result_holder<void>;
'''
# How a holder can come to be in a state; a, b are values, e, f exceptions.
STATES = {
    "empty": ("H h;", None), "value": ("H h(std::move(*a));", "a"), "lvalue": ("H h(*a);", "a"), "cvalue": ("H h(std::as_const(*a));", "a"), "exc": ("H h(*e);", "!e"),
    "set": ("H h; h.set_value(std::move(*a));", "a"), "setl": ("H h; h.set_value(*a);", "a"), "setc": ("H h; h.set_value(std::as_const(*a));", "a"), "setx": ("H h; h.set_exception(*e);", "!e"),
    "over": ("H h(std::move(*a)); h.set_value(std::move(*b));", "b"), "overl": ("H h(std::move(*a)); h.set_value(*b);", "b"), "xover": ("H h(*e); h.set_exception(*f);", "!f"),
    "vx": ("H h(std::move(*a)); h.set_exception(*e);", "!e"), "xv": ("H h(*e); h.set_value(std::move(*a));", "!e"), "xvl": ("H h(*e); h.set_value(*a);", "!e"), "xvx": ("H h(*e); h.set_value(std::move(*a)); h.set_exception(*f);", "!f"), "resetset": ("H h(*e); h.reset(); h.set_value(std::move(*a));", "a"), "resetx": ("H h(std::move(*a)); h.reset(); h.set_exception(*e);", "!e"), "reset": ("H h(std::move(*a)); h.reset();", None), "xreset": ("H h(*e); h.reset();", None), "vxreset": ("H h(std::move(*a)); h.set_exception(*e); h.reset();", None), "ereset": ("H h; h.reset();", None),
    "moved": ("H g(std::move(*a)); H h(std::move(g));", "a"), "xmoved": ("H g(*e); H h(std::move(g));", "!e"), "emoved": ("H g; H h(std::move(g));", None),
    "assign": ("H g(std::move(*a)); H h(std::move(*b)); h = std::move(g);", "a"), "assignx": ("H g(*e); H h(std::move(*b)); h = std::move(g);", "!e"), "assigne": ("H g; H h(std::move(*b)); h = std::move(g);", None), "assignxe": ("H g; H h(*e); h = std::move(g);", None),
    "assignxv": ("H g(std::move(*a)); H h(*e); h = std::move(g);", "a"),
    "swap": ("H g(std::move(*a)); H h(*e); h.swap(g);", "a"), "fswap": ("H g(std::move(*a)); H h(std::move(*b)); swap(g, h);", "a"), "swapx": ("H g(*e); H h; g.swap(h);", "!e"), "swape": ("H g; H h(std::move(*a)); h.swap(g);", None), "swapvx": ("H g(std::move(*b)); g.set_exception(*e); H h(std::move(*a)); swap(h, g);", "!e"),
    "swapback": ("H g; H h(std::move(*a)); h.swap(g); h.swap(g);", "a"),
}
VSTATES = {
    "empty": ("HV h;", None), "set": ("HV h; h.set_value();", "v"), "exc": ("HV h(*e);", "!e"), "setx": ("HV h; h.set_exception(*e);", "!e"), "vx": ("HV h; h.set_value(); h.set_exception(*e);", "!e"), "xv": ("HV h(*e); h.set_value();", "!e"), "resetset": ("HV h(*e); h.reset(); h.set_value();", "v"),
    "reset": ("HV h; h.set_value(); h.reset();", None), "xreset": ("HV h(*e); h.reset();", None), "vxreset": ("HV h(*e); h.set_value(); h.reset();", None),
    "moved": ("HV g; g.set_value(); HV h(std::move(g));", "v"), "xmoved": ("HV g(*e); HV h(std::move(g));", "!e"), "assigne": ("HV g; HV h; h.set_value(); h = std::move(g);", None), "assign": ("HV g; g.set_value(); HV h(*e); h = std::move(g);", "v"),
    "swap": ("HV g; g.set_value(); HV h(*e); h.swap(g);", "v"), "fswap": ("HV g; HV h; h.set_value(); swap(h, g);", None), "swapx": ("HV g(*e); HV h; swap(h, g);", "!e"), "xover": ("HV h(*e); h.set_exception(*f);", "!f"),
}


def source():
    out = [HEAD]
    A = "V* a, V* b, const EP* e, const EP* f"
    for s, (code, _) in STATES.items():
        out.append("int probe_bool_%s(%s) { %s return bool(h) + 2 * h.has_value(); }" % (s, A, code))
        out.append("long probe_arrow_%s(%s) { %s return h->v; }" % (s, A, code))
        out.append("long probe_carrow_%s(%s) { %s return std::as_const(h)->v; }" % (s, A, code))
        for n, x in ACC:
            out.append("void probe_%s_%s(%s) { %s sink(&static_cast<const V&>(%s)); }" % (n, s, A, code, x))
        out.append("void probe_take_%s(%s) { %s V v(std::move(h).value()); sink(&v); }" % (s, A, code))
        out.append("void probe_or_%s(%s, V* d) { %s V v(h.value_or(*d)); sink(&v); }" % (s, A, code))
        out.append("void probe_orr_%s(%s, V* d) { %s V v(std::move(h).value_or(std::move(*d))); sink(&v); }" % (s, A, code))
        out.append("void probe_save_%s(%s, arch* r) { %s std::as_const(h).save(*r); }" % (s, A, code))
        out.append("void probe_load_%s(%s, unarch* r) { %s h.load(*r); mark(bool(h)); sink(&h.value()); }" % (s, A, code))
    for s, (code, _) in VSTATES.items():
        out.append("int probe_vbool_%s(%s) { %s return bool(h) + 2 * h.has_value(); }" % (s, A, code))
        for n, x in ACC:
            out.append("void probe_v%s_%s(%s) { %s %s; mark(1); }" % (n, s, A, code, x))
        out.append("void probe_vor_%s(%s) { %s h.value_or(); mark(1); }" % (s, A, code))
        out.append("void probe_vorr_%s(%s) { %s std::move(h).value_or(); mark(1); }" % (s, A, code))
        out.append("void probe_vsave_%s(%s, arch* r) { %s std::as_const(h).save(*r); }" % (s, A, code))
        out.append("void probe_vload_%s(%s, unarch* r) { %s h.load(*r); mark(bool(h)); h.value(); mark(2); }" % (s, A, code))
    return "\n".join(out) + "\n"


RPOL = "keep ^V::\nkeep ^(un)?arch::\nkeep ^arpc::error_factory::\nkeep ^std::__exception_ptr::exception_ptr::_M_(addref|release)\ninline ^std::__exception_ptr::\nkeep ^std::(__cxx11::)?basic_string\n" + errs.EPOL + "inline ^std::(optional|_Optional_|_Enable_|_Construct|construct_at|destroy_at|_Destroy|__exception_ptr|rel_ops|nullopt|in_place)\ninline ^std::\n"
A, B, EE, FF, D = (Ptr(("buf", x), 0) for x in ("a", "b", "ep", "fp", "d"))
EX, FX, CUR = Ptr(("buf", "exception e"), 0), Ptr(("buf", "exception f"), 0), Ptr(("buf", "decoded exception"), 0)
VAL = {"a": ("va",), "b": ("vb",), "d": ("vd",)}


def model(archv=None):
    """archv: what the archive being read contains: (value or None, exception or not)."""
    def mo(ip, st, i, name, args):
        nm = re.sub(r"\[abi:\w+\]", "", re.sub(r" const$", "", name))
        if nm == "sink":
            st.events.append(("sink", objs.get(st, args[0])))
            return None
        if nm == "mark":
            st.events.append(("mark", args[0]))
            return None
        if nm == "V::V" or nm == "V::operator=":
            ps = objs.params(i.get("dem", ""))
            t = objs.get(st, args[1])
            st.events.append(("vcopy", t, ps and ps[0].endswith("&&")))
            objs.put(st, args[0], t or ("?", repr(args[1])))
            ip.store(st, args[0], Int.src(64, t or ("?",)), 8)
            if ps and ps[0].endswith("&&"):
                objs.put(st, args[1], ("moved-from",))
                return args[0] if nm == "V::operator=" else None
            return May(args[0] if nm == "V::operator=" else None)
        if nm == "V::~V":
            st.mem.pop((objs.K, args[0].obj, args[0].off), None)
            return None
        if nm.endswith("exception_ptr::_M_addref") or nm.endswith("exception_ptr::_M_release"):
            st.events.append(("ref" if nm.endswith("addref") else "unref", args[0], ip.load(st, args[0], 8, "ptr")))
            return None
        if nm == "std::rethrow_exception":
            st.events.append(("rethrow", ip.load(st, args[0], 8, "ptr")))
            return Throw("rethrown")
        if nm == "std::current_exception":
            ip.store(st, args[0], CUR if st.exc == "decoded" else Ptr(("buf", "exception " + str(st.exc)), 0), 8)
            return None
        if nm.endswith("arch::operator()"):
            un = nm.startswith("unarch")
            ps = objs.params(i.get("dem", ""))
            ty = re.sub(r"^const | const$|( const)?&+$", "", ps[0]) if ps else "?"
            ty = re.sub(r" const$|&$", "", ty).strip()
            k = len([e for e in st.events if e[0] == "item"])
            if not un:
                if ty == "bool":
                    v = ip.load(st, args[1], 1, "i8")
                elif ty.startswith("std::optional"):
                    fl = ip.load(st, Ptr(args[1].obj, args[1].off + 8), 1, "i8").value
                    v = objs.get(st, args[1]) if fl else None
                else:
                    v = objs.get(st, args[1])
                st.events.append(("item", ty, v))
                return May(None)
            st.events.append(("item", ty, None))
            val, exc = archv
            if ty == "bool":
                # void holders keep their value in a bool as well: the first item
                first = k == 0
                ip.store(st, args[1], Int.const(8, int(bool(val)) if first else int(exc)), 1)
            elif ty.startswith("std::optional"):
                if val:
                    objs.put(st, args[1], val)
                ip.store(st, Ptr(args[1].obj, args[1].off + 8), Int.const(8, int(bool(val))), 1)
            elif "basic_string" in ty:
                objs.put(st, args[1], ("string", k))
            return None
        if nm == "arpc::error_factory::analyze_exception":
            st.events.append(("analyze", ip.load(st, args[1], 8, "ptr")))
            objs.put(st, args[0], ("type",))
            objs.put(st, Ptr(args[0].obj, args[0].off + 32), ("message",))
            return None
        if nm == "arpc::error_factory::get":
            return Ptr(("buf", "factory"), 0)
        if nm == "arpc::error_factory::throw_error":
            st.events.append(("throw_error", objs.sv_tok(ip, args[1], args[2]) if len(args) > 3 else None, objs.cstr_tok(ip, args[-1])))
            return Throw("decoded")
        for m in (objs.string_model, objs.exc_model):
            h, r = m(ip, st, i, name, args)
            if h:
                return r
        if nm in ("std::terminate", "__clang_call_terminate"):
            st.events.append(("terminate",))
            return "end"
        if nm.startswith("arpc::") and not re.search(r"errors::|error_base", nm):
            raise ir.AnalysisError("call to %s was neither inlined nor modelled" % name)
        st.events.append(("call", nm, tuple(args)))
        return None
    return mo


def setup(ip, st):
    for k, p in enumerate((A, B, EE, FF, D)):
        st.env[("a", k)] = p
    for p, k in ((A, "a"), (B, "b"), (D, "d")):
        objs.put(st, p, VAL[k])
        ip.store(st, p, Int.src(64, VAL[k]), 8)
    ip.store(st, EE, EX, 8)
    ip.store(st, FF, FX, 8)


def run(fn, archv=None):
    ip = absint.Interp(fn, model(archv), unwind=True)
    ip.strs = errs.STRS
    ip.guard = 1
    ip.run(setup)
    return [(k, s) for k, s in ip.done if k != "unreachable"]


def outcome(k, st):
    """What an access amounted to."""
    if any(e[0] == "terminate" for e in st.events):
        return "terminates"
    r = [e for e in st.events if e[0] == "rethrow"]
    if r:
        return ("rethrow", r[-1][1]) if k == "throw" else "swallows an exception"
    t = errs.thrown(st)[0]
    if t:
        return ("throw", t)
    s = [e for e in st.events if e[0] == "sink"]
    if s:
        return ("value", s[-1][1])
    if k == "ret":
        v = [e for e in st.events if e[0] == "ret"][0][1]
        return ("value", v)
    return (k,)


def leaks(st, k):
    """Every exception reference taken is given back (the arguments keep theirs)."""
    n = {}
    for e in st.events:
        if e[0] in ("ref", "unref") and e[2] != CUR:
            n[e[2]] = n.get(e[2], 0) + (1 if e[0] == "ref" else -1)
    return {x: c for x, c in n.items() if c}


def want_access(w):
    if w is None:
        return {("throw", "arpc::errors::invalid_state")}
    if w.startswith("!"):
        return {("rethrow", EX if w == "!e" else FX)}
    return {("value", VAL[w])}


def c22(rep, tier):
    errs.STRS.clear()
    prog = ir.extract([ir.compile_bc("results.cpp", (), source())], RPOL)

    def paths(name, archv=None):
        fn = fn1(prog, name)
        outs = run(fn, archv)
        # paths on which copying the value itself failed say nothing here
        return [(k, s) for k, s in outs if not any(e[0] == "unwind" for e in s.events)], [(k, s) for k, s in outs if any(e[0] == "unwind" for e in s.events)]

    def balanced(rep, key, name, outs):
        for k, st in outs:
            l = leaks(st, k)
            rep.check(not l and not any(e[0] == "terminate" for e in st.events), "refs:" + key, "references to exceptions are balanced", "%s: in %s the reference count of an exception ends up off by %s" % (RH, name, l))
            rep.check(objs.get(st, D) in (VAL["d"], ("moved-from",)) or not k == "ret", "arg:" + key, "", "")

    def one(rep, item):
        void, s = item
        code, w = (VSTATES if void else STATES)[s]
        p = "probe_v" if void else "probe_"
        what = "a holder after `%s`" % code
        # has_value
        outs, th = paths(p + "bool_" + s)
        for k, st in outs:
            v = [e for e in st.events if e[0] == "ret"]
            v = v[0][1].value if v and isinstance(v[0][1], Int) else None
            rep.check(v == (3 if w else 0), "%sbool:%s" % (p[6:], s), "holds a result exactly when one was put in", "%s: %s: bool and has_value() are %s, should be %d" % (RH, what, v, bool(w)))
            if not void:
                if "move(*a)" in code:
                    rep.check(objs.get(st, A) == ("moved-from",), "moves:" + s, "a value given up is moved", "%s: %s: the value was copied, not moved" % (RH, what))
                else:
                    rep.check(objs.get(st, A) == VAL["a"], "keeps:" + s, "a value not given up is left alone", "%s: %s: the argument is %s" % (RH, what, objs.get(st, A)))
                if "move(*b)" not in code:
                    rep.check(objs.get(st, B) == VAL["b"], "keepsb:" + s, "a value not given up is left alone", "%s: %s: the argument is %s" % (RH, what, objs.get(st, B)))
        rep.require(1, "paths of %sbool_%s" % (p, s), len(outs))
        balanced(rep, "%sbool:%s" % (p[6:], s), what, outs + th)
        # accessors
        for n, _ in ACC + ((("take", 0), ("arrow", 0), ("carrow", 0)) if not void else ()):
            outs, th = paths(p + n + "_" + s)
            want = want_access(w) if not void or w is None or w[0] == "!" else {("value", None)}
            if n in ("arrow", "carrow") and w and w[0] != "!":
                want = {("value", Int.src(64, VAL[w]))}
            got = {outcome(k, st) for k, st in outs}
            rep.check(got == want, "%s%s:%s" % (p[6:], n, s), "gives back what was put in", "%s: %s: %s gives %s, should give %s" % (RH, what, dict(ACC).get(n, n), sorted(map(str, got)), sorted(map(str, want))))
            balanced(rep, "%s%s:%s" % (p[6:], n, s), what, outs + th)
        for n in ("or", "orr"):
            outs, th = paths(p + n + "_" + s)
            got = {outcome(k, st) for k, st in outs}
            if void:
                want = want_access(w) if w and w[0] == "!" else {("value", None)}
            else:
                want = want_access(w) if w else {("value", VAL["d"])}
            rep.check(got == want, "%s%s:%s" % (p[6:], n, s), "the default stands in only for nothing", "%s: %s: value_or gives %s, should give %s" % (RH, what, sorted(map(str, got)), sorted(map(str, want))))
            if not void and n == "orr" and "std::move(*a)" in code and "(*b)" not in code.replace("move(*b)", ""):
                cp = [e for k, st in outs for e in st.events if e[0] == "vcopy" and not e[2]]
                rep.check(not cp, "moves:" + s, "the value of a holder given up is moved out", "%s: %s: std::move(h).value_or copies the value %s" % (RH, what, cp[:1]))
            if not void and n == "or":
                rep.check(all(objs.get(st, D) == VAL["d"] for k, st in outs), "default:" + s, "the default is left alone", "%s: value_or changes its argument" % RH)
            balanced(rep, "%s%s:%s" % (p[6:], n, s), what, outs + th)
        # encoding
        outs, th = paths(p + "save_" + s)
        both = s in ("vx", "xv", "xvl", "xvx", "swapvx")
        for k, st in outs:
            it = [(e[1], e[2]) for e in st.events if e[0] == "item"]
            v0 = it[0][1] if it else "nothing"
            if void:
                v0 = v0.value if isinstance(v0, Int) else v0
                okv = v0 == int(w == "v" or both)
            else:
                okv = v0 == (VAL["b" if s == "swapvx" else "a"] if both else VAL[w] if w and w[0] != "!" else None)
            ex = [x[1] for x in it[1:]]
            x1 = ex[0].value if ex and isinstance(ex[0], Int) else None
            exc = bool(w) and w[0] == "!"
            okx = x1 == int(exc) and ex[1:] == ([("type",), ("message",)] if exc else []) and [x[0] for x in it[1:2]] == ["bool"]
            an = [e[1] for e in st.events if e[0] == "analyze"]
            rep.check(k == "ret" and okv and okx and (not exc or set(an) == {EX if w == "!e" else FX}), "%ssave:%s" % (p[6:], s), "value, exception flag, and the exception's type and message if there is one", "%s: %s is encoded as %s" % (RH, what, it))
        rep.require(1, "paths of %ssave_%s" % (p, s), len(outs))
        # decoding over it
        for val in (None, ("decoded value",)):
            for exc in (0, 1):
                outs, th = paths(p + "load_" + s, (val, exc))
                for k, st in outs:
                    it = [e[1] for e in st.events if e[0] == "item"]
                    types = [it[0] if void else "optional" if it and it[0].startswith("std::optional") else "?"] + it[1:2]
                    rep.check(types == ["bool" if void else "optional", "bool"] and len(it) == (4 if exc else 2) and all("basic_string" in x for x in it[2:]), "%sload-order:%s%d%d" % (s, p[6:], bool(val), exc), "the items that were encoded, in order", "%s: decoding reads %s" % (RH, it))
                    te = [e[1:] for e in st.events if e[0] == "throw_error"]
                    rep.check(te == ([(("string", 2), ("string", 3))] if exc else []), "%sload-error:%s%d%d" % (p[6:], s, bool(val), exc), "the exception of the decoded type and message", "%s: decoding raises %s" % (RH, te))
                    m = [e[1].value for e in st.events if e[0] == "mark" and isinstance(e[1], Int)]
                    r = [e[1] for e in st.events if e[0] == "rethrow"]
                    got = ("rethrow", r[-1]) if r else ("throw", errs.thrown(st)[0]) if errs.thrown(st)[0] else ("value", [e[1] for e in st.events if e[0] == "sink"][-1:])
                    want = ("rethrow", CUR) if exc else ("value", [] if void else [val]) if val else ("throw", "arpc::errors::invalid_state")
                    rep.check(got == want and m[:1] == [int(bool(val) or bool(exc))], "%sload:%s%d%d" % (p[6:], s, bool(val), exc), "the decoded result replaces the old one", "%s: decoding %s%s over %s gives %s, should give %s" % (RH, "a value" if val else "no value", " and an exception" if exc else "", what, got, want))
                rep.require(1, "paths of %sload_%s" % (p, s), len(outs))
    par.each(rep, one, [(0, s) for s in STATES] + [(1, s) for s in VSTATES])
    rep.note("states", "%d ways of building a holder with a value type, %d of a void holder; 13 accessors, encoding and 4 decodings each" % (len(STATES), len(VSTATES)))
