"""Error classes: registration, re-throwing by name, analysis, I/O codes."""
import re
import ir, absint, objs
from absint import Int, Ptr, Sym, TOP, NULL, May, Throw, tiname, Agg
from serial import POL
from packets import fn1

FLATKEEP = "keep ^arpc::(detail::)?flat_(tree|map|set|multimap|multiset)::\n"
EPOL = POL.replace("inline ^arpc::\n", FLATKEEP + "inline ^arpc::\n", 1).replace("entry ^probe_\n", "entry ^probe_\nentry ^__cxx_global_var_init\nentry portable_error_class_name_internal$\nmentry register_error_class\n") + \
    "inline ^std::(pair::|basic_string_view::|make_pair|tuple|get|forward_as_tuple|__exception_ptr::exception_ptr::operator bool|string_view)\ninline ^std::__exception_ptr::(exception_ptr::)?operator(==|!=| bool)\n"

CLASSES = "unknown_error cancelled data_mismatch deadline_exceeded eof internal_error invalid_argument invalid_state io_error not_implemented not_found out_of_range shutting_down unavailable try_again".split()
SRC = r'''
#include "arpc/errors.cpp"
''' + "".join("void use_%s() { throw arpc::errors::%s(\"x\"); }\n" % (c, c) for c in CLASSES) + r'''
using EF = arpc::error_factory;
struct probe_err : public arpc::errors::base_error { using base_error::base_error; std::string_view portable_error_class_name_internal() const override { return "?"; } };
void probe_throw(std::string_view n, const char* w) { EF::get().throw_error(n, w); }
void probe_reg(std::string_view n, std::string_view* out) { *out = EF::get().register_error_class<probe_err>(n); }
void probe_analyze(std::pair<std::string, std::string>* out, std::exception_ptr e) { new (out) std::pair<std::string, std::string>(EF::analyze_exception(e)); }
void probe_analyze_null(std::pair<std::string, std::string>* out) { new (out) std::pair<std::string, std::string>(EF::analyze_exception(std::exception_ptr{})); }
void probe_io(const std::string& m, int code) { arpc::throw_io_error(m, code); }
void probe_ioerrno(const std::string& m) { arpc::throw_io_error(m); }
void probe_codeerrno(const std::string& m) { arpc::throw_with_errno<arpc::errors::eof>(m); }
void probe_code(const std::string& m, int code) { arpc::throw_with_code<arpc::errors::io_error>(m, code); }
'''

MAPOPS = r"arpc::(?:detail::)?flat_(?:tree|map|set|multimap|multiset)::"


def map_model(present, greater=False):
    """One lookup table: `present` says whether the key asked for is in it, `greater` whether a greater one is."""
    def key(interp, st, tok):
        """The element under the key `tok`; values that are not set yet stay symbolic."""
        objs.store_sv(interp, st, Ptr(("iter", "elem"), 0), tok)
        return Ptr(("iter", "elem"), 0)

    def other(interp, st):
        if not greater:
            return Ptr(("iter", "end"), 0)
        objs.store_sv(interp, st, Ptr(("iter", "other"), 0), ("otherkey",))
        return Ptr(("iter", "other"), 0)

    def mo(interp, st, i, name, args):
        nm = re.sub(r" const$", "", name)
        m = re.match(MAPOPS + r"(.+)$", nm) or re.match(r"std::vector::(c?begin|c?end|size|empty)$", nm)
        if not m:
            return False, None
        op = m.group(1)
        a = args[1:] if i.get("sret") else args
        if op in ("find", "lower_bound", "upper_bound", "count", "contains", "at"):
            k = objs.load_sv(interp, st, a[1])
            st.events.append(("lookup", op, k, a[0], i["i"]))
            if op == "find":
                return True, key(interp, st, k) if present else Ptr(("iter", "end"), 0)
            if op == "lower_bound":
                return True, key(interp, st, k) if present else other(interp, st)
            if op == "upper_bound":
                return True, other(interp, st)
            if op == "count":
                return True, Int.const(64, int(present))
            if op == "contains":
                return True, Int.const(1, int(present))
            if not present:
                return True, Throw("_ZTISt12out_of_range")
            return True, Ptr(("iter", "elem"), 16)
        if op in ("end", "cend"):
            return True, Ptr(("iter", "end"), 0)
        if op in ("emplace", "try_emplace", "insert", "insert_or_assign"):
            ps = objs.params(i.get("dem", ""))
            vals = []
            for p, t in zip(a[1:], ps):
                if not isinstance(p, Ptr):
                    vals.append(("v", p))
                elif t.startswith("std::basic_string_view"):
                    vals.append(objs.load_sv(interp, st, p))
                elif t.startswith("std::pair<std::basic_string_view"):
                    vals.append(objs.load_sv(interp, st, p))
                    vals.append(interp.load(st, Ptr(p.obj, p.off + 16), 8, "ptr"))
                elif t.startswith("std::pair<"):
                    vals.append(objs.load_sv(interp, st, p))
                    vals.append(interp.load(st, Ptr(p.obj, p.off + 16), 8, "ptr"))
                else:
                    vals.append(interp.load(st, p, 8, "ptr"))
                    vals.append(("obj", p))
            st.events.append(("emplace", op, vals, a[0], i["i"]))
            if present and op == "insert_or_assign":
                st.events.append(("overwrite", op, vals[0], a[0], i["i"]))
            key(interp, st, vals[0])
            r = Agg({0: Ptr(("iter", "elem"), 0), 1: Int.const(8, int(not present)) if True else None})
            if i.get("sret"):
                interp.store(st, args[0], Ptr(("iter", "elem"), 0), 8)
                interp.store(st, Ptr(args[0].obj, args[0].off + 8), Int.const(8, int(not present)), 1)
                return True, None
            return True, r
        if op in ("operator[]",):
            k = objs.load_sv(interp, st, a[1])
            if present:
                st.events.append(("overwrite", op, k, a[0], i["i"]))
                return True, Ptr(key(interp, st, k).obj, 16)
            st.fresh += 1
            at = Ptr(("slot", st.fresh), 0)
            st.events.append(("emplace", op, [k, ("slot", at)], a[0], i["i"]))
            return True, at
        if op in ("size",):
            return True, Int.src(64, ("mapsize", 0))
        if op in ("begin", "cbegin"):
            return True, Ptr(("iter", "begin"), 0)
        if op.startswith("~") or op.startswith("flat_"):
            return True, None
        raise ir.AnalysisError("%s is outside the registry model at %s" % (name, interp.fn.where(i["i"])))
    return mo


def chain(*ms):
    def mo(interp, st, i, name, args):
        for m in ms:
            h, r = m(interp, st, i, name, args)
            if h:
                return r
        if name in ("memcmp", "__builtin_memcmp", "bcmp") or re.search(r"char_traits<?.*>?::compare$", name):
            x, y = args[0], args[1]
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj[0] == y.obj[0] == "tokdata" and x.off == y.off == 0:
                return Int.const(32, int(x.obj != y.obj))
        if name in ("std::operator==", "std::operator!=") and len(args) == 4 and "basic_string_view" in i.get("dem", ""):
            x, y = objs.sv_tok(interp, args[0], args[1]), objs.sv_tok(interp, args[2], args[3])
            return Int.const(1, int((x == y) == name.endswith("=="))) if x[0] != "?" and y[0] != "?" else None
        if name == "__errno_location":
            return Ptr(("errno", 0), 0)
        if name == "__cxa_guard_acquire":
            return Int.const(32, int(interp.guard == 0))
        if name == "strlen" and isinstance(args[0], Ptr):
            t = objs.cstr_tok(interp, args[0])
            return objs.clen(t)
        if name == "operator new":
            st.fresh += 1
            return Ptr(("new", st.fresh), 0)
        if name in ("std::__throw_bad_optional_access", "abort"):
            return None
        st.events.append(("call", name, i["i"]))
        if name.startswith("arpc::"):
            raise ir.AnalysisError("call to %s was neither inlined nor modelled" % name)
        for a in args:
            if isinstance(a, Ptr) and isinstance(a.obj, tuple) and a.obj[0] == "alloca":
                interp.havoc(st, a, name)
        return None
    return mo


SV = Ptr(("tokdata", ("name",)), 0)


STRS = {}
EXO = Ptr(("buf", "exception"), 0)


def go(fn, model, setup, bases=None, guard=1):
    ip = absint.Interp(fn, model, unwind=True, max_visits=40)
    ip.guard = guard
    ip.strs = STRS
    if bases:
        ip.bases = bases
    out = [(k, s) for k, s in ip.run(setup) if not (k == "unreachable" and not any(e[0] == "throw" for e in s.events))]
    for k, s in out:
        for n, e in enumerate(s.events):
            if e[0] == "emplace" and len(e[2]) == 2 and isinstance(e[2][1], tuple) and e[2][1][0] == "slot":
                at = e[2][1][1]
                s.events[n] = (e[0], e[1], [e[2][0], ip.load(s, at, 8, "ptr"), ("obj", at)]) + e[3:]
    return ip, out


def thrown(st):
    e = [e for e in st.events if e[0] == "throw"]
    return (e[-1][1], e[-1][2]) if e else (None, None)


def c17(rep, tier):
    STRS.clear()
    prog = ir.extract([ir.compile_bc("errs.cpp", (), SRC)], EPOL)
    sm, em = objs.string_model, objs.exc_model

    def argsv(ip, st, n=0):
        st.env[("a", n)] = objs.clen(("name",))
        st.env[("a", n + 1)] = SV

    # 1. the classes and their initialisers
    names = [f for f in prog.functions if f.name.endswith("::portable_error_class_name_internal") and f.name.startswith("arpc::errors::")]
    rep.require(15, "error classes", len(names))
    inits = [f for f in prog.functions if f.name.startswith("__cxx_global_var_init")]
    glob = {}
    regs = []
    for f in inits:
        ip, outs = go(f, chain(map_model(False), sm, em), lambda ip, st: None, guard=0)
        for k, st in outs:
            for e in st.events:
                if e[0] == "emplace":
                    regs.append((e[2][0], e[2][1], f))
            if k == "ret":
                for kk, v in st.mem.items():
                    if isinstance(kk[0], tuple) and kk[0][0] == "g" and not kk[0][1].startswith("_ZGV"):
                        glob[kk] = v
    seen = {}
    for f in sorted(names, key=lambda f: f.name):
        cls = f.name.rsplit("::", 1)[0]
        ip, outs = go(f, chain(map_model(False), sm, em), lambda ip, st: st.mem.update(glob))
        toks = set()
        for k, st in outs:
            r = [e for e in st.events if e[0] == "ret"]
            v = r[-1][1] if r else None
            toks.add(objs.sv_tok(ip, v.f[0], v.f[1]) if isinstance(v, Agg) and k == "ret" else ("?", k))
        tok = next(iter(toks)) if len(toks) == 1 else ("?", "several")
        own = [r for r in regs if r[0] == tok]
        if not rep.check(tok[0] == "lit" and len(own) == 1, "name:" + cls, "name %r registered once" % (tok[1],),
                         "%s reports the name %s, under which %d error classes are registered at start-up (expected one)" % (cls, tok, len(own))):
            continue
        rep.check(tok not in seen, "unique:" + cls, "unique", "%s and %s share the name %s" % (cls, seen.get(tok), tok))
        seen[tok] = cls
        tf = own[0][1]
        g = prog.by_mangled.get(tf.obj[1]) if isinstance(tf, Ptr) and isinstance(tf.obj, tuple) and tf.obj[0] == "g" else None
        if g is None:
            raise ir.AnalysisError("the function registered for %s is unknown" % cls)
        ip, outs = go(g, chain(map_model(False), sm, em), lambda ip, st: st.env.__setitem__(("a", len(ip.fn.params) - 1), objs.cdata(("what",))))
        ok = outs and all(thrown(st) == (cls, ("what",)) for k, st in outs)
        rep.check(ok, "thrower:" + cls, "throws %s with the given text" % cls,
                  "the function registered for %s throws %s; %s" % (tok[1], [thrown(st) for k, st in outs], g.name))
    rep.check(len(regs) == len(names), "registrations", "%d" % len(regs), "%d registrations for %d error classes" % (len(regs), len(names)))

    # 2. registration
    fn = fn1(prog, "probe_reg")
    for present in (False, True):
        ip, outs = go(fn, chain(map_model(present), sm, em), lambda ip, st: (argsv(ip, st), st.env.__setitem__(("a", 2), Ptr(("out", 0), 0))))
        for k, st in outs:
            ev = [e for e in st.events if e[0] in ("emplace", "lookup")]
            if present:
                rep.check(thrown(st)[0] == "arpc::errors::invalid_state" and k != "ret" and not any(e[0] == "overwrite" for e in st.events), "register:dup", "invalid_state, the first entry stays", "registering a second class under one name ends with %s instead of throwing invalid_state; %s" % (thrown(st)[0] or k, fn.name))
            else:
                em_ = [e for e in ev if e[0] == "emplace"]
                ok = k == "ret" and len(em_) == 1 and em_[0][2][0] == ("name",) and objs.load_sv(ip, st, Ptr(("out", 0), 0)) == ("name",)
                rep.check(ok, "register:new", "registered under the given name, which is returned", "registering a class under a new name ends with %s, entries %s; %s" % (thrown(st)[0] or k, [e[2][:1] for e in em_], fn.name))
        if not outs:
            rep.bad("register", "register_error_class never completes")

    # 3. throw_error
    fn = fn1(prog, "probe_throw")
    tgt = ("thrower", 0)

    def ind(ip, st, i, n, a):
        if n == "?" and "icallee" in i:
            st.events.append(("throw", "registered:" + repr(ip.target), objs.cstr_tok(ip, a[0]), i["i"]))
            return True, Throw("registered")
        return False, None
    for present, greater in ((False, False), (False, True), (True, False)):
        def su(ip, st):
            argsv(ip, st)
            st.env[("a", 2)] = objs.cdata(("what",))
            for k in range(8):
                st.mem[(("iter", "elem"), 16 + k)] = ("v", Ptr(tgt, 0), k)
        ip, outs = go(fn, chain(ind, map_model(present, greater), sm, em), su)
        want = ("registered:" + repr(Ptr(tgt, 0)), ("what",)) if present else ("arpc::errors::unknown_error", ("what",))
        for k, st in outs:
            lk = [e for e in st.events if e[0] == "lookup"]
            rep.check(k != "ret" and thrown(st) == want and lk and not any(e[0] in ("emplace", "overwrite") for e in st.events) and all(e[2] == ("name",) for e in lk), "throw:%s" % ("known" if present else "unknown"), "throws %s with the given text" % want[0],
                      "throw_error for %s name throws %s (looked up %s), expected %s; %s" % ("a registered" if present else "an unknown", thrown(st), [e[2] for e in lk], want, fn.name))
        if not outs:
            rep.bad("throw", "throw_error never completes")

    # 4. analyze_exception
    fn = fn1(prog, "probe_analyze")
    BE, SE = "_ZTIN4arpc6errors10base_errorE", "_ZTISt9exception"
    B = {"_ZTIN4arpc6errors3eofE": ("_ZTIN4arpc6errors3eofE", BE, "_ZTISt13runtime_error", SE), "_ZTISt11logic_error": ("_ZTISt11logic_error", SE), "_ZTIi": ("_ZTIi",)}
    for ti, want in (("_ZTIN4arpc6errors3eofE", (("ename",), ("ewhat",))), ("_ZTISt11logic_error", (("empty",), ("ewhat",))), ("_ZTIi", (("empty",), ("empty",))), (None, (("empty",), ("empty",)))):
        def am(ip, st, i, n, a):
            if n in ("std::rethrow_exception",):
                if ti is None:
                    st.events.append(("throw", "a null exception", None, i["i"]))
                    return True, Throw("_ZTIi")
                return True, Throw(ti)
            if n == "__cxa_begin_catch":
                return True, EXO
            vf = ip.target.obj if n == "?" and isinstance(ip.target, Ptr) else None
            if n.endswith("portable_error_class_name_internal") or vf == ("fn", "name"):
                if ti != "_ZTIN4arpc6errors3eofE":
                    st.events.append(("throw", "a call through a bad vtable", None, i["i"]))
                return True, Agg({0: objs.clen(("ename",)), 1: objs.cdata(("ename",))})
            if re.search(r"(exception|runtime_error|base_error)::what$", n.replace(" const", "")) or vf == ("fn", "what"):
                return True, objs.cdata(("ewhat",))
            if "exception_ptr" in n:
                b = n.split("::")[-1]
                if b == "exception_ptr":
                    v = ip.load(st, a[1], 8, "ptr") if len(a) > 1 and isinstance(a[1], Ptr) and a[1].obj != "null" else NULL
                    if len(a) > 1 and "exception_ptr(std::__exception_ptr::exception_ptr&&)" in i.get("dem", ""):
                        ip.store(st, a[1], NULL, 8)
                    ip.store(st, a[0], v, 8)
                    return True, None
                if b == "operator bool":
                    return True, Int.const(1, 1)
                if b in ("operator==", "operator!="):
                    return True, Int.const(1, int(b == "operator!="))
                return True, None
            if n == "std::terminate":
                st.events.append(("throw", "std::terminate", None, i["i"]))
                return True, None
            return False, None

        def su(ip, st):
            st.env[("a", 0)] = Ptr(("out", 0), 0)
            st.env[("a", 1)] = Ptr(("eptr", 0), 0)
            ip.store(st, Ptr(("eptr", 0), 0), EXO if ti else NULL, 8)
            ip.store(st, EXO, Ptr(("buf", "vtable"), 0), 8)
            ip.store(st, Ptr(("buf", "vtable"), 16), Ptr(("fn", "what"), 0), 8)
            ip.store(st, Ptr(("buf", "vtable"), 24), Ptr(("fn", "name"), 0), 8)
        ip, outs = go(fn, chain(am, sm, em), su, B)
        key = "analyze:" + (tiname(ti) if ti else "null")
        for k, st in outs:
            got = tuple({("lit", ""): ("empty",)}.get(t, t) for t in (objs.get(st, Ptr(("out", 0), 0)), objs.get(st, Ptr(("out", 0), 32))))
            rep.check(k == "ret" and got == want and not any(e[0] == "throw" for e in st.events), key, "(%s, %s)" % want, "analyze_exception of %s gives %s (%s), expected (name, text) = %s; %s" % (
                {"_ZTIN4arpc6errors3eofE": "an arpc error", "_ZTISt11logic_error": "another std::exception", "_ZTIi": "an int", None: "no exception"}[ti], got, k, want, fn.name))
        if not outs:
            rep.bad(key, "analyze_exception never completes")

    # 5. I/O codes
    import errno
    quiet = {errno.EINPROGRESS, errno.EALREADY, errno.EISCONN}
    again = {errno.EAGAIN, errno.EWOULDBLOCK}
    M = ("message",)
    for pn in ("probe_io", "probe_ioerrno"):
        fn = fn1(prog, pn)
        for code in list(range(1, 140)) + [-1, 1 << 30]:
            def su(ip, st):
                st.env[("a", 0)] = Ptr(("msg", 0), 0)
                objs.put(st, Ptr(("msg", 0), 0), M)
                v = Int.const(32, code & 0xffffffff)
                st.env[("a", 1)] = v
                ip.store(st, Ptr(("errno", 0), 0), v, 4)
            ip, outs = go(fn, chain(sm, em), su)
            for k, st in outs:
                t, w = thrown(st)
                if code in quiet:
                    ok, exp = k == "ret", "to return"
                elif code in again:
                    ok, exp = t == "arpc::errors::try_again" and k != "ret", "try_again"
                else:
                    ok = k != "ret" and t == "arpc::errors::io_error" and w == objs.cat(objs.cat(M, ("lit", ": ")), ("num", repr(Int.const(32, code & 0xffffffff)), "int"))
                    exp = "io_error with the message and the code"
                rep.check(ok, "%s:%d" % (pn, code), exp, "throw_io_error with code %d: %s %s, expected %s; %s" % (code, k if not t else t, w or "", exp, fn.name))
            if not outs:
                rep.bad("%s:%d" % (pn, code), "throw_io_error never completes for code %d" % code)
    for pn, cls, T in (("probe_code", "io_error", "throw_with_code"), ("probe_codeerrno", "eof", "throw_with_errno")):
        fn = fn1(prog, pn)
        for code in (0, 5, (1 << 32) - 1):
            def su(ip, st):
                st.env[("a", 0)] = Ptr(("msg", 0), 0)
                objs.put(st, Ptr(("msg", 0), 0), M)
                st.env[("a", 1)] = Int.const(32, code)
                ip.store(st, Ptr(("errno", 0), 0), Int.const(32, code), 4)
            ip, outs = go(fn, chain(sm, em), su)
            for k, st in outs:
                t, w = thrown(st)
                rep.check(k != "ret" and t == "arpc::errors::" + cls and w == objs.cat(objs.cat(M, ("lit", ": ")), ("num", repr(Int.const(32, code)), "int")),
                          "%s:%d" % (pn[6:], code), "the requested class with the message and the code", "%s<%s> with code %d throws %s %s; %s" % (T, cls, code, t or k, w, fn.name))
            if not outs:
                rep.bad("%s:%d" % (pn[6:], code), T + " never completes")
