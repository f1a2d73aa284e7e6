"""usage_lock: nothing is given up while it is in use."""
import re
import ir, absint, objs, errs
from absint import Int, Ptr, Sym, TOP, NULL, Throw, May, Agg, Nested
from packets import fn1
import asyncs, par

UH = "src/arpc/usage_lock.h"
SRC = r'''
#include <memory>
#include <new>
#include <utility>
#include "arpc/usage_lock.h"
struct T { long v; };
using arpc::usage_lock;
using L = usage_lock<T>;
using LE = usage_lock<T, arpc::errors::io_error>;
using SP = std::shared_ptr<T>;
extern "C" { void sink(const void*); void mark(int); }
void probe_arm(L* l, T* x) { l->arm(x); }
void probe_drop(L* l) { l->drop(); }
void probe_get(L* l, SP* r) { *r = l->get(); }
void probe_null(L* l, SP* r) { *r = l->get_or_null(); }
void probe_release(SP* r) { r->reset(); }
L* gl = nullptr; T* gy = nullptr;
void hook_arm() { gl->arm(gy); }
void hook_drop() { gl->drop(); }
void hook_get() { SP a = gl->get_or_null(); sink(a.get()); }
void hook_use() { { SP a = gl->get_or_null(); } gl->drop(); }
void probe_m_arm(T* x, T* y) { L l; gl = &l; gy = y; mark(0); l.arm(x); mark(1); sink(l.get_or_null().get()); l.drop(); mark(2); }
void probe_m_rearm(T* x, T* y) { L l(x); gl = &l; gy = y; mark(0); l.arm(x); mark(1); sink(l.get_or_null().get()); l.drop(); mark(2); }
void probe_m_drop(T* x, T* y) { L l(x); gl = &l; gy = y; mark(0); l.drop(); mark(1); sink(l.get_or_null().get()); l.drop(); mark(2); }
void probe_m_get(T* x, T* y) { L l(x); gl = &l; gy = y; mark(0); { SP a = l.get_or_null(); sink(a.get()); a.reset(); } mark(1); sink(l.get_or_null().get()); l.drop(); mark(2); }
void probe_last(L* l, T* x, T* y) { SP a; { l->arm(x); a = l->get(); l->arm(y); } mark(0); a.reset(); }
void probe_s_never(T* x, T* y, SP* r) { { L l("msg"); l.drop(); mark(1); l.drop(); mark(2); sink(l.get_or_null().get()); } mark(3); }
void probe_s_neverget(T* x, T* y, SP* r) { L l("msg"); l.get(); mark(1); }
void probe_s_nevergetE(T* x, T* y, SP* r) { LE l("msg"); l.get(); mark(1); }
void probe_s_idle(T* x, T* y, SP* r) { { L l(x, "msg"); sink(l.get().get()); sink(l.get_or_null().get()); l.drop(); mark(1); sink(l.get_or_null().get()); } mark(2); }
void probe_s_idlearm(T* x, T* y, SP* r) { { L l("msg"); l.arm(x); sink(l.get().get()); sink(l.get_or_null().get()); l.drop(); mark(1); sink(l.get_or_null().get()); } mark(2); }
void probe_s_dropget(T* x, T* y, SP* r) { L l(x, "msg"); l.drop(); l.get(); mark(1); }
void probe_s_dropgetE(T* x, T* y, SP* r) { LE l("msg"); l.arm(x); l.drop(); l.get(); mark(1); }
void probe_s_used(T* x, T* y, SP* r) { L l(x); *r = l.get(); l.drop(); mark(1); }
void probe_s_useddtor(T* x, T* y, SP* r) { { L l(x); *r = l.get(); } mark(1); }
void probe_s_usednull(T* x, T* y, SP* r) { L l(x); *r = l.get_or_null(); l.drop(); mark(1); }
void probe_s_copied(T* x, T* y, SP* r) { L l(x); { SP a = l.get(); *r = a; } l.drop(); mark(1); }
void probe_s_two(T* x, T* y, SP* r) { L l(x); SP a = l.get(); *r = l.get(); a.reset(); l.drop(); mark(1); }
void probe_s_done(T* x, T* y, SP* r) { L l(x); { SP a = l.get(); SP b = l.get_or_null(); SP c = b; } l.drop(); mark(1); }
void probe_s_again(T* x, T* y, SP* r) { L l(x); l.drop(); l.arm(y); sink(l.get().get()); *r = l.get(); mark(1); l.drop(); mark(2); }
void probe_s_rearm(T* x, T* y, SP* r) { L l(x); l.arm(y); sink(l.get().get()); mark(1); l.drop(); mark(2); sink(l.get_or_null().get()); }
void probe_s_rearmold(T* x, T* y, SP* r) { L l(x); *r = l.get(); l.arm(y); sink(l.get().get()); mark(1); l.drop(); mark(2); }
void probe_s_rearmnew(T* x, T* y, SP* r) { L l(x); SP a = l.get(); l.arm(y); *r = l.get(); a.reset(); mark(1); l.drop(); mark(2); }
void probe_s_rearmboth(T* x, T* y, SP* r) { L l(x); SP a = l.get(); l.arm(y); *r = l.get(); mark(1); l.drop(); mark(2); }
'''
PROBES = """
void probe_s_nomem(T* x, T* y, SP* r) { L l(x); nomem(1); try { l.arm(y); } catch (...) { mark(5); } nomem(0); sink(l.get_or_null().get()); l.drop(); mark(1); sink(l.get_or_null().get()); }
void probe_s_nomemfirst(T* x, T* y, SP* r) { { L l; nomem(1); try { l.arm(y); } catch (...) { mark(5); } nomem(0); sink(l.get_or_null().get()); l.drop(); mark(1); l.arm(x); sink(l.get().get()); } mark(2); }
"""
SRC = SRC.replace("void mark(int);", "void mark(int); void nomem(int);") + PROBES
X, Y, R, S = (Ptr(("buf", n), 0) for n in ("x", "y", "r", "self"))
# scenario -> what happens in order: marks, pointers seen, blocking, exceptions
WANT = {
    "never": ["1", "2", "null", "3"], "neverget": ["throw arpc::errors::unavailable msg"], "nevergetE": ["throw arpc::errors::io_error msg"],
    "idle": ["x", "x", "1", "null", "2"], "idlearm": ["x", "x", "1", "null", "2"],
    "dropget": ["throw arpc::errors::unavailable msg"], "dropgetE": ["throw arpc::errors::io_error msg"],
    "used": ["blocked", "1"], "useddtor": ["blocked", "1"], "usednull": ["blocked", "1"], "copied": ["blocked", "1"], "two": ["blocked", "1"], "done": ["1"], "nomem": ["5", "x", "1", "null"], "nomemfirst": ["5", "null", "1", "x", "2"],
    "again": ["y", "1", "blocked", "2"], "rearm": ["y", "1", "2", "null"], "rearmold": ["y", "1", "blocked", "2"], "rearmnew": ["1", "blocked", "2"], "rearmboth": ["1", "blocked", "never"],
}


def setup(ip, st):
    for k, p in enumerate((X, Y, R)):
        st.env[("a", k)] = p
    ip.store(st, R, NULL, 8)
    ip.store(st, Ptr(R.obj, 8), NULL, 8)


def story(k, st):
    out = []
    for e in st.events:
        if e[0] == "say":
            out.append(e[1])
    if k == "throw":
        t = errs.thrown(st)
        out.append("throw %s %s" % (t[0], t[1][1] if t[1] and t[1][0] == "lit" else t[1]))
    elif k != "ret":
        out.append(k)
    return out


def c23(rep, tier):
    errs.STRS.clear()
    prog = ir.extract([ir.compile_bc("usage.cpp", (), SRC)], asyncs.POL)
    release = fn1(prog, "probe_release")

    def extra(ip, st, i, name, args):
        if name == "mark":
            st.events.append(("say", str(args[0].value)))
            return True, None
        if name == "nomem":
            st.mem[("$nomem",)] = args[0].value
            return True, None
        if i.get("mangled") == "_Znwm" and st.mem.get(("$nomem",)):
            return True, Throw("std::bad_alloc")
        if name == "sink":
            p = args[0]
            st.events.append(("say", "null" if p == NULL else {X: "x", Y: "y"}.get(p, repr(p))))
            return True, None
        if name == "std::condition_variable::wait":
            h, r = asyncs.sync_model(ip, st, i, name, args)
            mu = [e for e in st.events if e[0] == "wait"][-1][2]
            st.events.append(("say", "blocked"))
            if ("$released",) in st.mem:
                st.events[-1] = ("say", "never")
                return True, "end"
            # meanwhile the user lets go of its reference (the lock is free then)
            st.mem[("$released",)] = True
            st.mem[asyncs.HELD] = frozenset(x for x in asyncs.held(st) if x != mu)
            st.mem[("$other",)] = asyncs.held(st)
            st.mem[asyncs.HELD] = frozenset()
            n = len(st.events)
            outs = ip.call(st, release, [R])
            if len(outs) != 1:
                raise ir.AnalysisError("releasing a reference branches")
            k, s2 = outs[0]
            ev = s2.events[n:]
            s2.events = [e for e in s2.events if e[0] != "ret"]
            s2.events.append(("letgo", [e for e in ev if e[0] in ("notify",)], any(e[0] in ("relock", "badunlock") for e in ev) or bool(asyncs.held(s2))))
            s2.mem[asyncs.HELD] = s2.mem[("$other",)] | {mu}
            st.__dict__.update(s2.__dict__) if hasattr(st, "__dict__") else None
            for a in ("env", "mem", "events", "decisions", "fresh", "visits", "notzero", "facts", "zeroed", "oned", "exc"):
                setattr(st, a, getattr(s2, a))
            return True, None
        return False, None

    for s, want in WANT.items():
        outs, ip = asyncs.explore(prog, "probe_s_" + s, setup, extra)
        rep.require(1, "paths of scenario " + s, len(outs))
        asyncs.locks_ok(rep, UH, s, outs)
        for k, st in outs:
            got = story(k if k != "end" else "ret", st)
            if any(e[0] == "say" and e[1] == "never" for e in st.events):
                got = got[:got.index("never") + 1]
            rep.check(got == want, "story:" + s, "the pointer is given up only when unused", "%s: `%s`: %s, should be %s" % (UH, re.search(r"probe_s_%s\(.*?\) (.*)" % s, SRC).group(1), got, want))
            for e in st.events:
                if e[0] == "letgo":
                    waits = [x for x in st.events if x[0] == "wait"]
                    ok = s == "rearmboth" or any(n[1] == waits[0][1] and waits[0][2] in n[2] for n in e[1])
                    rep.check(ok and not e[2], "notify:" + s, "the last user wakes the waiter, holding its lock", "%s: releasing the last reference %s" % (UH, "leaves the locks unbalanced" if e[2] else "does not notify the waiter" if not any(n[1] == waits[0][1] for n in e[1]) else "notifies after giving up the lock: the waiter may be gone by then"))
            gone = [e for e in st.events if e[0] == "doublefree"]
            rep.check(not gone, "free:" + s, "bookkeeping is freed once", "%s: scenario %s frees its bookkeeping twice" % (UH, s))
            if k == "ret":
                left = {e[1].obj for e in st.events if e[0] == "new"} - {e[1].obj for e in st.events if e[0] == "delete" and isinstance(e[1], Ptr)}
                rep.check(not left, "leak:" + s, "bookkeeping is freed", "%s: scenario %s leaks its bookkeeping" % (UH, s))

    # two operations at once: whatever the other one does, whenever it can run,
    # nothing is blocked, lost or freed twice
    glb = lambda x: Ptr(("g", x), 0)
    pairs = [(m, h) for m in ("arm", "rearm", "drop", "get") for h in ("arm", "drop", "get", "use")]

    def two(ip, st):
        setup(ip, st)
        ip.store(st, glb("gl"), NULL, 8)
        ip.store(st, glb("gy"), NULL, 8)

    def ends(ip, st, i, name, args):
        if name == "std::condition_variable::wait":
            asyncs.sync_model(ip, st, i, name, args)
            st.events.append(("say", "blocked"))
            return True, "end"
        if name == "mark":
            st.events.append(("mark", args[0].value))
        return extra(ip, st, i, name, args)

    def pair(sub, it):
        m, h = it
        key = "%s+%s" % it
        n = 0
        for at, outs in asyncs.meanwhile(prog, "probe_m_" + m, "hook_" + h, two, ends):
            asyncs.locks_ok(sub, UH, key, outs)
            for k, st in outs:
                n += 1
                got = story(k if k != "end" else "ret", st)
                tail = got[got.index("1"):] if "1" in got else ["nothing"]
                fine = {("arm", "arm"): "xy", ("rearm", "arm"): "xy", ("drop", "arm"): ("y", "null"), ("get", "arm"): "y",
                        ("arm", "get"): "x", ("rearm", "get"): "x", ("drop", "get"): ("null",), ("get", "get"): "x", ("drop", "drop"): ("null",), ("drop", "use"): ("null",), ("get", "drop"): ("null",), ("get", "use"): ("null",)}.get(it, ("x", "null"))
                ok = k == "ret" and "blocked" not in got and len(tail) == 3 and tail[1] in fine and tail[2] == "2"
                sub.check(ok, "both:" + key, "two operations at once", "%s: %s while another thread is in %s, at point %d: %s" % (UH, m, h, at, k + " " + " ".join(got)))
                sub.check(not any(e[0] == "doublefree" for e in st.events), "bothfree:" + key, "bookkeeping is freed once", "%s: %s while another thread is in %s frees bookkeeping twice" % (UH, m, h))
                left = {e[1].obj for e in st.events if e[0] == "new"} - {e[1].obj for e in st.events if e[0] == "delete" and isinstance(e[1], Ptr)}
                sub.check(k != "ret" or not left, "bothleak:" + key, "bookkeeping is freed", "%s: %s while another thread is in %s leaks bookkeeping" % (UH, m, h))
        sub.require(1, "points of " + key, n)
    par.each(rep, pair, pairs)

    # any interleaving: everything the methods share is under one lock
    acc = []
    for m, args in (("arm", [S, X]), ("drop", [S]), ("get", [S, R]), ("null", [S, R]), ("last", [S, X, Y])):
        def init(ip, st, args=args):
            for k, a in enumerate(args):
                st.env[("a", k)] = a
            ip.store(st, R, NULL, 8)
            ip.store(st, Ptr(R.obj, 8), NULL, 8)

        def ex(ip, st, i, name, args):
            if name == "std::condition_variable::wait":
                asyncs.sync_model(ip, st, i, name, args)
                return True, "end"
            return False, None
        outs, ip = asyncs.explore(prog, "probe_" + m, init, ex, watch=(S.obj,))
        asyncs.locks_ok(rep, UH, m, outs)
        rep.require(1, "paths of " + m, len(outs))
        acc += [(o, off, sz, rw, h, m + ": " + how) for o, off, sz, rw, h, how in ip.acc]
    n = 0
    for (o, off), (w, l, ev) in sorted(asyncs.common(acc).items()):
        if w:
            n += 1
            rep.check(bool(l), "guard:%d" % off, "every access holds a common lock", "%s: byte %d of a usage_lock is shared without a common lock: %s" % (UH, off, sorted({"%s with %s" % (how, sorted(x[1] for x in h)) for rw, h, how in ev})))
    rep.require(8, "bytes shared between methods", n)
