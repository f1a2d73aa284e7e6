"""Futures and promises: one result, delivered once, to whoever waits."""
import re
import ir, absint, objs, errs, asyncs, par, queues
from absint import Int, Ptr, Sym, TOP, NULL, Throw, May, Agg, Nested
from channels import fmt, norm, tell, bits

W = "src/arpc/future.h"
SRC = r'''
#include "arpc/flag.h"
#include "arpc/future.h"
#include "arpc/future.cpp"
extern "C" { void mark(int); void got(long); }
struct V { long v; V(); V(long); V(const V&); V(V&&); V& operator=(const V&); V& operator=(V&&); ~V(); };
extern "C" { void gotv(const V&); }
struct X {}; struct Y {};
extern "C" void gotx(const X&);
using arpc::promise; using arpc::future;
using PV = promise<V>; using FV = future<V>; using PN = promise<void>; using FN = future<void>;
using RV = arpc::result_holder<V>;
#define MS(w) (w.timeout() / std::chrono::milliseconds(1))
'''
# name: (code, story); E is an exception of type X put in from outside
T = {
    "set": ("PV p; FV f = p.get_future(); mark(1); p.set_value(V(1)); mark(2); gotv(f.get()); mark(3);", "#1:0 #2:1 wait v1 #3:0"),
    "setl": ("PV p; FV f = p.get_future(); V v(1); p.set_value(v); gotv(v); gotv(f.get());", "v1 wait v1"),
    "maybe0": ("PV p; FV f = p.get_future(); f.maybe_get();", "throw try_again"),
    "maybe1": ("PV p; FV f = p.get_future(); p.set_value(V(1)); gotv(f.maybe_get()); mark(1);", "v1 #1:0"),
    "get0": ("PV p; FV f = p.get_future(); f.get();", "wait blocked"),
    "async": ("PV p; FV f = p.get_future(); auto w = f.async_get(); got(w.for_write()); got(MS(w)); p.set_value(V(1)); gotv(w.get_react_fn()());", "0 -1 v1"),
    "async0": ("PV p; FV f = p.get_future(); auto w = f.async_get(); w.get_react_fn()();", "throw try_again"),
    "can": ("PV p; FV f = p.get_future(); auto w = f.can_get(); got(w.for_write()); got(MS(w)); p.set_value(V(1)); w.get_react_fn()(); mark(1); gotv(f.maybe_get());", "0 -1 #1:1 v1"),
    "can0": ("PV p; FV f = p.get_future(); auto w = f.can_get(); w.get_react_fn()();", "throw try_again"),
    "exc": ("PV p; FV f = p.get_future(); p.set_exception(E); mark(1); f.get();", "#1:1 wait throw X"),
    "exc2": ("PV p; FV f = p.get_future(); p.set_exception(E); mark(1); f.maybe_get();", "#1:1 throw X"),
    "holder": ("PV p; FV f = p.get_future(); RV r; r.set_value(V(1)); p.set(std::move(r)); mark(1); gotv(f.get());", "#1:1 wait v1"),
    "holdere": ("PV p; FV f = p.get_future(); RV r; r.set_exception(E); p.set(std::move(r)); mark(1); f.get();", "#1:1 wait throw X"),
    "twice": ("PV p; FV f = p.get_future(); p.set_value(V(1)); p.set_value(V(2));", "throw invalid_state"),
    "twicee": ("PV p; FV f = p.get_future(); p.set_exception(E); p.set_value(V(2));", "throw invalid_state"),
    "twiceve": ("PV p; FV f = p.get_future(); p.set_value(V(1)); p.set_exception(E);", "throw invalid_state"),
    "twicer": ("PV p; FV f = p.get_future(); p.set_value(V(1)); p.set(RV());", "throw invalid_state"),
    "kept": ("PV p; FV f = p.get_future(); p.set_value(V(1)); try { p.set_value(V(2)); } catch (const arpc::errors::invalid_state&) { mark(9); } gotv(f.get());", "#9:1 wait v1"),
    "broken": ("FV f; { PV p; f = p.get_future(); } mark(1); f.get();", "#1:1 wait throw invalid_state"),
    "overw": ("PV p; FV f = p.get_future(); p = PV(); mark(1); f.get();", "#1:1 wait throw invalid_state"),
    "overw2": ("PV p; FV f = p.get_future(); PV q; FV g = q.get_future(); p = std::move(q); p.set_value(V(1)); gotv(g.get()); f.get();", "wait v1 wait throw invalid_state"),
    "moved": ("PV p; FV f = p.get_future(); PV q(std::move(p)); q.set_value(V(1)); gotv(f.get());", "wait v1"),
    "movedp": ("PV p; FV f = p.get_future(); PV q(std::move(p)); p.set_value(V(1));", "throw invalid_state"),
    "movedf": ("PV p; FV g = p.get_future(); FV f(std::move(g)); p.set_value(V(1)); gotv(f.get());", "wait v1"),
    "gonef": ("PV p; { FV f = p.get_future(); } p.set_value(V(1)); mark(1);", "#1:1"),
    "never": ("PV p; mark(1);", "#1:0"),
    "later": ("FV f; { PV p; f = p.get_future(); p.set_value(V(1)); } gotv(f.get());", "wait v1"),
    "empty": ("FV f; f.maybe_get();", "throw invalid_state"),
    "emptyg": ("FV f; f.get();", "throw invalid_state"),
    "emptyc": ("FV f; f.can_get();", "throw invalid_state"),
    "emptym": ("PV p; FV f = p.get_future(); FV g(std::move(f)); f.maybe_get();", "throw invalid_state"),
    "second": ("PV p; FV f = p.get_future(); FV g = p.get_future(); g.maybe_get();", "throw invalid_state"),
    "then": ("PV p; FV f = p.get_future().then([](V v) { gotv(v); return V(2); }); p.set_value(V(1)); gotv(f.get()); mark(1);", "wait v1 v2 #1:0"),
    "then0": ("PV p; FV f = p.get_future().then([](V v) { gotv(v); return V(2); }); f.maybe_get();", "throw try_again"),
    "thenx": ("PV p; FV f = p.get_future().then([](V v) { gotv(v); return V(2); }); p.set_exception(E); f.get();", "wait throw X"),
    "thent": ("PV p; FV f = p.get_future().then([](V v) -> V { gotv(v); throw Y(); }); p.set_value(V(1)); f.get();", "wait v1 throw Y"),
    "thenn": ("PV p; FN f = p.get_future().then([](V v) { gotv(v); }); p.set_value(V(1)); f.get(); mark(1);", "wait v1 #1:0"),
    "then2": ("PV p; FV f = p.get_future().then([](V v) { gotv(v); return V(2); }).then([](V v) { gotv(v); return V(3); }); p.set_value(V(1)); gotv(f.get());", "wait v1 v2 v3"),
    "thenold": ("PV p; FV f = p.get_future(); auto g = f.then([](V v) { return V(2); }); f.maybe_get();", "throw invalid_state"),
    "exc_h": ("PV p; FV f = p.get_future().except<X>([](const X&) { mark(8); return V(4); }); p.set_exception(E); gotv(f.get());", "wait #8:0 v4"),
    "exc_v": ("PV p; FV f = p.get_future().except<X>([](const X&) { mark(8); return V(4); }); p.set_value(V(1)); gotv(f.get());", "wait v1"),
    "exc_o": ("PV p; FV f = p.get_future().except<Y>([](const Y&) { mark(8); return V(4); }); p.set_exception(E); f.get();", "wait throw X"),
    "deco": ("PV p; FV f = p.get_future().decorate([](auto& fn, auto& s) { V v = fn(s); gotv(v); return V(5); }); p.set_value(V(1)); gotv(f.get());", "wait v1 v5"),
}
N = {
    "set": ("PN p; FN f = p.get_future(); mark(1); p.set_value(); mark(2); f.get(); mark(3);", "#1:0 #2:1 wait #3:0"),
    "maybe0": ("PN p; FN f = p.get_future(); f.maybe_get();", "throw try_again"),
    "maybe1": ("PN p; FN f = p.get_future(); p.set_value(); f.maybe_get(); mark(1);", "#1:0"),
    "get0": ("PN p; FN f = p.get_future(); f.get();", "wait blocked"),
    "async": ("PN p; FN f = p.get_future(); auto w = f.async_get(); got(w.for_write()); got(MS(w)); p.set_value(); w.get_react_fn()(); mark(1);", "0 -1 #1:0"),
    "async0": ("PN p; FN f = p.get_future(); auto w = f.async_get(); w.get_react_fn()();", "throw try_again"),
    "can": ("PN p; FN f = p.get_future(); auto w = f.can_get(); p.set_value(); w.get_react_fn()(); mark(1);", "#1:1"),
    "exc": ("PN p; FN f = p.get_future(); p.set_exception(E); mark(1); f.get();", "#1:1 wait throw X"),
    "twice": ("PN p; FN f = p.get_future(); p.set_value(); p.set_value();", "throw invalid_state"),
    "twicee": ("PN p; FN f = p.get_future(); p.set_exception(E); p.set_exception(E);", "throw invalid_state"),
    "broken": ("FN f; { PN p; f = p.get_future(); } mark(1); f.get();", "#1:1 wait throw invalid_state"),
    "overw": ("PN p; FN f = p.get_future(); p = PN(); mark(1); f.get();", "#1:1 wait throw invalid_state"),
    "moved": ("PN p; FN f = p.get_future(); PN q(std::move(p)); q.set_value(); f.get(); mark(1);", "wait #1:0"),
    "movedp": ("PN p; FN f = p.get_future(); PN q(std::move(p)); p.set_value();", "throw invalid_state"),
    "gonef": ("PN p; { FN f = p.get_future(); } p.set_value(); mark(1);", "#1:1"),
    "never": ("PN p; mark(1);", "#1:0"),
    "later": ("FN f; { PN p; f = p.get_future(); p.set_value(); } f.get(); mark(1);", "wait #1:0"),
    "empty": ("FN f; f.maybe_get();", "throw invalid_state"),
    "emptyg": ("FN f; f.get();", "throw invalid_state"),
    "then": ("PN p; FV f = p.get_future().then([]() { mark(7); return V(2); }); p.set_value(); gotv(f.get()); mark(1);", "wait #7:0 v2 #1:0"),
    "then0": ("PN p; FV f = p.get_future().then([]() { mark(7); return V(2); }); f.maybe_get();", "throw try_again"),
    "thenx": ("PN p; FV f = p.get_future().then([]() { mark(7); return V(2); }); p.set_exception(E); f.get();", "wait throw X"),
    "thenn": ("PN p; FN f = p.get_future().then([]() { mark(7); }); p.set_value(); f.get(); mark(1);", "wait #7:0 #1:0"),
    "exc_h": ("PN p; FN f = p.get_future().except<X>([](const X&) { mark(8); }); p.set_exception(E); f.get(); mark(1);", "wait #8:0 #1:0"),
    "exc_o": ("PN p; FN f = p.get_future().except<Y>([](const Y&) { mark(8); }); p.set_exception(E); f.get();", "wait throw X"),
    "deco": ("PN p; FN f = p.get_future().decorate([](auto& fn, auto& s) { mark(5); fn(s); mark(6); }); p.set_value(); f.get(); mark(1);", "wait #5:1 #6:0 #1:0"),
}
# accesses between mark(0) and mark(1) are made by one of two threads
SHARED = {
    "v": {"set": ("PV p; FV f = p.get_future(); mark(0); p.set_value(V(1)); mark(1);", 2), "exc": ("PV p; FV f = p.get_future(); mark(0); p.set_exception(E); mark(1);", 2),
          "holder": ("PV p; FV f = p.get_future(); RV r; r.set_value(V(1)); mark(0); p.set(std::move(r)); mark(1);", 2),
          "get": ("PV p; FV f = p.get_future(); p.set_value(V(1)); mark(0); f.maybe_get(); mark(1);", 1), "gete": ("PV p; FV f = p.get_future(); p.set_exception(E); mark(0); try { f.maybe_get(); } catch (const X&) {} mark(1);", 1),
          "get0": ("PV p; FV f = p.get_future(); mark(0); try { f.maybe_get(); } catch (const arpc::errors::try_again&) {} mark(1);", 1),
          "dropf": ("PV p; { FV f = p.get_future(); mark(0); } mark(1);", 1), "dropp": ("FV f; { PV p; f = p.get_future(); mark(0); } mark(1);", 2)},
    "n": {"set": ("PN p; FN f = p.get_future(); mark(0); p.set_value(); mark(1);", 2), "exc": ("PN p; FN f = p.get_future(); mark(0); p.set_exception(E); mark(1);", 2),
          "get": ("PN p; FN f = p.get_future(); p.set_value(); mark(0); f.maybe_get(); mark(1);", 1), "gete": ("PN p; FN f = p.get_future(); p.set_exception(E); mark(0); try { f.maybe_get(); } catch (const X&) {} mark(1);", 1),
          "get0": ("PN p; FN f = p.get_future(); mark(0); try { f.maybe_get(); } catch (const arpc::errors::try_again&) {} mark(1);", 1),
          "dropf": ("PN p; { FN f = p.get_future(); mark(0); } mark(1);", 1), "dropp": ("FN f; { PN p; f = p.get_future(); mark(0); } mark(1);", 2)},
}
POL = asyncs.POL + "keep ^V::\n"
POL = POL.replace("keep ^std::(rethrow_exception", "keep ^(std::__exception_ptr::exception_ptr )?std::make_exception_ptr\nkeep ^std::(rethrow_exception")
EXC = Ptr(("buf", "exception _ZTI1X"), 0)


def fmodel(ip, st, i, name, args):
    nm = re.sub(r" const$", "", name)
    if nm == "mark":
        n = fmt(args[0])
        fl = st.mem.get(("$flags",), {})
        st.events.append(("mark", n))
        if n != "0":
            st.events.append(("say", "#%s:%s" % (n, st.mem.get(("$last",), "0") if not fl else list(fl.values())[0])))
        return True, None
    if nm == "got":
        st.events.append(("say", fmt(args[0])))
        return True, None
    if nm in ("flag_set", "flag_get", "flag_fd"):
        if not isinstance(args[0], Ptr) or not isinstance(args[0].off, int):
            st.events.append(("say", "use of a state that is not there"))
            return True, "end"
        k = (args[0].obj, args[0].off)
        fl = dict(st.mem.get(("$flags",), {}))
        if nm == "flag_set":
            v = args[1].value
            fl[k] = 0 if v == 2 else v
            st.mem[("$flags",)] = fl
            if v != 2:
                recording(ip, st, args[0], 1, "w", "set")
            return True, None
        if nm == "flag_get":
            return True, Int.const(32, fl.get(k, 0))
        return True, bits("flag%s.%s" % k, 32, 0)
    if nm == "ready":
        st.events.append(("say", "wait"))
        who = fmt(args[0])
        fl = {"flag%s.%s" % k: v for k, v in st.mem.get(("$flags",), {}).items()}
        if fmt(args[1]) != "0" or fl.get(who) != 1:
            st.events.append(("say", "blocked"))
            return True, "end"
        return True, None
    if nm == "std::make_exception_ptr":
        m = re.match(r"_ZSt18make_exception_ptrI(.+?)E(?:NSt|St)", i.get("mangled", ""))
        ip.store(st, args[0], Ptr(("buf", "exception _ZTI" + (m.group(1) if m else "?")), 0), 8)
        return True, None
    m = re.match(r"V::(~?V|operator=)$", nm)
    if m:
        for a in args:
            recording(ip, st, a, 1, "w", nm)
        return queues.qmodel(ip, st, i, name, args)
    if nm == "gotv":
        return queues.qmodel(ip, st, i, name, args)
    return False, None


def recording(ip, st, p, size, rw, how):
    if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "new" and isinstance(p.off, int) and ("$state", p.obj) in st.mem:
        ms = [e[1] for e in st.events if e[0] == "mark"]
        if ms and ms[-1] == "0":
            ip.acc.append(("state", p.off, size, rw, frozenset(("state", o) for x, o in asyncs.held(st) if x == p.obj), how))


class Interp(asyncs.Interp):
    def note(self, st, p, size, rw, how):
        recording(self, st, p, size, rw, how)


def run(prog, fn):
    # the shared state is whatever heap object holds the flag
    def mo(ip, st, i, name, args):
        if name == "flag_set" and isinstance(args[0], Ptr) and args[1].value == 2:
            st.mem[("$state", args[0].obj)] = True
        return fmodel(ip, st, i, name, args)

    def init(ip, st):
        for k in range(1):
            st.env[("a", 0)] = Ptr(("buf", "E"), 0)
            ip.store(st, Ptr(("buf", "E"), 0), EXC, 8)
    f = asyncs.fn1(prog, fn)
    ip = Interp(f, asyncs.base_model(prog, mo), unwind=True, max_visits=12)
    ip.strs, ip.guard, ip.watch, ip.acc, ip.bases = errs.STRS, 1, (), [], prog.bases
    ip.run(init)
    return [(k, s) for k, s in ip.done if k != "unreachable"], ip


def story(k, st):
    if any(e[0] == "say" and e[1] == "blocked" for e in st.events):
        return norm(tell("ret", st))
    return norm(tell(k, st))


def c35(rep, tier):
    errs.STRS.clear()
    code, src = {}, ""
    for pre, tab in (("v", T), ("n", N)):
        for n, (c, w) in tab.items():
            code["probe_%s_%s" % (pre, n)] = (c, w)
    for pre, tab in SHARED.items():
        for n, (c, w) in tab.items():
            code["probe_s%s_%s" % (pre, n)] = (c, w)
    src = "".join("void %s(const std::exception_ptr& E) { %s }\n" % (n, c) for n, (c, w) in code.items())
    flags = ("-iquote" + ir.VERIF + "/stub/contract",) + asyncs.STUB
    prog = ir.extract([ir.compile_bc("futures.cpp", flags, SRC + src)], POL)

    def one(sub, n):
        c, want = code[n]
        outs, ip = run(prog, n)
        sub.require(1, "paths of " + n, len(outs))
        asyncs.locks_ok(sub, W, n, outs)
        if isinstance(want, str):
            got = {story(k, st) for k, st in outs}
            sub.check(got == {want}, n, "one result, delivered to the future", "%s: `%s`: %s; should be %s (#mark:ready)" % (W, c, " or ".join(sorted(got)), want))
        for k, st in outs:
            twice = [e for e in st.events if e[0] == "doublefree"]
            sub.check(not twice, "free:" + n, "shared state is freed once", "%s: `%s` frees the shared state twice" % (W, c))
            if k in ("ret", "throw"):
                left = {e[1].obj for e in st.events if e[0] == "new"} - {e[1].obj for e in st.events if e[0] == "delete" and isinstance(e[1], Ptr)}
                sub.check(not left, "leak:" + n, "shared state is freed", "%s: `%s` leaks %s" % (W, c, sorted(left)))
            late = late_use(st)
            sub.check(not late, "late:" + n, "nothing is used after it is freed", "%s: `%s` %s" % (W, c, late))
        return ip.acc
    par.each(rep, one, [n for n in code])
    for pre in ("v", "n"):
        acc = []
        for n, (c, most) in SHARED[pre].items():
            outs, ip = run(prog, "probe_s%s_%s" % (pre, n))
            acc += [(o, off, sz, rw, h, n + ": " + how) for o, off, sz, rw, h, how in ip.acc]
            for k, st in outs:
                on, cnt = False, 0
                for e in st.events:
                    if e[0] == "mark":
                        on = e[1] == "0"
                    if e[0] == "lock" and on and ("$state", e[1][0]) in st.mem:
                        cnt += 1
                rep.check(1 <= cnt <= most, "atomic:%s_%s" % (pre, n), "each step is one critical section", "%s: `%s`: between mark(0) and mark(1) the state is locked %d times, so others can come between deciding and acting" % (W, c, cnt))
        n = 0
        for (o, off), (w, l, ev) in sorted(asyncs.common(acc).items()):
            if w:
                n += 1
                rep.check(bool(l), "guard:%s%d" % (pre, off), "every access holds a common lock", "%s: byte %d of the shared state is accessed without a common lock: %s" % (W, off, sorted({"%s with %s" % (how, sorted(x[1] for x in h)) for rw, h, how in ev})))
        rep.require(4, "bytes shared between promise and future", n)


def late_use(st):
    gone = set()
    for e in st.events:
        if e[0] == "delete" and isinstance(e[1], Ptr):
            gone.add(e[1].obj)
        elif e[0] in ("lock", "unlock") and e[1][0] in gone:
            return "%ss the lock of the freed state" % e[0]
        elif e[0] == "call" and any(isinstance(a, Ptr) and a.obj in gone for a in e[2]):
            return "calls %s on the freed state" % e[1]
    return None
