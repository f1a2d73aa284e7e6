"""Executors: every function given to one runs once, on some worker, in turn."""
import re
import ir, absint, objs, errs, asyncs, par, futures
from absint import Int, Ptr, Sym, TOP, NULL, Throw, May, Agg, Nested
from packets import fn1
from channels import fmt, norm, tell

W = "src/arpc/executor"
SRC = r'''
#include "arpc/executor.h"
#include "arpc/future.cpp"
#include "arpc/executor.cpp"
int verif_threads = 0;
void (*verif_run[4])(void*) = {};
void* verif_arg[4] = {};
extern "C" { void mark(int); void got(long); void work(int); void awake(int); void on(int); void cancel_me(); }
struct V { long v; V(); V(long); V(const V&); V(V&&); V& operator=(const V&); V& operator=(V&&); ~V(); };
extern "C" void gotv(const V&);
struct X {};
using arpc::thread_pool;
static thread_pool* P;
// a worker goes on until it finds nothing to do and nobody else does anything
static void go(int n) { on(n); verif_run[n](verif_arg[n]); }
#define POOL(...) auto& p = *new thread_pool(__VA_ARGS__); P = &p;
#define J(n) []() { got(n); }
struct K { V v; K(const V& x) : v(x) {} void operator()() { gotv(v); } };
'''
# name: (steps, story). While a thread waits, the next step happens on another
# one. "w0": worker 0 has nothing to do; "wait": somebody who is no worker waits.
T = {
    "idle": (["POOL(1) go(0);", "P->run(J(1)); mark(1);"], "w0 #1 1 w0"),
    "idle2": (["POOL(2) work(0); go(1);", "P->run(J(1)); P->run(J(2)); mark(1); awake(0);"], "w0 w1 #1 awake 2 w1"),
    "fifo": (["POOL(1) p.run(J(1)); p.run(J(2)); p.run(J(3)); mark(1); go(0);"], "#1 1 2 3 w0"),
    "mixed": (["POOL(1) p.run(J(1)); go(0);", "P->run(J(2)); P->run(J(3)); P->run(J(4));"], "1 w0 2 3 4 w0"),
    "full": (["POOL(1, 2) p.run(J(1)); p.run(J(2)); mark(1); p.run(J(3)); mark(2); awake(0);", "work(0);"], "#1 wait 1 2 w0 #2 awake"),
    "full1": (["POOL(2, 1) p.run(J(1)); mark(1); p.run(J(3)); mark(2); awake(0);", "work(0);"], "#1 wait 1 w0 #2 awake"),
    "size0": (["POOL(2, 0) p.run(J(1)); p.run(J(2)); mark(1); p.run(J(3)); mark(2);"], "#1 wait stuck"),
    "endless": (["POOL(1) for (int k = 0; k < 6; k++) p.run(J(1)); mark(1); go(0);"], "#1 1 1 1 1 1 1 w0"),
    "endless2": (["POOL(1, -1) for (int k = 0; k < 6; k++) p.run(J(1)); mark(1);"], "#1"),
    "throws": (["POOL(1) p.run([]() { got(1); throw X(); }); p.run(J(2)); go(0);", "P->run([]() { throw X(); }); P->run(J(3));"], "1 2 w0 3 w0"),
    "throwsc": (["POOL(1) p.run([]() { got(1); throw arpc::errors::cancelled(\"c\"); }); p.run([]() { got(2); throw arpc::errors::try_again(\"t\"); }); p.run(J(3)); go(0);"], "1 2 3 w0"),
    "inside": (["POOL(1) p.run([]() { got(1); P->run([]() { got(3); }); got(2); }); go(0);"], "1 2 3 w0"),
    "value": (["POOL(1) K k{V(1)}; p.run(k); gotv(k.v); p.run(K{V(2)}); go(0);"], "v1 v1 v2 w0"),
    "only": (["POOL(1) p.run([u = std::make_unique<int>(7)]() { got(*u); }); go(0);"], "7 w0"),
    "workers0": (["POOL(0) got(verif_threads);"], "0"),
    "workers": (["POOL(3) got(verif_threads); go(0);"], "3 w0"),
    "end": (["{ thread_pool p(2); mark(1); } mark(2);"], "#1 cancel0 cancel1 join0 join1 #2"),
    "stop": (["POOL(1) try { go(0); } catch (const arpc::errors::cancelled&) { mark(7); } on(-1); mark(2);", "P->~thread_pool(); mark(1);"], "w0 cancel0 join0 #1 #7 #2"),
    "mine": (["POOL(1, 1) p.run(J(1)); cancel_me(); try { p.run(J(2)); } catch (const arpc::errors::cancelled&) { mark(7); } go(0);"], "wait #7 1 w0"),
    "sync": (["arpc::synchronous_executor x; mark(1); x.run(J(1)); mark(2);"], "#1 1 #2"),
    "synct": (["const arpc::synchronous_executor x; mark(1); x.run([]() { got(1); throw X(); }); mark(2);"], "#1 1 throw X"),
    "syncv": (["const arpc::synchronous_executor x; K k{V(1)}; x.run(k); gotv(k.v);"], "v1 v1"),
}
# main, what another thread does at each of its points, afterwards;
# how often each function runs or has woken a worker
PAIR = {
    "ask": ("POOL(1) mark(0); p.run(J(1)); mark(1); awake(0);", "work(0);", {"1|awake": 1}),
    "ask1": ("POOL(1, 1) mark(0); p.run(J(1)); mark(1); awake(0);", "work(0);", {"1|awake": 1}),
    "give": ("POOL(1) mark(0); go(0);", "P->run(J(1));", {"1": 1}),
    "give2": ("POOL(1) p.run(J(1)); mark(0); go(0);", "P->run(J(2));", {"1": 1, "2": 1}),
    "two": ("POOL(2) work(0); work(1); mark(0); p.run(J(1)); mark(1); awake(0); awake(1);", "P->run(J(2));", {"awake": 2}),
    "one": ("POOL(2) work(0); mark(0); p.run(J(1)); mark(1); awake(0); go(1);", "P->run(J(2));", {"awake": 1, "1|2": 1}),
    "none": ("POOL(2) mark(0); p.run(J(1)); mark(1); go(1);", "P->run(J(2));", {"1": 1, "2": 1}),
    "limit": ("POOL(2, 1) work(0); mark(0); p.run(J(1)); mark(1); awake(0); go(1);", "P->run(J(2));", {"awake": 1, "1|2": 1}),
    "race": ("POOL(2) p.run(J(1)); mark(0); go(0);", "work(1);", {"1": 1}),
    "race2": ("POOL(2) p.run(J(1)); p.run(J(2)); mark(0); go(0);", "work(1);", {"1": 1, "2": 1}),
    "drain": ("POOL(1, 1) p.run(J(1)); mark(0); p.run(J(2)); mark(1); awake(0);", "work(0);", {"1": 1, "2|awake": 1}),
}
POL = futures.POL.replace("opt lite\n", "opt lite\nkeep ^arpc::(queue|future|promise|thread_pool)(<|::)\n").replace("vector|deque|", "").replace("_Vector_base|_Deque_base|_Deque_iterator|", "") + "keep ^K::\n"
CUR, STEP, CANC, SUSP, POLLED = ("$cur",), ("$step",), ("$cancelled",), ("$asleep",), ("$polled",)


def say(st, x):
    st.events.append(("say", x))
    return True, None


def ends(parts):
    """Workers may be cancelled and joined in any order, each cancelled first."""
    out, run = [], []
    for x in parts + [None]:
        if x is not None and re.match(r"(cancel|join)\d+$", x):
            run.append(x)
            continue
        if all("cancel" + y[4:] in run[:k] for k, y in enumerate(run) if y.startswith("join")):
            run.sort()
        out += run + ([x] if x is not None else [])
        run = []
    return out


def model(prog, steps):
    def mo(ip, st, i, name, args):
        nm = re.sub(r" const$", "", name)
        if nm == "mark":
            n = fmt(args[0])
            st.events.append(("mark", args[0].value))
            return say(st, "#" + n) if n != "0" or True else (True, None)
        if nm == "on":
            v = args[0].signed()
            st.mem[CUR] = None if v == -1 else v
            return True, None
        if nm == "looks":
            st.mem[POLLED] = ()
            return True, None
        if nm == "polled":
            fl = {"flag%s.%s" % k: v for k, v in st.mem.get(("$flags",), {}).items()}
            st.mem[POLLED] = st.mem.get(POLLED, ()) + (fmt(args[0]),)
            if fmt(args[1]) != "0":
                say(st, "waits to write")
            return True, Int.const(1, 1 if fl.get(fmt(args[0])) == 1 else 0)
        if nm == "idle":
            cur = st.mem.get(CUR)
            fl = {"flag%s.%s" % k: v for k, v in st.mem.get(("$flags",), {}).items()}
            if any(fl.get(x) == 1 for x in st.mem.get(POLLED, ())):
                st.mem[POLLED] = ()     # became ready since it was looked at
                return True, None
            say(st, "wait" if cur is None else "w%d" % cur)
            if asyncs.held(st):
                say(st, "(holding a lock)")
            if cur in st.mem.get(CANC, ()):
                return True, Throw("_ZTIN4arpc6errors9cancelledE")
            if ("$working",) in st.mem:
                st.mem[("$blocked!",)] = True
                return True, "end"
            n = st.mem.get(STEP, 0) + 1
            if n < len(steps):
                st.mem[STEP] = n
                st.mem[POLLED] = ()
                st.mem[("$back", n)] = cur
                st.mem[CUR] = None
                return True, Nested(fn1(prog, steps[n]), [])
            if cur is None:
                say(st, "stuck")
            return True, "end"
        if nm == "back":
            st.mem[CUR] = st.mem.get(("$back", args[0].value))
            if st.mem[CUR] in st.mem.get(CANC, ()):
                return True, Throw("_ZTIN4arpc6errors9cancelledE")
            return True, None
        if nm in ("thread_cancel", "thread_join", "thread_lost"):
            n = args[0].signed()
            say(st, "%s%s" % (nm[7:], n))
            if nm == "thread_cancel":
                st.mem[CANC] = st.mem.get(CANC, ()) + (n,)
            return True, None
        if nm == "cancel_me":
            st.mem[CANC] = st.mem.get(CANC, ()) + (None,)
            return True, None
        if nm == "awake":
            fl = {"flag%s.%s" % k: v for k, v in st.mem.get(("$flags",), {}).items()}
            who = st.mem.get(SUSP, {}).get(args[0].value, ())
            if any(fl.get(x) == 1 for x in who):
                say(st, "awake")
            return True, None
        if nm == "work":
            n = args[0].value
            s = st.copy()
            g = lambda nm, ty: ip.load(s, Ptr(("g", nm), 8 * n), 8, "ptr")
            f = g("verif_run", 8)
            f = isinstance(f, Ptr) and isinstance(f.obj, tuple) and prog.by_mangled.get(f.obj[1])
            if not f:
                say(st, "no worker %d" % n)
                return True, "end"
            cur, env, pend = s.mem.get(CUR), dict(s.env), s.mem.get(POLLED, ())
            s.mem[CUR], s.mem[("$working",)], s.mem[POLLED] = n, True, ()
            res = ip.call(s, f, [g("verif_arg", 8)])
            # other threads that were waiting end the same way when they get their lock
            if len(res) != 1 or res[0][0] != "end":
                raise ir.AnalysisError("a worker that ends in %s" % [k for k, x in res])
            s = res[0][1]
            if ("$blocked!",) not in s.mem:
                st.mem[asyncs.STUCK] = True
                return True, "end"
            del s.mem[("$blocked!",)]
            del s.mem[("$working",)]
            s.mem[SUSP] = {**s.mem.get(SUSP, {}), n: s.mem.get(POLLED, ())}
            s.mem[CUR], s.mem[POLLED], s.env = cur, pend, env
            st.__dict__.update(s.__dict__)
            return True, None
        if nm == "std::thread::hardware_concurrency":
            return True, Int.const(32, 2)
        return futures.fmodel(ip, st, i, name, args)
    return mo


def c41(rep, tier):
    errs.STRS.clear()
    src, code = "extern \"C\" void back(int);\n", {}
    for n, (steps, want) in T.items():
        for k, c in enumerate(steps):
            src += "void probe_%s_%d() { %s %s}\n" % (n, k, c, "back(%d); " % k if k else "")
        code[n] = (["probe_%s_%d" % (n, k) for k in range(len(steps))], " / ".join(steps), want)
    for n, (main, hook, want) in PAIR.items():
        src += "void probe_p_%s() { %s }\nvoid probe_h_%s() { %s }\n" % (n, main, n, hook)
    flags = ("-iquote" + ir.VERIF + "/stub/pool", "-iquote" + ir.VERIF + "/stub/contract") + asyncs.STUB
    prog = ir.extract([ir.compile_bc("pools.cpp", flags, SRC + src)], POL)

    def init(ip, st):
        ip.store(st, Ptr(("g", "verif_threads"), 0), Int.const(32, 0), 4)

    def story(k, st):
        return norm(ends(tell("ret" if k == "end" else k, st)))

    def one(sub, n):
        steps, c, want = code[n]
        outs, ip = asyncs.explore(prog, steps[0], init, model(prog, steps), max_visits=40)
        sub.require(1, "paths of " + n, len(outs))
        for k, st in outs:
            bad = [e for e in st.events if e[0] in ("relock", "badunlock", "doublefree", "terminate")]
            sub.check(not bad, "locks:" + n, "locks are taken and released in turn", "%s: `%s`: %s" % (W, c, bad[:2]))
            late = futures.late_use(st)
            sub.check(not late, "late:" + n, "nothing is used after it is freed", "%s: `%s` %s" % (W, c, late))
        got = {story(k, st) for k, st in outs}
        sub.check(got == {want}, n, "what runs, and when", "%s: `%s`: %s; should be %s" % (W, c, " or ".join(sorted(got)), want))
    par.each(rep, one, list(code))

    def two(sub, n):
        main, hook, want = PAIR[n]
        seen = 0
        for at, outs in asyncs.meanwhile(prog, fn1(prog, "probe_p_" + n), "probe_h_" + n, init, model(prog, []), points=r"(polled|flag_get|idle)$", max_visits=40):
            for k, st in outs:
                seen += 1
                text = story(k, st)
                say = text.split()
                bad = {w: c for w, c in want.items() if sum(1 for x in say if x in w.split("|")) != c}
                sub.check(not bad, "%s@%d" % (n, at), "each function reaches one worker", "%s: `%s`, and on another thread, at its %d. point, `%s`: %s; %s (awake: a waiting worker has been given something)" % (W, main, at, hook, text, ", ".join("%s should come up %d times" % (w.replace("|", " or "), c) for w, c in bad.items())))
        sub.require(3, "interleavings of " + n, seen)
    par.each(rep, two, list(PAIR))
