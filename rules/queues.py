"""Flags, pipe mutexes and queues: what waiters see, and that the state they
see and the state kept never part."""
import re
import ir, absint, objs, errs, asyncs, par, channels
from absint import Int, Ptr, Sym, TOP, NULL, Throw, May, Agg, Nested
from packets import fn1
from channels import fmt, norm, tell, bits

# ---------------------------------------------------------------- C33
FW, MW = "src/arpc/flag.cpp", "src/arpc/mutex.cpp"
FLAG = {
    "fresh": "arpc::flag g; got(g.is_set()); got(bool(g)); mark(1);",
    "set": "arpc::flag g; g.set(); got(g.is_set()); got(bool(g)); mark(1);",
    "twice": "arpc::flag g; g.set(); g.set(); got(g.is_set()); mark(1);",
    "reset": "arpc::flag g; g.set(); g.reset(); got(g.is_set()); mark(1);",
    "idle": "arpc::flag g; g.reset(); g.reset(); got(g.is_set()); mark(1);",
    "again": "arpc::flag g; g.set(); g.set(); g.reset(); g.reset(); mark(1); g.set(); got(g.is_set()); mark(2); g.reset(); got(g.is_set()); mark(3);",
    "wait": "arpc::flag g; g.set(); g.wait(); got(g.is_set()); mark(1); g.wait(); mark(2);",
    "await0": "arpc::flag g; auto w = g.async_wait(); got(w.get_fd()); got(w.for_write()); got(w.timeout() / std::chrono::milliseconds(1)); mark(1); w.get_react_fn()();",
    "await1": "arpc::flag g; auto w = g.async_wait(); g.set(); mark(1); w.get_react_fn()(); mark(2); w.get_react_fn()(); mark(3);",
}
FWANT = {
    "fresh": "0 0 #1:0", "set": "1 1 #1:1", "twice": "1 #1:1", "reset": "0 #1:0", "idle": "0 #1:0", "again": "#1:0 1 #2:1 0 #3:0",
    "wait": "ready(R,0,-1,0) 1 #1:1 ready(R,0,-1,0) #2:1", "await0": "R 0 -1 #1:0 throw try_again", "await1": "#1:1 #2:1 #3:1",
}
MUTEX = {
    "fresh": "arpc::mutex m; mark(1);",
    "lock": "arpc::mutex m; m.lock(); mark(1); m.unlock(); mark(2);",
    "try": "arpc::mutex m; got(m.try_lock()); mark(1); got(m.try_lock()); mark(2); m.unlock(); mark(3); got(m.try_lock()); mark(4);",
    "maybe": "arpc::mutex m; m.maybe_lock(); mark(1); m.maybe_lock(); mark(2);",
    "busy": "arpc::mutex m; m.lock(); mark(1); m.lock(); mark(2);",
    "twice": "arpc::mutex m; m.lock(); m.unlock(); m.lock(); m.unlock(); mark(1);",
    "await": "arpc::mutex m; auto w = m.async_lock(); got(w.get_fd()); got(w.for_write()); got(w.timeout() / std::chrono::milliseconds(1)); mark(1); w.get_react_fn()(); mark(2); w.get_react_fn()();",
    "can": "arpc::mutex m; auto w = m.can_lock(); got(w.get_fd()); got(w.for_write()); w.get_react_fn()(); mark(1);",
}
MWANT = {
    "fresh": "#1:1", "lock": "ready(R,0,-1,0) #1:0 shield ready(W,1,-1,0) ~shield #2:1",
    "try": "1 #1:0 0 #2:0 shield ready(W,1,-1,0) ~shield #3:1 1 #4:0", "maybe": "#1:0 throw try_again",
    "busy": "ready(R,0,-1,0) #1:0 ready(R,0,-1,0) (released) ready(R,0,-1,0) #2:0", "twice": "ready(R,0,-1,0) shield ready(W,1,-1,0) ~shield ready(R,0,-1,0) shield ready(W,1,-1,0) ~shield #1:1",
    "await": "R 0 -1 #1:1 #2:0 throw try_again", "can": "R 0 #1:1",
}


def pipes(ip, st, i, name, args):
    """Pipes whose two ends are non-blocking; how many bytes are in them."""
    if name == "mark":
        st.events.append(("say", "#%s:%s" % (fmt(args[0]), st.mem.get(("$bytes",), 0))))
        return True, None
    if name in ("read", "write"):
        fd, want = fmt(args[0]), {"read": "fd0.0", "write": "fd0.1"}[name]
        n = st.mem.get(("$bytes",), 0)
        if fd != want or ("$nb", fd) not in st.mem:
            st.events.append(("say", "%s on %s end %s" % (name, "blocking" if fd == want else "the wrong", fd)))
            return True, "end"
        if args[2].value != 1:
            st.events.append(("say", "%s of %s bytes" % (name, fmt(args[2]))))
        if name == "read":
            if n == 0:
                st.mem[("$failed",)] = "again"
                return True, Int.const(64, -1)
            st.mem[("$bytes",)] = n - 1
        else:
            st.mem[("$bytes",)] = n + 1
        return True, Int.const(64, 1)
    if name == "fcntl" or name == "fcntl64":
        if args[1].value == 4:
            st.mem[("$nb", fmt(args[0]))] = True
        return True, Int.const(32, 0)
    if name == "pipe":
        st.mem[("$n",)] = 0
    if name == "ready":
        fd = {"fd0.0": "R", "fd0.1": "W"}.get(fmt(args[0]), "?")
        st.events.append(("say", "ready(%s)" % ",".join([fd] + [fmt(x) for x in args[1:]])))
        # somebody else lets go once the second wait in a row finds nothing
        n = st.mem.get(("$bytes",), 0)
        if fd == "R" and n == 0:
            if ("$waited",) in st.mem:
                st.mem[("$bytes",)] = 1
            else:
                st.mem[("$waited",)] = True
                st.events.append(("say", "(released)"))
        return True, None
    if name in ("arpc::shield::shield", "arpc::context::~context", "arpc::shield::~shield"):
        st.events.append(("say", "~shield" if "~" in name else "shield"))
        return True, None
    return False, None


def flagworld(ip, st, i, name, args):
    h, r = pipes(ip, st, i, name, args)
    if h:
        return h, r
    h, r = channels.world()(ip, st, i, name, args)
    if name == "pipe":
        pass
    return h, r


HEAD = channels.HEAD.replace('#include "arpc/mutex.cpp"\n', '#include "arpc/mutex.cpp"\n#include "arpc/flag.cpp"\n')


def sections(rep, where, label, outs, me):
    """Deciding and acting are one critical section."""
    for k, st in outs:
        n = sum(1 for e in st.events if e[0] == "lock" and e[1][0] == me.obj)
        rep.check(n == 1, "atomic:" + label, "each step is one critical section", "%s: %s takes the lock %d times, so others can come between deciding and acting" % (where, label, n))


def clean(parts):
    return norm([{"fd0.0": "R", "fd0.1": "W"}.get(x, x) for x in parts if not re.match(r"(pipe|close|io_error)\(", x)])


def c33(rep, tier):
    errs.STRS.clear()
    scen = {"f_" + n: ("", c) for n, c in FLAG.items()}
    scen.update({"m_" + n: ("", c) for n, c in MUTEX.items()})
    flags = ("-iquote" + ir.VERIF + "/stub/contract", "-DVERIF_CONTRACT_FLAG_H_=1") + asyncs.STUB
    # the real flag: the contract's header is skipped in favour of the repository's
    real = '#include "%s"\n' % ir.repo_src("flag.h")
    subs = "void probe_u_set(arpc::flag* g) { g->set(); }\nvoid probe_u_reset(arpc::flag* g) { g->reset(); }\nvoid probe_u_is(arpc::flag* g) { got(g->is_set()); }\nvoid probe_u_bool(arpc::flag* g) { got(bool(*g)); }\nvoid probe_u_wait(arpc::flag* g) { g->wait(); }\n"
    prog = ir.extract([ir.compile_bc("flags.cpp", flags, real + HEAD + subs + channels.build(scen))], asyncs.POL)

    def one(sub, item):
        kind, n = item
        where, code, want = (FW, FLAG[n], FWANT[n]) if kind == "f" else (MW, MUTEX[n], MWANT[n])
        outs, ip = asyncs.explore(prog, "probe_%s_%s" % (kind, n), lambda ip, st: None, flagworld, max_visits=12)
        sub.require(1, "paths of " + n, len(outs))
        got = {clean(tell(k, st)) for k, st in outs}
        sub.check(got == {want}, "%s:%s" % (kind, n), "what waiters can see follows the state", "%s: `%s`: %s; should be %s (#mark:bytes in the pipe)" % (where, code, " or ".join(sorted(got)), want))
        asyncs.locks_ok(sub, where, n, outs)
        for k, st in outs:
            channels.balanced(sub, "%s:%s" % (kind, n), n, st, k)
    par.each(rep, one, [("f", n) for n in FLAG] + [("m", n) for n in MUTEX])

    S, acc = Ptr(("buf", "self"), 0), []
    for m in ("set", "reset", "is", "bool", "wait"):
        for full in (0, 1):
            def init(ip, st, full=full):
                st.env[("a", 0)] = S
                st.mem[("$bytes",)] = full

            def anyfd(ip, st, i, name, args):
                if name in ("read", "write"):
                    return True, Int.const(64, 1)
                if name == "ready":
                    k = st.mem.get(("$r",), 0)
                    st.mem[("$r",)] = k + 1
                    return True, "end" if k > 1 else None
                return flagworld(ip, st, i, name, args)
            outs, ip = asyncs.explore(prog, "probe_u_" + m, init, anyfd, watch=(S.obj,), max_visits=12)
            asyncs.locks_ok(rep, FW, m, outs)
            rep.require(1, "paths of " + m, len(outs))
            if m in ("set", "reset"):
                sections(rep, FW, "%s:%d" % (m, full), outs, S)
            acc += [(o, off, sz, rw, h, m + ": " + how) for o, off, sz, rw, h, how in ip.acc]
    n = 0
    for (o, off), (w, l, ev) in sorted(asyncs.common(acc).items()):
        if w:
            n += 1
            rep.check(bool(l), "guard:%d" % off, "every access holds a common lock", "%s: byte %d of a flag is shared without a common lock: %s" % (FW, off, sorted({"%s with %s" % (how, sorted(x[1] for x in h)) for rw, h, how in ev})))
    rep.require(1, "bytes shared between methods", n)

# ---------------------------------------------------------------- C34
QW = "src/arpc/queue.h"
QSRC = r'''
#include <limits>
#include <mutex>
#include <queue>
#include <utility>
#include "arpc/flag.h"
#include "arpc/queue.h"
#include "arpc/semaphore.h"
extern "C" { void mark(int); void got(long); void got1(bool); void whois(int, int); }
struct V { long v; V(); V(long); V(const V&); V(V&&); V& operator=(const V&); V& operator=(V&&); ~V(); };
extern "C" { void gotv(const V&); }
using Q = arpc::queue<V>;
using N = arpc::queue<void>;
using S = arpc::semaphore;
static_assert(std::is_same_v<S, N>);
'''
# operations, for queues of values and of nothing
VOPS = {"p": "{ V v(%d); q.maybe_put(v); gotv(v); }", "P": "q.maybe_put(V(%d));", "w": "{ V v(%d); q.put(v); gotv(v); }", "W": "q.put(V(%d));",
        "g": "gotv(q.maybe_get());", "G": "gotv(q.get());",
        "a": "{ V v(%d); auto w = q.async_put(v); got(w.get_fd()); w.get_react_fn()(); gotv(v); }", "A": "{ auto w = q.async_put(V(%d)); w.get_react_fn()(); }",
        "b": "{ auto w = q.async_get(); got(w.get_fd()); gotv(w.get_react_fn()()); }", "c": "{ auto w = q.can_put(); got(w.get_fd()); w.get_react_fn()(); }", "d": "{ auto w = q.can_get(); got(w.get_fd()); w.get_react_fn()(); }", "r": "{ auto w = q.async_put(V(%d)); try { w.get_react_fn()(); } catch (const arpc::errors::try_again&) { mark(9); } gotv(q.maybe_get()); w.get_react_fn()(); }"}
NOPS = {"p": "q.maybe_put();", "P": "q.maybe_put();", "w": "q.put();", "W": "q.put();", "g": "q.maybe_get();", "G": "q.get();",
        "a": "{ auto w = q.async_put(); got(w.get_fd()); w.get_react_fn()(); }", "A": "{ auto w = q.async_put(); w.get_react_fn()(); }",
        "b": "{ auto w = q.async_get(); got(w.get_fd()); w.get_react_fn()(); }", "c": "{ auto w = q.can_put(); got(w.get_fd()); w.get_react_fn()(); }", "d": "{ auto w = q.can_get(); got(w.get_fd()); w.get_react_fn()(); }",
        "r": "{ auto w = q.async_put(); try { w.get_react_fn()(); } catch (const arpc::errors::try_again&) { mark(9); } q.maybe_get(); w.get_react_fn()(); }"}
WHO = "whois(0, q.can_put().get_fd()); whois(1, q.can_get().get_fd());"
STATE = " got(q.size()); got(q.empty()); got(q.full()); mark(0);"


def expected(kind, cap, seq):
    """The story a queue of this capacity should tell."""
    n, out, items, k = 0, [], [], 0
    val = kind == "v"

    def state():
        out.extend([str(len(items)), str(int(not items)), str(int(len(items) == cap)), "#0:%d%d" % (len(items) > 0, len(items) != cap)])
    state()
    for o in seq:
        k += 1
        full, empty = len(items) == cap, not items
        if o in "pP":
            if full:
                return out + ["throw try_again"]
            items.append(k)
            out += ["v%d" % k] if val and o == "p" else []
        elif o in "wW":
            out.append("wait(put,0,-1)")
            if full:
                return out + ["wait(put,0,-1)", "blocked"]
            items.append(k)
            out += ["v%d" % k] if val and o == "w" else []
        elif o == "g":
            if empty:
                return out + ["throw try_again"]
            x = items.pop(0)
            out += ["v%d" % x] if val else []
        elif o == "G":
            out.append("wait(get,0,-1)")
            if empty:
                return out + ["wait(get,0,-1)", "blocked"]
            x = items.pop(0)
            out += ["v%d" % x] if val else []
        elif o in "aA":
            out += ["put"] if o == "a" else []
            if full:
                return out + ["throw try_again"]
            items.append(k)
            out += ["v%d" % k] if val and o == "a" else []
        elif o == "b":
            out.append("get")
            if empty:
                return out + ["throw try_again"]
            x = items.pop(0)
            out += ["v%d" % x] if val else []
        elif o in "cd":
            out.append("put" if o == "c" else "get")
            if (full if o == "c" else empty):
                return out + ["throw try_again"]
        elif o == "r":
            # a put that is tried again after one failure still has its value
            if full:
                out.append("#9:%d%d" % (len(items) > 0, len(items) != cap))
            else:
                items.append(k)
            x = items.pop(0)
            out += ["v%d" % x] if val else []
            if full or True:
                items.append(k if full else 0)
        state()
    return out


def qmodel(ip, st, i, name, args):
    nm = re.sub(r" const$", "", name)
    dem = i.get("dem", "")
    if nm in ("mark", "got", "got1"):
        if nm == "mark":
            fl, who = st.mem.get(("$flags",), {}), st.mem.get(("$who",), {})
            st.events.append(("say", "#%s:%s" % (fmt(args[0]), "".join(str(fl.get(who.get(x), "?")) for x in ("get", "put")))))
        else:
            v = args[0]
            back = {v: k for k, v in st.mem.get(("$who",), {}).items()}
            st.events.append(("say", back.get(fmt(v), fmt(v))))
        return True, None
    if nm == "whois":
        st.mem[("$who",)] = dict(st.mem.get(("$who",), {}), **{("put", "get")[args[0].value]: fmt(args[1])})
        return True, None
    if nm == "gotv":
        st.events.append(("say", str(tokof(st, args[0]))))
        return True, None
    if nm in ("flag_set", "flag_get", "flag_fd"):
        who = flagname(st, args[0])
        fl = dict(st.mem.get(("$flags",), {}))
        if nm == "flag_set":
            v = args[1].value
            fl[who] = 0 if v == 2 else v
            st.mem[("$flags",)] = fl
            if v != 2:
                st.events.append(("upd", who, asyncs.held(st)))
                ip.note(st, args[0], 1, "w", "set")
            return True, None
        if nm == "flag_get":
            return True, Int.const(32, fl.get(who, 0))
        return True, bits(who, 32, 0)
    if nm == "ready":
        who = fmt(args[0])
        back = {v: k for k, v in st.mem.get(("$who",), {}).items()}
        st.events.append(("say", "wait(%s,%s,%s)" % (back.get(who, who), fmt(args[1]), fmt(args[2]))))
        k = st.mem.get(("$waits",), 0)
        if st.mem.get(("$flags",), {}).get(who, 0) == 0:
            if k:
                st.events.append(("say", "blocked"))
                return True, "end"
            st.mem[("$waits",)] = 1
        return True, None
    m = re.match(r"V::(~?V|operator=)$", nm)
    if m:
        op, me = m.group(1), args[0]
        if op == "~V":
            st.mem.pop(("$v", me.obj, me.off), None)
            return True, None
        if len(args) == 1:
            tok = "default"
        elif isinstance(args[1], Int):
            tok = "v%s" % fmt(args[1])
        else:
            tok = tokof(st, args[1])
            if dem.endswith("&&)") and args[1] != me:
                st.mem[("$v", args[1].obj, args[1].off)] = "gone"
        st.mem[("$v", me.obj, me.off)] = tok
        return True, me if op == "operator=" else None
    m = re.match(r"std::(?:deque|(?:__cxx11::)?list)::(~?\w+|operator\[\]|operator=)$", nm)
    if m:
        op, me = m.group(1), args[0]
        items = st.mem.get(("$deque",), ())
        own = isinstance(me, Ptr) and me.obj in ip.watch
        if own:
            ip.note(st, me, 1, "r" if op in ("size", "empty", "front", "back", "begin", "end") else "w", "used by std::deque::" + op)
        if op in ("deque", "~deque", "list", "~list"):
            return True, None
        if op in ("push_back", "emplace_back"):
            src = args[1]
            tok = tokof(st, src)
            ps = objs.params(dem)
            if ps and ps[0].endswith("&&"):
                st.mem[("$v", src.obj, src.off)] = "gone"
            st.fresh += 1
            e = ("elem", st.fresh)
            st.mem[("$v", e, 0)] = tok
            st.mem[("$deque",)] = items + (e,)
            return True, Ptr(e, 0) if op == "emplace_back" else None
        if op in ("front", "back"):
            if not items:
                st.events.append(("say", op + "-of-nothing"))
                return True, "end"
            return True, Ptr(items[0 if op == "front" else -1], 0)
        if op in ("pop_front", "pop_back"):
            if not items:
                st.events.append(("say", op + "-of-nothing"))
                return True, "end"
            st.mem[("$deque",)] = items[1:] if op == "pop_front" else items[:-1]
            return True, None
        if op == "size":
            return True, Int.const(64, len(items))
        if op == "empty":
            return True, Int.const(1, int(not items))
        raise ir.AnalysisError("std::deque::%s is outside the queue model" % op)
    return False, None


def tokof(st, p):
    return st.mem.get(("$v", p.obj, p.off), "unknown") if isinstance(p, Ptr) else "unknown"


def flagname(st, p):
    return "flag%s" % p.off


def c34(rep, tier):
    errs.STRS.clear()
    seqs = ["", "p", "P", "w", "W", "g", "G", "a", "A", "b", "c", "d", "pg", "PG", "wG", "pp", "pw", "pa", "pP", "pW", "pA", "pc", "pd", "ppg", "pgg", "ppgg", "ppgpgg", "pgpg", "PPP", "PPPgGb", "PaAWg", "ppgd", "pgd", "pgc", "ppc", "ppgc"]
    if tier == "thorough":
        import itertools
        seqs = sorted(set(seqs) | {"".join(x) for n in (1, 2, 3, 4) for x in itertools.product("pgWGb", repeat=n)})
    scen, where = [], {}
    for kind, ops, t in (("v", VOPS, "Q"), ("n", NOPS, "N")):
        for cap in (1, 2, 3):
            for s in seqs:
                name = "probe_%s%d_%s" % (kind, cap, s)
                body = "".join(" " + (ops[o] % k if "%d" in ops[o] else ops[o]) + STATE for k, o in enumerate(s, 1))
                where[name] = (kind, cap, s)
                scen.append("void %s() { %s q(%d); %s%s%s }\n" % (name, t, cap, WHO, STATE, body))
    # a put that could not happen yet keeps its value for the next try
    for kind, ops, t in (("v", VOPS, "Q"), ("n", NOPS, "N")):
        scen.append("void probe_retry_%s() { %s q(1); %s %s %s %s }\n" % (kind, t, WHO, (VOPS if kind == "v" else NOPS)["P"] % 1 if kind == "v" else NOPS["P"], ops["r"] % 2 if kind == "v" else ops["r"], ("gotv(q.maybe_get());" if kind == "v" else "q.maybe_get();") + STATE))
    scen.append("void probe_dflt() { Q q; " + WHO + " got(q.max_size()); got(q.capacity()); got(q.full()); q.maybe_put(V(1)); got(q.full()); got(q.size()); mark(0); }\nvoid probe_cap() { Q q(7); got(q.max_size()); got(q.capacity()); N n(5); got(n.max_size()); got(n.capacity()); }\n")
    units = []
    for kind, t in (("v", "Q"), ("n", "N")):
        for m, c in (("put", "q->maybe_put(V(1));" if kind == "v" else "q->maybe_put();"), ("get", "q->maybe_get();"), ("size", "got(q->size());"), ("empty", "got(q->empty());"), ("full", "got(q->full());"), ("put2", "q->put(V(1));" if kind == "v" else "q->put();"), ("get2", "q->get();"), ("max", "got(q->max_size());")):
            units.append((kind, m))
            scen.append("void probe_u%s_%s(%s* q) { %s }\n" % (kind, m, t, c))
    flags = ("-iquote" + ir.VERIF + "/stub/contract",) + asyncs.STUB
    prog = ir.extract([ir.compile_bc("queues.cpp", flags, QSRC + "".join(scen))], asyncs.POL + "keep ^V::\n")

    def go(fn, init=lambda ip, st: None, watch=()):
        return asyncs.explore(prog, fn, init, qmodel, watch=watch, max_visits=16)

    def one(sub, name):
        kind, cap, s = where[name]
        outs, ip = go(name)
        sub.require(1, "paths of " + name, len(outs))
        got = {norm(tell(k, st)) if not any(e[0] == "say" and e[1] == "blocked" for e in st.events) else norm(tell("ret", st)) for k, st in outs}
        want = norm(expected(kind, cap, s))
        label = "%s%d:%s" % (kind, cap, s)
        sub.check(got == {want}, label, "first in, first out, within capacity, and waiters see it", "%s: queue<%s> of capacity %d, operations %s: %s; should be %s" % (QW, "T" if kind == "v" else "void", cap, s or "none", " or ".join(sorted(got)), want))
        asyncs.locks_ok(sub, QW, label, outs)
    par.each(rep, one, sorted(where))

    for kind, want in (("v", "#9:10 v1 v2 0 1 0 #0:01"), ("n", "#9:10 0 1 0 #0:01")):
        outs, ip = go("probe_retry_" + kind)
        got = {norm(tell(k, st)) for k, st in outs}
        rep.check(got == {want}, "retry:" + kind, "a put that is tried again still has its value", "%s: %s; should be %s" % (QW, " or ".join(sorted(got)), want))
    for fn, want in (("probe_dflt", "-1 -1 0 0 1 #0:11"), ("probe_cap", "7 7 5 5")):
        got = {norm(tell(k, st)) for k, st in go(fn)[0]}
        rep.check(got == {want}, fn, "capacities are as given", "%s: %s; should be %s" % (QW, " or ".join(sorted(got)), want))

    S = Ptr(("buf", "self"), 0)
    for kind in ("v", "n"):
        acc = []
        for kd, m in units:
            if kd != kind:
                continue
            for full in (0, 1, 2):
                def init(ip, st, full=full):
                    st.env[("a", 0)] = S
                    st.fresh += 1
                    if full:
                        st.mem[("$deque",)] = (("elem", 0),) * full
                        st.mem[("$v", ("elem", 0), 0)] = "v0"
                outs, ip = go("probe_u%s_%s" % (kind, m), init, watch=(S.obj,))
                asyncs.locks_ok(rep, QW, "%s:%s" % (kind, m), outs)
                rep.require(1, "paths of " + m, len(outs))
                if m in ("put", "get"):
                    sections(rep, QW, "%s:%s:%d" % (kind, m, full), outs, S)
                acc += [(o, off, sz, rw, h, m + ": " + how) for o, off, sz, rw, h, how in ip.acc]
        n = 0
        for (o, off), (w, l, ev) in sorted(asyncs.common(acc).items()):
            if w:
                n += 1
                rep.check(bool(l), "guard:%s%d" % (kind, off), "every access holds a common lock", "%s: byte %d of a queue is shared without a common lock: %s" % (QW, off, sorted({"%s with %s" % (how, sorted(x[1] for x in h)) for rw, h, how in ev})))
        rep.require(3, "bytes shared between methods", n)
