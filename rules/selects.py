"""Select: which conditions it waits for, for how long, and which reactions
run with which outcomes."""
import itertools
import re
import ir, absint, objs, errs, asyncs, par, queues
from absint import Int, Ptr, Sym, TOP, NULL, Throw, May, Agg, Nested
from channels import fmt, norm, tell, bits

W = "src/arpc/select.h"
SRC = r'''
#include <tuple>
#include <vector>
#include "arpc/select.h"
#include "arpc/wait.cpp"
extern "C" { void mark(int); void got(long); void react(int); long reactv(int); }
struct V { long v; V(); V(long); V(const V&); V(V&&); V& operator=(const V&); V& operator=(V&&); ~V(); };
extern "C" { void gotv(const V&); }
struct X {};
using arpc::awaitable; using arpc::result_holder; using std::chrono::milliseconds;
template <typename T> void show(result_holder<T>& r) {
  if (!r.has_value()) { got(-1); return; }
  try {
    if constexpr (std::is_same_v<T, void>) { *r; got(-2); } else { gotv(*r); }
  } catch (const X&) { got(-3); }
}
template <typename T> void show(std::vector<result_holder<T>>& v) { mark(8); for (auto& r : v) show(r); mark(9); }
#define RD(k, fd) awaitable<void>(fd).then([] { react(k); })
#define WR(k, fd) awaitable<void>(fd, true).then([] { react(k); })
#define RV(k, fd) awaitable<void>(fd).then([] { return V(reactv(k)); })
#define TM(k, t) awaitable<void>(milliseconds(t)).then([] { react(k); })
#define PL(k, t) awaitable<void>(milliseconds(t), true).then([] { react(k); })
#define NV(k) awaitable<void>(-1).then([] { react(k); })
'''
BIG = 2 ** 31 - 1
# each condition: r(ead), w(rite), v(alued read), t(imeout), p(olling), n(ever); lists are vectors
SETS = {
    "waitr": ["r"], "waitw": ["w"], "waitt": [("t", 5)], "waitp": [("p", 5)], "r": ["r"], "w": ["w"], "v": ["v"], "t": [("t", 5)], "t0": [("t", 0)], "p": [("p", 5)], "n": ["n"],
    "rw": ["r", "w"], "rv": ["r", "v"], "rt": ["r", ("t", 5)], "tr": [("t", 5), "w"], "tt": [("t", 5), ("t", 9)], "tT": [("t", 9), ("t", 5)], "t=": [("t", 5), ("t", 5)],
    "pt": [("p", 5), ("t", 9)], "tp": [("t", 5), ("p", 9)], "pp": [("p", 5), ("p", 9)], "nt": ["n", ("t", 5)], "rtp": ["r", ("t", 7), ("p", 3)],
    "long": [("t", BIG + 6)], "longr": ["r", ("t", BIG)],
    "V": [["r", "r"]], "V0": [[], "r"], "Vt": [["r", ("t", 5), ("t", 9)]], "Vp": [["w", ("p", 5), ("p", 9)]], "VtT": [[("t", 9), ("t", 5)], ("t", 7)], "rVw": ["r", ["v", "v"], "w"], "VV": [["r"], ["w", "r"]], "Vn": [["n", "n"], ("t", 5)],
}


class Need(Exception):
    pass


def flat(s):
    """Conditions in the order their descriptors appear, numbered, with the context's two at the end."""
    out, k = [], 0
    for x in s:
        for y in (x if isinstance(x, list) else [x]):
            kind, t = y if isinstance(y, tuple) else (y, -1)
            out.append((kind, t, k))
            k += 1
    return out


def source(s, waits=False):
    k, args, pre = 0, [], []

    def one(y):
        nonlocal k
        kind, t = y if isinstance(y, tuple) else (y, -1)
        k += 1
        j = k - 1
        return {"r": "RD(%d, %d)" % (j, 10 + j), "w": "WR(%d, %d)" % (j, 10 + j), "v": "RV(%d, %d)" % (j, 10 + j), "t": "TM(%d, %dL)" % (j, t), "p": "PL(%d, %dL)" % (j, t), "n": "NV(%d)" % j}[kind]
    for n, x in enumerate(s):
        if isinstance(x, list):
            ty = "V" if "v" in x else "void"
            pre.append("std::vector<awaitable<%s>> v%d; v%d.reserve(%d);" % (ty, n, n, len(x)))
            for y in x:
                pre.append("v%d.push_back(%s);" % (n, one(y)))
            args.append("v%d" % n)
        else:
            args.append(one(x))
    if waits:
        return "try { arpc::wait(%s); got(-2); } catch (const X&) { got(-3); }" % args[0]
    names = ["r%d" % n for n in range(len(s))]
    return "%s auto [%s] = arpc::select(%s); %s" % (" ".join(pre), ", ".join(names), ", ".join(args), " ".join("show(%s);" % x for x in names))


def expected(s, cfg, choose, polls=3):
    """What select should do; every question about the outside world goes to choose(kind, options)."""
    dead, = cfg
    conds = flat(s)
    story, now, results = [], 0, {}
    ext = conds + [("c", -1, None), ("d", dead, None)]
    for rnd in range(polls + 1):
        def left(c):
            if c[1] < 0 or c[0] == "p":
                return c[1]
            return max(c[1] - now, 0)
        ts = [(left(c), c) for c in ext if c[1] >= 0]
        least, pol = -1, False
        for t, c in ts:
            if least < 0 or t < least:
                least, pol = t, c[0] == "p"
        wait = min(least, BIG)
        fds = ",".join({"r": "%d r", "w": "%d w", "v": "%d r", "c": "cancel r", "t": "-1", "p": "-1", "n": "-1", "d": "-1"}[c[0]].replace("%d", str(10 + (c[2] or 0))) for c in ext)
        story.append("poll(%s;%d)" % (fds, wait))
        if rnd == polls:
            return story + ["poll end"]
        readable = [j for j, c in enumerate(ext) if c[0] in "rwvc"]
        opts = [("ready", (j,), dt) for j in readable for dt in (1,)] + ([("ready", tuple(readable), 2)] if len(readable) > 1 else [])
        if wait >= 0:
            opts.append(("timeout", (), wait))
        if rnd < 2:
            opts.append(("eintr", (), 1))
        if rnd == 0:
            opts.append(("fail", (), 0))
        what, who, dt = choose("poll", opts)
        now += dt
        if what == "eintr":
            continue
        if what == "fail":
            return story + ["io_error", "throw io_error"]
        now -= dt           # reactions are judged by the time left when the wait began
        results, cancelled, late = {}, False, False
        for j, c in enumerate(ext):
            if what == "ready":
                on = j in who
            else:
                on = c[1] >= 0 and (left(c) <= wait or (pol and c[0] == "p"))
            if not on:
                continue
            if c[0] == "c":
                cancelled = choose("cancel", [True, False])
                continue
            if c[0] == "d":
                late = True
                continue
            story.append("react%d" % c[2])
            r = choose("react", ["ok", "again", "X"])
            if r != "again":
                results[c[2]] = r
        now += dt
        if cancelled:
            return story + ["throw cancelled"]
        if late:
            return story + ["throw deadline_exceeded"]
        if results:
            k = 0
            for x in s:
                many = isinstance(x, list)
                story += ["#8"] if many else []
                for y in (x if many else [x]):
                    kind = y[0]
                    r = results.get(k)
                    story.append("-1" if r is None else "-3" if r == "X" else "v%d" % k if kind == "v" else "-2")
                    k += 1
                story += ["#9"] if many else []
            return story


def scripts(s, cfg, polls, most=4000):
    """Every way the outside world can answer."""
    out, todo = [], [[]]
    while todo:
        pre = todo.pop()
        log, it = [], iter(pre)

        def choose(kind, opts):
            try:
                v = next(it)
            except StopIteration:
                raise Need(opts)
            log.append((kind, v))
            return v
        try:
            out.append((list(pre), norm(expected(s, cfg, choose, polls))))
        except Need as e:
            todo += [pre + [o] for o in e.args[0]]
        if len(out) + len(todo) > most:
            raise ir.AnalysisError("too many scripts")
    return out


def world(cfg, answers):
    """Hands out the answers in order; a question of another kind than expected ends the story."""
    def nxt(st):
        k = st.mem.get(("$k",), 0)
        st.mem[("$k",)] = k + 1
        return answers[k] if k < len(answers) else None

    def mo(ip, st, i, name, args):
        nm = re.sub(r" const$", "", name)
        if nm in ("got", "mark"):
            st.events.append(("say", ("#" if nm == "mark" else "") + fmt(args[0])))
            return True, None
        if nm == "cancel_fd":
            return True, Int.const(32, 7)
        if nm == "deadline_ms":
            return True, Int.const(64, cfg[0])
        if nm == "cancel_set":
            v = nxt(st)
            if not isinstance(v, bool):
                return odd(st, "cancellation")
            return True, Int.const(1, int(v))
        if nm in ("std::chrono::_V2::steady_clock::now", "std::chrono::_V2::system_clock::now"):
            return True, Int.const(64, 1000000 * (1000 + st.mem.get(("$now",), 0)))
        if nm == "poll":
            n = args[1].value
            fds = []
            for j in range(n or 0):
                f = [ip.load(st, Ptr(args[0].obj, args[0].off + 8 * j + o), w // 8, "i%d" % w) for o, w in ((0, 32), (4, 16))]
                fd, ev = f[0].value, f[1].value
                fds.append("%s%s" % ({7: "cancel", 2 ** 32 - 1: "-1"}.get(fd, fd), "" if fd in (-1, 2 ** 32 - 1) else {1: " r", 4: " w"}.get((ev or 0) & 5, " ?")))
            t = args[2].value
            t = None if t is None else t - 2 ** 32 if t >= 2 ** 31 else t
            st.events.append(("say", "poll(%s;%s)" % (",".join(fds), t)))
            v = nxt(st)
            if v is None:
                st.events.append(("say", "poll end"))
                return True, "end"
            if not isinstance(v, tuple):
                return odd(st, "poll")
            what, who, dt = v
            st.mem[("$now",)] = st.mem.get(("$now",), 0) + dt
            if what in ("eintr", "fail"):
                st.mem[("$errno",)] = 4 if what == "eintr" else 12
                return True, Int.const(32, -1)
            for j in range(n or 0):
                # what is reported need not be just what was asked for
                ip.store(st, Ptr(args[0].obj, args[0].off + 8 * j + 6), Int.const(16, (0, 8)[j in who]), 2)
            return True, Int.const(32, len(who))
        if nm == "__errno_location":
            p = Ptr(("buf", "errno"), 0)
            ip.store(st, p, Int.const(32, st.mem.get(("$errno",), 0)), 4)
            return True, p
        if nm in ("react", "reactv"):
            st.events.append(("say", "react" + fmt(args[0])))
            v = nxt(st)
            if v == "again":
                return True, Throw("_ZTIN4arpc6errors9try_againE")
            if v == "X":
                return True, Throw("_ZTI1X")
            if v != "ok":
                return odd(st, "reaction")
            return True, args[0].resize(64, False) if hasattr(args[0], "resize") else (Int.const(64, args[0].value) if nm == "reactv" else None)
        if nm == "arpc::throw_io_error":
            st.events.append(("say", "io_error"))
            return True, Throw("_ZTIN4arpc6errors8io_errorE")
        if nm == "gotv" or re.match(r"V::(~?V|operator=)$", nm):
            return queues.qmodel(ip, st, i, name, args)
        return False, None

    def odd(st, what):
        st.events.append(("say", "unexpected " + what))
        return True, "end"
    return mo


def c36(rep, tier):
    errs.STRS.clear()
    src = "".join("void probe_%s() { %s }\n" % (fn(n), source(s, n.startswith("wait"))) for n, s in SETS.items())
    flags = ("-iquote" + ir.VERIF + "/stub/context",) + asyncs.STUB
    pol = asyncs.POL.replace("vector|deque", "deque").replace("_Vector_base|", "") + "keep ^V::\n"
    prog = ir.extract([ir.compile_bc("selects.cpp", flags, SRC + src)], pol)
    jobs = []
    for n, s in SETS.items():
        for cfg in ((-1,), (7,)):
            polls = 3 if len(flat(s)) < 2 or tier == "thorough" else 2
            for k, (answers, want) in enumerate(scripts(s, cfg, polls)):
                jobs.append((n, cfg, k, answers, want))

    def one(sub, job):
        n, cfg, k, answers, want = job
        outs, ip = asyncs.explore(prog, "probe_" + fn(n), lambda ip, st: None, world(cfg, answers), max_visits=24)
        got = {norm([x for x in tell(kk, st) if x != "end"]) for kk, st in outs}
        label = "%s%s:%d" % (n, "d" if cfg[0] >= 0 else "", k)
        sub.check(got == {want}, label, "waits and reacts as specified", "%s: %s on %s%s, the outside answering %s: %s; should be %s" % (W, "wait" if n.startswith("wait") else "select", SETS[n], " with a deadline in %d ms" % cfg[0] if cfg[0] >= 0 else "", answers, " or ".join(sorted(got)), want))
        for kk, st in outs:
            sub.check(not [e for e in st.events if e[0] == "doublefree"], label + ":free", "", "%s: select on %s frees twice" % (W, SETS[n]))
    rep.require(500, "scripts", len(jobs))
    par.each(rep, one, jobs)


def fn(n):
    return n.replace("=", "eq").replace("T", "TT")
