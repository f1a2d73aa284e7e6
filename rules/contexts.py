"""Contexts: the tree of cancellation, deadlines that only tighten, and the
data that goes with them."""
import re
import ir, absint, objs, errs, asyncs, par
from absint import Int, Ptr, Sym, TOP, NULL, Throw, May, Agg, Nested
from channels import fmt, norm, tell

W = "src/arpc/context.cpp"
SRC = r'''
#include "arpc/flag.h"
#include "arpc/context.h"
#include "arpc/context.cpp"
#include "arpc/dynamic_base_class.cpp"
#include "arpc/awaitable.cpp"
extern "C" { void mark(int); void got(long); void watch(const void*); }
using arpc::context; using arpc::shield; using arpc::dynamic_base_class;
using ms = std::chrono::milliseconds; using tp = context::time_point;
template <int n> struct D : dynamic_base_class {
  long v;
  D(long v = 0) : v(v) {}
  std::string_view portable_class_name_internal() const override { return {n == 1 ? "D1" : "D2", 2}; }
};
template <> std::string_view arpc::detail::dynamic_class_descriptor<D<1>>::class_name = "D1";
template <> std::string_view arpc::detail::dynamic_class_descriptor<D<2>>::class_name = "D2";
struct Enc {
  void operator()(const std::optional<context::duration>& d) { mark(20); got(d ? d->count() : -99); }
  void operator()(const std::vector<std::shared_ptr<const dynamic_base_class>>& v) { mark(21); for (auto& x : v) got(static_cast<const D<1>&>(*x).v); }
  void operator()(const bool& b) { mark(22); got(b); }
};
struct Dec {
  std::optional<context::duration> left; std::vector<std::shared_ptr<dynamic_base_class>> data; bool cancelled = false;
  void operator()(std::optional<context::duration>& d) { mark(20); d = left; }
  void operator()(std::vector<std::shared_ptr<dynamic_base_class>>& v) { mark(21); v = std::move(data); }
  void operator()(bool& b) { mark(22); b = cancelled; }
};
#define TOP context::top()
#define C(x) got(x.is_cancelled());
#define DL(x) got(x.deadline() ? x.deadline()->time_since_epoch().count() : -99);
#define LEFT(x) got(x.deadline_left() ? x.deadline_left()->count() : -99);
#define CUR(x) got(&context::current() == &x);
#define G1(x) got(x.get<D<1>>().v);
#define G2(x) got(x.get<D<2>>().v);
#define WAIT(x) { auto w = x; got(w.get_fd()); got(w.for_write()); got(w.timeout() / ms(1)); got(w.for_polling()); w.get_react_fn()(); }
'''
# name: (code, story); now is 1000 s
T = {
    "self": ("context c; C(c) c.cancel(); C(c) C(TOP) c.cancel(); C(c)", "0 1 0 1"),
    "child": ("context c; context d; C(d) c.cancel(); C(c) C(d)", "0 1 1"),
    "grand": ("context a; context b; context c; a.cancel(); C(b) C(c) C(TOP)", "1 1 0"),
    "up": ("context c; context d; d.cancel(); C(d) C(c) C(TOP)", "1 0 0"),
    "siblings": ("context a(TOP, false); context b(TOP, false); a.cancel(); C(a) C(b) TOP.cancel(); C(b)", "1 0 1"),
    "family": ("context p; context a(p, false); context b(p, false); context c(a, false); context d(b, false); p.cancel(); C(a) C(b) C(c) C(d)", "1 1 1 1"),
    "middle": ("context p; context a(p, false); context b(p, false); context c(a, false); context d(b, false); a.cancel(); C(p) C(a) C(b) C(c) C(d)", "0 1 0 1 0"),
    "born": ("context c; c.cancel(); context d; C(d) context e; C(e)", "1 1"),
    "bornp": ("context p(TOP, false); p.cancel(); context a(p, false); C(a) context b; C(b)", "1 0"),
    "shield": ("context c; shield s; context d; c.cancel(); C(s) C(d) C(c) s.cancel(); C(s) C(d)", "0 0 1 1 1"),
    "shieldborn": ("context c; c.cancel(); shield s; C(s) context d; C(d)", "0 0"),
    "shieldafter": ("context c; { shield s; C(s) } c.cancel(); C(c) context d; C(d)", "0 1 1"),
    "gone": ("context c; { context d; C(d) } c.cancel(); C(c)", "0 1"),
    "gone2": ("context c; { context d(c, false); context e(c, false); context f(c, false); } context g(c, false); c.cancel(); C(c) C(g)", "1 1"),
    "still": ("context c; context a(c, false); { context b(c, false); } context d(c, false); c.cancel(); C(a) C(d)", "1 1"),
    "current": ("CUR(TOP) { context c; CUR(c) { context d; CUR(d) { context e(d, false); CUR(d) } CUR(d) } CUR(c) { shield s; CUR(s) } CUR(c) } CUR(TOP)", "1 1 1 1 1 1 1 1 1"),
    "currentp": ("context p(TOP, false); CUR(TOP) { context c(p); CUR(c) p.cancel(); C(c) } CUR(TOP) C(TOP)", "1 1 1 1 0"),
    "kids": ("{ context p; new context(p, false); mark(1); } mark(2);", "#1 waits:2/2 waits:2/2 end"),
    "kids2": ("{ context p; auto* a = new context(p, false); new context(p, false); delete a; mark(1); } mark(2);", "#1 waits:2/2 waits:2/2 end"),
    "kid": ("{ context p; auto* a = new context(p, false); delete a; mark(1); } mark(2);", "#1 #2"),
    "sheltered": ("{ context p(TOP, false); { shield s; } mark(1); } mark(2);", "#1 #2"),
    # deadlines
    "none": ("context c; DL(c) LEFT(c)", "-99 -99"),
    "set": ("context c; c.set_deadline(tp(ms(1000500))); DL(c) LEFT(c) DL(TOP)", "1000500 500 -99"),
    "past": ("context c; c.set_deadline(tp(ms(999500))); DL(c) LEFT(c)", "999500 -500"),
    "tighter": ("context c; c.set_deadline(tp(ms(500))); c.set_deadline(tp(ms(499))); DL(c)", "499"),
    "looser": ("context c; c.set_deadline(tp(ms(500))); c.set_deadline(tp(ms(501))); DL(c)", "500"),
    "same": ("context c; c.set_deadline(tp(ms(500))); c.set_deadline(tp(ms(500))); DL(c)", "500"),
    "negative": ("context c; c.set_deadline(tp(ms(5))); c.set_deadline(tp(ms(-5))); DL(c) c.set_deadline(tp(ms(-4))); DL(c)", "-5 -5"),
    "timeout": ("context c; c.set_timeout(ms(25)); DL(c) LEFT(c) c.set_timeout(ms(26)); DL(c) c.set_timeout(ms(24)); DL(c)", "1000025 25 1000025 1000024"),
    "timeoutn": ("context c; c.set_timeout(ms(-25)); DL(c)", "999975"),
    "inherit": ("context c; c.set_deadline(tp(ms(500))); context d; DL(d) d.set_deadline(tp(ms(501))); DL(d) d.set_deadline(tp(ms(400))); DL(d) DL(c) context e; DL(e)", "500 500 400 500 400"),
    "inherits": ("context c; c.set_deadline(tp(ms(500))); shield s; DL(s)", "500"),
    "after": ("context c; context d; c.set_deadline(tp(ms(500))); context e(c, false); DL(e)", "500"),
    "waitd": ("context c; c.set_deadline(tp(ms(1000500))); WAIT(c.wait_deadline())", "-1 0 500 0 throw deadline_exceeded"),
    "waitp": ("context c; c.set_deadline(tp(ms(999500))); WAIT(c.wait_deadline())", "-1 0 0 0 throw deadline_exceeded"),
    "waitn": ("context c; WAIT(c.wait_deadline())", "-1 0 -1 0"),
    "waitc": ("context c; c.cancel(); WAIT(c.wait_cancelled())", "flag 0 -1 0 throw cancelled"),
    "waitc0": ("context c; WAIT(c.wait_cancelled())", "flag 0 -1 0 throw try_again"),
    # data
    "unset": ("context c; G1(c) G2(c)", "0 0"),
    "put": ("context c; c.set(D<1>(5)); G1(c) G2(c) G1(TOP)", "5 0 0"),
    "puts": ("context c; c.set(D<1>(5), D<2>(6)); G1(c) G2(c)", "5 6"),
    "again": ("context c; c.set(D<1>(5)); c.set(D<1>(7)); G1(c)", "7"),
    "lvalue": ("context c; D<1> d(5); c.set(d); d.v = 9; G1(c)", "5"),
    "reset": ("context c; c.set(D<1>(5), D<2>(6)); c.reset<D<1>>(); G1(c) G2(c) c.reset<D<1>>(); G2(c)", "0 6 6"),
    "resets": ("context c; c.set(D<1>(5), D<2>(6)); c.reset<D<1>, D<2>>(); G1(c) G2(c)", "0 0"),
    "resetall": ("context c; c.set(D<1>(5), D<2>(6)); c.reset_all(); G1(c) G2(c) c.set(D<2>(8)); G2(c)", "0 0 8"),
    "passdown": ("context c; c.set(D<1>(5)); context d; G1(d) d.set(D<1>(6)); G1(d) G1(c) c.set(D<1>(7)); G1(d) d.reset_all(); G1(d) G1(c)", "5 6 5 6 0 7"),
    "passover": ("context c; c.set(D<1>(5)); shield s; G1(s) context d; G1(d)", "5 5"),
    # over the wire
    "save": ("context c; Enc e; c.save(e);", "#20 -99 #21 #22 0"),
    "savea": ("context c; c.set(D<1>(5)); c.set_timeout(ms(30)); c.cancel(); Enc e; c.save(e);", "#20 30 #21 5 #22 1"),
    "load": ("context c; Dec d; c.load(d); DL(c) C(c) G1(c)", "#20 #21 #22 -99 0 0"),
    "loada": ("context c; context k; Dec d; d.left = ms(40); d.data.push_back(std::make_shared<D<1>>(5)); d.cancelled = true; c.load(d); DL(c) C(c) G1(c) C(k)", "#20 #21 #22 1000040 1 5 1"),
    "loadt": ("context c; c.set_timeout(ms(30)); Dec d; d.left = ms(40); c.load(d); DL(c) d.left = ms(20); c.load(d); DL(c) d.left.reset(); c.load(d); DL(c)", "#20 #21 #22 1000030 #20 #21 #22 1000020 #20 #21 #22 1000020"),
    "loadd": ("context c; c.set(D<1>(5), D<2>(6)); Dec d; d.data.push_back(std::make_shared<D<1>>(7)); c.load(d); G1(c) G2(c)", "#20 #21 #22 7 0"),
    "loadk": ("context c; c.cancel(); Dec d; c.load(d); C(c)", "#20 #21 #22 1"),
    "loadn": ("context c; Dec d; d.data.push_back(nullptr); c.load(d);", "#20 #21 #22 throw data_mismatch"),
}
# an operation, what another thread does meanwhile, what is seen afterwards
# (set P and K up first; each is one of the two threads' operations)
RACES = {
    "cancelmake": ("new (b) context(p, false);", "P->cancel();", "C((*(context*)b))", "1"),
    "makecancel": ("p.cancel();", "new (b) context(*P, false);", "C((*(context*)b))", "1"),
    "makemake": ("new (b) context(p, false);", "new (b2) context(*P, false);", "p.cancel(); C((*(context*)b)) C((*(context*)b2))", "1 1"),
    "gonecancel": ("k->~context();", "P->cancel();", "C(p)", "1"),
    "cancelgone": ("p.cancel();", "K->~context();", "C(p)", "1"),
    "gonemake": ("k->~context();", "new (b2) context(*P, false);", "p.cancel(); C((*(context*)b2))", "1"),
    "makegone": ("new (b2) context(p, false);", "K->~context();", "p.cancel(); C((*(context*)b2))", "1"),
    "downcancel": ("P->cancel();", "new (b) context(*K, false);", "C((*(context*)b))", "1"),
    "downmake": ("new (b) context(*K, false);", "P->cancel();", "C((*(context*)b))", "1"),
    "deadlines": ("p.set_deadline(tp(ms(400)));", "P->set_deadline(tp(ms(300)));", "DL(p)", "300"),
    "deadlines2": ("p.set_deadline(tp(ms(300)));", "P->set_deadline(tp(ms(400)));", "DL(p)", "300"),
    "deadlines3": ("p.set_timeout(ms(20));", "P->set_deadline(tp(ms(999000)));", "DL(p)", "999000"),
    "deadlines4": ("p.set_deadline(tp(ms(999000)));", "P->set_timeout(ms(20));", "DL(p)", "999000"),
    "loadset": ("{ Dec d; d.left = ms(40); p.load(d); }", "P->set_deadline(tp(ms(999000)));", "DL(p)", "999000"),
    "loadcancel": ("{ Dec d; p.load(d); }", "P->cancel();", "C(p)", "1"),
    "putboth": ("p.set(D<1>(5));", "P->set(D<2>(6));", "G1(p) G2(p)", "5 6"),
    "putreset": ("p.set(D<1>(5));", "P->reset<D<2>>();", "G1(p) G2(p)", "5 0"),
    "both": ("p.cancel();", "P->cancel();", "C(p) C((*k))", "1 1"),
}
SHARED = {
    "cancel": "p.cancel();", "ask": "C(p)", "child": "{ context k(p, false); }", "deadline": "DL(p)", "left": "LEFT(p)", "setd": "p.set_deadline(tp(ms(400)));", "sett": "p.set_timeout(ms(4));",
    "set": "p.set(D<1>(2));", "get": "G1(p)", "reset": "p.reset<D<1>>();", "resetall": "p.reset_all();", "waitd": "p.wait_deadline();", "waitc": "p.wait_cancelled();", "save": "{ Enc e; p.save(e); }", "load": "{ Dec d; d.left = ms(3); p.load(d); }",
}
POL = asyncs.POL.replace("vector|deque", "deque").replace("_Vector_base|", "").replace("keep ^arpc::(detail::)?flat_(tree|map|set|multimap|multiset)::\n", "")
CLASS = "_ZN4arpc6detail24dynamic_class_descriptorI1DILi%dEEE10class_nameE"
CURRENT = "_ZN4arpc7context8current_E"


class Interp(asyncs.Interp):
    """Records what the operation between mark(0) and mark(1) touches."""

    def note(self, st, p, size, rw, how):
        if isinstance(p, Ptr) and p.obj in self.watch and isinstance(p.off, int):
            ms = [e[1] for e in st.events if e[0] == "mark"]
            if 0 in ms and ms[-1] != 1:
                asyncs.Interp.note(self, st, p, size, rw, how)


def xmodel(ip, st, i, name, args):
    nm = re.sub(r" const$", "", name)
    if nm in ("mark", "got"):
        v = args[0]
        if nm == "mark":
            st.events.append(("mark", v.value))
        st.events.append(("say", ("#" if nm == "mark" else "") + (fmt(v, v.w) if isinstance(v, Int) else fmt(v))))
        return True, None
    if nm == "watch":
        ip.watch = (args[0].obj,)
        return True, None
    if nm == "__cxa_guard_acquire":
        return True, Int.const(32, 1)
    if nm == "__cxa_guard_release":
        ip.store(st, args[0], Int.const(8, 1), 1)
        return True, None
    if nm == "same_key":
        if args[1].value is None or args[3].value is None:
            raise ir.AnalysisError("key of unknown length: %s" % (args,))
        if args[1].value != args[3].value:
            return True, Int.const(1, 0)
        a, b = (bytes_of(ip, st, args[k], args[k + 1].value) for k in (0, 2))
        return True, Int.const(1, int(a == b))
    if nm in ("std::chrono::_V2::steady_clock::now", "std::chrono::_V2::system_clock::now"):
        return True, Int.const(64, 1000 * 10 ** 9)
    if nm in ("flag_set", "flag_get", "flag_fd"):
        k = (args[0].obj, args[0].off)
        fl = dict(st.mem.get(("$flags",), {}))
        if ("$dead", k[0]) in st.mem and k in fl:
            st.events.append(("late", nm, k))
        if nm == "flag_set":
            fl[k] = args[1].value % 2
            st.mem[("$flags",)] = fl
            return True, None
        if nm == "flag_get":
            return True, Int.const(32, fl.get(k, 0))
        return True, Int.const(32, 77)
    if nm == "std::condition_variable::wait":
        mu = ip.load(st, args[1], 8, "ptr")
        st.events.append(("wait", asyncs.key(args[0]), asyncs.key(mu), asyncs.held(st)))
        live = [v for k, v in st.mem.get(("$flags",), {}).items() if ("$dead", k[0]) not in st.mem and k[0][0] != "g"]
        st.events.append(("say", "waits:%d/%d" % (sum(live), len(live))))
        n = st.mem.get(("$waits",), 0)
        st.mem[("$waits",)] = n + 1
        return True, "end" if n else None
    if nm == "std::condition_variable::~condition_variable":
        st.mem[("$dead", args[0].obj)] = True
        st.events.append(("gone", args[0].obj))
        return True, None
    if nm in ("std::condition_variable::condition_variable", "std::mutex::mutex"):
        st.mem.pop(("$dead", args[0].obj), None)
    return False, None


def bytes_of(ip, st, p, n):
    if isinstance(p, Ptr):
        lit = ip.strs.get(p.obj[1]) if p.obj[0] == "g" else None
        if lit is not None:
            return (lit if isinstance(lit, bytes) else lit.encode())[p.off:p.off + n]
        rec, ip.rec = ip.rec, False
        v = [ip.load(st, Ptr(p.obj, p.off + k), 1, "i8") for k in range(n)]
        ip.rec = rec
        if all(isinstance(x, Int) and x.value is not None for x in v):
            return bytes(x.value for x in v)
    raise ir.AnalysisError("key of unknown content: %s" % (p,))


def init(ip, st):
    ip.guard = 0
    ip.store(st, Ptr(("g", CURRENT), 0), NULL, 8)
    for n in (1, 2):
        lit, g = ("buf", "D%d" % n), ("g", CLASS % n)
        for k, b in enumerate(b"D%d" % n):
            ip.store(st, Ptr(lit, k), Int.const(8, b), 1)
        ip.store(st, Ptr(g, 0), Int.const(64, 2), 8)
        ip.store(st, Ptr(g, 8), Ptr(lit, 0), 8)


def c37(rep, tier):
    errs.STRS.clear()
    code = {"probe_" + n: c for n, (c, w) in T.items()}
    code.update({"probe_s_" + n: "context p; context k(p, false); p.set(D<1>(1)); p.set_deadline(tp(ms(500))); watch(&p); mark(0); %s mark(1);" % c for n, c in SHARED.items()})
    for n, (op, other, after, want) in RACES.items():
        code["probe_h_" + n] = other
        code["probe_r_" + n] = "context p(TOP, false); p.set(D<2>(3)); context* k = new (a) context(p, false); P = &p; K = k; mark(0); %s mark(1); %s mark(9);" % (op, after)
    src = "context *P, *K; alignas(context) unsigned char a[sizeof(context)], b[sizeof(context)], b2[sizeof(context)];\n" + "".join("void %s() { %s }\n" % (n, c) for n, c in code.items())
    flags = ("-iquote" + ir.VERIF + "/stub/flat", "-iquote" + ir.VERIF + "/stub/contract") + asyncs.STUB
    prog = ir.extract([ir.compile_bc("contexts.cpp", flags, SRC + src)], POL)
    orders = {}

    def one(sub, n):
        c, want = code["probe_" + n], T[n][1]
        outs, ip = asyncs.explore(prog, "probe_" + n, init, xmodel, max_visits=24)
        sub.require(1, "paths of " + n, len(outs))
        got = {norm(tell(k, st)).replace("77", "flag") for k, st in outs}
        sub.check(got == {want}, n, "cancellation, deadlines and data follow the tree", "%s: `%s`: %s; should be %s" % (W, c, " or ".join(sorted(got)), want))
        judge(sub, n, c, outs)
        for k, st in outs:
            if k in ("ret", "throw") and "new context(p, false); mark" not in c:
                left = {e[1].obj for e in st.events if e[0] == "new"} - {e[1].obj for e in st.events if e[0] == "delete" and isinstance(e[1], Ptr)}
                # data given to the outermost context stays with it
                sub.check(not left, "leak:" + n, "context data is released", "%s: `%s` leaks %s" % (W, c, sorted(left)))
    par.each(rep, one, list(T))

    def race(sub, n):
        op, other, after, want = RACES[n]
        own = [(Ptr(("g", CURRENT), 0), 8, NULL)]
        for at, outs in asyncs.meanwhile(prog, "probe_r_" + n, "probe_h_" + n, init, xmodel, "flag_(set|get)$", own, max_visits=24):
            for k, st in outs:
                t = norm(tell(k, st)).split("#1 ", 1)[-1].split(" #9")[0]
                sub.check(t == want, "race:%s:%d" % (n, at), "nothing another thread does in between is lost", "%s: `%s` with `%s` on another thread: %s; should be %s" % (W, op, other, t, want))
            judge(sub, "race:" + n, op, outs)
    n0 = len(rep.obl)
    par.each(rep, race, list(RACES))
    rep.require(60, "points at which another thread comes in between", len(rep.obl) - n0 + len(rep.viol))
    acc = []
    for n, c in SHARED.items():
        outs, ip = asyncs.explore(prog, "probe_s_" + n, init, xmodel, cls=Interp, max_visits=24)
        rep.require(1, "paths of " + n, len(outs))
        judge(rep, "s_" + n, c, outs)
        acc += [("p", off, sz, rw, frozenset(("p", l[1]) for l in h if l[0] == o), n + ": " + how) for o, off, sz, rw, h, how in ip.acc]
    cnt = 0
    for (o, off), (w, l, ev) in sorted(asyncs.common(acc).items(), key=str):
        if w:
            cnt += 1
            rep.check(bool(l), "guard:%d" % off, "every access holds a common lock", "%s: byte %d of a context is accessed without a common lock: %s" % (W, off, sorted({"%s with %s" % (how, sorted(x[1] for x in h)) if h else how for rw, h, how in ev})))
    rep.require(24, "bytes shared between methods", cnt)


def judge(sub, n, c, outs):
    asyncs.locks_ok(sub, W, n, outs)
    for k, st in outs:
        late = [e for e in st.events if e[0] in ("late", "doublefree")]
        sub.check(not late, "late:" + n, "nothing gone is told of cancellation", "%s: `%s` uses a context that is gone: %s" % (W, c, late[:1]))
        born, edges = {}, {}
        for e in st.events:
            if e[0] == "mutex":
                born.setdefault(e[1][0], len(born))
            if e[0] == "order" and e[1][0] in born and e[2][0] in born:
                a, b = born[e[1][0]], born[e[2][0]]
                edges[(e[1][1], e[2][1], (b > a) - (b < a))] = True
        for a, b, s in edges:
            sub.check((b, a, -s) not in edges and not (a == b and s <= 0), "order:" + n, "locks are taken from parent to child", "%s: `%s`: takes the lock at %d of %s context while holding the one at %d" % (W, c, b, "the same" if not s else "a parent's", a))
        for j, e in enumerate(st.events):
            if e[0] == "notify":
                me = e[1][0]
                held = [x for x in e[2] if x[0] == me]
                sub.check(bool(held), "notify:" + n, "the parent can not be gone when told", "%s: `%s`: tells a parent that its child is gone after giving up the parent's lock" % (W, c))
