"""Threads: their function runs once, in a context below its creator's."""
import re
import ir, absint, objs, errs, asyncs, par, queues, witness
from absint import Int, Ptr, Sym, TOP, NULL, Throw, May, Agg, Nested
from packets import fn1
from channels import fmt, norm, tell

W = "src/arpc/thread.h"
SRC = r'''
#include "arpc/thread.h"
extern "C" { void mark(int); void got(long); std::thread::_State* spawned(int); void where(); }
struct V { long v; V(); V(long); V(const V&); V(V&&); V& operator=(const V&); V& operator=(V&&); ~V(); };
extern "C" void gotv(const V&);
struct X {};
using arpc::thread; using arpc::daemon_thread;
static void go(int n) { auto* s = spawned(n); s->_M_run(); delete s; where(); }
struct O { long n; void f(V v) { got(n); gotv(v); } };
struct K { V v; void operator()() { gotv(v); where(); } };
struct M { V v; M(const M&) = delete; M(M&&) = default; M(long k) : v(k) {} };
'''
# name: (code, story). cur: the context current where the thread is made, top:
# the outermost one; cN: the N-th context made.
T = {
    "plain": ("thread t([]() { where(); mark(1); }); mark(2); go(0); t.join();", "c1(cur) start #2 c2(c1)* in=c2 #1 ~c2 in=cur join ~c1"),
    "daemon": ("daemon_thread t([]() { where(); mark(1); }); mark(2); go(0); t.join();", "c1(top) start #2 c2(c1)* in=c2 #1 ~c2 in=cur join ~c1"),
    "args": ("V a(1); thread t([](V x, const V& y, int z) { gotv(x); gotv(y); got(z); }, a, V(2), 7); a = V(3); gotv(a); go(0); t.join();", "c1(cur) start v3 c2(c1)* v1 v2 7 ~c2 in=cur join ~c1"),
    "ref": ("V a(1); thread t([](V& x) { gotv(x); x = V(5); }, std::ref(a)); go(0); gotv(a); t.join();", "c1(cur) start c2(c1)* v1 ~c2 in=cur v5 join ~c1"),
    "moveonly": ("thread t([](M m) { gotv(m.v); }, M(4)); go(0); t.join();", "c1(cur) start c2(c1)* v4 ~c2 in=cur join ~c1"),
    "copied": ("K k{V(1)}; thread t(k); k.v = V(2); go(0); gotv(k.v); t.join();", "c1(cur) start c2(c1)* v1 in=c2 ~c2 in=cur v2 join ~c1"),
    "kept": ("K k{V(1)}; thread t(k); gotv(k.v); V a(2); thread u([](V x) { gotv(x); }, a); gotv(a); go(0); go(1); u.join(); t.join();", "c1(cur) start v1 c2(cur) start v2 c3(c1)* v1 in=c3 ~c3 in=cur c4(c2)* v2 ~c4 in=cur join join ~c2 ~c1"),
    "mutable": ("thread t([n = 3]() mutable { n++; got(n); }); go(0); t.join();", "c1(cur) start c2(c1)* 4 ~c2 in=cur join ~c1"),
    "cancelled": ("thread t([]() { mark(1); throw arpc::errors::cancelled(\"\"); }); go(0); t.join();", "c1(cur) start c2(c1)* #1 ~c2 in=cur join ~c1"),
    "deadline": ("daemon_thread t([]() { mark(1); throw arpc::errors::deadline_exceeded(\"\"); }); go(0); t.join();", "c1(top) start c2(c1)* #1 ~c2 in=cur join ~c1"),
    "other": ("auto* t = new thread([]() { mark(1); throw X(); }); go(0);", "c1(cur) start c2(c1)* #1 ~c2 throw X"),
    "other2": ("auto* t = new thread([]() { mark(1); throw arpc::errors::try_again(\"\"); }); go(0);", "c1(cur) start c2(c1)* #1 ~c2 throw try_again"),
    "cancel": ("thread t([]() {}); t.get_context().cancel(); go(0); t.join();", "c1(cur) start cancel(c1) c2(c1)* ~c2 in=cur join ~c1"),
    "empty": ("thread t; got(t.joinable()); mark(1);", "0 #1"),
    "move": ("thread t([]() { where(); }); thread u(std::move(t)); got(t.joinable()); got(u.joinable()); u.get_context().cancel(); go(0); u.join();", "c1(cur) start 0 1 cancel(c1) c2(c1)* in=c2 ~c2 in=cur join ~c1"),
    "assign": ("thread t; t = thread([]() { where(); }); got(t.joinable()); t.get_context().cancel(); go(0); t.join();", "c1(cur) start 1 cancel(c1) c2(c1)* in=c2 ~c2 in=cur join ~c1"),
    "again": ("thread t([]() { mark(1); }); go(0); t.join(); t = thread([]() { mark(2); }); go(1); t.join();", "c1(cur) start c2(c1)* #1 ~c2 in=cur join c3(cur) start ~c1 c4(c3)* #2 ~c4 in=cur join ~c3"),
    "swap": ("thread t([]() { mark(1); }); thread u([]() { mark(2); }); std::swap(t, u); t.get_context().cancel(); go(0); go(1); t.join(); u.join();", "c1(cur) start c2(cur) start cancel(c2) c3(c1)* #1 ~c3 in=cur c4(c2)* #2 ~c4 in=cur join join ~c1 ~c2"),
    "two": ("thread t([]() { mark(1); }); thread u([]() { mark(2); }); go(1); go(0); t.join(); u.join();", "c1(cur) start c2(cur) start c3(c2)* #2 ~c3 in=cur c4(c1)* #1 ~c4 in=cur join join ~c2 ~c1"),
    "nested": ("thread t([]() { thread u([]() { where(); }); go(1); u.join(); }); go(0); t.join();", "c1(cur) start c2(c1)* c3(c2) start c4(c3)* in=c4 ~c4 in=c2 join ~c3 ~c2 in=cur join ~c1"),
    "nestedd": ("thread t([]() { daemon_thread u([]() { where(); }); go(1); u.join(); }); go(0); t.join();", "c1(cur) start c2(c1)* c3(top) start c4(c3)* in=c4 ~c4 in=c2 join ~c3 ~c2 in=cur join ~c1"),
    "result": ("thread t([]() { mark(1); return V(2); }); go(0); t.join();", "c1(cur) start c2(c1)* #1 ~c2 in=cur join ~c1"),
}
POL = asyncs.POL.replace("keep ^std::(thread|this_thread)\n", "inline ^(__gthread|O::)\nkeep ^std::thread::(_M_start_thread|join|detach)$\nkeep ^std::thread::_State::(~?_State)$\nkeep ^std::this_thread\n") + "keep ^V::\n"
KNOWN = Ptr(("buf", "cur"), 0), Ptr(("buf", "top"), 0)


def model(ip, st, i, name, args):
    nm = re.sub(r" const$", "", name)

    def say(x):
        st.events.append(("say", x))
        return True, None

    def who(p):
        return st.mem.get(("$ctx", p.obj, p.off)) or (p.obj[1] if p in KNOWN else "a context that is not there")

    def cur():
        return st.mem.get(("$cur",), (KNOWN[0],))[-1]
    if nm == "mark":
        return say("#" + fmt(args[0]))
    if nm == "got":
        return say(fmt(args[0]))
    if nm == "where":
        return say("in=" + who(cur()))
    if nm == "ctx_new":
        n = st.mem.get(("$n",), 0) + 1
        st.mem[("$n",)] = n
        par_ = who(args[1])
        st.mem[("$ctx", args[0].obj, args[0].off)] = "c%d" % n
        c, s = args[2].value, args[3].value
        if c:
            st.mem[("$cur",)] = st.mem.get(("$cur",), (KNOWN[0],)) + (args[0],)
        return say("c%d(%s)%s%s" % (n, par_, "*" if c else "", " shield" if s else ""))
    if nm == "ctx_end":
        w = who(args[0])
        st.mem.pop(("$ctx", args[0].obj, args[0].off), None)
        c = st.mem.get(("$cur",), (KNOWN[0],))
        if args[0] in c:
            if c[-1] != args[0]:
                say("out of order")
            st.mem[("$cur",)] = tuple(x for x in c if x != args[0])
        return say("~" + w)
    if nm == "ctx_cancel":
        return say("cancel(%s)" % who(args[0]))
    if nm == "ctx_current":
        return True, cur()
    if nm == "ctx_top":
        return True, KNOWN[1]
    if nm == "std::thread::_M_start_thread":
        p = ip.load(st, args[1], 8, "ptr")
        ip.store(st, args[1], NULL, 8)
        l = st.mem.get(("$spawned",), ())
        st.mem[("$spawned",)] = l + (p,)
        ip.store(st, args[0], Int.const(64, 100 + len(l)), 8)
        return say("start")
    if nm == "spawned":
        return True, st.mem[("$spawned",)][args[0].value]
    if nm == "std::thread::join":
        ip.store(st, args[0], Int.const(64, 0), 8)
        return say("join")
    if nm in ("std::thread::_State::~_State", "std::thread::detach"):
        return True, None
    if nm in ("std::terminate",):
        say("terminate")
        return True, "end"
    if re.match(r"V::(~?V|operator=)$|gotv$", nm):
        return queues.qmodel(ip, st, i, name, args)
    return False, None


def c47(rep, tier):
    errs.STRS.clear()
    src = "".join("void probe_%s() { %s }\n" % (n, c) for n, (c, w) in T.items())
    flags = ("-iquote" + ir.VERIF + "/stub/threads", "-D_GLIBCXX_THREAD_IMPL") + asyncs.STUB
    prog = ir.extract([ir.compile_bc("threads.cpp", flags, SRC + src)], POL)

    def one(sub, n):
        c, want = T[n]
        outs, ip = asyncs.explore(prog, "probe_" + n, lambda ip, st: None, model, max_visits=12)
        sub.require(1, "paths of " + n, len(outs))
        got = {norm(tell(k, st)) for k, st in outs}
        sub.check(got == {want}, n, "the function runs once, in its own context", "%s: `%s`: %s; should be %s" % (W, c, " or ".join(sorted(got)), want))
        for k, st in outs:
            twice = [e for e in st.events if e[0] == "doublefree"]
            sub.check(not twice, "free:" + n, "freed once", "%s: `%s` frees something twice" % (W, c))
            if k == "ret":
                left = {e[1].obj for e in st.events if e[0] == "new"} - {e[1].obj for e in st.events if e[0] == "delete" and isinstance(e[1], Ptr)}
                sub.check(not left, "leak:" + n, "everything is freed", "%s: `%s` leaks %s" % (W, c, sorted(left)))
    par.each(rep, one, list(T))
    C = [("detach:" + t, "!{ arpc::%s t([]() {}); t.detach(); }" % t, "a thread that could outlive its context must be rejected") for t in ("thread", "daemon_thread")]
    C += [("copy:" + t, "!{ arpc::%s t([]() {}); arpc::%s u(t); }" % (t, t), "threads can not be copied") for t in ("thread", "daemon_thread")]
    C += [("use:" + t, "{ arpc::%s t([]() {}); arpc::context& c = t.get_context(); c.cancel(); t.join(); }" % t, "threads are made from functions and have a context") for t in ("thread", "daemon_thread")]
    witness.decide(rep, "threads", SRC, C, W, ("-iquote" + ir.VERIF + "/stub/threads", "-D_GLIBCXX_THREAD_IMPL") + asyncs.STUB)
