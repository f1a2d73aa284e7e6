"""Combined functions and conditions: what is called, in which order, with what,
and which attributes a condition keeps or gets."""
import re
import ir, absint, errs, asyncs, par, queues
from absint import Int, Ptr, Throw
from channels import fmt, norm, tell, bits

WF, WA = "src/arpc/function.h", "src/arpc/awaitable.h"
SRC = r'''
#include <chrono>
#include <memory>
#include "arpc/function.h"
#include "arpc/awaitable.h"
extern "C" { void mark(int); void got(long); void thr(int); }
struct V { long v; V(); V(long); V(const V&); V(V&&); V& operator=(const V&); V& operator=(V&&); ~V(); };
extern "C" { void gotv(const V&); }
struct X {}; struct XX : X {}; struct Y {};
extern "C" { void gotx(const X&); void sentx(const X&); }
using arpc::awaitable;
using namespace std::chrono;
using AV = awaitable<void>;
#define SHOW(w) got(w.get_fd()); got(w.for_write()); got(w.timeout() / milliseconds(1)); got(w.for_polling());
// tells how it was called
struct How {
  V t;
  explicit How(long n) : t(n) {}
  How(How&&) = default;
  How(const How&) = delete;
  V operator()(V&& a) { mark(1); gotv(t); gotv(a); return V(8); }
  V operator()(V& a) { mark(2); gotv(t); gotv(a); return V(8); }
  V operator()(const V& a) { mark(3); gotv(t); gotv(a); return V(8); }
};
struct Second {
  V t;
  explicit Second(long n) : t(n) {}
  Second(Second&&) = default;
  Second(const Second&) = delete;
  V operator()(V&& a) { mark(4); gotv(t); gotv(a); return V(7); }
  V operator()(V& a) { mark(5); gotv(t); gotv(a); return V(7); }
  V operator()(const V& a) { mark(6); gotv(t); gotv(a); return V(7); }
};
struct HowV {
  void operator()(V&& a) { mark(1); gotv(a); }
  void operator()(V& a) { mark(2); gotv(a); }
  void operator()(const V& a) { mark(3); gotv(a); }
};
using arpc::compose_pipe; using arpc::compose_wrap; using arpc::compose_catch;
'''
# name: (code, story)
F = {
    "pipe": ("auto g = compose_pipe<V>(How(9), Second(5)); mark(0); gotv(g(V(1)));", "#0 #1 v9 v1 #4 v5 v8 v7"),
    "pipel": ("auto g = compose_pipe<V&>(How(9), Second(5)); V a(1); gotv(g(a)); gotv(a);", "#2 v9 v1 #4 v5 v8 v7 v1"),
    "pipec": ("auto g = compose_pipe<const V&>(How(9), Second(5)); V a(1); gotv(g(a)); gotv(a);", "#3 v9 v1 #4 v5 v8 v7 v1"),
    "pipeagain": ("auto g = compose_pipe<V>(How(9), Second(5)); g(V(1)); g(V(2));", "#1 v9 v1 #4 v5 v8 #1 v9 v2 #4 v5 v8"),
    "pipevoid": ("auto g = compose_pipe<V>(How(9), [](V r) { mark(4); gotv(r); }); g(V(1)); mark(5);", "#1 v9 v1 #4 v8 #5"),
    "pipefromvoid": ("auto g = compose_pipe<V>([](V a) { mark(1); gotv(a); }, []() { mark(4); return V(7); }); gotv(g(V(1)));", "#1 v1 #4 v7"),
    "pipevoids": ("auto g = compose_pipe<V>([](V a) { mark(1); gotv(a); }, []() { mark(4); }); g(V(1)); mark(5);", "#1 v1 #4 #5"),
    "pipetwo": ("auto g = compose_pipe<V, V&>([](V a, V& b) { gotv(a); gotv(b); b = V(4); return V(7); }, Second(5)); V b(2); gotv(g(V(1), b)); gotv(b);", "v1 v2 #4 v5 v7 v7 v4"),
    "pipenone": ("auto g = compose_pipe<>([]() { mark(1); return V(8); }, Second(5)); gotv(g());", "#1 #4 v5 v8 v7"),
    "pipethrow1": ("auto g = compose_pipe<>([]() { mark(1); thr(1); return V(8); }, Second(5)); gotv(g());", "#1 throw X"),
    "pipethrow2": ("auto g = compose_pipe<>([]() { mark(1); return V(8); }, [](V r) { gotv(r); thr(3); }); g();", "#1 v8 throw Y"),
    "pipethrow3": ("auto g = compose_pipe<>([]() { mark(1); thr(1); }, []() { mark(2); }); g();", "#1 throw X"),
    "pipechain": ("auto g = compose_pipe<V>(compose_pipe<V>(How(9), Second(5)), Second(6)); gotv(g(V(1)));", "#1 v9 v1 #4 v5 v8 #4 v6 v7 v7"),
    "pipemoved": ("auto p = std::make_unique<int>(3); auto g = compose_pipe<>([p = std::move(p)]() { got(*p); return V(8); }, Second(5)); auto h = std::move(g); gotv(h());", "3 #4 v5 v8 v7"),
    "wrap": ("auto g = compose_wrap<V>(How(9), [t = V(5)](How& f, V a) { mark(4); gotv(t); gotv(a); V r = f(V(2)); gotv(r); mark(6); return V(7); }); mark(0); gotv(g(V(1)));", "#0 #4 v5 v1 #1 v9 v2 v8 #6 v7"),
    "wrapvoid": ("auto g = compose_wrap<V&>([](V& a) { mark(1); gotv(a); a = V(3); }, [](auto& f, V& a) { mark(4); f(a); mark(5); }); V a(1); g(a); gotv(a);", "#4 #1 v1 #5 v3"),
    "wrapskip": ("auto g = compose_wrap<V>(How(9), [](How&, V a) { mark(4); gotv(a); return V(7); }); gotv(g(V(1)));", "#4 v1 v7"),
    "wraptwice": ("auto g = compose_wrap<>([n = 0]() mutable { got(++n); }, [m = 10](auto& f) mutable { got(++m); f(); f(); }); g(); g();", "11 1 2 12 3 4"),
    "wraptwo": ("auto g = compose_wrap<V, V>(How(9), [](How& f, V&& a, V&& b) { gotv(a); gotv(b); return f(std::move(b)); }); gotv(g(V(1), V(2)));", "v1 v2 #1 v9 v2 v8"),
    "wrapcat": ("auto g = compose_wrap<V&>(How(9), [](How& f, auto&& a) { return f(std::forward<decltype(a)>(a)); }); V a(1); gotv(g(a));", "#2 v9 v1 v8"),
    "wrapcat2": ("auto g = compose_wrap<V>(How(9), [](How& f, auto&& a) { return f(std::forward<decltype(a)>(a)); }); gotv(g(V(1)));", "#1 v9 v1 v8"),
    "wrapcatvoid": ("auto g = compose_wrap<V>([](V& a) { gotv(a); }, [](auto& f, auto&& a) { mark(std::is_same_v<decltype(a), V&&> ? 1 : 2); f(a); }); g(V(1));", "#1 v1"),
    "wrapcatvoid2": ("auto g = compose_wrap<V&>([](V& a) { gotv(a); }, [](auto& f, auto&& a) { mark(std::is_same_v<decltype(a), V&> ? 1 : 2); f(a); }); V a(1); g(a);", "#1 v1"),
    "catchcatvoid": ("auto g = compose_catch<X, V>(HowV(), [](const X&) {}); g(V(1));", "#1 v1"),
    "catchcatvoid2": ("auto g = compose_catch<X, V&>(HowV(), [](const X&) {}); V a(1); g(a);", "#2 v1"),
    "pipecatvoid": ("auto g = compose_pipe<V>(HowV(), []() { mark(4); }); g(V(1));", "#1 v1 #4"),
    "pipecatvoid2": ("auto g = compose_pipe<V>(HowV(), []() { mark(4); return V(2); }); gotv(g(V(1)));", "#1 v1 #4 v2"),
    "pipecatvoid3": ("auto g = compose_pipe<V>(How(9), [](V&& r) { mark(4); gotv(r); }); g(V(1));", "#1 v9 v1 #4 v8"),
    "wrapthrow": ("auto g = compose_wrap<>([]() { thr(1); }, [](auto& f) { try { f(); } catch (const X&) { mark(4); } }); g(); mark(5);", "#4 #5"),
    "wrapthrow2": ("auto g = compose_wrap<>([]() { thr(1); }, [](auto& f) { mark(4); f(); mark(5); }); g();", "#4 throw X"),
    "catchnone": ("auto g = compose_catch<X, V>(How(9), [](const X&) { mark(4); return V(7); }); mark(0); gotv(g(V(1)));", "#0 #1 v9 v1 v8"),
    "catchl": ("auto g = compose_catch<X, V&>(How(9), [](const X&) { mark(4); return V(7); }); V a(1); gotv(g(a)); gotv(a);", "#2 v9 v1 v8 v1"),
    "catchit": ("auto g = compose_catch<X, V>([](V a) { gotv(a); thr(1); return V(8); }, [t = V(5)](const X& e) { mark(4); gotv(t); gotx(e); return V(7); }); gotv(g(V(1)));", "v1 #4 v5 thrown v7"),
    "catchsub": ("auto g = compose_catch<X>([]() { thr(2); return V(8); }, [](const X& e) { mark(4); gotx(e); return V(7); }); gotv(g());", "#4 thrown v7"),
    "catchother": ("auto g = compose_catch<X>([]() { thr(3); return V(8); }, [](const X& e) { mark(4); return V(7); }); gotv(g());", "throw Y"),
    "catchsuper": ("auto g = compose_catch<XX>([]() { thr(1); return V(8); }, [](const XX& e) { mark(4); return V(7); }); gotv(g());", "throw X"),
    "catchagain": ("auto g = compose_catch<X>([n = 0]() mutable { got(++n); thr(1); return V(8); }, [m = 10](const X& e) mutable { got(++m); return V(7); }); gotv(g()); gotv(g());", "1 11 v7 2 12 v7"),
    "catchhandler": ("auto g = compose_catch<X>([]() { thr(1); return V(8); }, [](const X& e) -> V { mark(4); thr(3); return V(7); }); gotv(g());", "#4 throw Y"),
    "catchhandler2": ("auto g = compose_catch<X>([]() { thr(1); return V(8); }, [](const X& e) -> V { mark(4); thr(1); return V(7); }); gotv(g());", "#4 throw X"),
    "catchvoid": ("auto g = compose_catch<X, V>([](V a) { gotv(a); thr(1); mark(3); }, [](const X& e) { mark(4); gotx(e); }); g(V(1)); mark(5);", "v1 #4 thrown #5"),
    "catchvoid0": ("auto g = compose_catch<X, V>([](V a) { gotv(a); }, [](const X& e) { mark(4); }); g(V(1)); mark(5);", "v1 #5"),
    "catchvoid2": ("auto g = compose_catch<X>([]() { thr(3); }, [](const X& e) { mark(4); }); g();", "throw Y"),
    "catchtwo": ("auto g = compose_catch<X, V, V&>([](V a, V& b) { gotv(a); gotv(b); b = V(4); return V(8); }, [](const X&) { return V(7); }); V b(2); gotv(g(V(1), b)); gotv(b);", "v1 v2 v8 v4"),
    "catchnest": ("auto g = compose_catch<Y>(compose_catch<X>([]() { thr(3); return V(8); }, [](const X&) { mark(4); return V(7); }), [](const Y&) { mark(5); return V(6); }); gotv(g());", "#5 v6"),
    "catchnest2": ("auto g = compose_catch<X>(compose_pipe<>([]() { mark(1); return V(8); }, [](V v) { gotv(v); thr(1); return V(2); }), [](const X&) { mark(4); return V(7); }); gotv(g());", "#1 v8 #4 v7"),
}
KEEP = {"rd": ("AV(5)", "5 0 -1 0"), "wr": ("AV(6, true)", "6 1 -1 0"), "tm": ("AV(milliseconds(70))", "-1 0 70 0"), "pl": ("AV(milliseconds(80), true)", "-1 0 80 1")}
A = {
    "never": ("auto w = arpc::never(); SHOW(w)", "-1 0 -1 0"),
    "always": ("auto w = arpc::always(); SHOW(w)", "-1 0 0 0"),
    "neverfn": ("auto w = arpc::never(); w.get_react_fn()(); mark(1);", "#1"),
    "alwaysfn": ("auto w = arpc::always(); w.get_react_fn()(); mark(1);", "#1"),
    "dl0": ("auto w = arpc::deadline(system_clock::time_point(seconds(5))); SHOW(w)", "-1 0 0 0"),
    "dlpast": ("auto w = arpc::deadline(system_clock::time_point(seconds(4))); SHOW(w)", "-1 0 0 0"),
    "dlpast2": ("auto w = arpc::deadline(system_clock::time_point(seconds(-4))); SHOW(w)", "-1 0 0 0"),
    "dl": ("auto w = arpc::deadline(system_clock::time_point(milliseconds(5250))); SHOW(w)", "-1 0 250 0"),
    "dlfar": ("auto w = arpc::deadline(system_clock::time_point(hours(2))); SHOW(w)", "-1 0 7195000 0"),
    "dlfn": ("auto w = arpc::deadline(system_clock::time_point(seconds(6))); w.get_react_fn()(); mark(1);", "#1"),
}
for n, d, v in (("ms", "milliseconds(7)", 7), ("zero", "milliseconds(0)", 0), ("s", "seconds(3)", 3000), ("h", "hours(30)", 108000000), ("us", "microseconds(5000)", 5), ("ns", "nanoseconds(9000000)", 9), ("big", "hours(24 * 365)", 31536000000)):
    A["timeout" + n] = ("auto w = arpc::timeout(%s); SHOW(w)" % d, "-1 0 %d 0" % v)
    A["polling" + n] = ("auto w = arpc::polling(%s); SHOW(w)" % d, "-1 0 %d 1" % v)
A["timeoutfn"] = ("auto w = arpc::timeout(seconds(3)); w.get_react_fn()(); mark(1);", "#1")
A["pollingfn"] = ("auto w = arpc::polling(seconds(3)); w.get_react_fn()(); mark(1);", "#1")
for n, (c, attr) in KEEP.items():
    A["plain" + n] = ("auto w = %s; SHOW(w) w.get_react_fn()(); mark(1);" % c, attr + " #1")
    A["then" + n] = ("auto w = %s.then([]() { mark(1); return V(2); }); SHOW(w) gotv(w.get_react_fn()());" % c, attr + " #1 v2")
    A["thenvoid" + n] = ("auto w = %s.then([]() { mark(1); }); SHOW(w) w.get_react_fn()(); mark(2);" % c, attr + " #1 #2")
    A["thenthen" + n] = ("auto w = %s.then([]() { mark(1); return V(2); }).then([](V v) { gotv(v); return V(3); }); SHOW(w) gotv(w.get_react_fn()());" % c, attr + " #1 v2 v3")
    A["except" + n] = ("auto w = %s.then([]() { mark(1); thr(1); return V(2); }).except<X>([](const X& e) { gotx(e); return V(3); }); SHOW(w) gotv(w.get_react_fn()());" % c, attr + " #1 thrown v3")
    A["exceptnone" + n] = ("auto w = %s.then([]() { mark(1); return V(2); }).except<X>([](const X& e) { gotx(e); return V(3); }); SHOW(w) gotv(w.get_react_fn()());" % c, attr + " #1 v2")
    A["exceptother" + n] = ("auto w = %s.then([]() { mark(1); thr(3); }).except<X>([](const X& e) { gotx(e); }); SHOW(w) w.get_react_fn()();" % c, attr + " #1 throw Y")
    A["exceptafter" + n] = ("auto w = %s.except<X>([](const X& e) { gotx(e); }).then([]() { mark(1); thr(1); }); SHOW(w) w.get_react_fn()();" % c, attr + " #1 throw X")
    A["decorate" + n] = ("auto w = %s.then([]() { mark(1); return V(2); }).decorate([](auto& f) { mark(3); V v = f(); gotv(v); return V(4); }); SHOW(w) gotv(w.get_react_fn()());" % c, attr + " #3 #1 v2 v4")
    A["decoratevoid" + n] = ("auto w = %s.decorate([](auto& f) { mark(3); f(); mark(4); }); SHOW(w) w.get_react_fn()(); mark(5);" % c, attr + " #3 #4 #5")
    A["move" + n] = ("auto u = %s.then([]() { mark(1); return V(2); }); auto w = std::move(u); SHOW(w) gotv(w.get_react_fn()());" % c, attr + " #1 v2")
    A["twice" + n] = ("auto w = %s.then([n = 0]() mutable { got(++n); }); w.get_react_fn()(); w.get_react_fn()();" % c, "1 2")
THROWN = {1: "_ZTI1X", 2: "_ZTI2XX", 3: "_ZTI1Y"}


def model(ip, st, i, name, args):
    nm = re.sub(r" const$", "", name)
    if nm in ("mark", "got"):
        st.events.append(("say", ("#" if nm == "mark" else "") + fmt(args[0])))
        return True, None
    if nm == "thr":
        k = args[0].value
        return True, Throw(THROWN[k]) if k in THROWN else "end"
    if nm == "gotx":
        # the very object that was thrown, not a copy of it
        st.events.append(("say", "thrown" if isinstance(args[0], Ptr) and args[0].obj[0] in ("exc", "exn", "caught") else "copy"))
        return True, None
    if re.match(r"std::chrono::_V2::(system|steady)_clock::now", nm):
        return True, Int.const(64, 5000000000)
    if nm == "gotv" or re.match(r"V::(~?V|operator=)$", nm):
        return queues.qmodel(ip, st, i, name, args)
    return False, None


def c46(rep, tier):
    errs.STRS.clear()
    jobs = [("F", n) for n in F] + [("A", n) for n in A]
    src = "".join("void probe_%s_%s() { %s }\n" % (g, n, (F if g == "F" else A)[n][0]) for g, n in jobs)
    prog = ir.extract([ir.compile_bc("combos.cpp", asyncs.STUB, SRC + src), ir.compile_bc(ir.repo_src("awaitable.cpp"), asyncs.STUB)], asyncs.POL + "keep ^V::\n")

    def one(sub, job):
        g, n = job
        code, want = (F if g == "F" else A)[n]
        outs, ip = asyncs.explore(prog, "probe_%s_%s" % job, lambda ip, st: None, model)
        got = {norm(tell(k, st)) for k, st in outs}
        sub.check(got == {norm(want.split())}, "%s:%s" % job, "calls and keeps what it should", "%s: { %s } does: %s; should be: %s" % (WF if g == "F" else WA, code, " or ".join(sorted(got)), want))
        for k, st in outs:
            sub.check(not [e for e in st.events if e[0] == "doublefree"], "%s:%s:free" % job, "", "%s: { %s } frees twice" % (WA, code))
    rep.require(80, "scenarios", len(jobs))
    par.each(rep, one, jobs)
