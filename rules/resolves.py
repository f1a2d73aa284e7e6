"""Name resolution: what is asked of the system, and who gets the answer."""
import re
import ir, absint, objs, errs, asyncs, par, futures, rpcs
from absint import Int, Ptr, Throw, Nested, NULL
from channels import fmt

W = "src/arpc/address_resolver.cpp"
SRC = r'''
#include "arpc/address_resolver.h"
#include "arpc/address_resolver.cpp"
#include "arpc/address.cpp"
#include "arpc/future.cpp"
#include "arpc/awaitable.cpp"
int verif_threads = 0;
void (*verif_run[4])(void*) = {};
void* verif_arg[4] = {};
extern "C" {
void mark(int); void got(long); void on(int); void here(const char*); void cancel_me(); void work(int); void back(int); void gotp(const void*);
}
using R = arpc::address_resolver;
using E = arpc::endpoint;
#define MAKE auto& r = R::get();
#define TRY(x) try { x; } catch (const arpc::errors::io_error&) { mark(50); } catch (const arpc::errors::cancelled&) { mark(51); } catch (const arpc::errors::unavailable&) { mark(52); } catch (const arpc::errors::try_again&) { mark(53); } catch (const arpc::errors::invalid_state&) { mark(54); }
static void first(arpc::address_list& l) { if (l.empty()) here("none"); else gotp(&*l.begin()); }
static void see(arpc::future<arpc::address_list>& f) { TRY(auto l = f.maybe_get(); first(l)) }
'''
FLAGS = tuple("-iquote%s/stub/%s" % (ir.VERIF, d) for d in ("resolve", "flat")) + asyncs.STUB + ("-fno-access-control",)
POL = rpcs.POL


def ai(p):
    return str(p.obj[1] - 9000) if isinstance(p, Ptr) and p.obj[:1] == ("new",) else fmt(p)


def model(prog, steps=(), net=None):
    rest = rpcs.model(prog, steps, net)
    net = net or {}

    def mo(ip, st, i, name, args):
        nm = re.sub(r" const$", "", name)
        say = lambda x: rpcs.say(st, x)
        if nm == "__cxa_guard_acquire":
            return True, Int.const(32, 1)
        if nm == "__cxa_guard_release":
            ip.store(st, args[0], Int.const(8, 1), 1)
            return True, None
        if nm == "getaddrinfo":
            s = []
            for p in args[:2]:
                if p == NULL:
                    s.append("null")
                else:
                    t = objs.cstr_tok(ip, p) or objs.get(st, p)
                    s.append(rpcs.strof(t))
            h = ["%s" % fmt(ip.load(st, Ptr(args[2].obj, args[2].off + o), 4, "i32")) for o in (0, 4, 8, 12)] if args[2] != NULL else ["no hints"]
            if args[2] != NULL:
                l = [ip.load(st, Ptr(args[2].obj, args[2].off + o), 8, "i64") for o in (24, 32, 40)]
                if not all(x == NULL or isinstance(x, Int) and x.value == 0 for x in l):
                    h.append("more")
            say("resolve %s %s %s" % (s[0], s[1], ",".join(h)))
            k = st.mem[("$asked",)] = st.mem.get(("$asked",), 0) + 1
            x = net.get("answers", [0])
            x = x[min(k, len(x)) - 1]
            if not x:
                ip.store(st, args[3], Ptr(("new", 9000 + k), 0), 8)
            return True, Int.const(32, x)
        if nm == "freeaddrinfo":
            return say("free %s" % ai(args[0]))
        if nm == "gotp":
            return say("list %s" % ai(args[0]))
        return rest(ip, st, i, name, args)
    return mo


ASK = {
    "one": (["MAKE work(0); auto l = r.resolve(E().name(\"n\").service(\"s\")); first(l); mark(1);", "work(0);"], "wait resolve 'n' 's' 40,0,1,0 list 1 #1 free 1"),
    "noname": (["MAKE work(0); auto l = r.resolve(E().service(\"s\").passive().datagram().ipv4()); first(l); mark(1);", "work(0);"], "wait resolve null 's' 41,2,2,0 list 1 #1 free 1"),
    "noservice": (["MAKE work(0); auto l = r.resolve(E().name(\"n\").ipv6().passive().active()); first(l); mark(1);", "work(0);"], "wait resolve 'n' null 40,10,1,0 list 1 #1 free 1"),
    "fails": (["MAKE work(0); E e; e.name(\"n\").service(\"s\"); TRY(auto l = r.resolve(e); first(l)) mark(1); TRY(auto l = r.resolve(e); first(l)) mark(2);", "work(0);", "work(0);"], "wait resolve 'n' 's' 40,0,1,0 #50 #1 wait resolve 'n' 's' 40,0,1,0 list 2 free 2 #2", {"answers": [-2, 0]}),
    "order": ("MAKE E e; e.name(\"a\"); auto f = r.async_resolve(e); e.name(\"b\"); auto g = r.async_resolve(e); auto h = r.async_resolve(E().name(\"c\")); see(f); work(0); mark(1); see(h); see(g); see(f); auto i = r.async_resolve(E().name(\"d\")); work(0); see(i); mark(2);", "#53 resolve 'a' null 40,0,1,0 resolve 'b' null 40,0,1,0 resolve 'c' null 40,0,1,0 #1 list 3 free 3 #50 list 1 free 1 resolve 'd' null 40,0,1,0 #50 #2", {"answers": [0, -3, 0, -2]}),
    "unwanted": ("MAKE { auto f = r.async_resolve(E().name(\"a\")); } work(0); mark(1); auto g = r.async_resolve(E().name(\"b\")); work(0); see(g);", "resolve 'a' null 40,0,1,0 free 1 #1 resolve 'b' null 40,0,1,0 list 2 free 2"),
    "kept": ("MAKE E e; e.name(\"a\").service(\"s\"); auto f = r.async_resolve(e); auto g = r.async_resolve(e); work(0); see(f); see(g);", "resolve 'a' 's' 40,0,1,0 resolve 'a' 's' 40,0,1,0 list 1 free 1 list 2 free 2"),
    "given": ("MAKE E e; e.name(\"a\").service(\"s\"); auto f = r.async_resolve(std::move(e)); work(0); see(f); E d; d.name(\"b\"); TRY(auto l = r.resolve(std::move(d)); first(l))", "resolve 'a' 's' 40,0,1,0 list 1 free 1 wait"),
    "cancelled": (["MAKE work(0); TRY(auto l = r.resolve(E().name(\"a\")); first(l)) mark(1); work(0);", "cancel_me();"], "wait #51 #1 resolve 'a' null 40,0,1,0 free 1"),
    "full": (["MAKE work(0); arpc::future<arpc::address_list> f[17]; for (int k = 0; k < 17; k++) f[k] = r.async_resolve(E().name(\"a\")); mark(2); work(0); see(f[0]); see(f[15]); see(f[16]); mark(3);", "mark(1); work(0);"], "wait #1 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 #2 resolve 'a' null 40,0,1,0 list 1 free 1 list 16 free 16 list 17 free 17 #3 free 15 free 14 free 13 free 12 free 11 free 10 free 9 free 8 free 7 free 6 free 5 free 4 free 3 free 2"),
    "fullr": (["MAKE work(0); arpc::future<arpc::address_list> f[17]; for (int k = 0; k < 17; k++) { E e; e.name(\"a\"); f[k] = r.async_resolve(std::move(e)); } mark(2); work(0); see(f[0]); see(f[15]); see(f[16]); mark(3);", "mark(1); work(0);"], "wait #1 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 resolve 'a' null 40,0,1,0 #2 resolve 'a' null 40,0,1,0 list 1 free 1 list 16 free 16 list 17 free 17 #3 free 15 free 14 free 13 free 12 free 11 free 10 free 9 free 8 free 7 free 6 free 5 free 4 free 3 free 2"),
    "ends": ("arpc::future<arpc::address_list> f, g; { R r; f = r.async_resolve(E().name(\"a\")); work(0); g = r.async_resolve(E().name(\"b\")); mark(1); } mark(2); see(f); see(g);", "resolve 'a' null 40,0,1,0 #1 cancel0 join0 #2 list 1 free 1 #54"),
    "same": ("auto& a = R::get(); auto& b = R::get(); got(&a == &b); got(&arpc::singleton<R>::get() == &a);", '1 1'),
}


init = rpcs.init


def build(name, table):
    src, code = "", {}
    for n, v in table.items():
        steps = v[0] if isinstance(v[0], list) else [v[0]]
        for k, c in enumerate(steps):
            src += "void probe_%s_%d() { %s %s}\n" % (n, k, c, "back(%d); " % k if k else "")
        code[n] = (["probe_%s_%d" % (n, k) for k in range(len(steps))], " / ".join(steps), v[1], v[2] if len(v) > 2 else None)
    return ir.extract([ir.compile_bc(name + ".cpp", FLAGS, SRC + src)], POL), code


def play(rep, table):
    errs.STRS.clear()
    prog, code = build("resolves", table)

    def one(sub, n):
        steps, c, want, net = code[n]
        outs, ip = asyncs.explore(prog, steps[0], init, model(prog, steps, net), cls=rpcs.Interp, max_visits=400)
        sub.require(1, "paths of " + n, len(outs))
        for k, st in outs:
            bad = [e for e in st.events if e[0] in ("relock", "badunlock", "doublefree", "terminate")]
            sub.check(not bad, "locks:" + n, "locks are taken and released in turn", "%s: `%s`: %s" % (W, c, bad[:2]))
            late = futures.late_use(st)
            sub.check(not late, "late:" + n, "nothing is used after it is freed", "%s: `%s` %s" % (W, c, late))
        got = {rpcs.story(k, st) for k, st in outs}
        sub.check(len(got) == 1 and got <= set(want if isinstance(want, tuple) else [want]), n, "what is asked and answered", "%s: `%s`: %s; should be %s" % (W, c, " or ".join(sorted(got)), want[0] if isinstance(want, tuple) else want))
    par.each(rep, one, list(code))


def c49(rep, tier):
    play(rep, ASK)
