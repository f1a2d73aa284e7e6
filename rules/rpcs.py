"""Remote calls: what client and server say to each other and keep in mind."""
import itertools
import re
import ir, absint, objs, errs, asyncs, par, futures, queues, pools, witness
from absint import Int, Ptr, Sym, TOP, NULL, Throw, May, Agg, Nested
from packets import fn1
from channels import fmt, norm, tell

W = "src/arpc/client.h and server.h"
SRC = r'''
#include "arpc/client.h"
#include "arpc/server.h"
#include "arpc/future.cpp"
#include "arpc/awaitable.cpp"
int verif_threads = 0;
void (*verif_run[4])(void*) = {};
void* verif_arg[4] = {};
extern "C" {
void mark(int); void got(long); void gots(const std::string*); void where(); void limit(); void on(int); void job(int); void here(const char*); void incoming(int, int); void cancel_me(); void locked(); void work(int); void pass(int); void again(int, int, int); void forget(int); void watched(int); int jobs(); void inbox(int n, std::string*);
void enc_new(std::string*); void enc_num(std::string*, int kind, long v); void enc_str(std::string*, const std::string*); void enc_ctx(std::string*, const arpc::context*);
void enc_exc(std::string*, const std::exception_ptr*);
void dec_new(arpc::string_input_stream*); long dec_num(arpc::string_input_stream*, int kind); void dec_str(arpc::string_input_stream*, std::string*); long dec_ctx(arpc::string_input_stream*); bool dec_exc(arpc::string_input_stream*, std::exception_ptr*);
void show(const std::string*);
}
struct X {};
template <typename T> constexpr int kind_of() { return std::is_same_v<T, bool> ? 1 : sizeof(T) * 10 + (std::is_enum_v<T> ? 3 : std::is_signed_v<T> ? 2 : 1); }
struct Enc {
  explicit Enc(arpc::string_output_stream& o) : s(o.text) { enc_new(s); }
  template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> void operator()(T t) { enc_num(s, kind_of<T>(), static_cast<long>(t)); }
  void operator()(const std::string& t) { enc_str(s, &t); }
  void operator()(const char* t) { std::string x(t); enc_str(s, &x); }
  void operator()(const arpc::context& c) { enc_ctx(s, &c); }
  template <typename... A> void operator()(const std::tuple<A...>& t) { std::apply([this](const auto&... x) { (void)((*this)(x), ...); }, t); }
  template <typename T> void operator()(const arpc::result_holder<T>& r) {
    std::exception_ptr e;
    try {
      if constexpr (std::is_same_v<T, void>) { r.value(); enc_num(s, 99, 0); } else (*this)(r.value());
      return;
    } catch (...) { e = std::current_exception(); }
    enc_exc(s, &e);
  }
  std::string* s;
};
struct Dec {
  explicit Dec(arpc::string_input_stream& i) : i(&i) { dec_new(&i); }
  template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> void operator()(T& t) { t = static_cast<T>(dec_num(i, kind_of<T>())); }
  void operator()(std::string& t) { dec_str(i, &t); }
  void operator()(arpc::context& c) { long l = dec_ctx(i); if (l >= 0) c.set_deadline(arpc::context::time_point(arpc::context::duration(l))); if (l == -2) c.cancel(); }
  template <typename... A> void operator()(std::tuple<A...>& t) { std::apply([this](auto&... x) { (void)((*this)(x), ...); }, t); }
  template <typename T> void operator()(arpc::result_holder<T>& r) {
    std::exception_ptr e;
    if (dec_exc(i, &e)) r.set_exception(e);
    else if constexpr (std::is_same_v<T, void>) { dec_num(i, 99); r.set_value(); }
    else { T t; (*this)(t); r.set_value(std::move(t)); }
  }
  arpc::string_input_stream* i;
};
ARPC_INTERFACE(Base, (), (((void), ping, ()), ((int), twice, (((int), a)))));
ARPC_INTERFACE(Other, (), (((long), other, (((long), a)))));
ARPC_INTERFACE(Svc, ((Base), (Other)), (((std::string), f, (((long), a), ((const std::string&), b))), ((void), g, (((std::string), x))), ((long), h, ())));
ARPC_INTERFACE(Near, (), (((std::string), f, (((long), a), ((std::string&&), b))), ((void), g, (((long), x))), ((long), h2, ())));
struct Impl : Svc {
  int n; Impl(int n = 0) : n(n) {}
  std::string f(long a, const std::string& b) override { here("f"); got(n); got(a); gots(&b); where(); return b; }
  void g(std::string x) override { here("g"); gots(&x); if (n == 7) throw X(); }
  long h() override { here("h"); limit(); where(); return 9; }
  void ping() override { here("ping"); got(n); }
  int twice(int a) override { return 2 * a; }
  long other(long a) override { here("other"); return a + 1; }
};
struct Plain : Base { void ping() override { here("plain"); } int twice(int a) override { return 0; } };
struct Prod {
  using connection_type = arpc::packet_connection_impl<arpc::channel_connection, int>;
  void start() { here("start"); }
  void stop() { here("stop"); }
  arpc::awaitable<std::unique_ptr<connection_type>> get_connection() { return arpc::awaitable<void>(90).then([]() { incoming(90, 0); return std::make_unique<connection_type>(next++); }); }
  void return_connection(std::unique_ptr<connection_type> c) { here("returned"); }
  ~Prod() { here("~producer"); }
  static int next;
};
int Prod::next = 1;
using Cl = arpc::client_connection<int, Enc, Dec, int, Enc, 2>;
using Sv = arpc::server<Enc, Dec, int, Enc, Prod>;
static Cl* C; static Sv* S;
static void go(int n) { on(n); verif_run[n](verif_arg[n]); }
#define CLIENT auto& c = *new Cl(5); C = &c;
#define SERVER(...) auto& s = *new Sv(arpc::server_options{__VA_ARGS__}); S = &s;
#define SERVE(...) SERVER(__VA_ARGS__) s.start(); incoming(90, 1); work(0);
#define OBJ(o, n) auto& o = *new arpc::server_object<Impl>(n);
using type = arpc::rpc_defs::message_type;
'''
FLAGS = tuple("-iquote%s/stub/%s" % (ir.VERIF, d) for d in ("rpc", "pool", "contract", "flat")) + asyncs.STUB + ("-fno-access-control",)
POL = asyncs.POL.replace("keep ^arpc::(detail::)?flat_(tree|map|set|multimap|multiset)::\n", "").replace("vector|deque|", "").replace("_Vector_base|_Deque_base|_Deque_iterator|", "")
POL = POL.replace("opt lite\n", "opt lite\nkeep ^arpc::(queue|future|promise|thread_pool|server|client_connection)(<|::)\nkeep ^arpc::(client_connection|server)(<.*>)?::(\\w+|\\w+_(object|wrapper)::\\w+)$\n")
POL = POL.replace("keep ^std::(rethrow_exception", "keep ^(std::__exception_ptr::exception_ptr )?std::make_exception_ptr\nkeep ^std::(rethrow_exception")
CUR, STEP, CANC, POLLED, NET = ("$cur",), ("$step",), ("$cancelled",), ("$polled",), ("$net",)
KNOWN = Ptr(("buf", "cur"), 0), Ptr(("buf", "top"), 0)
NOW = 1000000
DEBUG = 0


def say(st, x):
    st.events.append(("say", x))
    return True, None


def strof(t):
    if t is None:
        return "?"
    if t[0] == "empty":
        return "''"
    if t[0] == "lit":
        return "'%s'" % t[1]
    if t[0] == "msg":
        return "<" + " ".join(items(t[1])) + ">"
    return "/".join(map(str, t))


def items(toks):
    return [x if isinstance(x, str) else strof(x[1]) if x[0] == "str" else "%s:%s" % x for x in toks]


KIND = {1: "bool", 11: "u8", 13: "type", 41: "u32", 42: "i32", 81: "u64", 82: "i64", 99: "void"}


def toks(st, p):
    t = objs.get(st, p)
    if t is None or t in (("empty",), ("lit", "")):
        return ()
    return t[1] if t[0] == "msg" else (("str", t),)


def who(st, p):
    if p == NULL:
        return "none"
    return st.mem.get(("$ctx", p.obj, p.off)) or (p.obj[1] if p in KNOWN else "gone")


def model(prog, steps=(), net=None):
    def mo(ip, st, i, name, args):
        nm = re.sub(r" const$", "", name)
        if nm == "std::operator+" and "basic_string" not in i.get("dem", ""):
            return True, Nested(prog.by_mangled[i["mangled"]], args)
        if nm == "mark":
            return say(st, "#" + fmt(args[0]))
        if nm == "got":
            return say(st, fmt(args[0]))
        if nm == "gots":
            return say(st, strof(objs.get(st, args[0])))
        if nm == "here":
            t = objs.cstr_tok(ip, args[0])
            return say(st, t[1] if t and t[0] == "lit" else str(t))
        if nm == "where":
            w = who(st, st.mem.get(("$cstack",), (KNOWN[0],))[-1])
            x = ""
            while w:
                x = x or " cancelled" * (("$ctxcancelled", w) in st.mem)
                root, w = w, st.mem.get(("$par", w))
            return say(st, "under " + root + x)
        # ---- messages
        if nm == "inbox":
            post(st, args[0].signed(), objs.get(st, args[1]))
            return True, None
        if nm == "again":
            # the last message to one connection, sent to another with another id
            t = st.mem[("$inbox", args[0].signed())][-1]
            post(st, args[1].signed(), ("msg", tuple(("u32", str(args[2].signed())) if k == 2 and args[2].signed() >= 0 else x for k, x in enumerate(t[1]))))
            return True, None
        if nm == "accepting":
            sc, k = (net or {}).get(nm), st.mem.get(("$script", nm), 0)
            st.mem[("$script", nm)] = k + 1
            x = sc and sc[min(k, len(sc) - 1)]
            return (True, Throw("_ZTIN4arpc6errors%d%sE" % (len(x), x))) if x else (True, None)
        if nm == "closing":
            if (net or {}).get(nm) != args[0].value:
                return True, None
            st.mem[("$back", 101)] = st.mem.get(CUR)
            st.mem[CUR] = None
            return True, Nested(fn1(prog, "others"), [])
        if nm == "forget":
            st.mem[("$inbox", args[0].signed())] = ()
            return True, None
        if nm == "jobs":
            return True, Int.const(32, len(st.mem.get(("$jobs",), ())))
        if nm == "show":
            return say(st, strof(objs.get(st, args[0])))
        if nm == "enc_new":
            objs.put(st, args[0], ("msg", toks(st, args[0]) + ("|",)))
            return True, None
        if nm in ("enc_num", "enc_str", "enc_ctx", "enc_exc"):
            if nm == "enc_num":
                k = args[1].value
                x = (KIND.get(k, "kind%s" % k), fmt(args[2]))
            elif nm == "enc_str":
                x = ("str", objs.get(st, args[1]) or ("unknown",))
            elif nm == "enc_ctx":
                x = ("ctx", describe(st, args[1]))
            else:
                e = ip.load(st, args[1], 8, "ptr")
                x = ("exc", excname(e))
            objs.put(st, args[0], ("msg", toks(st, args[0]) + (x,)))
            return True, None
        if nm in ("dec_new", "dec_num", "dec_str", "dec_ctx", "dec_exc"):
            s = args[0]
            text, at = ip.load(st, s, 8, "ptr"), ip.load(st, Ptr(s.obj, s.off + 8), 8, "i64").value
            t = toks(st, text)
            if nm == "dec_new":
                if at < len(t) and t[at] == "|":
                    at += 1
                else:
                    say(st, "(a decoder starts where no encoder did)")
                ip.store(st, Ptr(s.obj, s.off + 8), Int.const(64, at), 8)
                return True, None
            want = {"dec_num": KIND.get(args[1].value, "?") if nm == "dec_num" else "", "dec_str": "str", "dec_ctx": "ctx", "dec_exc": "exc"}[nm]
            x = t[at] if at < len(t) else None
            if nm == "dec_exc" and (x is None or x[0] != "exc"):
                return True, Int.const(1, 0)
            if x is None or x == "|" or x[0] != want:
                # not what was written there
                say(st, "(reads %s where there is %s)" % (want, "nothing" if x is None else items([x])[0]))
                return True, Throw("_ZTIN4arpc6errors3eofE" if x is None else "_ZTIN4arpc6errors13data_mismatchE")
            ip.store(st, Ptr(s.obj, s.off + 8), Int.const(64, at + 1), 8)
            if nm == "dec_num":
                return True, Int.const(64, int(x[1]) & (2 ** 64 - 1))
            if nm == "dec_str":
                objs.put(st, args[1], x[1])
                return True, None
            if nm == "dec_ctx":
                m = re.search(r"till(\d+)", x[1])
                return True, Int.const(64, int(m.group(1)) if m else (-2 if "cancelled" in x[1] else -1) & (2 ** 64 - 1))
            ip.store(st, args[1], Ptr(("buf", "exception " + x[1]), 0), 8)
            return True, Int.const(1, 1)
        m = re.match(r"std::(?:__cxx11::)?basic_string::(erase|substr)$", nm)
        if m:
            a = args[1:] if i.get("sret") and m.group(1) == "substr" else args
            t = toks(st, a[0])
            o, n = a[1].value, a[2].value
            n = len(t) if n is None or n >= 2 ** 63 else n
            if o is None or o > len(t):
                return True, Throw("_ZTISt12out_of_range")
            if m.group(1) == "erase":
                objs.put(st, a[0], ("msg", t[:o] + t[o + n:]))
                return True, a[0]
            objs.put(st, args[0], ("msg", t[o:o + n]))
            return True, None
        if nm == "same_key":
            a, b = args[0], args[2]
            def key(p, n):
                if isinstance(p, Sym) or not isinstance(p, Ptr):
                    return repr(p)
                t = objs.sv_tok(ip, n, p)
                return strof(t) if t else repr(p)
            ka, kb = key(args[0], args[1]), key(args[2], args[3])
            if DEBUG:
                print("same_key", ka, kb, args)
            return True, Int.const(1, int(ka == kb))
        # ---- contexts
        if nm == "ctx_new":
            n = st.mem.get(("$n",), 0) + 1
            st.mem[("$n",)] = n
            par_ = who(st, args[1])
            st.mem[("$ctx", args[0].obj, args[0].off)] = "c%d" % n
            st.mem[("$par", "c%d" % n)] = par_
            if ("$lim", par_) in st.mem:
                st.mem[("$lim", "c%d" % n)] = st.mem[("$lim", par_)]
            if args[2].value:
                st.mem[("$cstack",)] = st.mem.get(("$cstack",), (KNOWN[0],)) + (args[0],)
            return True, None
        if nm == "ctx_end":
            w = who(st, args[0])
            st.mem.pop(("$ctx", args[0].obj, args[0].off), None)
            st.mem[("$cstack",)] = tuple(x for x in st.mem.get(("$cstack",), (KNOWN[0],)) if x != args[0])
            return True, None
        if nm == "ctx_cancel":
            w = who(st, args[0])
            st.mem[("$ctxcancelled", w)] = True
            return True, None
        if nm == "ctx_cancelled":
            w = who(st, args[0])
            while w and ("$ctxcancelled", w) not in st.mem:
                w = st.mem.get(("$par", w))
            return True, Int.const(1, int(bool(w)))
        if nm == "ctx_limit":
            w, v = who(st, args[0]), args[1].signed()
            st.mem[("$lim", w)] = min(v, st.mem.get(("$lim", w), v))
            return True, None
        if nm == "ctx_limited":
            return True, Int.const(1, int(("$lim", who(st, args[0])) in st.mem))
        if nm == "ctx_deadline":
            return True, Int.const(64, st.mem[("$lim", who(st, args[0]))])
        if nm == "ctx_current":
            return True, st.mem.get(("$cstack",), (KNOWN[0],))[-1]
        if nm == "ctx_top":
            return True, KNOWN[1]
        if nm == "limit":
            w = who(st, st.mem.get(("$cstack",), (KNOWN[0],))[-1])
            v = st.mem.get(("$lim", w))
            return say(st, "till" + ("+%d" % (v - NOW) if v is not None else " ever"))
        if nm in ("std::chrono::_V2::steady_clock::now", "std::chrono::_V2::system_clock::now"):
            return True, Int.const(64, now(st) * 10 ** 6)
        if nm == "pass":
            st.mem[("$now",)] = now(st) + args[0].signed()
            return True, None
        # ---- the transport
        if nm.startswith("net_"):
            return transport(ip, st, i, nm, args)
        if nm == "incoming":
            rd = dict(st.mem.get(("$ready",), {}))
            rd[args[0].value] = args[1].value
            st.mem[("$ready",)] = rd
            return True, None
        # ---- threads
        if nm == "on":
            v = args[0].signed()
            st.mem[CUR] = None if v == -1 else v
            return True, None
        if nm == "watched":
            n = len(st.mem.get(("$pend", args[0].value), ()))
            was = st.mem.setdefault(("$watched",), n)
            return say(st, "waits as before" if n == was else "waits for %d more" % (n - was))
        if nm == "looks":
            st.mem[POLLED] = ()
            d = (net or {}).get("during_looks")
            if d:
                # just before conditions are looked at, others run
                k = st.mem[("$looked",)] = st.mem.get(("$looked",), 0) + 1
                if k == d[0]:
                    st.mem[("$back", 101)] = st.mem.get(CUR)
                    st.mem[CUR] = None
                    return True, Nested(fn1(prog, d[1]), [])
            return True, None
        if nm == "polled":
            who_, t = fmt(args[0]), args[2].signed() if len(args) > 2 and isinstance(args[2], Int) else None
            st.mem[POLLED] = st.mem.get(POLLED, ()) + (who_,)
            if t is not None and t >= 0:
                say(st, "for%d" % t)
                st.mem[POLLED] = st.mem[POLLED][:-1] + ("t%d" % (now(st) + t),)
                return True, Int.const(1, int(t == 0))
            return True, Int.const(1, int(ready(st, who_)))
        if nm == "idle":
            cur = st.mem.get(CUR)
            if any(ready(st, x) for x in st.mem.get(POLLED, ())):
                return True, None
            if cur is None or not st.mem.get(("$working",)):
                say(st, "wait" if cur is None else "w%d" % cur)
            if asyncs.held(st) - st.mem.get(("$base",), frozenset()):
                say(st, "(holding a lock)")
            if cur in st.mem.get(CANC, ()):
                return True, Throw("_ZTIN4arpc6errors9cancelledE")
            n = st.mem.get(STEP, 0) + 1
            if n < len(steps) and not st.mem.get(("$working",)):
                st.mem[STEP] = n
                st.mem[("$back", n)] = cur
                st.mem[CUR] = None
                return True, Nested(fn1(prog, steps[n]), [])
            st.mem[("$pend", cur)] = st.mem.get(POLLED, ())
            return True, "end"
        if nm == "back":
            st.mem[CUR] = st.mem.get(("$back", args[0].value))
            return (True, Throw("_ZTIN4arpc6errors9cancelledE")) if st.mem[CUR] in st.mem.get(CANC, ()) else (True, None)
        if nm in ("thread_cancel", "thread_join", "thread_lost"):
            n = args[0].signed()
            if nm == "thread_cancel":
                st.mem[CANC] = st.mem.get(CANC, ()) + (n,)
            return say(st, "%s%s" % (nm[7:], n))
        if nm == "locked":
            return say(st, "locked" if asyncs.held(st) else "not locked")
        if nm == "cancel_me":
            st.mem[CANC] = st.mem.get(CANC, ()) + (None,)
            return True, None
        if nm == "std::thread::hardware_concurrency":
            return True, Int.const(32, 2)
        if nm == "pool_size":
            st.mem[("$bounded",)] = args[1].signed() >= 0
            return say(st, "pool(%s,%s)" % (fmt(args[0]), args[1].signed()))
        if nm == "pool_add":
            l = st.mem.get(("$jobs",), ())
            st.mem[("$jobs",)] = l + (tuple(args),)
            if st.mem.get(("$bounded",)) and not st.mem.get(("$working",), 0):
                st.events.append(("selfwait", bool(asyncs.held(st))))
            return say(st, "job%d" % len(l))
        if nm == "work":
            n = args[0].value
            pend = st.mem.get(("$pend", n))
            if pend is not None and n not in st.mem.get(CANC, ()) and not any(ready(st, x) for x in pend):
                return True, None       # still waiting
            st.mem.pop(("$pend", n), None)
            s = st.copy()
            g = lambda x: ip.load(s, Ptr(("g", x), 8 * n), 8, "ptr")
            f = g("verif_run")
            f = isinstance(f, Ptr) and isinstance(f.obj, tuple) and prog.by_mangled.get(f.obj[1])
            if not f:
                return say(st, "no thread %d" % n)
            cur, env, polled, deep = s.mem.get(CUR), dict(s.env), s.mem.get(POLLED, ()), s.mem.get(("$working",), 0)
            s.mem[CUR], s.mem[("$working",)], s.mem[POLLED] = n, deep + 1, ()
            base, s.mem[("$base",)] = s.mem.get(("$base",), frozenset()), frozenset(asyncs.held(s))
            res = ip.call(s, f, [g("verif_arg")])
            if len(res) != 1:
                raise ir.Splits("a thread that ends in %s" % [(k, [e[1:2] if e[0] == "say" else str(e)[:150] for e in x.events][-30:]) for k, x in res])
            k, s = res[0]
            if k == "ret":
                s.events.pop()
            if DEBUG and k != "end":
                print(k, [str(e)[:160] for e in s.events][-25:], flush=True)
            if k != "end":
                s.mem[("$pend", n)] = ()
                say(s, "thread%d ends" % n if k == "ret" else "thread%d throws %s" % (n, s.exc))
            s.mem[CUR], s.mem[("$working",)], s.mem[POLLED], s.mem[("$base",)], s.env = cur, deep, polled, base, env
            st.__dict__.update(s.__dict__)
            return True, None
        if nm == "job":
            l = st.mem.get(("$jobs",), ())
            n = args[0].value
            if n >= len(l):
                return say(st, "no job%d" % n)
            if n in st.mem.get(("$ran",), ()):
                return True, None
            st.mem[("$ran",)] = st.mem.get(("$ran",), ()) + (n,)
            a, f = l[n]
            return True, Nested(prog.by_mangled[f.obj[1]], [a])
        if nm == "pool_end":
            return say(st, "~pool")
        return futures.fmodel(ip, st, i, name, args)

    def transport(ip, st, i, nm, args):
        op, n = nm[4:], args[0].signed()
        if n is None:
            say(st, op + " of a connection that is gone")
            return True, Throw("_ZTIN4arpc6errors3eofE")
        if op == "session":
            return True, Int.const(32, session(st, n))
        if op == "arrived":
            sc = (net or {}).get("receive")
            x = "r%d.%d" % (n, args[1].value)
            st.mem[POLLED] = (x,)
            fails = sc and sc[min(st.mem.get(("$script", "receive"), 0), len(sc) - 1)]
            return True, Int.const(1, int(ready(st, x) or bool(fails)))
        if op == "fd":
            return True, Int.const(32, 50 + n)
        if op == "receive":
            say(st, "receive%d" % n)
            if session(st, n) != args[1].value:
                say(st, "fails")
                return True, Throw("_ZTIN4arpc6errors3eofE")
        elif op == "send":
            say(st, "%d%s%s" % (n, strof(objs.get(st, args[1])), " (not connected)" if n == 5 and not st.mem.get(("$up", n)) else ""))
        elif op != ("connect" if st.mem.get(("$up", n)) else "disconnect"):
            say(st, op + str(n))
        if op == "disconnect" and st.mem.pop(("$up", n), None):
            st.mem[("$session", n)] = session(st, n) + 1
        if op == "connect":
            if st.mem.get(("$up", n)):
                return True, None
            st.mem[("$up", n)] = True
        one = op + str(n)
        script = (net or {}).get(one, (net or {}).get(op))
        if script:
            one = one if one in net else op
            k = st.mem.get(("$script", one), 0)
            st.mem[("$script", one)] = k + 1
            x = script[min(k, len(script) - 1)]
            if x:
                say(st, "fails")
                if op == "connect":
                    del st.mem[("$up", n)]
                return True, Throw("_ZTIN4arpc6errors%d%sE" % (len(x), x) if len(x) > 1 else "_ZTI1X")
        d = (net or {}).get("during" if op == "send" else "during_" + op)
        if n == 5 and d:
            # meanwhile, other threads
            k = st.mem.get(("$during", op), 0)
            st.mem[("$during", op)] = k + 1
            if k < len(d) and d[k]:
                if op == "send":
                    post(st, 1, objs.get(st, args[1]))
                st.mem[("$back", 101)] = st.mem.get(CUR)
                st.mem[CUR] = None
                return True, Nested(fn1(prog, d[k]), [])
        if op == "send":
            m = objs.get(st, args[1])
            if n == 5 and "garble" in (net or {}):
                m = ("msg", net["garble"](m[1]))
            post(st, {5: 1}.get(n, 5), m)
        if op == "receive":
            l = st.mem.get(("$inbox", n))
            if not l:
                say(st, "(there is nothing)")
                return True, Throw("_ZTIN4arpc6errors3eofE")
            objs.put(st, args[2], l[0])
            st.mem[("$inbox", n)] = l[1:]
        return True, None
    return mo


def now(st):
    return st.mem.get(("$now",), NOW)


def session(st, n):
    return st.mem.get(("$session", n), 0)


def post(st, n, m):
    st.mem[("$inbox", n)] = st.mem.get(("$inbox", n), ()) + (m,)


def ready(st, fd):
    fl = {"flag%s.%s" % k: v for k, v in st.mem.get(("$flags",), {}).items()}
    if fd[:1] == "t":
        return now(st) >= int(fd[1:])
    if fd[:1] == "r":
        n, k = map(int, fd[1:].split("."))
        return session(st, n) != k or bool(st.mem.get(("$inbox", n)))
    if fd.isdigit() and int(fd) < 90:
        return bool(st.mem.get(("$inbox", int(fd) - 50)))
    if fd.isdigit():
        return st.mem.get(("$ready",), {}).get(int(fd), 0) == 1
    return fl.get(fd) == 1


def describe(st, p):
    w = who(st, p)
    l, x = st.mem.get(("$lim", w)), w
    while x and ("$ctxcancelled", x) not in st.mem:
        x = st.mem.get(("$par", x))
    return ("till%d" % l if l is not None else "ever") + (",cancelled" if x else "")


def excname(e):
    t = str(e.obj[1]) if isinstance(e, Ptr) and isinstance(e.obj, tuple) else str(e)
    return t.replace("exception ", "")


class Interp(asyncs.Interp):
    memptrs = True


def init(ip, st):
    ip.guard = 0
    ip.store(st, Ptr(("g", "verif_threads"), 0), Int.const(32, 0), 4)
    ip.store(st, Ptr(("g", "_ZN4Prod4nextE"), 0), Int.const(32, 1), 4)
    ip.store(st, Ptr(("g", "_ZL1J"), 0), Int.const(32, 0), 4)
    ip.store(st, Ptr(("g", "__libc_single_threaded"), 0), Int.const(8, 1), 1)


def build(name, table, extra=""):
    src, code = 'extern "C" void back(int);\n' + extra, {}
    for n, v in table.items():
        steps = v[0] if isinstance(v[0], list) else [v[0]]
        for k, c in enumerate(steps):
            src += "void probe_%s_%d() { %s %s}\n" % (n, k, c, "back(%d); " % k if k else "")
        code[n] = (["probe_%s_%d" % (n, k) for k in range(len(steps))], " / ".join(steps), v[1], v[2] if len(v) > 2 else None)
    return ir.extract([ir.compile_bc(name + ".cpp", FLAGS, SRC + src)], POL), code


RUNS = ("f", "g", "h", "ping", "other", "plain")


def canon(parts):
    """What happens on different connections or in different methods between two marks has no order."""
    out, seg = [], {}

    def flush():
        out.extend(" ".join(x) for _, x in sorted(seg.items()))
        out.extend(sorted(" ".join(x) for x in runs))
        seg.clear()
        runs.clear()
    run, runs, last = None, [], "life"
    for x in parts:
        m = re.match(r"receive(\d+)$|(\d+)<", x)
        if x.startswith("#"):
            flush()
            out.append(x)
            run = None
        elif x in RUNS:
            run = [x]
            runs.append(run)
        elif run is not None and re.match(r"till|under |'|\(holding|-?\d+$", x):
            run.append(x)
        elif re.match(r"job\d+$|wait$|w\d+$", x):
            run = None
        else:
            run = None
            if m:
                last = ("receive " if m.group(1) else "send ") + (m.group(1) or m.group(2))
            elif not x.startswith("(") and x != "fails":
                last = x if x in ("stop", "start") else "life"
            seg.setdefault(last, []).append(x)
    flush()
    return out


def story(k, st, free=False):
    t = tell("ret" if k == "end" else k, st)
    t = norm(canon(t) if free else t)
    t = re.sub(r"till(\d+)", lambda m: "till%+d" % (int(m.group(1)) - NOW), t)
    t = re.sub(r"\b(for\d+)( \1)+\b", r"\1", t)
    t = re.sub(r"u32:\d{5,}", "u32:hash", t)   # which one is C10's business
    t = re.sub(r"_ZTIN4arpc6errors\d+(\w+)E\b|_ZTI\d+(\w)\b", lambda m: m.group(1) or m.group(2), t)
    return t


def play(rep, name, table, where=W, extra="", free=False):
    errs.STRS.clear()
    prog, code = build(name, table, extra)

    def one(sub, n):
        steps, c, want, net = code[n]
        outs, ip = asyncs.explore(prog, steps[0], init, model(prog, steps, net), cls=Interp, max_visits=400)
        sub.require(1, "paths of " + n, len(outs))
        for k, st in outs:
            bad = [e for e in st.events if e[0] in ("relock", "badunlock", "doublefree", "terminate")]
            sub.check(not bad, "locks:" + n, "locks are taken and released in turn", "%s: `%s`: %s" % (where, c, bad[:2]))
            late = futures.late_use(st)
            sub.check(not late, "late:" + n, "nothing is used after it is freed", "%s: `%s` %s" % (where, c, late))
        got = {story(k, st, free) for k, st in outs}
        sub.check(len(got) == 1 and got <= set(want if isinstance(want, tuple) else [want]), n, "what is sent and done", "%s: `%s`: %s; should be %s" % (where, c, " or ".join(sorted(got)), want[0] if isinstance(want, tuple) else want))
    par.each(rep, one, list(code))


# One server thread: what arrives is read by a job, the method runs in another,
# and a third sends the answer.
ROUND = "work(0); job(0); work(0); job(1); work(0); job(2); work(1);"
BOTH = 'SERVE() OBJ(o, 3) s.register_object("n", o); CLIENT mark(1); '
PROXY = BOTH + 'auto p = c.get_proxy<Svc>("n"); '
NEAR = BOTH + 'auto p = c.get_proxy<Near>("n"); '
TRY = "try { %s } catch (const arpc::errors::not_found&) { mark(7); } catch (const X&) { mark(8); } catch (const arpc::errors::eof&) { mark(5); } catch (const arpc::errors::data_mismatch&) { mark(6); }"
HEAD = "pool(4,-1) start #1 "
ASK = {
    "f": ([PROXY + 'auto r = p.f(4, "x"); gots(&r);', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'f' u32:hash ctx:till+3600000 | i64:4 'x'> wait job0 receive1 job1 f 3 4 'x' under top job2 1<| type:1 u32:0 | 'x'> receive5 'x'"),
    "g": ([PROXY + 'std::string a("x"); p.g(a); mark(2); gots(&a);', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'g' u32:hash ctx:till+3600000 | 'x'> wait job0 receive1 job1 g 'x' job2 1<| type:1 u32:0 | void:0> receive5 #2 'x'"),
    "gmove": ([PROXY + 'p.g(std::string("x")); mark(2);', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'g' u32:hash ctx:till+3600000 | 'x'> wait job0 receive1 job1 g 'x' job2 1<| type:1 u32:0 | void:0> receive5 #2"),
    "h": ([PROXY + 'got(p.h());', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> wait job0 receive1 job1 h till+3600000 under top job2 1<| type:1 u32:0 | i64:9> receive5 9"),
    "ping": ([PROXY + 'p.ping(); mark(2);', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'ping' u32:hash ctx:till+3600000 |> wait job0 receive1 job1 ping 3 job2 1<| type:1 u32:0 | void:0> receive5 #2"),
    "twice": ([PROXY + 'got(p.twice(21));', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'twice' u32:hash ctx:till+3600000 | i32:21> wait job0 receive1 job1 job2 1<| type:1 u32:0 | i32:42> receive5 42"),
    "other": ([PROXY + 'got(p.other(4));', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> wait job0 receive1 job1 other job2 1<| type:1 u32:0 | i64:5> receive5 5"),
    "base": ([BOTH + 'auto p = c.get_proxy<Base>("n"); got(p.twice(4));', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'twice' u32:hash ctx:till+3600000 | i32:4> wait job0 receive1 job1 job2 1<| type:1 u32:0 | i32:8> receive5 8"),
    "same": ([NEAR + 'auto r = p.f(4, std::string("x")); gots(&r);', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'f' u32:hash ctx:till+3600000 | i64:4 'x'> wait job0 receive1 job1 f 3 4 'x' under top job2 1<| type:1 u32:0 | 'x'> receive5 'x'"),
    "differ": ([NEAR + TRY % "p.g(5); mark(2);", ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'g' u32:hash ctx:till+3600000 | i64:5> wait job0 receive1 job1 job2 1<| type:1 u32:0 | exc:not_found> receive5 #7"),
    "nomethod": ([NEAR + TRY % "p.h2(); mark(2);", ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'h2' u32:hash ctx:till+3600000 |> wait job0 receive1 job1 job2 1<| type:1 u32:0 | exc:not_found> receive5 #7"),
    "noobject": ([BOTH + 'auto p = c.get_proxy<Svc>("m"); ' + TRY % "p.h(); mark(2);", ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'm'> 'h' u32:hash ctx:till+3600000 |> wait job0 receive1 job1 job2 1<| type:1 u32:0 | exc:not_found> receive5 #7"),
    "throws": ([BOTH + 'OBJ(u, 7) s.register_object("u", u); auto p = c.get_proxy<Svc>("u"); ' + TRY % 'p.g("x"); mark(2);', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'u'> 'g' u32:hash ctx:till+3600000 | 'x'> wait job0 receive1 job1 g 'x' job2 1<| type:1 u32:0 | exc:X> receive5 #8"),
    "async": ([BOTH + 'auto p = c.get_proxy<Svc::async>("n"); auto [a, m] = p.h(); auto [b, n] = p.twice(2); got(m); got(n); mark(2); got(b.get()); mark(3); got(a.get());', "work(0); job(0); work(0); job(2); work(0); job(3); work(0); job(4); work(0); work(1);", "job(1); work(0); job(5); work(0); work(1);"], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'twice' u32:hash ctx:till+3600000 | i32:2> 0 1 #2 wait job0 receive1 job1 job2 receive1 job3 job4 1<| type:1 u32:1 | i32:4> receive5 4 #3 wait h till+3600000 under top job5 1<| type:1 u32:0 | i64:9> receive5 9"),
    "names": ([BOTH + 'OBJ(u, 4) s.register_object("u", u); auto p = c.get_proxy<Svc>("u"); p.ping(); auto q = c.get_proxy<Svc>("n"); q.ping();', ROUND, "work(0); job(3); work(0); job(4); work(0); job(5); work(1);"], HEAD + "connect5 5<| type:0 u32:0 | <| 'u'> 'ping' u32:hash ctx:till+3600000 |> wait job0 receive1 job1 ping 4 job2 1<| type:1 u32:0 | void:0> receive5 5<| type:0 u32:1 | <| 'n'> 'ping' u32:hash ctx:till+3600000 |> wait job3 receive1 job4 ping 3 job5 1<| type:1 u32:1 | void:0> receive5"),
    "number": (['SERVE() OBJ(o, 3) s.register_object(17, o); CLIENT auto p = c.get_proxy<Svc>(17); p.ping();', ROUND], "pool(4,-1) start connect5 5<| type:0 u32:0 | <| i32:17> 'ping' u32:hash ctx:till+3600000 |> wait job0 receive1 job1 ping 3 job2 1<| type:1 u32:0 | void:0> receive5"),
    "unreg": ([PROXY + 'OBJ(u, 4) s.register_object("u", u); s.unregister_object("n"); auto q = c.get_proxy<Svc>("u"); q.ping(); ' + TRY % "p.h();", ROUND, "work(0); job(3); work(0); job(4); work(0); job(5); work(1);"], HEAD + "connect5 5<| type:0 u32:0 | <| 'u'> 'ping' u32:hash ctx:till+3600000 |> wait job0 receive1 job1 ping 4 job2 1<| type:1 u32:0 | void:0> receive5 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> wait job3 receive1 job4 job5 1<| type:1 u32:1 | exc:not_found> receive5 #7"),
    "pool": (['SERVER(std::nullopt, 3, 7) mark(1);'], "pool(3,7) #1"),
    "pool0": (['SERVER(std::chrono::hours(1), 5, 0) mark(1);'], "pool(5,0) #1"),
    "unrego": ([PROXY + 's.register_object("m", o); OBJ(u, 4) s.register_object("u", u); s.unregister_object(o); { arpc::server_object<Impl> gone(std::move(5)); } auto q = c.get_proxy<Svc>("u"); q.ping(); ' + TRY % "p.ping();", ROUND, "work(0); job(3); work(0); job(4); work(0); job(5); work(1);"], HEAD + "connect5 5<| type:0 u32:0 | <| 'u'> 'ping' u32:hash ctx:till+3600000 |> wait job0 receive1 job1 ping 4 job2 1<| type:1 u32:0 | void:0> receive5 5<| type:0 u32:1 | <| 'n'> 'ping' u32:hash ctx:till+3600000 |> wait job3 receive1 job4 job5 1<| type:1 u32:1 | exc:not_found> receive5 #7"),
    "unregm": ([PROXY + 's.register_object("m", o); OBJ(u, 4) s.register_object("u", u); s.unregister_object(o); { arpc::server_object<Impl> gone(std::move(5)); } auto q = c.get_proxy<Svc>("m"); ' + TRY % "q.ping();" + '' + TRY % "p.ping();", ROUND, "work(0); job(3); work(0); job(4); work(0); job(5); work(1);"], HEAD + "connect5 5<| type:0 u32:0 | <| 'm'> 'ping' u32:hash ctx:till+3600000 |> wait job0 receive1 job1 job2 1<| type:1 u32:0 | exc:not_found> receive5 #7 5<| type:0 u32:1 | <| 'n'> 'ping' u32:hash ctx:till+3600000 |> wait job3 receive1 job4 job5 1<| type:1 u32:1 | exc:not_found> receive5 #7"),
    "again": ([PROXY + 'OBJ(u, 4) s.register_object("n", u); p.ping();', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'ping' u32:hash ctx:till+3600000 |> wait job0 receive1 job1 ping 4 job2 1<| type:1 u32:0 | void:0> receive5"),
    "stale": ([PROXY + 'auto& u = *new arpc::server_object<Plain>(); s.register_object("n", u); ' + TRY % "p.h();", ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> wait job0 receive1 job1 job2 1<| type:1 u32:0 | exc:not_found> receive5 #7"),
    "forever": ([BOTH + 'auto p = c.get_proxy<Svc>("n", {std::nullopt}); p.h();', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:ever |> wait job0 receive1 job1 h till+3600000 under top job2 1<| type:1 u32:0 | i64:9> receive5"),
    "sooner": ([BOTH + 'auto p = c.get_proxy<Svc>("n", {std::chrono::milliseconds(20)}); p.h();', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+20 |> wait job0 receive1 job1 h till+20 under top job2 1<| type:1 u32:0 | i64:9> receive5"),
    "context": ([PROXY + 'arpc::context x; x.set_timeout(std::chrono::milliseconds(30)); p.h(); ', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+30 |> wait job0 receive1 job1 h till+30 under top job2 1<| type:1 u32:0 | i64:9> receive5"),
    "cancelledctx": ([PROXY + 'arpc::context x; x.cancel(); p.h(); ', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000,cancelled |> wait job0 receive1 job1 h till+3600000 under top job2 1<| type:1 u32:0 | i64:9> receive5"),
    "limited": (['SERVE(std::chrono::milliseconds(50)) OBJ(o, 3) s.register_object("n", o); CLIENT auto p = c.get_proxy<Svc>("n"); p.h();', ROUND], "pool(4,-1) start connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> wait job0 receive1 job1 h till+50 under top job2 1<| type:1 u32:0 | i64:9> receive5"),
    "unlimited": (['SERVE(std::nullopt) OBJ(o, 3) s.register_object("n", o); CLIENT auto p = c.get_proxy<Svc>("n", {std::nullopt}); p.h();', ROUND], "pool(4,-1) start connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:ever |> wait job0 receive1 job1 h till ever under top job2 1<| type:1 u32:0 | i64:9> receive5"),
    "proxies": ([PROXY + 'auto q = p; auto r = std::move(p); q.ping(); r.ping();', ROUND, "work(0); job(3); work(0); job(4); work(0); job(5); work(1);"], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'ping' u32:hash ctx:till+3600000 |> wait job0 receive1 job1 ping 3 job2 1<| type:1 u32:0 | void:0> receive5 5<| type:0 u32:1 | <| 'n'> 'ping' u32:hash ctx:till+3600000 |> wait job3 receive1 job4 ping 3 job5 1<| type:1 u32:1 | void:0> receive5"),
    # What is wrong with a request is answered.
    "cut": ([PROXY + TRY % 'p.f(4, "x");', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'f' u32:hash ctx:till+3600000 | i64:4 'x'> wait job0 receive1 job1 (reads str where there is nothing) job2 1<| type:1 u32:0 | exc:eof> receive5 #5", {"garble": lambda t: t[:5]}),
    "nohash": ([PROXY + TRY % 'p.f(4, "x");', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'f' u32:hash ctx:till+3600000 | i64:4 'x'> wait job0 receive1 job1 (reads u32 where there is nothing) job2 1<| type:1 u32:0 | exc:eof> receive5 #5", {"garble": lambda t: t[:6]}),
    "cutcontext": ([PROXY + TRY % 'p.f(4, "x");', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'f' u32:hash ctx:till+3600000 | i64:4 'x'> wait job0 receive1 job1 (reads ctx where there is nothing) job2 1<| type:1 u32:0 | exc:eof> receive5 #5", {"garble": lambda t: t[:7]}),
    "cutargs": ([PROXY + TRY % 'p.f(4, "x");', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'f' u32:hash ctx:till+3600000 | i64:4 'x'> wait job0 receive1 job1 (reads str where there is nothing) job2 1<| type:1 u32:0 | exc:eof> receive5 #5", {"garble": lambda t: t[:-1]}),
    "wrongargs": ([PROXY + TRY % 'p.f(4, "x");', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'f' u32:hash ctx:till+3600000 | i64:4 'x'> wait job0 receive1 job1 (reads str where there is bool:1) job2 1<| type:1 u32:0 | exc:data_mismatch> receive5 #6", {"garble": lambda t: t[:-1] + (("bool", "1"),)}),
    "otherhash": ([PROXY + TRY % 'p.f(4, "x");', ROUND], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'f' u32:hash ctx:till+3600000 | i64:4 'x'> wait job0 receive1 job1 job2 1<| type:1 u32:0 | exc:not_found> receive5 #7", {"garble": lambda t: tuple(("u32", "5") if i == 6 else x for i, x in enumerate(t))}),
    "nextone": ([PROXY + TRY % 'p.f(4, "x");' + "p.ping(); mark(9);", ROUND, "work(0); job(3); work(0); job(4); work(0); job(5); work(1);"], HEAD + "connect5 5<| type:0 u32:0 | <| 'n'> 'f' u32:hash ctx:till+3600000 | i64:4 'x'> wait job0 receive1 job1 (reads str where there is nothing) job2 1<| type:1 u32:0 | exc:eof> receive5 #5 5<| type:0 u32:1 | <| 'n'> 'ping' u32:hash ctx:till+3600000 |> wait job3 receive1 job4 ping 3 job5 1<| type:1 u32:1 | void:0> receive5 #9", {"garble": lambda t: t[:-1] if len(t) > 9 else t}),
}


# The client alone: what comes back is put into its mailbox.
CLI = "CLIENT "
ASYNC = CLI + 'auto p = c.get_proxy<Svc::async>("n"); '
LONG = "ANSWER(%d, %d) "
HOW = "#define HOW(x) try { x; } catch (const arpc::errors::cancelled&) { mark(11); } catch (const arpc::errors::deadline_exceeded&) { mark(12); } catch (const arpc::errors::unavailable&) { mark(13); } catch (const arpc::errors::data_mismatch&) { mark(6); } catch (const arpc::errors::eof&) { mark(5); } catch (const X&) { mark(8); } catch (const std::exception&) { mark(19); }\n"
HOW += r"""
template <typename T> void answer(unsigned id, T&& t, type k = type::RESPONSE) { std::string m; arpc::string_output_stream o(m); { Enc e(o); e(k); e(id); } { Enc e(o); e(t); } inbox(5, &m); }
static void yes(unsigned id, long v) { arpc::result_holder<long> r; r.set_value(v); answer(id, r); }
static void failed(unsigned id, std::exception_ptr x) { arpc::result_holder<long> r; r.set_exception(x); answer(id, r); }
static void header() { std::string m; arpc::string_output_stream o(m); { Enc e(o); e(type::RESPONSE); } inbox(5, &m); }
static bool is_ready(arpc::future<long>& f) { try { got(f.maybe_get()); return true; } catch (const arpc::errors::try_again&) { mark(20); return false; } catch (...) { HOW(throw) return true; } }
"""


def orders(text, events, pairs):
    """Every order of some events in which each thread is cancelled before it is joined."""
    ev = events.split()
    return tuple(text % " ".join(p) for p in itertools.permutations(ev) if all(p.index("cancel" + x) < p.index("join" + x) for x in pairs.split()))


LISTEN = {
    "answers": (ASYNC + "auto [a, i] = p.h(); auto [b, j] = p.h(); auto [d, k] = p.other(5); got(i); got(j); got(k); work(0); yes(2, 32); yes(0, 30); work(0); is_ready(a); is_ready(b); is_ready(d); yes(1, 31); work(0); is_ready(b);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:2 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:5> 0 1 2 receive5 receive5 30 #20 32 receive5 31"),
    "idle": (CLI + "work(0); work(1); mark(1);", '#1'),
    "nobodys": (ASYNC + "auto [a, i] = p.h(); yes(7, 3); work(0); is_ready(a); yes(0, 4); yes(0, 5); work(0); is_ready(a); auto [b, j] = p.h(); yes(1, 6); work(0); is_ready(b);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> receive5 #20 receive5 receive5 4 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> receive5 6"),
    "noconnect": (ASYNC + "HOW(p.h()) work(0); work(1); yes(0, 3); auto [b, j] = p.h(); got(j); work(0); yes(1, 4); work(0); is_ready(b);", "connect5 fails #13 connect5 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 1 receive5 receive5 4", {"connect": ["unavailable", ""]}),
    "nosend": (ASYNC + "auto [a, i] = p.h(); HOW(p.h()) work(0); is_ready(a); auto [b, j] = p.h(); got(j); yes(2, 4); work(0); is_ready(b);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> fails disconnect5 #5 #13 connect5 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 2 receive5 4", {"send": ["", "eof", ""]}),
    "lost": ([ASYNC + "auto [a, i] = p.h(); auto [b, j] = p.h(); A = &a; B = &b; go(0);", "HOW(C->get_proxy<Svc::async>(\"n\").h())", "is_ready(*A); is_ready(*B);"], "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> w0 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> fails disconnect5 #5 receive5 fails w0 #13 #13 w0", {"send": ["", "", "eof", ""]}),
    "noreceive": (ASYNC + "auto [a, i] = p.h(); auto [b, j] = p.h(); work(0); is_ready(a); is_ready(b); work(0); auto [d, k] = p.h(); got(k); yes(0, 5); yes(2, 7); work(0); is_ready(d);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> receive5 fails disconnect5 #13 #13 connect5 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 2 receive5 receive5 7", {"receive": ["unavailable", ""]}),
    "laterreceive": (ASYNC + "auto [a, i] = p.h(); auto [b, j] = p.h(); yes(0, 3); work(0); is_ready(a); is_ready(b); auto [d, k] = p.h(); is_ready(d); work(0); yes(2, 5); work(0); is_ready(d);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> receive5 receive5 fails disconnect5 3 #5 connect5 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> #20 receive5 5", {"receive": ["", "eof", ""]}),
    "strange": (ASYNC + "auto [a, i] = p.h(); answer(0, 5L, type::REQUEST); yes(0, 3); work(0); is_ready(a);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> receive5 disconnect5 #6"),
    "strange2": (ASYNC + "auto [a, i] = p.h(); answer(0, 5L, type(77)); yes(0, 3); work(0); is_ready(a);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> receive5 disconnect5 #6"),
    "short": (ASYNC + "auto [a, i] = p.h(); header(); yes(0, 3); work(0); is_ready(a);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> receive5 (reads u32 where there is nothing) disconnect5 #5"),
    "badvalue": (ASYNC + "auto [a, i] = p.h(); auto [b, j] = p.h(); answer(0, true); yes(1, 3); work(0); is_ready(a); is_ready(b);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> receive5 receive5 (reads i64 where there is bool:1) #6 3"),
    "exception": (ASYNC + "auto [a, i] = p.h(); failed(0, std::make_exception_ptr(X())); work(0); is_ready(a);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> receive5 #8"),
    "times": (CLI + 'auto s = c.get_proxy<Svc::async>("n", {std::chrono::milliseconds(20)}); auto l = c.get_proxy<Svc::async>("n", {std::chrono::milliseconds(50)}); auto n = c.get_proxy<Svc::async>("n", {std::nullopt}); auto [a, i] = l.h(); work(1); auto [b, j] = s.h(); work(1); auto [d, k] = n.h(); work(1); pass(10); work(1); mark(1); pass(11); work(1); is_ready(a); is_ready(b); is_ready(d); yes(1, 6); work(0); pass(30); work(1); is_ready(a); is_ready(d); yes(2, 3); work(0); is_ready(d);', "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+50 |> for50 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+20 |> for20 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:ever |> #1 for0 for29 #20 #12 #20 receive5 for0 #12 #20 receive5 3"),
    "atonce": (CLI + 'auto s = c.get_proxy<Svc::async>("n", {std::chrono::milliseconds(20)}); auto [a, i] = s.h(); auto [b, j] = s.h(); pass(5); auto [d, k] = s.h(); pass(16); work(1); is_ready(a); is_ready(b); is_ready(d);', "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+20 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+20 |> 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+25 |> for0 for4 #12 #12 #20"),
    "manytimes": (CLI + 'auto l = c.get_proxy<Svc::async>("n", {std::chrono::milliseconds(50)}); auto s = c.get_proxy<Svc::async>("n", {std::chrono::milliseconds(20)}); auto [a, i] = l.h(); auto [b, j] = l.h(); auto [d, k] = l.h(); auto [e, m] = s.h(); pass(21); work(1); is_ready(a); is_ready(e);', "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+50 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+50 |> 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+50 |> 5<| type:0 u32:3 | <| 'n'> 'h' u32:hash ctx:till+20 |> for0 for29 #20 #12"),
    "answered": (CLI + 'auto s = c.get_proxy<Svc::async>("n", {std::chrono::milliseconds(20)}); auto [a, i] = s.h(); yes(0, 4); work(0); pass(30); work(1); is_ready(a);', "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+20 |> receive5 4"),
    "cancel": (ASYNC + "auto [a, i] = p.h(); auto [b, j] = p.h(); work(1); c.cancel_request(0); is_ready(a); is_ready(b); work(1); yes(0, 3); yes(1, 4); work(0); is_ready(b);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> for3600000 #11 #20 for3600000 5<| type:2 u32:0> for3600000 receive5 receive5 4"),
    "cancelcall": ([CLI + 'auto p = c.get_proxy<Svc>("n"); work(1); HOW(p.h()) work(1); yes(0, 3); work(0); mark(1);', "cancel_me();"], "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> wait #11 5<| type:2 u32:0> receive5 #1"),
    "cancelledthere": ([CLI + 'auto p = c.get_proxy<Svc>("n"); HOW(p.h())', 'failed(0, std::make_exception_ptr(arpc::errors::cancelled("x"))); work(0);'], "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> wait receive5 #11"),
    "expiredcall": ([CLI + 'auto p = c.get_proxy<Svc>("n", {std::chrono::milliseconds(20)}); HOW(p.h()) work(1);', 'pass(30); work(1);'], "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+20 |> wait for0 #12"),
    "manycancels": (ASYNC + "auto [a, i] = p.h(); auto [b, j] = p.h(); auto [d, k] = p.h(); c.cancel_request(0); c.cancel_request(1); c.cancel_request(2); is_ready(a); is_ready(b); is_ready(d); work(1); ", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> #11 #11 #11 5<| type:2 u32:0> 5<| type:2 u32:1>"),
    "cancelother": (ASYNC + "auto [a, i] = p.h(); c.cancel_request(7); work(1); is_ready(a); yes(0, 3); work(0); is_ready(a);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> for3600000 5<| type:2 u32:7> for3600000 #20 receive5 3"),
    "nocancel": (ASYNC + "auto [a, i] = p.h(); c.cancel_request(0); work(1); auto [b, j] = p.h(); c.cancel_request(1); work(1); yes(1, 4); work(0); is_ready(b);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:2 u32:0> fails disconnect5 connect5 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:2 u32:1> receive5 #11", {"send": ["", "unavailable", ""]}),
    "bothatonce": (CLI + 'auto s = c.get_proxy<Svc::async>("n", {std::chrono::milliseconds(20)}); auto l = c.get_proxy<Svc::async>("n", {std::nullopt}); auto [a, i] = s.h(); auto [b, j] = l.h(); work(1); pass(21); c.cancel_request(1); work(1); is_ready(a); is_ready(b);', "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+20 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:ever |> for20 for0 5<| type:2 u32:1> #12 #11"),
    "afteranswer": (ASYNC + "auto [a, i] = p.h(); yes(0, 3); work(0); c.cancel_request(0); is_ready(a);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> receive5 3"),
    "cancelledsend": (ASYNC + "HOW(p.h()) auto [b, j] = p.h(); yes(1, 4); work(0); is_ready(b);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> fails disconnect5 #11 connect5 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> receive5 4", {"send": ["cancelled", ""]}),
    "gone": ("arpc::future<long> f; { Cl c(5); C = &c; auto p = c.get_proxy<Svc::async>(\"n\"); f = p.h().first; } is_ready(f);", orders("connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> %s gone5 #19", "cancel0 disconnect5 join0 cancel1 join1", "0 1")),
    "gonenever": ("{ Cl c(5); } mark(1);", orders("%s gone5 #1", "cancel0 join0 cancel1 join1", "0 1")),
    "during": (ASYNC + "static arpc::future<long>* x; auto [a, i] = p.h(); auto [b, j] = p.h(); is_ready(a); is_ready(b);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> receive5 8 #20", {"during": [None, "meanwhile_answer"]}),
    "exclusive": (ASYNC + "auto [a, i] = p.h(); work(0); answer(0, 1L, type::REQUEST); work(0);", "connect5 locked 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> locked receive5 disconnect5 locked", {"during": ["meanwhile_locked"], "during_connect": ["meanwhile_locked"], "during_disconnect": ["meanwhile_locked"]}),
    "duringown": (ASYNC + "auto [a, i] = p.h(); auto [b, j] = p.h(); is_ready(a); is_ready(b);", "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> receive5 #20 9", {"during": [None, "meanwhile_own"]}),
    "duringtimeout": (CLI + 'auto s = c.get_proxy<Svc::async>("n", {std::chrono::milliseconds(20)}); auto [a, i] = s.h(); auto [b, j] = s.h(); is_ready(a); is_ready(b);', "connect5 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+20 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+20 |> for0 #12 #12", {"during": [None, "meanwhile_timeout"]}),
}
MEAN = r"""
extern "C" void back(int);
static arpc::future<long> *A, *B;
extern "C" void meanwhile_answer() { yes(0, 8); work(0); back(101); }
extern "C" void meanwhile_locked() { locked(); back(101); }
extern "C" void meanwhile_own() { yes(1, 9); work(0); back(101); }
extern "C" void meanwhile_timeout() { pass(21); work(1); back(101); }
"""



# The server: requests are made by a client and its messages handed on.
ALL = r"""
static int J = 0;
static void all() { for (work(0); J < jobs(); work(0)) job(J++); }
extern "C" void back(int);
extern "C" void rest() { while (J < jobs()) job(J++); back(101); }
static void more() { incoming(90, 1); work(0); }
"""
REQ = BOTH + 'auto p = c.get_proxy<Svc::async>("n"); '
SERVED = {
    "two": (REQ + "p.h(); p.other(4); all();", HEAD + "connect5 receive1 receive1 1<| type:1 u32:0 | i64:9> 1<| type:1 u32:1 | i64:5> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> h till+3600000 under top other"),
    "cancel": (REQ + "p.h(); p.h(); work(0); job(0); work(0); job(2); work(0); c.cancel_request(0); work(2); work(0); job(4); mark(2); all();", HEAD + "connect5 for3600000 receive1 receive1 receive1 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:2 u32:0> #2 1<| type:1 u32:0 | i64:9> 1<| type:1 u32:1 | i64:9> h till+3600000 under top h till+3600000 under top cancelled"),
    "cancelfirst": (REQ + "p.h(); work(0); job(0); work(0); c.cancel_request(0); work(2); work(0); job(2); mark(2); all();", HEAD + "connect5 receive1 receive1 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:2 u32:0> #2 1<| type:1 u32:0 | i64:9> h till+3600000 under top cancelled"),
    "cancellate": (REQ + "p.h(); all(); c.cancel_request(0); work(2); all(); p.h(); all();", HEAD + "connect5 receive1 receive1 receive1 1<| type:1 u32:0 | i64:9> 1<| type:1 u32:1 | i64:9> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:2 u32:0> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top h till+3600000 under top"),
    "cancelnever": (REQ + "c.cancel_request(9); work(2); all(); p.h(); all();", HEAD + "connect5 receive1 receive1 1<| type:1 u32:0 | i64:9> 5<| type:2 u32:9> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top"),
    "cancelother": (REQ + "more(); p.h(); again(1, 2, 0); work(0); job(0); job(1); work(0); c.cancel_request(0); work(2); work(0); job(4); all();", HEAD + "connect5 receive1 receive1 receive2 1<| type:1 u32:0 | i64:9> 2<| type:1 u32:0 | i64:9> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:2 u32:0> h till+3600000 under top h till+3600000 under top cancelled"),
    "sameid": (REQ + "more(); p.h(); again(1, 2, 0); p.other(4); again(1, 2, 1); all();", HEAD + "connect5 receive1 receive1 receive2 receive2 1<| type:1 u32:0 | i64:9> 1<| type:1 u32:1 | i64:5> 2<| type:1 u32:0 | i64:9> 2<| type:1 u32:1 | i64:5> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> h till+3600000 under top h till+3600000 under top other other"),
    "duplicate": (REQ + "p.h(); again(1, 1, -1); all(); ", HEAD + "connect5 receive1 receive1 1<| type:1 u32:0 | i64:9> 1<| type:1 u32:0 | i64:9> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top h till+3600000 under top"),
    "duplicate2": (REQ + "p.h(); again(1, 1, -1); work(0); job(0); work(0); job(2); mark(2); all();", HEAD + "connect5 receive1 receive1 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> #2 1<| type:1 u32:0 | i64:9> h till+3600000 under top"),
    "reused": (REQ + "more(); p.h(); again(1, 2, 0); all(); p.h(); again(1, 2, 0); all();", HEAD + "connect5 receive1 receive1 receive2 receive2 1<| type:1 u32:0 | i64:9> 1<| type:1 u32:1 | i64:9> 2<| type:1 u32:0 | i64:9> 2<| type:1 u32:0 | i64:9> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top h till+3600000 under top h till+3600000 under top h till+3600000 under top"),
    "malformed": (REQ + "std::string m; { arpc::string_output_stream o(m); Enc e(o); e(type::REQUEST); } inbox(1, &m); p.h(); all(); more(); p.h(); again(1, 2, 5); all();", HEAD + "connect5 returned gone1 receive1 (reads u32 where there is nothing) receive2 2<| type:1 u32:5 | i64:9> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top"),
    "empty": (REQ + "std::string m; inbox(1, &m); all(); p.h(); all();", HEAD + "returned gone1 connect5 receive1 (a decoder starts where no encoder did) (reads type where there is nothing) 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |>"),
    "strange": (REQ + "std::string m; { arpc::string_output_stream o(m); Enc e(o); e(type::RESPONSE); e(std::uint32_t(0)); } inbox(1, &m); all(); p.h(); all();", HEAD + "returned gone1 connect5 receive1 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |>"),
    "strange2": (REQ + "std::string m; { arpc::string_output_stream o(m); Enc e(o); e(type(9)); e(std::uint32_t(0)); } inbox(1, &m); all(); p.h(); all();", HEAD + "returned gone1 connect5 receive1 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |>"),
    "otherstays": (REQ + "more(); std::string m; inbox(1, &m); p.h(); again(1, 2, 0); all(); p.h(); again(1, 2, 1); all();", HEAD + "connect5 returned gone1 receive1 (a decoder starts where no encoder did) (reads type where there is nothing) receive2 receive2 2<| type:1 u32:0 | i64:9> 2<| type:1 u32:1 | i64:9> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top h till+3600000 under top"),
    "sendfails": (REQ + "p.h(); p.other(4); all(); p.h(); all();", HEAD + "connect5 returned gone1 receive1 receive1 1<| type:1 u32:0 | i64:9> fails 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top other", {"send": ["", "", "eof", ""]}),
    "receivefails": (REQ + "p.h(); all(); p.h(); all();", HEAD + "connect5 returned gone1 receive1 fails 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |>", {"receive": ["unavailable", ""]}),
    "gonebefore": (REQ + "p.h(); std::string m; work(0); job(0); inbox(1, &m); work(0); job(2); work(0); job(1); all();", HEAD + "connect5 returned gone1 receive1 receive1 (a decoder starts where no encoder did) (reads type where there is nothing) 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top"),
    "whilesending": (REQ + "p.h(); work(0); job(0); work(0); job(1); work(0); std::string m; inbox(1, &m); work(0); job(3); work(0); mark(5); job(2); all();", HEAD + "connect5 receive1 receive1 (a decoder starts where no encoder did) (reads type where there is nothing) 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top #5 returned gone1 1<| type:1 u32:0 | i64:9>"),
    "whilereceiving": (REQ + "p.h(); work(0); job(0); work(0); job(1); p.h(); work(0); work(0); job(2); work(0); mark(5); job(3); all();", HEAD + "connect5 receive1 receive1 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top #5 returned gone1 1<| type:1 u32:0 | i64:9> fails h till+3600000 under top", {"send": ["", "", "eof", ""]}),
    "whilereceiving2": (REQ + "p.h(); work(0); job(0); work(0); job(1); p.h(); work(0); work(0); job(3); work(0); mark(5); job(2); all();", HEAD + "connect5 receive1 1<| type:1 u32:0 | i64:9> fails 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top #5 returned gone1 receive1 h till+3600000 under top", {"send1": ["eof", ""]}),
    "failedsend": (REQ + "p.h(); p.other(4); work(0); job(0); work(0); job(2); work(0); job(1); p.h(); work(0); got(jobs()); job(5); job(3); work(0); mark(5); got(jobs()); work(0); got(jobs()); mark(6); job(4); work(0); mark(7); all();", HEAD + "connect5 6 receive1 receive1 1<| type:1 u32:0 | i64:9> fails 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top other #5 6 6 #6 returned gone1 receive1 #7 h till+3600000 under top", {"send1": ["eof", ""]}),
    "failedreceive": (REQ + "p.h(); work(0); job(0); work(0); job(1); work(0); std::string m; inbox(1, &m); work(0); job(3); work(0); mark(5); p.h(); work(0); work(0); got(jobs()); job(2); all(); got(jobs());", HEAD + "connect5 receive1 receive1 (a decoder starts where no encoder did) (reads type where there is nothing) 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top #5 4 returned gone1 4 1<| type:1 u32:0 | i64:9> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |>"),
    "cancelsecond": (REQ + "more(); p.h(); again(1, 2, 0); work(0); job(0); job(1); work(0); c.cancel_request(0); work(2); again(1, 2, 0); forget(1); work(0); job(4); mark(2); job(2); mark(3); job(3); all();", HEAD + "connect5 receive1 receive2 receive2 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:2 u32:0> #2 h till+3600000 under top #3 1<| type:1 u32:0 | i64:9> 2<| type:1 u32:0 | i64:9> h till+3600000 under top cancelled"),
    "nothingleft": (REQ + "more(); watched(0); p.h(); p.other(4); again(1, 2, 9); all(); watched(0); p.h(); work(0); job(J++); all(); watched(0);", HEAD + "waits as before connect5 waits as before waits as before receive1 receive1 receive1 receive2 1<| type:1 u32:0 | i64:9> 1<| type:1 u32:1 | i64:5> 1<| type:1 u32:2 | i64:9> 2<| type:1 u32:9 | i64:5> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top h till+3600000 under top other other"),
    "nothingleft2": (REQ + "watched(0); more(); p.h(); again(1, 2, 9); work(0); job(0); std::string m; inbox(2, &m); job(1); work(0); job(4); work(0); all(); watched(0);", HEAD + "waits as before connect5 returned gone2 waits as before receive1 receive2 receive2 (a decoder starts where no encoder did) (reads type where there is nothing) 1<| type:1 u32:0 | i64:9> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top h till+3600000 under top"),
    "nothingleft3": (REQ + "watched(0); more(); p.h(); again(1, 2, 9); all(); watched(0);", HEAD + "waits as before connect5 returned gone2 waits as before receive1 receive2 1<| type:1 u32:0 | i64:9> 2<| type:1 u32:9 | i64:9> fails 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top h till+3600000 under top", {"send2": ["eof"]}),
    "onereceive": (REQ + "p.h(); p.other(4); work(0); work(0); got(jobs()); job(0); got(jobs()); work(0); got(jobs()); all();", HEAD + "connect5 1 2 3 receive1 receive1 1<| type:1 u32:0 | i64:9> 1<| type:1 u32:1 | i64:5> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> h till+3600000 under top other"),
    "onesend": (REQ + "p.h(); p.other(4); work(0); job(0); work(0); job(1); job(2); work(0); job(3); job(4); work(0); got(jobs()); all();", HEAD + "connect5 6 receive1 receive1 1<| type:1 u32:0 | i64:9> 1<| type:1 u32:1 | i64:5> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> h till+3600000 under top other"),
    "fastsecond": (REQ + "p.h(); p.other(4); work(0); job(0); work(0); job(2); work(0); job(3); work(0); job(4); mark(2); work(0); job(1); work(0); job(5);", HEAD + "connect5 receive1 receive1 1<| type:1 u32:1 | i64:5> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> other #2 1<| type:1 u32:0 | i64:9> h till+3600000 under top"),
    "many": (REQ + "more(); p.h(); again(1, 2, 7); p.other(3); again(1, 2, 8); work(0); got(jobs()); all();", HEAD + "connect5 2 receive1 receive1 receive2 receive2 1<| type:1 u32:0 | i64:9> 1<| type:1 u32:1 | i64:4> 2<| type:1 u32:7 | i64:9> 2<| type:1 u32:8 | i64:4> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:3> h till+3600000 under top h till+3600000 under top other other"),
    "sameinstant": ([REQ + "p.h(); work(0); job(0); work(0); job(1); work(0); go(0);", 'C->get_proxy<Svc::async>("n").h(); job(2); mark(6);', "all(); mark(7);", "mark(8);"], HEAD + "connect5 receive1 1<| type:1 u32:0 | i64:9> fails 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top #6 returned gone1 #7 #8", {"send": ["", "", "eof", ""]}),
    "stop": (REQ + "p.h(); p.h(); work(0); job(0); work(0); mark(2); s.stop(); mark(3); s.stop(); mark(4); s.start(); mark(5); incoming(90, 1); work(3); mark(6); again(1, 2, 5); for (J = 0; J < jobs(); work(3)) job(J++);", HEAD + "connect5 receive1 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> #2 cancel0 join0 ~producer stop #3 #4 start #5 #6 gone1 receive1 receive2 2<| type:1 u32:5 | i64:9> h till+3600000 under top h till+3600000 under top h till+3600000 under top"),
    "stopbusy": (REQ + "p.h(); work(0); job(0); work(0); s.stop(); job(1); mark(3);", HEAD + "connect5 cancel0 join0 gone1 ~producer receive1 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> stop h till+3600000 under top #3"),
    "stopreceiving": (REQ + "p.h(); work(0); s.stop(); mark(2); job(0); mark(3);", HEAD + "connect5 cancel0 join0 ~producer 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> stop #2 gone1 receive1 #3"),
    "stopsending": (REQ + "p.h(); work(0); job(0); work(0); job(1); work(0); s.stop(); mark(2); job(2); mark(3);", HEAD + "connect5 cancel0 join0 ~producer receive1 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> stop h till+3600000 under top #2 gone1 1<| type:1 u32:0 | i64:9> #3"),
    "notstarted": ("{ Sv s(arpc::server_options{}); mark(1); s.stop(); mark(2); }", 'pool(4,-1) #1 #2 ~pool'),
    "twice": ("{ Sv s(arpc::server_options{}); s.start(); mark(1); s.start(); mark(2); }", HEAD + 'start #2 cancel0 join0 ~producer ~pool stop'),
    "destroyed": ("{ Sv s(arpc::server_options{}); s.start(); incoming(90, 1); work(0); mark(1); }", HEAD + 'cancel0 join0 gone1 ~producer ~pool stop'),
    "methods": (REQ + 'OBJ(u, 7) s.register_object("u", u); auto q = c.get_proxy<Svc::async>("u"); q.g("x"); p.h(); all(); p.h(); all();', HEAD + "connect5 receive1 receive1 receive1 1<| type:1 u32:0 | exc:X> 1<| type:1 u32:1 | i64:9> 1<| type:1 u32:2 | i64:9> 5<| type:0 u32:0 | <| 'u'> 'g' u32:hash ctx:till+3600000 | 'x'> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> g 'x' h till+3600000 under top h till+3600000 under top"),
}

# Somewhere in between, all jobs there are run at once.
BETWEEN = {
    "badmessage": ("p.h(); std::string m; inbox(1, &m); p.other(4); work(0); job(J++); all();", {}, (HEAD + "connect5 returned gone1 receive1 receive1 (a decoder starts where no encoder did) (reads type where there is nothing) 1<| type:1 u32:0 | i64:9> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> h till+3600000 under top", HEAD + "connect5 returned gone1 receive1 receive1 (a decoder starts where no encoder did) (reads type where there is nothing) 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> h till+3600000 under top",)),
    "badsend": ("p.h(); p.other(4); all(); p.h(); all();", {"send1": ["eof"]}, (HEAD + "connect5 returned gone1 receive1 receive1 1<| type:1 u32:0 | i64:9> fails 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top other",)),
    "badsend2": ("p.h(); c.cancel_request(0); work(2); p.other(4); all(); p.h(); all();", {"send1": ["eof"]}, (HEAD + "connect5 returned gone1 receive1 receive1 receive1 1<| type:1 u32:0 | i64:9> fails 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:2 u32:0> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top other", HEAD + "connect5 returned gone1 receive1 receive1 1<| type:1 u32:0 | i64:9> fails 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:2 u32:0> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top",)),
    "badone": ("more(); p.h(); again(1, 2, 0); work(0); job(0); job(1); work(0); J = 2; std::string m; inbox(1, &m); all(); p.h(); again(1, 2, 1); all();", {}, (HEAD + "connect5 returned gone1 receive1 receive1 (a decoder starts where no encoder did) (reads type where there is nothing) receive2 receive2 1<| type:1 u32:0 | i64:9> 2<| type:1 u32:0 | i64:9> 2<| type:1 u32:1 | i64:9> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top h till+3600000 under top h till+3600000 under top", HEAD + "connect5 returned gone1 receive1 receive1 (a decoder starts where no encoder did) (reads type where there is nothing) receive2 receive2 2<| type:1 u32:0 | i64:9> 2<| type:1 u32:1 | i64:9> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> h till+3600000 under top h till+3600000 under top h till+3600000 under top",)),
    "allwell": ("more(); p.h(); again(1, 2, 0); p.other(4); again(1, 2, 1); all();", {}, (HEAD + "connect5 receive1 receive1 receive2 receive2 1<| type:1 u32:0 | i64:9> 1<| type:1 u32:1 | i64:5> 2<| type:1 u32:0 | i64:9> 2<| type:1 u32:1 | i64:5> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'other' u32:hash ctx:till+3600000 | i64:4> h till+3600000 under top h till+3600000 under top other other",)),
    "cancels": ("p.h(); p.h(); p.h(); work(0); job(J++); work(0); c.cancel_request(0); work(2); all();", {}, (HEAD + "connect5 for3600000 receive1 receive1 receive1 receive1 1<| type:1 u32:0 | i64:9> 1<| type:1 u32:1 | i64:9> 1<| type:1 u32:2 | i64:9> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:2 u32:0> h till+3600000 under top h till+3600000 under top h till+3600000 under top", HEAD + "connect5 for3600000 receive1 receive1 receive1 receive1 1<| type:1 u32:0 | i64:9> 1<| type:1 u32:1 | i64:9> 1<| type:1 u32:2 | i64:9> 5<| type:0 u32:0 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:1 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:0 u32:2 | <| 'n'> 'h' u32:hash ctx:till+3600000 |> 5<| type:2 u32:0> h till+3600000 under top h till+3600000 under top h till+3600000 under top cancelled",)),
}
SERVED.update({"%s_%d" % (n, k): (REQ + c, w, {"during_looks": [k, "rest"], **net}) for n, (c, net, w) in BETWEEN.items() for k in range(5, 17)})


FAC = r"""
extern "C" void accepting();
extern "C" void closing(int);
extern "C" void back(int);
extern "C" void others() { work(0); back(101); }
struct Con { int n; explicit Con(int n) : n(n) {} ~Con() { got(n); closing(n); here("closed"); } };
struct Fac {
  using connection_type = Con;
  int k;
  explicit Fac(int k) : k(k) {}
  std::unique_ptr<Con> operator()() { here("accept"); accepting(); return std::make_unique<Con>(k++); }
};
template <unsigned long n> using Pr = arpc::connection_producer<Fac, n>;
template <typename P> std::unique_ptr<Con> one(P& p) { auto [c] = arpc::select(p.get_connection()); return std::move(*c); }
#define TWO auto& p = *new Pr<2>(5); p.start();
"""
MADE = {
    "limit": ("TWO mark(1); work(0); work(0); mark(2); auto a = one(p); got(a->n); work(0); mark(3); p.return_connection(std::move(a)); mark(4); work(0); auto b = one(p); got(b->n); work(0); mark(5); auto d = one(p); got(d->n); work(0); p.return_connection(std::move(d)); work(0); p.return_connection(std::move(b)); work(0);", '#1 accept accept #2 5 #3 5 closed #4 accept 6 #5 7 7 closed accept 6 closed accept'),
    "unlimited": ("auto& p = *new arpc::connection_producer<Fac>(5); mark(1);", '#1'),
    "lots": ("auto& p = *new Pr<9>(1); p.start(); work(0); auto a = one(p); auto b = one(p); got(a->n); got(b->n); p.return_connection(std::move(b)); mark(1); work(0);", 'accept accept accept accept accept accept accept accept accept 1 2 2 closed #1 accept 1 closed'),
    "closing": ("TWO work(0); auto a = one(p); auto b = one(p); p.return_connection(std::move(a)); work(0);", 'accept accept 5 closed accept 6 closed', {"closing": 5}),
    "notyet": ("auto& p = *new Pr<2>(5); mark(1); p.stop(); mark(2); p.start(); work(0);", '#1 #2 accept accept'),
    "again": ("TWO mark(1); p.start(); mark(2); work(0); p.stop(); mark(3); p.stop(); mark(4); p.start(); mark(5); work(1); auto a = one(p); got(a->n); p.return_connection(std::move(a)); work(1);", '#1 #2 accept accept cancel0 join0 #3 #4 #5 5 5 closed accept'),
    "stopped": ("TWO work(0); mark(1); p.stop(); mark(2); p.start(); work(1); auto a = one(p); got(a->n); work(1); p.return_connection(std::move(a)); work(1); mark(3);", 'accept accept thread0 throws cancelled #1 cancel0 join0 #2 accept 5 5 closed accept #3', {"accepting": ["", "cancelled", ""]}),
    "destroyed": ("{ Pr<2> p(5); p.start(); mark(1); work(0); } mark(2);", '#1 accept accept cancel0 join0 5 closed 6 closed #2'),
    "unused": ("{ Pr<2> p(5); mark(1); } mark(2);", '#1 #2'),
}


# A pool whose functions may have to wait for room: no function of the pool may
# wait for it, since room is made by workers that are done.
BOUNDED = {
    "request": ('SERVER(std::chrono::hours(1), 1, 1) s.start(); incoming(90, 1); work(0); OBJ(o, 3) s.register_object("n", o); CLIENT auto p = c.get_proxy<Svc::async>("n"); p.ping(); work(0); job(0); mark(1); work(0); job(1); work(0); job(2);', "request"),
}


def bounded(rep):
    errs.STRS.clear()
    prog, code = build("rpc_bounded", BOUNDED)
    for n in code:
        steps, c, key, net = code[n]
        outs, ip = asyncs.explore(prog, steps[0], init, model(prog, steps, net), cls=Interp, max_visits=400)
        rep.require(1, "paths of bounded " + n, len(outs))
        bad = [e for k, st in outs for e in st.events if e[0] == "selfwait"]
        rep.check(not bad, "bounded-pool:" + n, "no function of the pool waits for room in it", "src/arpc/server.h: `%s`: a function run by the pool of bounded queue gives the pool another%s: when all workers do, nobody makes room" % (c, ", holding a lock" if any(e[1] for e in bad) else ""))


def c43(rep, tier):
    bounded(rep)
    play(rep, "rpc_producer", MADE, "src/arpc/server.h", FAC)
    play(rep, "rpc_server", SERVED, "src/arpc/server.h", ALL, True)


def c42(rep, tier):
    play(rep, "rpc_client", LISTEN, "src/arpc/client.h", HOW + MEAN)


# The documented programs are accepted with the library's own connections.
REAL = r'''
#include <string>
#include "arpc/client.h"
#include "arpc/interface.h"
#include "arpc/server.h"
ARPC_INTERFACE(Greeter, (), (((std::string), say_hello_to, (((const std::string&), name))), ((void), note, (((int), n), ((std::string), s)))));
ARPC_INTERFACE(Louder, ((Greeter)), (((int), volume, ())));
struct LouderImpl : Louder {
  std::string say_hello_to(const std::string& name) override { return name; }
  void note(int, std::string) override {}
  int volume() override { return 11; }
};
'''


def documented(rep):
    S = "arpc::server s({}, arpc::endpoint().port(9999)); "
    C = "arpc::client_connection c(arpc::endpoint().name(\"h\").port(9999)); "
    witness.decide(rep, "rpc_real", REAL, [
        ("serve", "{ arpc::server_object<LouderImpl> o; %s s.register_object(\"n\", o); s.register_object(4, o); s.start(); s.unregister_object(o); s.unregister_object(\"n\"); s.stop(); }" % S, "a server on an endpoint, objects registered and removed"),
        ("options", "{ arpc::server_options o; o.request_timeout = std::nullopt; o.num_worker_threads = 2; o.queue_size = 0; arpc::server s(o, arpc::endpoint().port(9999), true, false, 5); s.start(); }", "a server with options"),
        ("call", "{ %s auto p = c.get_proxy<Greeter>(\"n\"); std::string r = p.say_hello_to(\"x\"); p.note(3, r); auto l = c.get_proxy<Louder>(\"n\"); int v = l.volume(); r = l.say_hello_to(r); (void)v; }" % C, "calls through a client on an endpoint"),
        ("async", "{ %s arpc::client_options o; o.request_timeout = std::chrono::seconds(3); auto p = c.get_proxy<Louder::async>(\"n\", o); auto [f, id] = p.volume(); auto [g, n] = p.note(1, \"s\"); c.cancel_request(n); int v = f.get(); g.get(); (void)v; (void)id; }" % C, "asynchronous calls and their cancellation"),
    ], W, asyncs.STUB)


def c44(rep, tier):
    documented(rep)
    play(rep, "rpc_wire", ASK)
