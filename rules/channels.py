"""Channels, files, pipes and sockets: who owns which descriptor, which system
calls are made with which arguments, and what becomes of their outcome."""
import re
import ir, absint, objs, errs, asyncs, par
from absint import Int, Ptr, Sym, TOP, NULL, Throw, May, Agg, Nested
from packets import fn1

WHERE = "src/arpc/channel.cpp"
POL = asyncs.POL
HEAD = r'''
#include "arpc/channel.cpp"
#include "arpc/file.cpp"
#include "arpc/pipe.cpp"
#include "arpc/mutex.cpp"
#include "arpc/address.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
using arpc::channel;
using arpc::address;
extern "C" { void mark(int); void got(long); void gotp(const void*); }
'''
SYS = {"read", "write", "fcntl", "fcntl64", "dup", "shutdown", "connect", "getsockopt", "setsockopt", "bind", "listen", "accept", "getsockname", "getpeername", "open", "open64", "pipe", "socket", "close", "poll", "ready", "accept4", "pipe2", "dup2", "dup3", "send", "recv", "__read_chk", "sendto", "recvfrom", "lseek", "unlink", "ioctl", "select", "epoll_wait", "signal", "kill"}
OPENS = {"dup", "accept", "open", "open64", "socket"}


def width(t):
    return int(t[1:]) if re.match(r"i\d+$", t) else 64


def bits(name, w, sign=None):
    b = [(name, k) for k in range(w)]
    if sign is not None:
        b[-1] = sign
    return Int(w, b)


ARGS = {"f": bits("f", 32, 0), "g": bits("g", 32, 0), "h": bits("h", 32, 1), "i": Int.src(32, "i"), "b": Ptr(("buf", "b"), 0), "n": bits("n", 64, 0),
        "t": Int.src(1, "t"), "a": Ptr(("buf", "a"), 0), "r": bits("r", 64, 0), "s": Ptr(("buf", "s"), 0)}


def fmt(v, w=32):
    if v is None:
        return "?"
    if isinstance(v, Int):
        s = v.signed() if v.w > 1 else v.value
        if s is not None:
            return str(s)
        srcs = {x[1][0] if isinstance(x, tuple) and x[0] == "~" else x[0] if isinstance(x, tuple) else x for x in v.b}
        names = {x for x in srcs if isinstance(x, (str, tuple))}
        if len(names) == 1:
            n, = names
            t = list(v.b)
            while len(t) > 1 and t[-1] == t[-2]:
                t.pop()     # extension
            odd = [(k, x) for k, x in enumerate(t[:-1]) if x in (0, 1)]
            n2 = n if isinstance(n, str) else ".".join(map(str, n))
            if all(x == (n, k) for k, x in enumerate(t[:-1]) if x not in (0, 1)) and (t[-1] == (n, len(t) - 1) or t[-1] in (0, 1)) and len({x for k, x in odd}) < 2:
                return n2 if not odd else "%s%s%d" % (n2, "|" if odd[0][1] else "&~", sum(1 << k for k, x in odd))
            return "part of " + n2
        return repr(v)
    if isinstance(v, Ptr):
        if v == NULL:
            return "null"
        o = v.obj
        if o[0] in ("buf", "part"):
            return o[1] + ("+%s" % v.off if v.off else "")
        if o[0] == "tokdata":
            return "text"
        if o[0] == "g":
            return "&const"
        return "&"
    return repr(v)


def world(fails=(), again=(), facts=None, pending=()):
    """Models the system: fails/again = ordinals of system calls that fail (for good / for now)."""
    def mo(ip, st, i, name, args):
        if name in ("mark", "got", "gotp"):
            st.events.append(("say", fmt(args[0]) if name != "mark" else "#%s" % fmt(args[0])))
            return True, None
        if name == "signal":
            return True, NULL
        if name in SYS:
            n = st.mem.get(("$n",), 0)
            nm = {"open64": "open", "fcntl64": "fcntl"}.get(name, name)
            a = [fmt(x) for x in args]
            if name == "setsockopt" and len(args) == 5:
                sz = args[4].value
                v = [ip.load(st, Ptr(args[3].obj, args[3].off + k), 4, "i32") for k in range(0, sz or 4, 4)]
                a = a[:3] + ["{" + ",".join(map(fmt, v)) + "}", a[4]]
            if nm in ("getsockopt",) and isinstance(args[4], Ptr):
                a[4] = "[%s]" % fmt(ip.load(st, args[4], 4, "i32"))
            if nm == "open" and isinstance(args[0], Ptr) and args[0].obj[0] == "tokdata":
                a[0] = str(args[0].obj[1][1] if args[0].obj[1][0] == "lit" else args[0].obj[1][0])
            if nm == "close":
                st.events.append(("close", args[0]))
                st.events.append(("say", "close(%s)" % a[0]))
                return True, Int.const(32, 0)
            if name == "ready":
                st.events.append(("say", "ready(%s)" % ",".join(a)))
                return True, None
            st.mem[("$n",)] = n + 1
            st.events.append(("sys", nm, n))
            st.events.append(("say", "%s(%s)" % (nm, ",".join(a))))
            if n in fails or n in again or n in pending:
                st.mem[("$failed",)] = "again" if n in again else "io" if n in fails else "pending"
                st.events.append(("say", "FAIL"))
                return True, Int.const(width(i["t"]), -1)
            if nm in OPENS:
                v = bits("fd%d" % n, 32, 0)
                st.events.append(("open", v))
                return True, v
            if nm == "pipe":
                for k in (0, 1):
                    v = bits("fd%d.%d" % (n, k), 32, 0)
                    st.events.append(("open", v))
                    ip.store(st, Ptr(args[0].obj, args[0].off + 4 * k), v, 4)
                return True, Int.const(32, 0)
            if nm == "fcntl":
                return True, bits("flags", 32, 0) if args[1].value == 3 else Int.const(32, 0)
            if nm in ("read", "write"):
                return True, bits("num%d" % n, 64, 0)
            if nm == "getsockopt":
                if isinstance(args[3], Ptr):
                    ip.store(st, args[3], (facts or {}).get("opt", Int.src(32, "opt%d" % n)), 4)
                return True, Int.const(32, 0)
            return True, Int.const(32, 0)
        if re.match(r"arpc::throw_io_error", name):
            code = "errno" if len(args) < 2 else fmt(args[1])
            kind = st.mem.get(("$failed",), "io") if code == "errno" else "io"
            st.mem.pop(("$failed",), None)
            st.events.append(("say", "io_error(%s)" % code))
            if kind == "pending":
                return True, None
            return True, Throw("_ZTIN4arpc6errors9try_againE" if kind == "again" else "_ZTIN4arpc6errors8io_errorE")
        if name == "__errno_location":
            return True, Ptr(("part", "errno"), 0)
        m = re.match(r"arpc::address::(~?\w+)(?: const)?$", name)
        if m:
            a = args[1:] if i.get("sret") else args
            base = a[0].obj[1] if isinstance(a[0], Ptr) and a[0].obj[0] in ("buf", "part") else "own"
            if m.group(1) in ("address", "~address", "operator="):
                return True, None
            p = Ptr(("part", base + "." + m.group(1)), 0)
            if i["t"] == "ptr":
                if m.group(1) == "address_data" and ("$fam", p.obj) not in st.mem:
                    st.mem[("$fam", p.obj)] = True
                    ip.store(st, p, (facts or {}).get("family", Int.src(16, base + ".sa_family")), 2)
                return True, p
            return True, Int.src(width(i["t"]), base + "." + m.group(1))
        if name == "strlen" and isinstance(args[0], Ptr):
            return True, objs.clen(objs.cstr_tok(ip, args[0]))
        return False, None
    return mo


BASES = {"_ZTIN4arpc6errors9try_againE": ("_ZTIN4arpc6errors10base_errorE",)}


def tell(k, st):
    out = [e[1] for e in st.events if e[0] == "say"]
    if k == "throw":
        t = str(st.exc)
        out.append("throw " + re.sub(r"^(?:rethrown )?_ZTIN4arpc6errors\d+(\w+)E$|^_ZTI\w*?\d+(\w+)E?$", lambda m: m.group(1) or m.group(2), t))
    elif k != "ret":
        out.append(k)
    return out


def play(prog, name, prefix="probe_", **kw):
    f = fn1(prog, prefix + name)

    def init(ip, st):
        for k, (n, ty) in enumerate(PARAMS.get(name, [])):
            st.env[("a", k)] = ARGS[n]
            if n == "s":
                objs.put(st, ARGS[n], ("s",))
    return asyncs.explore(prog, f, init, world(**kw), max_visits=12)


PARAMS = {}


def build(scen, prefix="probe_"):
    out = []
    ty = {"f": "int", "g": "int", "h": "int", "i": "int", "b": "char*", "n": "std::size_t", "t": "bool", "a": "address*", "r": "long", "s": "const std::string&"}
    for name, (params, code) in scen.items():
        PARAMS[name] = [(p, ty[p]) for p in params]
        out.append("void %s%s(%s) { %s }\n" % (prefix, name, ", ".join("%s %s" % (ty[p], p) for p in params), code))
    return "".join(out)


# ---------------------------------------------------------------- ownership
OWN = {
    "none": ("", "{ channel c; got(c.get()); got(*c); got(bool(c)); mark(1); } mark(2);"),
    "one": ("f", "{ channel c(f); got(c.get()); got(*c); got(bool(c)); mark(1); } mark(2);"),
    "neg": ("h", "{ channel c(h); got(bool(c)); mark(1); } mark(2);"),
    "close": ("f", "{ channel c(f); c.close(); got(c.get()); got(bool(c)); mark(1); c.close(); } mark(2);"),
    "reset": ("fg", "{ channel c(f); c.reset(g); got(c.get()); mark(1); } mark(2);"),
    "reset0": ("f", "{ channel c(f); c.reset(); got(c.get()); mark(1); } mark(2);"),
    "resetn": ("f", "{ channel c; c.reset(f); got(c.get()); mark(1); } mark(2);"),
    "release": ("f", "{ channel c(f); got(c.release()); got(c.get()); got(bool(c)); mark(1); } mark(2);"),
    "move": ("f", "{ channel c(f); { channel d(std::move(c)); got(d.get()); got(c.get()); mark(1); } mark(2); } mark(3);"),
    "assign": ("fg", "{ channel c(f); { channel d(g); d = std::move(c); got(d.get()); got(c.get()); mark(1); } mark(2); } mark(3);"),
    "assignn": ("f", "{ channel c(f); channel d; c = std::move(d); got(c.get()); got(d.get()); mark(1); } mark(2);"),
    "self": ("f", "{ channel c(f); channel& d = c; c = std::move(d); got(c.get()); mark(1); } mark(2);"),
    "swap": ("fg", "{ channel c(f); { channel d(g); c.swap(d); got(c.get()); got(d.get()); mark(1); } mark(2); } mark(3);"),
    "selfswap": ("f", "{ channel c(f); c.swap(c); got(c.get()); mark(1); } mark(2);"),
    "dup": ("f", "channel c(f); { channel d = c.dup(); got(d.get()); got(c.get()); mark(1); } mark(2); c.release();"),
    "accept": ("f", "channel c(f); { channel d = c.maybe_accept(); got(d.get()); got(c.get()); mark(1); } mark(2); c.release();"),
    "accepta": ("fa", "channel c(f); { channel d = c.maybe_accept(*a); got(d.get()); got(c.get()); mark(1); } mark(2); c.release();"),
    "waccept": ("f", "channel c(f); { channel d = c.accept(); got(d.get()); got(c.get()); mark(1); } mark(2); c.release();"),
    "waccepta": ("fa", "channel c(f); { channel d = c.accept(*a); got(d.get()); got(c.get()); mark(1); } mark(2); c.release();"),
    "file": ("", "{ channel d = arpc::file(\"x\", arpc::open_mode::READ); got(d.get()); mark(1); } mark(2);"),
    "pipe": ("", "{ channel p[2]; arpc::pipe(p); got(p[0].get()); got(p[1].get()); mark(1); p[0].close(); mark(2); } mark(3);"),
    "repipe": ("f", "{ channel p[2]; p[0].reset(f); arpc::pipe(p); got(p[0].get()); got(p[1].get()); mark(1); p[0].release(); p[1].release(); } mark(3);"),
    "mutex": ("", "{ arpc::mutex m; mark(1); } mark(2);"),
}
OWANT = {
    "none": "-1 -1 0 #1 #2", "one": "f f 1 #1 close(f) #2", "neg": "0 #1 #2", "close": "close(f) -1 0 #1 #2", "reset": "close(f) g #1 close(g) #2", "reset0": "close(f) -1 #1 #2",
    "resetn": "f #1 close(f) #2", "release": "f -1 0 #1 #2", "move": "f -1 #1 close(f) #2 #3", "assign": "close(g) f -1 #1 close(f) #2 #3", "assignn": "close(f) -1 -1 #1 #2",
    "self": "f #1 close(f) #2", "swap": "g f #1 close(f) #2 close(g) #3", "selfswap": "f #1 close(f) #2",
    "dup": "dup(f) fd0 f #1 close(fd0) #2", "accept": "accept(f,null,null) fd0 f #1 close(fd0) #2", "accepta": "accept(f,a.address_data,a.address_size) fd0 f #1 close(fd0) #2",
    "waccept": "ready(f,0,-1,0) accept(f,null,null) fd0 f #1 close(fd0) #2", "waccepta": "ready(f,0,-1,0) accept(f,a.address_data,a.address_size) fd0 f #1 close(fd0) #2",
    "file": "open(x,0,438) fd0 #1 close(fd0) #2", "pipe": "pipe(&) fd0.0 fd0.1 #1 close(fd0.0) #2 close(fd0.1) #3", "repipe": "pipe(&) close(f) fd0.0 fd0.1 #1 #3",
    "mutex": None,
}


def norm(parts):
    return " ".join(parts)


def prep(src, scen):
    flags = ("-iquote" + ir.VERIF + "/stub/contract",) + asyncs.STUB
    return ir.extract([ir.compile_bc("channels.cpp", flags, HEAD + src + build(scen))], POL)


def balanced(rep, label, name, st, k):
    """Every descriptor opened here is closed here, once, and no other is closed twice."""
    opened = [fmt(e[1]) for e in st.events if e[0] == "open"]
    closed = [fmt(e[1]) for e in st.events if e[0] == "close"]
    twice = sorted({c for c in closed if closed.count(c) > 1})
    rep.check(not twice, "twice:" + label, "each descriptor is closed once", "%s: `%s` closes %s twice" % (WHERE, code(name), twice))
    leak = sorted(set(opened) - set(closed))
    if name != "repipe":
        rep.check(not leak, "leak:" + label, "each descriptor is closed", "%s: `%s` (%s) never closes %s" % (WHERE, code(name), k, leak))


CODE = {}


def code(n):
    return CODE.get(n, n)


def story(rep, prog, name, want, label, rule="the calls and results are as specified", **kw):
    """want: the exact set of stories (one string: just that one), or None."""
    outs, ip = play(prog, name, **kw)
    rep.require(1, "paths of " + label, len(outs))
    if want is not None:
        got = {norm(tell(k, st)) for k, st in outs}
        want = {want} if isinstance(want, str) else set(want)
        rep.check(got == want, label, rule, "%s: `%s`: %s; should be %s" % (WHERE, code(name), " or ".join(sorted(got - want or got)), " or ".join(sorted(want))))
    for k, st in outs:
        balanced(rep, label, name, st, k)
    return outs


def c30(rep, tier):
    errs.STRS.clear()
    prog = prep("", OWN)
    for n, (p, c) in OWN.items():
        CODE[n] = c

    def one(sub, n):
        outs = story(sub, prog, n, OWANT[n], "own:" + n)
        calls = max(sum(1 for e in st.events if e[0] == "sys") for k, st in outs)
        for j in range(calls):
            o2 = story(sub, prog, n, None, "fail:%s.%d" % (n, j), fails=(j,))
            for k, st in o2:
                s = tell(k, st)
                sub.check(k == "throw" and s[-1] == "throw io_error", "fail:%s.%d" % (n, j), "a failed call is an error", "%s: `%s`: %s" % (WHERE, code(n), norm(s)))
                mine = [fmt(e[1]) for e in st.events if e[0] == "close"]
                if "f" in OWN[n][0]:
                    sub.check(mine.count("f") <= 1, "keep:%s.%d" % (n, j), "the channel keeps its own descriptor", "%s: `%s`: the channel's own descriptor is closed twice" % (WHERE, code(n)))
    par.each(rep, one, list(OWN))


# ---------------------------------------------------------------- system calls
def ch(c, keep="mark(1);"):
    return "channel c(f); %s %s" % (c, keep)


CALLS = {
    # name: (parameters, code, all succeed, facts)
    "mread": ("fbn", "got(c.maybe_read(b, n));", ["read(f,b,n) num0 #1 close(f)", "read(f,b,n) close(f) throw eof"]),
    "mwrite": ("fbn", "got(c.maybe_write(b, n));", "write(f,b,n) num0 #1 close(f)"),
    "read": ("fbn", "got(c.read(b, n));", ["ready(f,0,-1,0) read(f,b,n) num0 #1 close(f)", "ready(f,0,-1,0) read(f,b,n) close(f) throw eof"]),
    "write": ("fbn", "got(c.write(b, n));", "ready(f,1,-1,0) write(f,b,n) num0 #1 close(f)"),
    "canread": ("f", "auto w = c.can_read(); got(w.get_fd()); got(w.for_write()); got(w.timeout() / std::chrono::milliseconds(1)); got(w.for_polling());", "f 0 -1 0 #1 close(f)"),
    "canwrite": ("f", "auto w = c.can_write(); got(w.get_fd()); got(w.for_write()); got(w.timeout() / std::chrono::milliseconds(1)); got(w.for_polling());", "f 1 -1 0 #1 close(f)"),
    "aread": ("fbn", "auto w = c.async_read(b, n); got(w.get_fd()); got(w.for_write()); mark(2); got(w.get_react_fn()());", ["f 0 #2 read(f,b,n) num0 #1 close(f)", "f 0 #2 read(f,b,n) close(f) throw eof"]),
    "awrite": ("fbn", "auto w = c.async_write(b, n); got(w.get_fd()); got(w.for_write()); mark(2); got(w.get_react_fn()());", "f 1 #2 write(f,b,n) num0 #1 close(f)"),
    "nb1": ("f", "got(&c.make_non_blocking(true) == &c);", "fcntl(f,3) fcntl(f,4,flags|2048) 1 #1 close(f)"),
    "nb": ("f", "c.make_non_blocking();", "fcntl(f,3) fcntl(f,4,flags|2048) #1 close(f)"),
    "nb0": ("f", "c.make_non_blocking(false);", "fcntl(f,3) fcntl(f,4,flags&~2048) #1 close(f)"),
    "shutrw": ("f", "got(&c.shutdown(true, true) == &c);", "shutdown(f,2) 1 #1 close(f)"),
    "shutr": ("f", "c.shutdown(true, false);", "shutdown(f,0) #1 close(f)"),
    "shutw": ("f", "c.shutdown(false, true);", "shutdown(f,1) #1 close(f)"),
    "shut": ("f", "got(&c.shutdown(false, false) == &c);", "1 #1 close(f)"),
    "bind": ("fa", "got(&c.bind(*a) == &c);", "bind(f,a.address_data,a.address_size) 1 #1 close(f)", {"family": Int.const(16, 2)}),
    "bindu": ("fa", "c.bind(*a);", "bind(f,a.address_data,a.address_size) #1 close(f)", {"family": Int.const(16, 1)}),
    "bind6": ("fa", "c.bind(*a);", "setsockopt(f,41,26,{1},4) bind(f,a.address_data,a.address_size) #1 close(f)", {"family": Int.const(16, 10)}),
    "listen": ("fi", "got(&c.listen(i) == &c);", "listen(f,i) 1 #1 close(f)"),
    "listend": ("f", "c.listen();", "listen(f,10) #1 close(f)"),
    "own": ("f", "address x = c.own_addr(); got(x.family()); got(x.socket_type()); got(x.protocol());", "getsockname(f,own.address_data,own.address_size) getsockopt(f,1,3,own.socket_type,[4]) getsockopt(f,1,38,own.protocol,[4]) own.sa_family opt1 opt2 #1 close(f)"),
    "peer": ("f", "address x = c.peer_addr(); got(x.family()); got(x.socket_type()); got(x.protocol());", "getpeername(f,own.address_data,own.address_size) getsockopt(f,1,3,own.socket_type,[4]) getsockopt(f,1,38,own.protocol,[4]) own.sa_family opt1 opt2 #1 close(f)"),
    "conn": ("fa", "got(&c.connect(*a) == &c);", "connect(f,a.address_data,a.address_size) ready(f,1,-1,0) getsockopt(f,1,4,&,[4]) 1 #1 close(f)", {"opt": Int.const(32, 0)}),
    "connerr": ("fa", "c.connect(*a);", "connect(f,a.address_data,a.address_size) ready(f,1,-1,0) getsockopt(f,1,4,&,[4]) io_error(111) close(f) throw io_error", {"opt": Int.const(32, 111)}),
    "aconn": ("fa", "auto w = c.async_connect(*a); mark(2); got(w.get_fd()); got(w.for_write()); w.get_react_fn()();", "connect(f,a.address_data,a.address_size) #2 f 1 getsockopt(f,1,4,&,[4]) #1 close(f)", {"opt": Int.const(32, 0)}),
    "dup": ("f", "channel d = c.dup(); got(d.get());", "dup(f) fd0 #1 close(fd0) close(f)"),
    "macc": ("f", "channel d = c.maybe_accept(); got(d.get());", "accept(f,null,null) fd0 #1 close(fd0) close(f)"),
    "macca": ("fa", "channel d = c.maybe_accept(*a); got(d.get());", "accept(f,a.address_data,a.address_size) fd0 #1 close(fd0) close(f)"),
    "acc": ("f", "channel d = c.accept(); got(d.get());", "ready(f,0,-1,0) accept(f,null,null) fd0 #1 close(fd0) close(f)"),
    "acca": ("fa", "channel d = c.accept(*a); got(d.get());", "ready(f,0,-1,0) accept(f,a.address_data,a.address_size) fd0 #1 close(fd0) close(f)"),
    "sock": ("fgi", "channel d = arpc::socket(f, g, i); got(d.get());", "socket(f,g,i) fd0 #1 close(fd0) close(f)"),
    "socka": ("fa", "channel d = arpc::socket(*a); got(d.get());", "socket(a.family,a.socket_type,a.protocol) fd0 #1 close(fd0) close(f)"),
}
for k, (m, fl) in enumerate((("READ", 0), ("WRITE", 577), ("APPEND", 1089), ("READ_PLUS", 2), ("WRITE_PLUS", 578), ("APPEND_PLUS", 1090))):
    CALLS["file%d" % k] = ("fs", "channel d = arpc::file(s, arpc::open_mode::%s); got(d.get());" % m, "open(s,%d,438) fd0 #1 close(fd0) close(f)" % fl)
AGAIN = {
    "acc": "ready(f,0,-1,0) accept(f,null,null) FAIL io_error(errno) ready(f,0,-1,0) accept(f,null,null) fd1 #1 close(fd1) close(f)",
    "acca": "ready(f,0,-1,0) accept(f,a.address_data,a.address_size) FAIL io_error(errno) ready(f,0,-1,0) accept(f,a.address_data,a.address_size) fd1 #1 close(fd1) close(f)",
    "read": ["ready(f,0,-1,0) read(f,b,n) FAIL io_error(errno) ready(f,0,-1,0) read(f,b,n) num1 #1 close(f)", "ready(f,0,-1,0) read(f,b,n) FAIL io_error(errno) ready(f,0,-1,0) read(f,b,n) close(f) throw eof"],
    "write": "ready(f,1,-1,0) write(f,b,n) FAIL io_error(errno) ready(f,1,-1,0) write(f,b,n) num1 #1 close(f)",
}
OPTIONS = {}
for n, lvl, opt in (("keep_alive", 1, 9), ("reuse_addr", 1, 2), ("reuse_port", 1, 15), ("no_delay", 6, 1)):
    for a, v in (("true", 1), ("false", 0), ("", 1)):
        OPTIONS["%s_%s" % (n, a or "dflt")] = ("f", "got(&c.%s(%s) == &c);" % (n, a), "setsockopt(f,%d,%d,{%d},4) 1 #1 close(f)" % (lvl, opt, v))
OPTIONS["linger_r"] = ("fr", "got(&c.linger(true, std::chrono::seconds(r)) == &c);", "setsockopt(f,1,13,{1,r},8) 1 #1 close(f)")
OPTIONS["linger_0"] = ("fr", "c.linger(false, std::chrono::seconds(r));", "setsockopt(f,1,13,{0,r},8) #1 close(f)")
OPTIONS["linger_dflt"] = ("f", "c.linger();", "setsockopt(f,1,13,{1,10},8) #1 close(f)")


def calls(rep, table, quiet=()):
    scen = {n: (v[0], ch(v[1])) for n, v in list(table.items()) + [("flush", ("f", "got(&c.flush() == &c);"))]}
    prog = prep("#include \"arpc/socket.h\"\n" + SOCK, scen)
    CODE.update({n: v[1] for n, v in table.items()})

    def one(sub, n):
        facts = table[n][3] if len(table[n]) > 3 else None
        outs = story(sub, prog, n, table[n][2], "call:" + n, facts=facts)
        trace = max((tell(k, st) for k, st in outs), key=len)
        at = [j for j, w in enumerate(trace) if re.match(r"(%s)\(" % "|".join(SYS - {"close", "ready"}), w)]
        for j, pos in enumerate(at):
            pre = norm(trace[:pos + 1])
            if n == "connerr" or n == "conn" and j == 1:
                pre = pre
            own = " close(f)"
            story(sub, prog, n, pre + " FAIL io_error(errno)" + own + " throw io_error", "fail:%s.%d" % (n, j), "a failed call is reported at once, from its own error code", fails=(j,), facts=facts)
    par.each(rep, one, list(table))
    return prog


SOCK = r'''
namespace arpc {
channel socket(int, int, int);
channel socket(const address&);
}
#include "arpc/socket.cpp"
'''


def c31(rep, tier):
    errs.STRS.clear()
    prog = calls(rep, CALLS)
    for n, want in AGAIN.items():
        story(rep, prog, n, want, "again:" + n, "an operation that would block is waited for and tried again", again=(0,))
    for n in ("mread", "mwrite", "macc", "macca", "sock"):
        for k, st in play(prog, n, again=(0,))[0]:
            s = tell(k, st)
            rep.check(s[-1] == "throw try_again", "again:" + n, "would block is reported as try_again", "%s: `%s`: %s" % (WHERE, code(n), norm(s)))
    story(rep, prog, "conn", "connect(f,a.address_data,a.address_size) FAIL io_error(errno) ready(f,1,-1,0) getsockopt(f,1,4,&,[4]) 1 #1 close(f)", "pending:conn", "a connection in progress is waited for and its outcome checked", pending=(0,), facts={"opt": Int.const(32, 0)})
    story(rep, prog, "connerr", "connect(f,a.address_data,a.address_size) FAIL io_error(errno) ready(f,1,-1,0) getsockopt(f,1,4,&,[4]) io_error(111) close(f) throw io_error", "pending:connerr", "a connection in progress is waited for and its outcome checked", pending=(0,), facts={"opt": Int.const(32, 111)})


DIAL = {
    "dial": ("t", "channel c = arpc::dial(ep(), t); got(c.get()); mark(1);"),
    "dialn": ("", "channel c = arpc::dial(ep()); got(c.get()); mark(1);"),
    "listen1": ("i", "arpc::listener l(ep(), true, true, i); mark(1);"),
    "listen0": ("i", "arpc::listener l(ep(), false, false, i); mark(1);"),
    "listend": ("", "arpc::listener l(ep()); mark(1);"),
    "acc": ("", "arpc::listener l(ep()); mark(1); { channel c = l.accept(); got(c.get()); mark(2); } { channel c = l.accept(); got(c.get()); mark(3); }"),
}


def hosts(n, left, picks=()):
    """Models an address list of n addresses and the context's remaining time."""
    def addr(k):
        return Ptr(("buf", "a%d" % k), 0)

    def mo(ip, st, i, name, args):
        nm = re.sub(r" const$", "", name)
        a = args[1:] if i.get("sret") else args
        m = re.match(r"arpc::address_list::(?:(const_iterator|iterator)::)?(.+)$", nm)
        if m:
            op = m.group(2)
            if m.group(1):
                cur = ip.load(st, a[0], 8, "ptr") if isinstance(a[0], Ptr) and a[0].obj[0] != "it" else a[0]
                if op == "operator++":
                    nxt = Ptr(("it", cur.obj[1] + 1), 0)
                    if cur.obj[1] >= n:
                        st.events.append(("say", "PAST-END"))
                        return True, "end"
                    ip.store(st, a[0], nxt, 8)
                    return True, cur if len(a) > 1 else a[0]
                if op in ("operator*", "operator->"):
                    if cur.obj[1] >= n:
                        st.events.append(("say", "PAST-END"))
                        return True, "end"
                    return True, addr(cur.obj[1])
                if op in ("operator==", "operator!="):
                    o = ip.load(st, a[1], 8, "ptr")
                    return True, Int.const(1, int((cur == o) == (op == "operator==")))
                if op in ("const_iterator", "iterator"):
                    if len(a) > 1:
                        ip.store(st, a[0], ip.load(st, a[1], 8, "ptr"), 8)
                    return True, None
            if op in ("begin", "cbegin"):
                return True, Ptr(("it", 0), 0)
            if op in ("end", "cend"):
                return True, Ptr(("it", n), 0)
            if op == "size":
                return True, Int.const(64, n)
            if op == "empty":
                return True, Int.const(1, int(n == 0))
            return True, None
        m = re.match(r"arpc::endpoint::(\w+)$", nm)
        if m and m.group(1) in ("active", "passive", "name", "service", "family"):
            st.events.append(("say", m.group(1)))
            return True, args[0]
        if nm == "arpc::address_resolver::resolve":
            st.events.append(("say", "resolve"))
            return True, None
        if nm == "arpc::context::current" or nm == "arpc::address_resolver::get":
            return True, Ptr(("buf", nm.split("::")[-1]), 0)
        m = re.match(r"arpc::context::(~?\w+)$", nm)
        if m:
            op = m.group(1)
            if op == "deadline_left":
                if not i.get("sret"):
                    return True, Agg({0: bits("left", 64, 0), 1: Int.const(8, int(left))})
                ip.store(st, args[0], bits("left", 64, 0), 8)
                ip.store(st, Ptr(args[0].obj, args[0].off + 8), Int.const(8, int(left)), 1)
                return True, None
            if op == "context":
                st.events.append(("say", "ctx(%s)" % ",".join(map(fmt, args[1:]))))
            elif op == "~context":
                st.events.append(("say", "~ctx"))
            elif op == "set_timeout":
                want = bits("left", 64, 0)
                if n > 1:
                    want = ip.binop("udiv", want, Int.const(64, n), 64)
                st.events.append(("say", "timeout(%s)" % ("share" if args[1] == want else fmt(args[1]))))
            else:
                return False, None
            return True, None
        if nm.endswith("::pick") or nm == "pick":
            return True, Int.const(1, int(args[0].value in picks))
        return False, None
    return mo


def attempt(k, n, j, left, nb="flags|2048"):
    """What connecting to address k looks like if its j-th call fails (None: succeeds); j numbers calls from n."""
    a = "a%d" % k
    calls = ["socket(%s.family,%s.socket_type,%s.protocol)" % (a, a, a), "fcntl(fd%d,3)" % n, "fcntl(fd%d,4,%s)" % (n, nb), "connect(fd%d,%s.address_data,%s.address_size)" % (n, a, a), "ready(fd%d,1,-1,0)" % n, "getsockopt(fd%d,1,4,&,[4])" % n]
    out = ["ctx(current,1,0)"] + (["timeout(share)"] if left else [])
    if j is None:
        return out + calls + ["~ctx"]
    cut = j + 1 if j < 4 else 6
    out += calls[:cut] + ["FAIL", "io_error(errno)"] + (["close(fd%d)" % n] if j else []) + ["~ctx"]
    return out


def c32(rep, tier):
    errs.STRS.clear()
    prog = calls(rep, OPTIONS)
    for bad, want in (((), "setsockopt(f,6,1,{1},4) setsockopt(f,6,1,{0},4) 1 #1 close(f)"), ((0,), "setsockopt(f,6,1,{1},4) FAIL 1 #1 close(f)"), ((1,), "setsockopt(f,6,1,{1},4) setsockopt(f,6,1,{0},4) FAIL 1 #1 close(f)")):
        story(rep, prog, "flush", want, "flush:%s" % (bad,), "flushing never fails", fails=bad)
    flags = ("-iquote" + ir.VERIF + "/stub/contract",) + asyncs.STUB
    pol = POL.replace("vector|deque", "deque").replace("_Vector_base|", "")
    prog = ir.extract([ir.compile_bc("dial.cpp", flags, HEAD + '#include "arpc/socket.cpp"\narpc::endpoint&& ep();\n' + build(DIAL))], pol)
    CODE.update({n: v[1] for n, v in DIAL.items()})
    zero = {"opt": Int.const(32, 0)}
    jobs = []
    for n in (0, 1, 2, 3):
        for left in (True, False):
            # every way for the addresses before the last one tried to fail
            for fate in ([()] if not n else [f for m in range(1, n + 1) for f in fates(m, m == n)]):
                jobs.append(("dialn", n, left, fate))
    for t in (0, 1):
        jobs.append(("dial%d" % t, 1, False, (None,)))

    def one(sub, job):
        name, n, left, fate = job
        ARGS["t"] = Int.const(1, int(name != "dial0"))
        fails, at, want = [], 0, ["active", "resolve"]
        for k, j in enumerate(fate):
            want += attempt(k, at, j, left, "flags&~2048" if name == "dial0" else "flags|2048")
            if j is not None:
                fails.append(at + j)
                at += j + 1
            else:
                at += 5
        first = at - 5
        if n == 0:
            want.append("throw invalid_argument")
        elif fate[-1] is None:
            want += ["fd%d" % first, "#1", "close(fd%d)" % first]
        else:
            want.append("throw io_error")
        f = fn1(prog, "probe_" + name.rstrip("01"))

        def init(ip, st):
            st.env[("a", 0)] = ARGS["t"]
        w, h = world(fails, facts=zero), hosts(n, left)

        def mo(*x):
            r = h(*x)
            return r if r[0] else w(*x)
        outs, ip = asyncs.explore(prog, f, init, mo, max_visits=12)
        label = "dial:%d%s:%s" % (n, "t" if left else "", ",".join("ok" if x is None else str(x) for x in fate))
        got = {norm(tell(k, st)) for k, st in outs}
        sub.check(got == {norm(want)}, label, "addresses are tried in turn", "%s: dial with %d addresses, calls %s failing: %s; should be %s" % ("src/arpc/socket.cpp", n, fails, " or ".join(sorted(got)), norm(want)))
        for k, st in outs:
            balanced(sub, label, name, st, k)
    par.each(rep, one, jobs)

    def listening(sub, job):
        name, n, fail = job
        h, w = hosts(n, False), world(() if fail is None else (fail,), facts={"family": Int.const(16, 2)})

        def mo(*x):
            r = h(*x)
            return r if r[0] else w(*x)

        def init(ip, st):
            st.env[("a", 0)] = ARGS["i"]
        outs, ip = asyncs.explore(prog, fn1(prog, "probe_" + name), init, mo, max_visits=12)
        nb, re, bl = {"listen1": ("flags|2048", 1, "i"), "listen0": ("flags&~2048", 0, "i"), "listend": ("flags|2048", 1, "10")}[name]
        want, at = ["passive", "resolve"], 0
        for k in range(n):
            a, d = "a%d" % k, "fd%d" % at
            want += ["socket(%s.family,%s.socket_type,%s.protocol)" % (a, a, a)] + sorted(["fcntl(%s,3)" % d, "fcntl(%s,4,%s)" % (d, nb), "setsockopt(%s,1,2,{%d},4)" % (d, re)]) + ["bind(%s,%s.address_data,%s.address_size)" % (d, a, a), "listen(%s,%s)" % (d, bl)]
            at += 6
        label = "%s:%d:%s" % (name, n, fail)
        for k, st in outs:
            s = [x for x in tell(k, st) if not x.startswith("close")]
            if fail is None:
                got = ungrouped(s)
                sub.check(norm(got) == norm(want + ["#1"]), label, "every address is listened on, as asked", "src/arpc/socket.cpp: listening on %d addresses: %s; should be %s" % (n, norm(got), norm(want + ["#1"])))
            else:
                sub.check(s[-3:] == ["FAIL", "io_error(errno)", "throw io_error"], label, "a failed call is an error", "src/arpc/socket.cpp: listening on %d addresses, call %d failing: %s" % (n, fail, norm(s)))
            balanced(sub, label, name, st, k)
    par.each(rep, listening, [(m, n, None) for m in ("listen1", "listen0", "listend") for n in (1, 2, 3)] + [("listen1", 2, k) for k in range(12)])

    def accepting(sub, ready):
        n = 3
        h, w = hosts(n, False, picks={100 + k for k in ready}), world((), facts={"family": Int.const(16, 2)})

        def mo(*x):
            r = h(*x)
            return r if r[0] else w(*x)
        outs, ip = asyncs.explore(prog, fn1(prog, "probe_acc"), lambda ip, st: None, mo, max_visits=12)
        label = "accept:%s" % (ready,)
        for k, st in outs:
            s = tell(k, st)
            taken = ["fd%d" % j for j, e in enumerate([e for e in st.events if e[0] == "sys"]) if e[1] == "accept"]
            served = [s[j - 1] for j, x in enumerate(s) if x in ("#2", "#3")]
            sub.check(k == "ret" and len(served) == 2 and len(set(served)) == 2 and set(served) <= set(taken), label, "accepted connections are handed out, each once", "src/arpc/socket.cpp: with listening sockets %s ready, two accepts give %s of %s: %s" % (ready, served, taken, norm(s)))
            sub.check(len(taken) == len(ready) * (2 if len(ready) == 1 else 1), label + ":kept", "an accepted connection waits for the next accept", "src/arpc/socket.cpp: with listening sockets %s ready, two accepts take %s" % (ready, taken))
            src = {x for x in s if x.startswith("accept(")}
            sub.check(src == {"accept(fd%d,null,null)" % (6 * r) for r in ready}, label + ":from", "connections come from the listening sockets", "src/arpc/socket.cpp: %s" % sorted(src))
            for t in taken:
                sub.check("fcntl(%s,4,flags|2048)" % t in s, label + ":nb", "accepted connections are non-blocking as asked", "src/arpc/socket.cpp: %s is not made non-blocking" % t)
            balanced(sub, label, "acc", st, k)
    par.each(rep, accepting, [(0,), (1,), (2,), (0, 1), (0, 2), (1, 2)])


def ungrouped(s):
    """Options of one descriptor may be set in any order before it is bound."""
    out, i = [], 0
    while i < len(s):
        j = i
        while j < len(s) and s[j].startswith(("fcntl(", "setsockopt(")):
            j += 1
        out += sorted(s[i:j]) if j > i else [s[i]]
        i = max(j, i + 1)
    return out


def fates(m, last):
    """Outcomes of m attempts: all but the final one fail at some call; the final one succeeds, or fails if it is the last."""
    heads = [()]
    for _ in range(m - 1):
        heads = [h + (j,) for h in heads for j in (0, 1, 3, 4)]
    if m == 3:
        heads = [h for h in heads if h[0] == h[1] or h[0] == 3]
    return [h + (None,) for h in heads] + ([h + (j,) for h in heads for j in (0, 2, 3, 4)] if last else [])
