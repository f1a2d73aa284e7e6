"""Socket addresses: ownership of the storage, iteration of lists, endpoints."""
import re
import ir, absint, objs, errs
from absint import Int, Ptr, Sym, TOP, NULL, Throw, May
from packets import fn1
from serial import POL
import par

AH, AC = "src/arpc/address.h", "src/arpc/address.cpp"
SRC = r'''
#include <new>
#include <string>
#include <utility>
#include "arpc/address.cpp"
namespace arpc { class address_resolver { public: static address_list make(addrinfo* a) { return address_list(a); } }; }
using namespace arpc;
using L = address_list;
extern "C" { void sink(const void*); void mark(int); void str(const std::string&); }
static L probe_mk(addrinfo* a) { return address_resolver::make(a); }
void probe_ctor(void* p) { new (p) address(); }
void probe_copy(void* p, const address* o) { new (p) address(*o); }
void probe_move(void* p, address* o) { new (p) address(std::move(*o)); }
void probe_dtor(address* o) { o->~address(); }
void probe_life(address* o) { address a; address b(a); address c(std::move(a)); address d(*o); address e(std::move(c)); mark(1); }
int probe_get_family(const address* o) { return o->family(); }
int probe_get_socktype(const address* o) { return o->socket_type(); }
int probe_get_protocol(const address* o) { return o->protocol(); }
unsigned probe_get_size(const address* o) { return o->address_size(); }
const void* probe_get_data(const address* o) { return o->address_data(); }
void* probe_ref_family(address* o) { return &o->family(); }
void* probe_ref_socktype(address* o) { return &o->socket_type(); }
void* probe_ref_protocol(address* o) { return &o->protocol(); }
void* probe_ref_size(address* o) { return &o->address_size(); }
void* probe_ref_data(address* o) { return o->address_data(); }
void probe_string(const address* o) { str(o->as_string()); }
void probe_walk(addrinfo* a) { L l = probe_mk(a); for (auto& x : l) sink(&x); mark(1); }
void probe_cwalk(addrinfo* a) { const L l = probe_mk(a); for (auto& x : l) sink(&x); mark(1); }
void probe_c2walk(addrinfo* a) { L l = probe_mk(a); for (auto it = l.cbegin(); it != l.cend(); ++it) sink(it.operator->()); mark(1); }
void probe_pwalk(addrinfo* a) { L l = probe_mk(a); auto it = l.begin(); while (!(it == l.end())) sink(&*it++); mark(1); }
void probe_cpwalk(addrinfo* a) { const L l = probe_mk(a); auto it = l.begin(); while (!(it == l.end())) sink(&*it++); mark(1); }
void probe_conv(addrinfo* a) { L l = probe_mk(a); for (L::const_iterator it = l.begin(); it != L::const_iterator(l.end()); ++it) sink(&*it); mark(1); }
unsigned long probe_size(addrinfo* a) { L l = probe_mk(a); return l.size(); }
bool probe_empty(addrinfo* a) { L l = probe_mk(a); return l.empty(); }
void probe_swap(addrinfo* a) { L l = probe_mk(a); auto i = l.begin(), j = l.end(); swap(i, j); sink(j.operator->()); sink(i.operator->()); i.swap(j); sink(i.operator->());
  L::const_iterator ci = i, cj = j; swap(ci, cj); sink(cj.operator->()); cj.swap(ci); sink(ci.operator->()); }
void probe_default(addrinfo* a) { L l = probe_mk(a); L::iterator i; L::const_iterator c; if (i == l.end()) mark(7); if (c == l.cend()) mark(8); }
void probe_mvctor(addrinfo* a) { L l = probe_mk(a); { L m(std::move(l)); for (auto& x : m) sink(&x); mark(1); } mark(l.empty() ? 2 : 3); }
void probe_mvassign(addrinfo* a, addrinfo* b) { L l = probe_mk(a); { L m = probe_mk(b); l = std::move(m); mark(1); } for (auto& x : l) sink(&x); mark(2); }
void probe_ep(void* p) { new (p) endpoint(); }
endpoint& probe_ep_name(endpoint& e, const std::string& s) { return e.name(s); }
endpoint& probe_ep_service(endpoint& e, const std::string& s) { return e.service(s); }
endpoint& probe_ep_port(endpoint& e, int p) { return e.port(p); }
'''
SETTERS = ("passive", "active", "stream", "datagram", "ip", "ipv4", "ipv6")
SRC += "".join("endpoint& probe_ep_%s(endpoint& e) { return e.%s(); }\n" % (s, s) for s in SETTERS)
P = "keep ^std::(__cxx11::)?to_string\nkeep ^std::(__cxx11::)?basic_string\nkeep ^std::(__cxx11::)?operator[+]\n" + POL + \
    "inline ^std::(unique_ptr|__uniq_ptr|tuple|_Tuple_impl|_Head_base|get|__distance|distance|__get_helper)\nminline ^void \\(\\*&?&? ?const&?.*(unique_ptr|_Head_base|__uniq_ptr|_Tuple_impl|std::get|__get_helper|forward|move)\nminline ^void \\(\\*.*(unique_ptr|_Head_base|__uniq_ptr|_Tuple_impl|std::get|__get_helper|forward|move)\nkeep ^arpc::throw_io_error\nentry .\n"


class Interp(absint.Interp):
    def intrinsic(self, st, i, name, args):
        if re.match(r"llvm\.mem(cpy|move)\.", name):
            st.events.append(("memcpy", args[0], args[1], args[2], i["i"]))
        return absint.Interp.intrinsic(self, st, i, name, args)


def model(prog, outcome=0, sys=None):
    def mo(ip, st, i, name, args):
        if name.startswith("@"):
            f = prog.by_mangled.get(name[1:])
            if f is None:
                name = prog_name(name[1:])
            else:
                return nested(ip, st, f, args, mo)
        if i.get("mangled") in prog.by_mangled and name.startswith("arpc::") and name != "arpc::throw_io_error":
            return nested(ip, st, prog.by_mangled[i["mangled"]], args, mo)
        if sys is not None:
            h, r = sys(ip, st, i, name, args)
            if h:
                return r
        if name in ("operator new", "operator new[]"):
            st.fresh += 1
            p = Ptr(("new", st.fresh), 0)
            st.events.append(("new", p, args[0], i["i"]))
            return May(p, ("newfail",))
        if name in ("operator delete", "operator delete[]"):
            st.events.append(("delete", args[0], args[1] if len(args) > 1 else None, i["i"]))
            return None
        if name == "freeaddrinfo":
            st.events.append(("free", args[0], i["i"]))
            return None
        if name in ("sink", "mark"):
            st.events.append((name, args[0]))
            return None
        if name == "str":
            st.events.append(("str", objs.get(st, args[0])))
            return None
        for m in (objs.string_model, objs.exc_model):
            h, r = m(ip, st, i, name, args)
            if h:
                return r
        if name == "__assert_fail":
            return "end"
        if name in ("std::terminate", "__clang_call_terminate"):
            st.events.append(("terminate",))
            return "end"
        st.events.append(("call", name, tuple(args), i["i"]))
        return None
    return mo


def prog_name(m):
    return m


def nested(ip, st, f, args, mo):
    """An indirect call whose target is known."""
    sub = Interp(f, mo, unwind=True)
    sub.strs = ip.strs

    def init(s2, t):
        t.mem, t.fresh = st.mem, st.fresh
        for k, a in enumerate(args):
            t.env[("a", k)] = a
    sub.run(init)
    rets = [t for k, t in sub.done if k == "ret"]
    if len(rets) != 1:
        raise ir.AnalysisError("%s: branching deleter" % f.name)
    st.mem, st.fresh = rets[0].mem, rets[0].fresh
    st.events += [e for e in rets[0].events if e[0] != "ret"]
    return [e[1] for e in rets[0].events if e[0] == "ret"][0]


def run(prog, name, init, **kw):
    fn = fn1(prog, name)
    ip = Interp(fn, model(prog, **kw), unwind=True, max_visits=40)
    ip.strs = errs.STRS
    ip.guard = 1
    ip.run(init)
    return fn, [(k, st) for k, st in ip.done if k != "unreachable"], ip


def news(st):
    """Allocations that succeeded."""
    out = []
    for e in st.events:
        if e[0] == "new":
            out.append(e)
        elif e[0] == "newfail":
            out.pop()
    return out


def ev(st, k):
    if k == "new":
        return news(st)
    return [e for e in st.events if e[0] == k]


OFF = {"flags": (0, 4), "family": (4, 4), "socktype": (8, 4), "protocol": (12, 4), "size": (16, 4), "data": (24, 8), "canonname": (32, 8), "next": (40, 8)}
SELF, OTHER = Ptr(("buf", "self"), 0), Ptr(("buf", "other"), 0)


def fields(ip, st, p):
    return {k: ip.load(st, Ptr(p.obj, o), n, "ptr" if n == 8 else "i32") for k, (o, n) in OFF.items()}


def setup_two(ip, st):
    st.env[("a", 0)] = SELF
    st.env[("a", 1)] = OTHER
    for p in (SELF, OTHER):
        ip.store(st, Ptr(p.obj, 40), p, 8)      # an address of its own, not a list node
        for k, (o, n) in OFF.items():
            if k == "data":
                ip.store(st, Ptr(p.obj, o), Ptr(("buf", p.obj[1] + ".data"), 0), 8)
            elif k == "canonname":
                ip.store(st, Ptr(p.obj, o), NULL, 8)
            elif k != "next":
                ip.store(st, Ptr(p.obj, o), Int.src(32, (p.obj[1], k)), 4)


def fresh_self(ip, st):
    setup_two(ip, st)
    for k in [k for k in st.mem if k[0] == SELF.obj]:
        del st.mem[k]


def ownership(rep, prog):
    # construction
    fn, outs, ip = run(prog, "probe_ctor", fresh_self)
    sizes = set()
    for k, st in outs:
        if k == "throw":
            rep.check(not ev(st, "new"), "ctor:throw", "a failed allocation leaves nothing behind", "%s: the default constructor throws after allocating" % AC)
            continue
        f = fields(ip, st, SELF)
        n = ev(st, "new")
        sz = n[0][2].value if len(n) == 1 and isinstance(n[0][2], Int) else None
        sizes.add(sz)
        rep.check(k == "ret" and sz is not None and sz >= 128 and f["data"] == n[0][1], "ctor:storage", "owns fresh storage for any socket address", "%s: the default constructor allocates %s bytes and points to %s" % (AC, sz, f["data"]))
        rep.check(all(isinstance(f[x], Int) and f[x].value == 0 for x in ("family", "socktype", "protocol", "flags")), "ctor:zero", "everything else is unspecified", "%s: a default-constructed address has %s" % (AC, {x: f[x] for x in ("flags", "family", "socktype", "protocol")}))
        rep.check(isinstance(f["size"], Int) and f["size"].value is not None and sz is not None and 0 < f["size"].value <= sz and f["size"].value >= 128, "ctor:size", "its size is the size of the storage", "%s: a default-constructed address of %s bytes says its size is %s" % (AC, sz, f["size"]))
        z = [ip.load(st, Ptr(n[0][1].obj, j), 1, "i8") for j in range(0, min(sz or 0, 128))] if n else []
        rep.check(bool(z) and all(isinstance(b, Int) and b.value == 0 for b in z), "ctor:cleared", "the storage is zeroed", "%s: a default-constructed address hands out uninitialised storage" % AC)
        rep.check(f["next"] == SELF and f["canonname"] == NULL, "ctor:links", "belongs to no list", "%s: a default-constructed address has next %s, canonname %s" % (AC, f["next"], f["canonname"]))
    rep.require(1, "default constructor paths", len(outs))
    # copy
    fn, outs, ip = run(prog, "probe_copy", fresh_self)
    for k, st in outs:
        o = fields(ip, st, OTHER)
        same = o["data"] == Ptr(("buf", "other.data"), 0) and o["next"] == OTHER and all(o[x] == Int.src(32, ("other", x)) for x in ("flags", "family", "socktype", "protocol", "size"))
        rep.check(same, "copy:source", "the source stays as it was", "%s: copying changes the source to %s" % (AC, o))
        if k == "throw":
            rep.check(not ev(st, "new"), "copy:throw", "a failed allocation leaves nothing behind", "%s: the copy constructor throws after allocating" % AC)
            continue
        f = fields(ip, st, SELF)
        n = ev(st, "new")
        sz = n[0][2].value if len(n) == 1 and isinstance(n[0][2], Int) else None
        sizes.add(sz)
        rep.check(k == "ret" and sz is not None and sz >= 128 and f["data"] == n[0][1], "copy:storage", "the copy owns storage of its own", "%s: the copy constructor points to %s, having allocated %s" % (AC, f["data"], n))
        rep.check(all(f[x] == Int.src(32, ("other", x)) for x in ("flags", "family", "socktype", "protocol", "size")), "copy:fields", "every attribute is copied", "%s: the copy of an address has %s" % (AC, {x: f[x] for x in ("flags", "family", "socktype", "protocol", "size")}))
        mc = [e for e in ev(st, "memcpy") if e[1] == f["data"]]
        ok = len(mc) >= 1 and mc[-1][2] == o["data"] and isinstance(mc[-1][3], Int) and mc[-1][3].b[:32] == Int.src(32, ("other", "size")).b and all(b == 0 for b in mc[-1][3].b[32:])
        rep.check(ok, "copy:bytes", "exactly the source's bytes are copied", "%s: the copy constructor copies %s" % (AC, [(e[1], e[2], e[3]) for e in ev(st, "memcpy")]))
        rep.check(f["next"] == SELF and f["canonname"] == NULL, "copy:links", "the copy belongs to no list", "%s: a copied address has next %s, canonname %s" % (AC, f["next"], f["canonname"]))
    rep.require(1, "copy constructor paths", len(outs))
    # a node of a resolver's list can be copied
    def node(ip, st):
        fresh_self(ip, st)
        ip.store(st, Ptr(OTHER.obj, 40), Ptr(("buf", "third"), 0), 8)
        ip.store(st, Ptr(OTHER.obj, 32), Ptr(("buf", "name"), 0), 8)
    fn, outs, ip = run(prog, "probe_copy", node)
    for k, st in outs:
        if k == "throw":
            continue
        f = fields(ip, st, SELF)
        rep.check(k == "ret" and f["next"] == SELF and f["canonname"] == NULL, "copy:node", "a copy of a list's element is independent of the list", "%s: a copied list element has next %s, canonname %s (%s)" % (AC, f["next"], f["canonname"], k))
    # move
    fn, outs, ip = run(prog, "probe_move", fresh_self)
    for k, st in outs:
        f, o = fields(ip, st, SELF), fields(ip, st, OTHER)
        rep.check(k == "ret" and not ev(st, "new"), "move:nothrow", "moving allocates nothing", "%s: the move constructor %s, allocating %d" % (AC, k, len(ev(st, "new"))))
        rep.check(all(f[x] == Int.src(32, ("other", x)) for x in ("flags", "family", "socktype", "protocol", "size")) and f["data"] == Ptr(("buf", "other.data"), 0), "move:takes", "the storage and every attribute change hands", "%s: a moved address has %s" % (AC, f))
        rep.check(o["data"] == NULL and isinstance(o["size"], Int) and o["size"].value == 0, "move:leaves", "the source gives its storage up", "%s: the source of a move keeps storage %s, size %s" % (AC, o["data"], o["size"]))
        rep.check(f["next"] == SELF and f["canonname"] == NULL and o["next"] == OTHER, "move:links", "neither belongs to a list", "%s: after a move next is %s and %s" % (AC, f["next"], o["next"]))
    rep.require(1, "move constructor paths", len(outs))
    # destruction
    def d(ip, st):
        setup_two(ip, st)
        st.env[("a", 0)] = OTHER
    fn, outs, ip = run(prog, "probe_dtor", d)
    for k, st in outs:
        dl = ev(st, "delete")
        rep.check(k == "ret" and len(dl) == 1 and dl[0][1] == Ptr(("buf", "other.data"), 0), "dtor:frees", "the storage is released once", "%s: the destructor ends with %s, releasing %s" % (AC, k, [e[1] for e in dl]))
        for e in dl:
            s = e[2].value if isinstance(e[2], Int) else None
            rep.check(e[2] is None or {s} == sizes, "dtor:size", "the storage is released as what it was allocated as", "%s: storage of %s bytes is released as an object of %s bytes" % (AC, sorted(map(str, sizes)), s))
    # a life with every constructor: each piece of storage released exactly once
    fn, outs, ip = run(prog, "probe_life", d)
    for k, st in outs:
        news = [e[1] for e in ev(st, "new")]
        dels = [e[1] for e in ev(st, "delete") if e[1] != NULL]
        rep.check(sorted(map(repr, news)) == sorted(map(repr, dels)) and not ev(st, "terminate"), "life:%s:%d" % (k, len(news)), "every allocation is released exactly once",
                  "%s: of the storage %s allocated by default, copy and move construction, %s is released (%s)" % (AC, news, dels, "an allocation failed" if ev(st, "newfail") else k))
    rep.require(4, "construction histories", len(outs))
    # accessors
    for x in ("family", "socktype", "protocol", "size", "data"):
        fn, outs, ip = run(prog, "probe_get_" + x, d)
        for k, st in outs:
            v = ev(st, "ret")[0][1] if k == "ret" else None
            want = Int.src(32, ("other", x)) if x != "data" else Ptr(("buf", "other.data"), 0)
            rep.check(v == want, "get:" + x, "reads its own attribute", "%s: the accessor of %s returns %s" % (AC, x, v))
        fn, outs, ip = run(prog, "probe_ref_" + x, d)
        for k, st in outs:
            v = ev(st, "ret")[0][1] if k == "ret" else None
            want = Ptr(OTHER.obj, OFF[x][0]) if x != "data" else Ptr(("buf", "other.data"), 0)
            rep.check(v == want, "ref:" + x, "refers to its own attribute", "%s: the mutable accessor of %s refers to %s" % (AC, x, v))


def lists(rep, prog):
    def chain(n, base="n"):
        ns = [Ptr(("buf", "%s%d" % (base, k)), 0) for k in range(n)]

        def init(ip, st):
            for k, p in enumerate(ns):
                ip.store(st, Ptr(p.obj, 40), ns[k + 1] if k + 1 < n else NULL, 8)
        return ns, init
    where = AC + " address_list"

    def freed(st):
        return [e[1] for e in ev(st, "free")]
    for n in range(5):
        ns, mkc = chain(n)

        def init(ip, st):
            mkc(ip, st)
            st.env[("a", 0)] = ns[0] if ns else NULL
        head = ns[:1]
        for w in ("walk", "cwalk", "c2walk", "pwalk", "cpwalk", "conv"):
            fn, outs, ip = run(prog, "probe_" + w, init)
            for k, st in outs:
                got = [e[1] for e in ev(st, "sink")]
                rep.check(k == "ret" and got == ns, "%s:%d" % (w, n), "visits every address once, in order", "%s: iterating over %d addresses (%s) visits %s" % (where, n, w, got))
                fr = [x for x in st.events if x[0] in ("free", "mark")]
                rep.check([x[1] for x in fr if x[0] == "free"] == head and (not head or fr[-1][0] == "free"), "%s:free:%d" % (w, n), "the list is released once, at the end", "%s: a list of %d addresses is released %s" % (where, n, freed(st)))
            rep.require(1, "paths of probe_%s(%d)" % (w, n), len(outs))
        for w, want in (("size", n), ("empty", int(n == 0))):
            fn, outs, ip = run(prog, "probe_" + w, init)
            for k, st in outs:
                v = ev(st, "ret")[0][1] if k == "ret" else None
                rep.check(isinstance(v, Int) and v.value == want and freed(st) == head, "%s:%d" % (w, n), "answers for the addresses in the list", "%s: %s() of %d addresses is %s" % (where, w, n, v))
        if n:
            fn, outs, ip = run(prog, "probe_swap", init)
            for k, st in outs:
                got = [e[1] for e in ev(st, "sink")]
                rep.check(got == [ns[0], NULL, ns[0], ns[0], ns[0]], "swap:%d" % n, "iterators are exchanged", "%s: swapping iterators gives %s" % (where, got))
            fn, outs, ip = run(prog, "probe_default", init)
            for k, st in outs:
                rep.check([e[1].value for e in ev(st, "mark")] == [7, 8], "default:%d" % n, "a default iterator is an end", "%s: a default-constructed iterator is not the end" % where)
        fn, outs, ip = run(prog, "probe_mvctor", init)
        for k, st in outs:
            seq = [(e[0], e[1].value if isinstance(e[1], Int) else e[1]) for e in st.events if e[0] in ("mark", "free", "sink")]
            want = [("sink", x) for x in ns] + [("mark", 1)] + [("free", x) for x in head] + [("mark", 2)]
            rep.check(seq == want, "mvctor:%d" % n, "moving hands the list over", "%s: after a move of %d addresses: %s" % (where, n, seq))
        for m in (0, 2):
            ms, mkd = chain(m, "m")

            def init2(ip, st):
                init(ip, st)
                mkd(ip, st)
                st.env[("a", 1)] = ms[0] if ms else NULL
            fn, outs, ip = run(prog, "probe_mvassign", init2)
            for k, st in outs:
                seq = [(e[0], e[1].value if isinstance(e[1], Int) else e[1]) for e in st.events if e[0] in ("mark", "free", "sink")]
                want = [("free", x) for x in head] + [("mark", 1)] + [("sink", x) for x in ms] + [("mark", 2)] + [("free", x) for x in ms[:1]]
                rep.check(seq == want, "mvassign:%d:%d" % (n, m), "move assignment releases the old list and takes the new one", "%s: assigning %d addresses over %d: %s" % (where, m, n, seq))


def strings(rep, prog):
    """as_string: numeric host and port, taken from the address."""
    def d(ip, st):
        setup_two(ip, st)
        st.env[("a", 0)] = OTHER
    for fail in (0, 1):
        for colon in (0, 1):
            def sys(ip, st, i, name, args):
                if name == "getnameinfo":
                    st.events.append(("gni", tuple(args)))
                    if fail:
                        v = Int.const(32, 0xfffffffe)
                        return True, v
                    return True, Int.const(32, 0)
                nm = re.sub(r" const$", "", name)
                m = re.search(r"basic_string(?:_view)?::(find|rfind|find_first_of|contains)$", nm)
                if m or name in ("strchr", "std::strchr", "memchr"):
                    st.events.append(("find", args[1] if len(args) > 1 else None))
                    if m and m.group(1) != "contains":
                        return True, Int.const(64, 2 if colon else (1 << 64) - 1)
                    return True, Ptr(("buf", "colon"), 0) if colon else NULL
                if name == "arpc::throw_io_error":
                    st.events.append(("ioerr", tuple(args)))
                    return True, Throw("ioerr")
                return False, None
            fn, outs, ip = run(prog, "probe_string", d, sys=sys)
            for k, st in outs:
                g = ev(st, "gni")
                if len(g) != 1:
                    rep.bad("string:call:%d%d" % (fail, colon), "%s as_string: getnameinfo is called %d times" % (AC, len(g)))
                    continue
                a = g[0][1]
                rep.check(a[0] == Ptr(("buf", "other.data"), 0) and isinstance(a[1], Int) and a[1] == Int.src(32, ("other", "size")), "string:address:%d%d" % (fail, colon), "asks about its own bytes", "%s as_string asks about %s, %s" % (AC, a[0], a[1]))
                rep.check(isinstance(a[6], Int) and a[6].value == 3, "string:numeric:%d%d" % (fail, colon), "asks for numbers, not names", "%s as_string: flags %s" % (AC, a[6]))
                host, port = a[2], a[4]
                hl, pl = (x.value if isinstance(x, Int) else None for x in (a[3], a[5]))
                sz = {}
                for b in fn.blocks:
                    for i in b:
                        if i["op"] == "alloca":
                            sz[("alloca", i["i"])] = i.get("asz", i.get("sz"))
                ok = isinstance(host, Ptr) and isinstance(port, Ptr) and host.obj != port.obj and hl is not None and pl is not None and hl >= 46 and pl >= 6
                rep.check(ok, "string:room:%d%d" % (fail, colon), "room for any numeric address and port", "%s as_string: %s bytes for the host, %s for the port" % (AC, hl, pl))
                for p, n, w in ((host, hl, "host"), (port, pl, "port")):
                    s = sz.get(p.obj) if isinstance(p, Ptr) else None
                    if s is not None and n is not None:
                        rep.check(n <= s, "string:bound:%s:%d%d" % (w, fail, colon), "the size passed is the buffer's", "%s as_string lets getnameinfo write %d bytes into the %d of the %s buffer" % (AC, n, s, w))
                if fail:
                    rep.check(k == "throw" and not ev(st, "str"), "string:fail:%d" % colon, "a failure is reported", "%s as_string returns %s after getnameinfo failed" % (AC, ev(st, "str")))
                    continue
                h, p = objs.cstr_tok(ip, host), objs.cstr_tok(ip, port)
                want = objs.cat(objs.cat(objs.cat(("lit", "["), h), ("lit", "]:")), p) if colon else objs.cat(objs.cat(h, ("lit", ":")), p)
                got = [e[1] for e in ev(st, "str")]
                rep.check(k == "ret" and got == [want], "string:format:%d" % colon, "host:port, with brackets when the host contains a colon", "%s as_string of a host %s colon is %s, not %s" % (AC, "with a" if colon else "without", got, want))
                f = ev(st, "find")
                rep.check(bool(f) and all(isinstance(e[1], Int) and e[1].value == 58 or isinstance(e[1], Ptr) and ip.strs.get(e[1].obj[1]) == ":" for e in f), "string:colon:%d" % colon, "the host is searched for a colon", "%s as_string decides on %s" % (AC, f))
            rep.require(1, "paths of as_string", len(outs))


def endpoints(rep, prog):
    E = Ptr(("buf", "ep"), 0)

    def blank(ip, st):
        st.env[("a", 0)] = E
        st.env[("a", 1)] = Ptr(("buf", "arg"), 0)
        objs.put(st, Ptr(("buf", "arg"), 0), ("argument",))

    def final(ip, st):
        ints = {k[1]: v for k, v in st.mem.items() if k[0] == E.obj}
        toks = {k[2]: v for k, v in st.mem.items() if k[0] == objs.K and k[1] == E.obj}
        return ints, toks
    fn, outs, ip0 = run(prog, "probe_ep", blank)
    outs = [(k, s) for k, s in outs if k == "ret"]
    if len(outs) != 1:
        raise ir.AnalysisError("endpoint constructor: %d paths" % len(outs))
    d0, t0 = final(ip0, outs[0][1])
    st0 = outs[0][1]
    eff = {}
    for s in SETTERS:
        fn, outs, ip = run(prog, "probe_ep_" + s, blank)
        for k, st in outs:
            ints, toks = final(ip, st)
            offs = sorted(ints)
            r = ev(st, "ret")[0][1] if k == "ret" else None
            rep.check(k == "ret" and r == E and not toks and offs and offs == list(range(offs[0], offs[0] + len(offs))), "setter:" + s, "changes one attribute and returns the endpoint", "%s endpoint::%s changes bytes %s and returns %s" % (AC, s, offs, r))
            v = ip.load(st, Ptr(E.obj, offs[0]), len(offs), "i%d" % (8 * len(offs))) if offs else None
            eff[s] = (offs[0] if offs else None, len(offs), v.value if isinstance(v, Int) else None)
    for grp, vals in ((("passive", "active"), (1, 0)), (("stream", "datagram"), (1, 2)), (("ip", "ipv4", "ipv6"), (0, 2, 10))):
        where = {eff[s][:2] for s in grp if s in eff}
        rep.check(len(where) == 1, "group:" + grp[0], "alternatives replace each other", "%s: %s of an endpoint set different attributes %s" % (AC, "/".join(grp), where))
        for s, v in zip(grp, vals):
            rep.check(eff.get(s, (0, 0, None))[2] == v, "value:" + s, "the value is %d" % v, "%s endpoint::%s sets %s, not %d" % (AC, s, eff.get(s), v))
        o, n = sorted(where)[0] if where else (0, 0)
        dv = ip0.load(st0, Ptr(E.obj, o), n, "i%d" % (8 * n)) if n else None
        want = {"passive": 0, "stream": 1, "ip": 0}[grp[0]]
        rep.check(isinstance(dv, Int) and dv.value == want, "default:" + grp[0], "the default is %d" % want, "%s: an endpoint starts with %s for %s, not %d" % (AH, dv, "/".join(grp), want))
    offs = [eff[s][0] for s in ("passive", "stream", "ip") if s in eff]
    rep.check(len(set(offs)) == 3, "distinct", "active/passive, socket type and family are separate", "%s: endpoint attributes share storage: %s" % (AC, eff))
    rep.check(len(t0) == 2 and set(t0.values()) <= {("empty",), ("lit", "")}, "default:strings", "name and service start empty", "%s: an endpoint starts with strings %s" % (AH, t0))
    so = {}
    for s in ("name", "service", "port"):
        def pinit(ip, st):
            blank(ip, st)
            if s == "port":
                st.env[("a", 1)] = Int.src(32, "port")
            # strings of the endpoint before
            for o in t0:
                objs.put(st, Ptr(E.obj, o), ("old", o))
        fn, outs, ip = run(prog, "probe_ep_" + s, pinit)
        for k, st in outs:
            if k == "throw":
                continue
            ints, toks = final(ip, st)
            ch = {o: t for o, t in toks.items() if t != ("old", o)}
            r = ev(st, "ret")[0][1] if k == "ret" else None
            so.setdefault(s, set()).update(ch)
            rep.check(k == "ret" and r == E and len(ch) == 1 and not [x for x in ints if not any(o <= x < o + 32 for o in t0)], "setter:" + s, "changes one attribute and returns the endpoint", "%s endpoint::%s changes %s and returns %s" % (AC, s, ch, r))
            v = list(ch.values())[0] if ch else None
            ok = v == ("argument",) if s != "port" else bool(v) and v[0] == "num" and v[1] == repr(Int.src(32, "port")) and v[2] == "int"
            rep.check(ok, "value:" + s, "the value given", "%s endpoint::%s stores %s" % (AC, s, v))
    rep.check(so.get("service") == so.get("port") and so.get("name") != so.get("service"), "group:service", "the port replaces the service, the name is separate", "%s: name, service and port of an endpoint are stored at %s" % (AC, so))


def c20(rep, tier):
    errs.STRS.clear()
    prog = ir.extract([ir.compile_bc("addrs.cpp", ("-fsized-deallocation",), SRC)], P)
    ownership(rep, prog)
    lists(rep, prog)
    strings(rep, prog)
    endpoints(rep, prog)
