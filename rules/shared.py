"""Shared pointers and dynamic objects on the wire (rules C07 and C08).

Lookup tables and vectors of the codecs are concrete here: every partition
fixes which objects, ids and class names occur, the analysis follows the code."""
import re, itertools
import ir, absint, objs, errs
from absint import Int, Ptr, Sym, TOP, NULL, May, Throw, tiname, Agg
from packets import fn1

POL7 = errs.EPOL.replace("entry ^__cxx_global_var_init\n", "").replace("entry portable_error_class_name_internal$\n", "").replace("mentry register_error_class\n",
    "inline ^body::(save|load)\nkeep ^arpc::registry::dynamic_[a-z_]*(registry|factory)::\nkeep ^arpc::singleton::get$\nkeep ^arpc::dynamic_base_class::\n")
ES = 256
VEC = re.compile(r"^std::vector::(.+)$")
SP = re.compile(r"^std::(?:shared_ptr|__shared_ptr|__shared_ptr_access|weak_ptr|__weak_ptr|unique_ptr|__uniq_ptr_impl|__uniq_ptr_data)::(.+)$")


def copy_obj(st, s, d, n=ES):
    """Copies the abstract contents of the n bytes at s to d."""
    for k in list(st.mem):
        if k[0] == objs.K and k[1] == s.obj and s.off <= k[2] < s.off + n:
            st.mem[(objs.K, d.obj, d.off + k[2] - s.off)] = st.mem[k]
        elif k[0] == s.obj and isinstance(k[1], int) and s.off <= k[1] < s.off + n:
            st.mem[(d.obj, d.off + k[1] - s.off)] = st.mem[k]


def wipe(st, d, n=ES):
    for k in list(st.mem):
        if (k[0] == objs.K and k[1] == d.obj and d.off <= k[2] < d.off + n) or (k[0] == d.obj and isinstance(k[1], int) and d.off <= k[1] < d.off + n):
            del st.mem[k]


def num(v):
    return v.value if isinstance(v, Int) else None


# ---- vectors of records
def vec_model(interp, st, i, name, args):
    nm = re.sub(r" const$", "", name)
    m = VEC.match(nm)
    if not m:
        return False, None
    op = m.group(1)
    a = args[1:] if i.get("sret") else args
    this = a[0]
    key = ("$vec", this.obj, this.off)
    area = ("vec",) + key[1:]
    n = st.mem.get(key, 0)
    if op == "vector":
        st.mem[key] = 0
        if len(a) >= 3 and isinstance(a[1], Ptr) and num(a[2]) is not None:
            k = num(a[2])
            if k > 1:
                raise ir.AnalysisError("initialiser of %d records at %s" % (k, interp.fn.where(i["i"])))
            for j in range(k):
                copy_obj(st, a[1], Ptr(area, j * ES))
            st.mem[key] = k
        elif len(a) >= 2 and isinstance(a[1], Int):
            raise ir.AnalysisError("vector constructor outside the model at %s" % interp.fn.where(i["i"]))
        return True, None
    if op.startswith("~") or op in ("reserve", "shrink_to_fit"):
        return True, None
    if op == "size":
        return True, Int.const(64, n)
    if op == "empty":
        return True, Int.const(1, int(n == 0))
    if op in ("push_back", "emplace_back"):
        if len(a) == 1:
            wipe(st, Ptr(area, n * ES))
            for o in range(0, 64, 8):
                interp.store(st, Ptr(area, n * ES + o), NULL, 8)
        elif len(a) == 2:
            wipe(st, Ptr(area, n * ES))
            copy_obj(st, a[1], Ptr(area, n * ES))
        else:
            raise ir.AnalysisError("emplace_back outside the model at %s" % interp.fn.where(i["i"]))
        st.mem[key] = n + 1
        st.events.append(("push", this, n, i["i"]))
        return True, Ptr(area, n * ES)
    if op == "pop_back":
        st.mem[key] = n - 1
        return True, None
    if op == "clear":
        st.mem[key] = 0
        return True, None
    if op in ("operator[]", "at"):
        k = num(a[1])
        if k is None:
            raise ir.AnalysisError("index outside the model at %s" % interp.fn.where(i["i"]))
        if k >= n:
            if op == "at":
                return True, Throw("_ZTISt12out_of_range")
            st.events.append(("oob", "index", k, n, i["i"]))
        return True, Ptr(area, k * ES)
    if op in ("back", "front"):
        return True, Ptr(area, (n - 1) * ES if op == "back" else 0)
    if op == "resize" and num(a[1]) is not None:
        for k in range(n, num(a[1])):
            wipe(st, Ptr(area, k * ES))
            for o in range(0, 64, 8):
                interp.store(st, Ptr(area, k * ES + o), NULL, 8)
        st.mem[key] = num(a[1])
        return True, None
    if op in ("begin", "cbegin", "end", "cend") and op.lstrip("c") in ("begin", "end"):
        return True, Ptr(area, n * ES if "end" in op else 0)
    raise ir.AnalysisError("%s is outside the model at %s" % (name, interp.fn.where(i["i"])))


# ---- shared_ptr / weak_ptr / unique_ptr
def sp_model(interp, st, i, name, args):
    nm = re.sub(r" const$", "", name)
    dem = i.get("dem", "")
    if re.match(r"^std::(static|dynamic|const|reinterpret)_pointer_cast$", nm) and i.get("sret"):
        ptr, ctl = args[1], interp.load(st, Ptr(args[1].obj, args[1].off + 8), 8, "ptr")
        interp.store(st, args[0], interp.load(st, ptr, 8, "ptr"), 8)
        interp.store(st, Ptr(args[0].obj, args[0].off + 8), ctl, 8)
        return True, None
    if re.match(r"^std::make_(shared|unique)$", nm):
        if not i.get("sret") or len(args) > 1:
            raise ir.AnalysisError("%s with arguments is outside the model at %s" % (nm, interp.fn.where(i["i"])))
        st.fresh += 1
        o = Ptr(("new", st.fresh), 0)
        interp.store(st, args[0], o, 8)
        if nm.endswith("shared"):
            interp.store(st, Ptr(args[0].obj, args[0].off + 8), Ptr(("ctl", st.fresh, o.obj), 0), 8)
        return True, None
    if nm in ("std::operator==", "std::operator!=") and re.search(r"_ptr<", dem):
        ps = objs.params(dem)
        vs = [interp.load(st, p, 8, "ptr") if "_ptr<" in t else NULL for p, t in zip(args, ps)]
        if len(vs) == 1:
            vs.append(NULL)
        r = interp.icmp(st, "eq" if nm.endswith("==") else "ne", vs[0], vs[1])
        return True, r
    m = SP.match(nm)
    if not m:
        return False, None
    op = m.group(1)
    sret = i.get("sret")
    a = args[1:] if sret else args
    this = a[0]
    uniq = "unique_ptr" in nm or "__uniq" in nm
    ps = objs.params(dem)

    def setp(p, v, c):
        interp.store(st, p, v, 8)
        if not uniq:
            interp.store(st, Ptr(p.obj, p.off + 8), c, 8)

    def getp(p):
        return interp.load(st, p, 8, "ptr"), (NULL if uniq else interp.load(st, Ptr(p.obj, p.off + 8), 8, "ptr"))
    cls = nm.split("::")[1]
    if op in ("shared_ptr", "weak_ptr", "unique_ptr", "__shared_ptr", "operator=", "reset"):
        old = st.mem.get((this.obj, this.off)) if op in ("operator=", "reset") else None
        if len(a) == 1 or ps and "nullptr_t" in ps[0]:
            setp(this, NULL, NULL)
        elif ps and re.search(r"_ptr<.*(&&|&)$", ps[0]) and not ps[0].rstrip("&").endswith("*"):
            v, c = getp(a[1])
            if len(ps) >= 2 and ps[1].endswith("*"):
                v = a[2]
            setp(this, v, c)
            if ps[0].endswith("&&") and a[1] != this:
                setp(a[1], NULL, NULL)
        elif isinstance(a[1], Ptr):
            st.fresh += 1
            setp(this, a[1], NULL if a[1].obj == "null" else Ptr(("ctl", st.fresh, a[1].obj), 0))
        else:
            setp(this, a[1], Ptr(("ctl", "?"), 0))
        if op in ("operator=", "reset"):
            st.events.append(("assign", this, i["i"]))
        return True, this if op == "operator=" else None
    if op.startswith("~"):
        return True, None
    if op in ("get", "operator*", "operator->", "_M_get", "_M_ptr"):
        return True, getp(this)[0]
    if op == "operator bool":
        return True, interp.icmp(st, "ne", getp(this)[0], NULL)
    if op == "swap":
        x, y = getp(this), getp(a[1])
        setp(this, *y)
        setp(a[1], *x)
        return True, None
    if op == "release":
        v = getp(this)[0]
        setp(this, NULL, NULL)
        return True, v
    if op == "lock" and sret:
        v, c = getp(this)
        interp.store(st, args[0], v, 8)
        interp.store(st, Ptr(args[0].obj, args[0].off + 8), c, 8)
        return True, None
    if op == "expired":
        return True, interp.icmp(st, "eq", getp(this)[0], NULL)
    if op == "use_count":
        return True, Int.top(64)
    raise ir.AnalysisError("%s is outside the model at %s" % (name, interp.fn.where(i["i"])))


# ---- lookup tables
def keyof(interp, st, p, dem_t):
    if "string_view" in dem_t or "basic_string" in dem_t:
        t = objs.get(st, p)
        return t if t is not None else objs.load_sv(interp, st, p), 16
    v = interp.load(st, p, 8, "ptr")
    return ("p", repr(v)), 8


def keytype(dem):
    m = re.search(r"flat_(?:map|set|tree|multimap)<(.*)", dem)
    return m.group(1)[:60] if m else ""


def map_model(interp, st, i, name, args):
    nm = re.sub(r" const$", "", name)
    m = re.match(errs.MAPOPS + r"(.+)$", nm)
    if not m:
        m = VEC.match(nm)      # flat_tree takes begin/end/size from its base
        if not m or "vector<std::pair<" not in i.get("dem", ""):
            return False, None
    op = m.group(1)
    if op == "vector":
        op = "flat_tree"
    sret = i.get("sret")
    a = args[1:] if sret else args
    this = a[0]
    mk = ("$map", this.obj, this.off)
    d = st.mem.get(mk, ())
    kt = keytype(i.get("dem", ""))
    end = Ptr(("iter", "end") + mk[1:], 0)

    def slot(k):
        for kk, s in d:
            if kk == k:
                return s
        return None

    def area(s):
        return Ptr(("iter", "entry", mk[1], mk[2], s), 0)

    def insert(k, klen, vptr, kptr):
        s = len(d)
        copy_obj(st, kptr, area(s), klen)
        if vptr is not None:
            copy_obj(st, vptr, Ptr(area(s).obj, klen), 64)
        st.mem[mk] = d + ((k, s),)
        st.events.append(("remember", this, k, i["i"]))
        return s

    def result(s, new):
        if sret:
            interp.store(st, args[0], area(s), 8)
            interp.store(st, Ptr(args[0].obj, args[0].off + 8), Int.const(8, int(new)), 1)
            return True, None
        return True, Agg({0: area(s), 1: Int.const(8, int(new))})
    if op.startswith("flat_"):
        st.mem[mk] = d = ()
        if len(a) >= 3 and isinstance(a[1], Ptr) and num(a[2]) is not None:
            for j in range(num(a[2])):
                q = Ptr(a[1].obj, a[1].off + 16 * j)
                k, kl = keyof(interp, st, q, kt)
                if slot(k) is None:
                    insert(k, kl, Ptr(q.obj, q.off + kl), q)
                    d = st.mem[mk]
        return True, None
    if op.startswith("~") or op == "reserve":
        return True, None
    if op in ("find", "count", "at", "contains", "lower_bound"):
        k, kl = keyof(interp, st, a[1], kt)
        s = slot(k)
        if op == "count":
            return True, Int.const(64, int(s is not None))
        if op == "contains":
            return True, Int.const(1, int(s is not None))
        if op == "at":
            return True, Throw("_ZTISt12out_of_range") if s is None else Ptr(area(s).obj, kl)
        return True, end if s is None else area(s)
    if op in ("end", "cend"):
        return True, end
    if op == "size":
        return True, Int.const(64, len(d) + st.mem.get(("$more",) + mk[1:], 0))
    if op == "empty":
        return True, Int.const(1, int(not d))
    if op in ("emplace", "try_emplace"):
        k, kl = keyof(interp, st, a[1], kt)
        s = slot(k)
        if s is not None:
            return result(s, False)
        return result(insert(k, kl, a[2] if len(a) > 2 else None, a[1]), True)
    if op in ("insert",):
        k, kl = keyof(interp, st, a[1], kt)
        s = slot(k)
        if s is not None:
            return result(s, False)
        return result(insert(k, kl, Ptr(a[1].obj, a[1].off + kl), a[1]), True)
    if op == "operator[]":
        k, kl = keyof(interp, st, a[1], kt)
        s = slot(k)
        if s is None:
            s = insert(k, kl, None, a[1])
            for o in range(0, 16, 8):
                interp.store(st, Ptr(area(s).obj, kl + o), Int.const(64, 0), 8)
        return True, Ptr(area(s).obj, kl)
    raise ir.AnalysisError("%s is outside the model at %s" % (name, interp.fn.where(i["i"])))


HEAD = r'''
#include "arpc/binary_codecs.h"
#include "arpc/serializable.h"
using LE = arpc::little_endian_binary_encoder;
using BE = arpc::big_endian_binary_encoder;
using LD = arpc::little_endian_binary_decoder;
using BD = arpc::big_endian_binary_decoder;
template <typename T> using sp = std::shared_ptr<T>;
template <typename T> using wp = std::weak_ptr<T>;
void mark_save(const void*);
void mark_load(void*);
template <int N> struct body : public arpc::serializable<body<N>> {
  char pad = 0; body();
  template <typename S> void save(S&) const { mark_save(this); }
  template <typename S> void load(S&) { mark_load(this); }
  ARPC_CUSTOM_SERIALIZATION_VERSION(1);
};
'''


def wire_model(feed):
    """Output bytes become events; input bytes come from `feed`."""
    def mo(interp, st, i, name, args):
        if name.endswith("output_stream::write"):
            p, n = args[1], num(args[2])
            if n is None or not isinstance(p, Ptr):
                raise ir.AnalysisError("block write of unknown length at %s" % interp.fn.where(i["i"]))
            if isinstance(p.obj, tuple) and p.obj[0] == "tokdata":
                st.events.append(("text", p.obj[1], n))
            else:
                for k in range(n):
                    st.events.append(("w", interp.load(st, Ptr(p.obj, p.off + k), 1, "i8")))
            return True, None
        if name.endswith("output_stream::putc"):
            st.events.append(("w", Int(8, args[1].b[:8])))
            return True, None
        if name.endswith("input_stream::read_fully"):
            p, n = args[1], num(args[2])
            pos = st.mem.get(("$pos",), 0)
            if n is None:
                raise ir.AnalysisError("block read of unknown length at %s" % interp.fn.where(i["i"]))
            if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "tokbuf":
                x = feed[pos] if pos < len(feed) else None
                if not (isinstance(x, tuple) and x[0] == "text" and len(x[1]) == n):
                    st.events.append(("desync", pos))
                    return True, Throw("_ZTIN4arpc6errors3eofE")
                objs.put(st, Ptr(p.obj[1], p.obj[2]), ("lit", x[1]))
                st.mem[("$pos",)] = pos + 1
                return True, None
            for k in range(n):
                x = feed[pos] if pos < len(feed) else None
                if x is None or isinstance(x, tuple) and x[0] == "text":
                    st.events.append(("desync", pos))
                    return True, Throw("_ZTIN4arpc6errors3eofE")
                st.mem[(p.obj, p.off + k)] = ("b", Int.const(8, x).b) if isinstance(x, int) else ("b", tuple(x))
                pos += 1
            st.mem[("$pos",)] = pos
            return True, None
        return False, None
    return mo


def mark_model(interp, st, i, name, args):
    if name in ("mark_save", "mark_load"):
        held = any(isinstance(k[0], tuple) and k[0][0] == "vec" and v[0] == "v" and v[1] == args[0] and v[2] == 0 for k, v in st.mem.items())
        known = any(e[0] == "remember" and e[2] == ("p", repr(args[0])) for e in st.events)
        st.events.append(("body", args[0], held if name == "mark_load" else known))
        return True, None
    if re.match(r"^body::(body|~body)$", name):
        st.events.append((("ctor" if "~" not in name else "dtor"), args[0]))
        return True, None
    return False, None


def varint(n):
    r = []
    while True:
        b = n & 127
        n >>= 7
        r.append(b | (128 if n else 0))
        if not n:
            return r


def wbytes(st):
    return [e for e in st.events if e[0] in ("w", "body", "text", "encode")]


SRC7 = HEAD + "".join(r"""
void probe_e%(t)s(arpc::output_stream& os, const sp<body<0>>& a, const sp<body<0>>& b, const sp<body<0>>& c, const sp<body<0>>& d) { %(E)s e(os); e(a); e(b); e(c); e(d); }
void probe_ew%(t)s(arpc::output_stream& os, const wp<body<0>>& a, const sp<body<0>>& b, const wp<body<0>>& c, const sp<body<0>>& d) { %(E)s e(os); e(a); e(b); e(c); e(d); }
void probe_ep%(t)s(%(E)s& e, const sp<body<0>>& a) { e(a); }
void probe_d%(t)s(arpc::input_stream& is, sp<body<0>>& a, sp<body<0>>& b, sp<body<0>>& c, sp<body<0>>& d) { %(D)s e(is); e(a); e(b); e(c); e(d); }
void probe_dw%(t)s(arpc::input_stream& is, wp<body<0>>& a, sp<body<0>>& b, wp<body<0>>& c, sp<body<0>>& d) { %(D)s e(is); e(a); e(b); e(c); e(d); }
void probe_dm%(t)s(arpc::input_stream& is, sp<body<0>>& a, sp<body<1>>& b, sp<body<1>>& c, sp<body<0>>& d) { %(D)s e(is); e(a); e(b); e(c); e(d); }
void probe_dp%(t)s(%(D)s& e, sp<body<0>>& a) { e(a); }
""" % dict(t=t, E=t.upper() + "E", D=t.upper() + "D") for t in "lb")


def chain(*ms):
    return errs.chain(*ms, mark_model, sp_model, map_model, vec_model, objs.string_model, objs.exc_model)


def want_save(seq):
    out, ids = [], {}
    for x in seq:
        if x is None:
            out += [("w", 0)]
        elif x in ids:
            out += [("w", b) for b in varint(ids[x])]
        else:
            ids[x] = len(ids) + 1
            out += [("w", b) for b in varint(ids[x])] + [("body", x)]
    return out


def got_save(st):
    r = []
    for e in wbytes(st):
        if e[0] == "w":
            r.append(("w", e[1].value if e[1].value is not None else str(e[1])))
        else:
            r.append(("body", e[1].obj[1] if isinstance(e[1], Ptr) and e[1].obj[0] == "buf" else repr(e[1])))
    return r


def c07(rep, tier):
    import par
    prog = ir.extract([ir.compile_bc("shared.cpp", (), SRC7)], POL7)
    jobs = []
    objsn = (None, "X", "Y", "Z")
    for t in "lb":
        for pn in ("probe_e", "probe_ew"):
            for seq in itertools.product(objsn[:3] if tier == "quick" else objsn, repeat=4):
                jobs.append(("enc", pn + t, seq))
        for n in (126, 127, 128, 255, 256, 300, 16383, 16384, 1 << 33):
            jobs.append(("encbig", "probe_ep" + t, n))
            jobs.append(("decbig", "probe_dp" + t, n))
        for pn in ("probe_d", "probe_dw", "probe_dm"):
            for ids in itertools.product(range(5), repeat=4):
                if any(x > max((0,) + ids[:k]) + 2 for k, x in enumerate(ids)):
                    continue
                jobs.append(("dec", pn + t, ids))

    def run(sub, job):
        kind, pn, seq = job
        fn = fn1(prog, pn)
        key = "%s:%s" % (pn, "".join("-" if x is None else str(x) for x in seq) if isinstance(seq, tuple) else seq)
        if kind == "enc":
            def su(ip, st):
                st.env[("a", 0)] = Ptr(("arg", 0), 0)
                for k, x in enumerate(seq):
                    p = Ptr(("arg", k + 1), 0)
                    st.env[("a", k + 1)] = p
                    ip.store(st, p, NULL if x is None else Ptr(("buf", x), 0), 8)
                    ip.store(st, Ptr(p.obj, 8), NULL if x is None else Ptr(("ctl", x), 0), 8)
            ip, outs = errs.go(fn, chain(wire_model(())), su)
            for k, st in outs:
                late = [e for e in st.events if e[0] == "body" and not e[2]]
                sub.check(k == "ret" and got_save(st) == want_save(seq), key, "ids and one body per object",
                          "saving the pointers %s writes %s (%s), expected %s; %s" % (seq, got_save(st), errs.thrown(st)[0] or k, want_save(seq), fn.name))
                sub.check(not late, key + ":cycle", "recorded before its body",
                          "the object is saved before its id is recorded, so a cycle through it is never cut; %s" % fn.name)
            if not outs:
                sub.bad(key, "never completes")
        elif kind == "encbig":
            # an encoder that already knows `seq` other objects
            def su(ip, st):
                ip.more = seq - 1
                st.env[("a", 0)] = Ptr(("arg", 0), 0)
                st.env[("a", 1)] = Ptr(("arg", 1), 0)
                ip.store(st, Ptr(("arg", 1), 0), Ptr(("buf", "X"), 0), 8)

            def size(ip, st, i, n, a):
                if re.match("(%s|std::vector::)size( const)?$" % errs.MAPOPS, n):
                    return True, Int.const(64, seq + sum(1 for e in st.events if e[0] == "remember"))
                return False, None
            ip, outs = errs.go(fn, chain(size, wire_model(())), su)
            exp = [("w", b) for b in varint(seq)] + [("body", "X")]
            for k, st in outs:
                sub.check(k == "ret" and got_save(st) == exp, key, "next id", "object number %d is written as %s, expected %s; %s" % (seq, got_save(st), exp, fn.name))
            if not outs:
                sub.bad(key, "never completes")
        elif kind == "decbig":
            n = seq
            for x in (n, n - 1, n + 1):
                feed = varint(x)

                def su(ip, st):
                    for k in range(2):
                        st.env[("a", k)] = Ptr(("arg", k), 0)
                    ip.store(st, Ptr(("arg", 1), 0), Ptr(("buf", "old"), 0), 8)

                def vm(ip, st, i, nm, a):
                    m = VEC.match(re.sub(r" const$", "", nm))
                    if not m:
                        return False, None
                    at = a[1] if i.get("sret") else a[0]
                    if m.group(1) == "size":
                        return True, Int.const(64, n + sum(1 for e in st.events if e[0] == "push"))
                    if m.group(1) in ("push_back", "emplace_back") and len(a) == 2:
                        k = n + sum(1 for e in st.events if e[0] == "push")
                        copy_obj(st, a[1], Ptr(("vec", 0, 0), k * ES))
                        st.events.append(("push", at, k, i["i"]))
                        return True, Ptr(("vec", 0, 0), k * ES)
                    if m.group(1) in ("operator[]", "at"):
                        return True, Ptr(("vec", 0, 0), num(a[1]) * ES)
                    if m.group(1) == "back":
                        return True, Ptr(("vec", 0, 0), (n - 1 + sum(1 for e in st.events if e[0] == "push")) * ES)
                    return False, None
                ip, outs = errs.go(fn, chain(vm, wire_model(feed)), su)
                for k, st in outs:
                    pushes = [e for e in st.events if e[0] == "push"]
                    bodies = [e for e in st.events if e[0] == "body"]
                    kk = "%s:%d" % (key, x - n)
                    if x == n:
                        v = ip.load(st, Ptr(("arg", 1), 0), 8, "ptr")
                        sub.check(k == "ret" and len(pushes) == 1 and len(bodies) == 1 and bodies[0][1] == v and bodies[0][2], kk, "a new object",
                                  "the next id (%d) is read as %d new objects, %s; %s" % (x, len(bodies), errs.thrown(st)[0] or k, fn.name))
                    elif x > n:
                        sub.check(k != "ret" and errs.thrown(st)[0] == "arpc::errors::data_mismatch" and not bodies, kk, "data_mismatch",
                                  "id %d is read as %s when %d ids are known, expected data_mismatch; %s" % (x, errs.thrown(st)[0] or k, n, fn.name))
                    elif k == "ret":
                        v = ip.load(st, Ptr(("arg", 1), 0), 8, "ptr")
                        sub.check(not pushes and not bodies and repr(v) == repr(Ptr(("ld", ("vec", 0, 0), (n - 1) * ES), 0)), kk, "the known object",
                                  "the known id %d is read as %s, expected the object recorded for it; %s" % (x, v, fn.name))
                    else:
                        sub.check(errs.thrown(st)[0] == "arpc::errors::data_mismatch" and not bodies, kk, "or data_mismatch for another type", "reading the known id %d throws %s; %s" % (x, errs.thrown(st)[0], fn.name))
        else:
            mixed = pn.startswith("probe_dm")
            types = (0, 1, 1, 0) if mixed else (0, 0, 0, 0)
            feed = [b for x in seq for b in varint(x)]
            # what the documented format says
            tab, exp, fail = [None], [], None
            for k, x in enumerate(seq):
                if x == 0:
                    exp.append(None)
                elif x > len(tab):
                    fail = k
                    break
                elif x == len(tab):
                    tab.append(types[k])
                    exp.append(x)
                elif tab[x] != types[k]:
                    fail = k
                    break
                else:
                    exp.append(x)

            def su(ip, st):
                st.env[("a", 0)] = Ptr(("arg", 0), 0)
                for k in range(4):
                    p = Ptr(("arg", k + 1), 0)
                    st.env[("a", k + 1)] = p
                    ip.store(st, p, Ptr(("buf", "old%d" % k), 0), 8)
                    ip.store(st, Ptr(p.obj, 8), Ptr(("ctl", "old%d" % k), 0), 8)
            ip, outs = errs.go(fn, chain(wire_model(feed)), su)
            for k, st in outs:
                bodies = [e for e in st.events if e[0] == "body"]
                if fail is not None:
                    sub.check(k != "ret" and errs.thrown(st)[0] == "arpc::errors::data_mismatch" and len(bodies) == len([x for x in exp if x]) - sum(1 for a in range(len(exp)) if exp[a] and exp[a] in exp[:a]), key, "data_mismatch",
                              "reading the ids %s (%s) ends with %s, expected data_mismatch at pointer %d; %s" % (seq, "types %s" % (types,) if mixed else "one type", errs.thrown(st)[0] or k, fail + 1, fn.name))
                    continue
                ptrs = [(ip.load(st, Ptr(("arg", j + 1), 0), 8, "ptr"), ip.load(st, Ptr(("arg", j + 1), 8), 8, "ptr")) for j in range(4)]
                good = k == "ret" and not any(e[0] in ("oob", "desync") for e in st.events) and all((e is None) == (p[0] == NULL) for e, p in zip(exp, ptrs))
                for a in range(4):
                    for b in range(a):
                        if exp[a] and exp[b]:
                            good = good and (exp[a] == exp[b]) == (ptrs[a] == ptrs[b])
                good = good and [e[1] for e in bodies] == [ptrs[exp.index(x)][0] for x in sorted(set(exp) - {None})]
                sub.check(good, key, "null, new and shared objects as written",
                          "reading the ids %s gives the pointers %s with %d bodies read (%s); %s" % (seq, [p[0] for p in ptrs], len(bodies), errs.thrown(st)[0] or k, fn.name))
                sub.check(all(e[2] for e in bodies), key + ":cycle", "recorded before its body", "an object is read before it is recorded under its id, so a reference to it from inside is lost; %s" % fn.name)
            if not outs:
                sub.bad(key, "never completes")
    par.each(rep, run, jobs)


# ---- C08: dynamic objects
HEAD8 = HEAD + r'''
struct D0 : public arpc::dynamic<D0> { int a = 0; D0(); ARPC_FIELDS(a); };
struct D1 : public arpc::dynamic<D1, D0> { char b = 0; D1(); ARPC_FIELDS(b); };
struct X { virtual ~X(); int z; };
struct D4 : public X, public arpc::dynamic<D4> { unsigned e = 0; D4(); ARPC_FIELDS(e); };
'''
TYPES8 = ("D0", "D4")
SRC8 = HEAD8 + "".join(r"""
void probe_eu%(t)s%(T)s(arpc::output_stream& os, const std::unique_ptr<%(T)s>& a, const std::unique_ptr<%(T)s>& b, const std::unique_ptr<%(T)s>& c) { %(E)s e(os); e(a); e(b); e(c); }
void probe_es%(t)s%(T)s(arpc::output_stream& os, const sp<%(T)s>& a, const sp<%(T)s>& b, const sp<%(T)s>& c) { %(E)s e(os); e(a); e(b); e(c); }
void probe_du%(t)s%(T)s(arpc::input_stream& is, std::unique_ptr<%(T)s>& a, std::unique_ptr<%(T)s>& b, std::unique_ptr<%(T)s>& c) { %(D)s e(is); e(a); e(b); e(c); }
void probe_ds%(t)s%(T)s(arpc::input_stream& is, sp<%(T)s>& a, sp<%(T)s>& b, sp<%(T)s>& c) { %(D)s e(is); e(a); e(b); e(c); }
%(T)s* probe_cast_%(t)s%(T)s(arpc::dynamic_base_class* p) { return static_cast<%(T)s*>(p); }
""" % dict(t=t, E=t.upper() + "E", D=t.upper() + "D", T=T) for t in "lb" for T in TYPES8) + r"""
void probe_mixl(arpc::input_stream& is, sp<D0>& a, sp<D1>& b, sp<D0>& c) { LD e(is); e(a); e(b); e(c); }
void probe_mixb(arpc::input_stream& is, sp<D0>& a, sp<D1>& b, sp<D0>& c) { BD e(is); e(a); e(b); e(c); }
void probe_mix2l(arpc::input_stream& is, sp<D0>& a, sp<body<0>>& b, sp<D0>& c) { LD e(is); e(a); e(b); e(c); }
"""
HASH = {"alpha": 0x11223344, "be": 0x99aabbcc, "gam": 0x01f0e0d1}
BASEOFF = 64


def reg_model(classes, unknown=(), nosub=()):
    """The registries: known classes with their functions and hashes."""
    def mo(interp, st, i, name, args):
        nm = re.sub(r" const$", "", name)
        if nm == "arpc::singleton::get":
            return True, Ptr(("single", i.get("dem", "")), 0)
        a = args[1:] if i.get("sret") else args
        if nm.endswith("dynamic_base_class::portable_class_name"):
            o = a[0]
            c = classes.get(o.obj) if isinstance(o, Ptr) and o.off == BASEOFF else None
            if c is None:
                st.events.append(("badname", repr(o)))
                c = "gam"
            t = ("lit", c)
            return True, Agg({0: objs.clen(t), 1: objs.cdata(t)})
        m = re.match(r"^arpc::registry::(dynamic_object_factory|dynamic_encoder_registry|dynamic_decoder_registry)::operator\[\]$", nm)
        if m:
            t = objs.sv_tok(interp, a[1], a[2])
            n = t[1] if t[0] == "lit" else repr(t)
            kind = m.group(1)
            st.events.append(("lookup", kind, n))
            if n not in HASH or (kind, n) in unknown:
                return True, Throw("_ZTIN4arpc6errors9not_foundE")
            if kind == "dynamic_object_factory":
                f, h = Ptr(("fn", "make", n), 0), HASH[n]
                if i.get("sret"):
                    interp.store(st, args[0], f, 8)
                    interp.store(st, Ptr(args[0].obj, args[0].off + 8), Int.const(32, h), 4)
                    return True, None
                w = 64 if "i64" in i["t"] else 32
                return True, Agg({0: f, 1: Int.const(w, h)})
            return True, Ptr(("fn", "encode" if "encoder" in kind else "decode", n), 0)
        if re.match(r"^arpc::registry::dynamic_subclass_registry::is_subclass$", nm):
            t = objs.sv_tok(interp, a[1], a[2])
            n = t[1] if t[0] == "lit" else repr(t)
            T = re.search(r"dynamic_subclass_registry<(\w+)>", a[0].obj[1]).group(1) if isinstance(a[0], Ptr) and isinstance(a[0].obj, tuple) and a[0].obj[0] == "single" else "?"
            st.events.append(("sub", T, n))
            return True, Int.const(1, int((T, n) not in nosub and n in HASH))
        if name == "?" and isinstance(interp.target, Ptr) and isinstance(interp.target.obj, tuple) and interp.target.obj[0] == "fn":
            _, k, n = interp.target.obj
            if k == "make":
                c = sum(1 for e in st.events if e[0] == "make")
                o = ("buf", "made%d" % c)
                classes[o] = n
                st.events.append(("make", n, o))
                return True, Ptr(o, BASEOFF)
            if k == "encode":
                st.events.append(("encode", n, a[0], a[1]))
            else:
                # is the object already recorded under its id?
                held = any(isinstance(kk[0], tuple) and kk[0][0] == "vec" and v[0] == "v" and isinstance(v[1], Ptr) and v[1].obj == a[1].obj and v[2] == 0 for kk, v in st.mem.items())
                st.events.append(("decode", n, a[0], a[1], held))
            return True, None
        if nm.startswith("std::__cxx11::basic_string::") or nm.startswith("std::basic_string::"):
            op = nm.split("::")[-1]
            this = a[0]
            if op == "resize":
                objs.put(st, this, ("resized", num(a[1])))
                return True, None
            t = objs.get(st, this)
            if op in ("size", "length") and t is not None and t[0] == "resized":
                return True, Int.const(64, t[1])
            if op == "data" and t is not None and t[0] == "resized":
                return True, Ptr(("tokbuf", this.obj, this.off), 0)
        return False, None
    return mo


def hbytes(h, t):
    b = [(h >> (8 * k)) & 255 for k in range(4)]
    return b if t == "l" else b[::-1]


def c08(rep, tier):
    import par
    prog = ir.extract([ir.compile_bc("dynamic.cpp", (), SRC8)], POL7)
    D0 = {}
    for T in TYPES8:
        ip, outs = errs.go(fn1(prog, "probe_cast_l" + T), chain(), lambda ip, st: st.env.__setitem__(("a", 0), Ptr(("buf", "obj"), BASEOFF)))
        offs = {[e for e in s.events if e[0] == "ret"][-1][1] for k, s in outs}
        offs = {o.off for o in offs if isinstance(o, Ptr) and o.obj == ("buf", "obj")}
        if len(offs) != 1:
            raise ir.AnalysisError("the layout of %s is unknown" % T)
        D0[T] = offs.pop()
    names = ("alpha", "be", "gam")
    jobs = []
    for t in "lb":
        for T in TYPES8:
            # None or a class for each of three objects
            for seq in itertools.product((None,) + names, repeat=3):
                jobs.append(("enc", t, T, "u", seq, None))
                if None not in seq:
                    jobs.append(("enc", t, T, "s", seq, None))
            for bad in ("dynamic_object_factory", "dynamic_encoder_registry"):
                for k in range(3):
                    seq = ["alpha", "be", "alpha"]
                    jobs.append(("enc", t, T, "u", tuple(seq), (bad, names[k % 2])))
            for ids in itertools.product(range(4), repeat=3):
                for sh in "us":
                    jobs.append(("dec", t, T, sh, ids, None))
            for bit in range(32):
                jobs.append(("dec", t, T, "u", (0, 1, 0), ("hash", bit, 0)))
                jobs.append(("dec", t, T, "s", (0, 1, 0), ("hash", bit, 1)))
            for k in range(2):
                for sh in "us":
                    jobs.append(("dec", t, T, sh, (0, 1, 0), ("unknown", "dynamic_object_factory", names[k])))
                    jobs.append(("dec", t, T, sh, (0, 1, 0), ("unknown", "dynamic_decoder_registry", names[k])))
                    jobs.append(("dec", t, T, sh, (0, 1, 0), ("nosub", T, names[k])))
        for sub_ok in (0, 1):
            jobs.append(("mix", t, None, "s", (1, 1, 1), sub_ok))

    def run(sub, job):
        kind, t, T, sh, seq, bad = job
        key = ":".join(str(x) for x in job if x is not None)
        if kind == "enc":
            fn = fn1(prog, "probe_e%s%s%s" % (sh, t, T))
            classes = {("buf", "o%d" % k): c for k, c in enumerate(seq)}
            unknown = {bad} if bad else ()
            exp, ids, fails = [], {}, False
            for k, c in enumerate(seq):
                if sh == "s":
                    exp += [("w", b) for b in varint(k + 1)]
                elif c is None:
                    exp.append(("w", 0))
                    continue
                else:
                    exp.append(("w", 1))
                if c in ids:
                    exp += [("w", b) for b in varint(ids[c])]
                else:
                    if bad and bad[1] == c:
                        fails = True
                        break
                    ids[c] = len(ids)
                    exp += [("w", b) for b in varint(ids[c]) + varint(len(c))] + [("text", c)] + [("w", b) for b in hbytes(HASH[c], t)]
                exp.append(("encode", c, "o%d" % k))

            def su(ip, st):
                st.env[("a", 0)] = Ptr(("arg", 0), 0)
                for k, c in enumerate(seq):
                    p = Ptr(("arg", k + 1), 0)
                    st.env[("a", k + 1)] = p
                    ip.store(st, p, NULL if c is None else Ptr(("buf", "o%d" % k), D0[T]), 8)
                    ip.store(st, Ptr(p.obj, 8), NULL if c is None else Ptr(("ctl", k), 0), 8)
            ip, outs = errs.go(fn, chain(reg_model(classes, unknown), wire_model(())), su)
            for k, st in outs:
                got = []
                for e in wbytes(st):
                    if e[0] == "w":
                        got.append(("w", e[1].value if e[1].value is not None else str(e[1])))
                    elif e[0] == "text":
                        got.append(("text", e[1][1] if e[1][0] == "lit" and e[2] == len(e[1][1]) else repr(e[1:])))
                    else:
                        o = e[3]
                        got.append(("encode", e[1], o.obj[1] if isinstance(o, Ptr) and o.off == BASEOFF and isinstance(e[2], Ptr) and e[2].off == 0 else repr(o)))
                if fails:
                    sub.check(k != "ret" and errs.thrown(st)[0] != "?" and got == exp and not any(e[0] == "remember" and e[2] == ("lit", bad[1]) for e in st.events), key, "not_found before anything is written",
                              "saving an object of a class unknown to the %s ends with %s after writing %s (expected %s), and the class %s; %s" % (bad[0], k, got, exp, "is remembered as known" if any(e[0] == "remember" and e[2] == ("lit", bad[1]) for e in st.events) else "stays unknown", fn.name))
                else:
                    sub.check(k == "ret" and got == exp and not any(e[0] == "badname" for e in st.events), key, "class ids, names and hashes",
                              "saving objects of the classes %s writes %s (%s), expected %s; %s" % (seq, got, k, exp, fn.name))
            if not outs:
                sub.bad(key, "never completes")
            return
        if kind == "dec":
            fn = fn1(prog, "probe_d%s%s%s" % (sh, t, T))
            feed, known, fail, made, accepted = [], 0, None, [], 0
            for k, c in enumerate(seq):
                feed += varint(k + 1) if sh == "s" else [1]
                feed += varint(c)
                if c > known:
                    fail = ("data_mismatch", "the class id %d when %d are known" % (c, known))
                    break
                if c == known:
                    n = names[c] if c < 3 else "alpha"
                    h = HASH[n]
                    if bad and bad[0] == "hash" and bad[2] == c:
                        h ^= 1 << bad[1]
                    feed += varint(len(n)) + [("text", n)] + hbytes(h, t)
                    known += 1
                    if bad and bad[0] == "hash" and bad[2] == c:
                        fail = ("data_mismatch", "a type hash that differs in bit %d" % bad[1])
                        break
                    if bad and bad[0] == "unknown" and bad[2] == n:
                        fail = ("not_found", "a class name unknown to the %s" % bad[1])
                        break
                    accepted += 1
                n = names[c]
                if bad and bad[0] == "nosub" and bad[2] == n:
                    fail = ("data_mismatch", "a class that is no subclass of the pointer's")
                    break
                made.append(n)
            classes = {}
            unknown = {tuple(bad[1:])} if bad and bad[0] == "unknown" else ()
            nosub = {tuple(bad[1:])} if bad and bad[0] == "nosub" else ()

            def su(ip, st):
                st.env[("a", 0)] = Ptr(("arg", 0), 0)
                for k in range(3):
                    p = Ptr(("arg", k + 1), 0)
                    st.env[("a", k + 1)] = p
                    ip.store(st, p, Ptr(("buf", "old%d" % k), 0), 8)
                    ip.store(st, Ptr(p.obj, 8), Ptr(("ctl", "old%d" % k), 0), 8)
            ip, outs = errs.go(fn, chain(reg_model(classes, unknown, nosub), wire_model(feed)), su)
            for k, st in outs:
                mk = [e for e in st.events if e[0] == "make"]
                dc = [e for e in st.events if e[0] == "decode"]
                tn = errs.thrown(st)[0] or ("not_found" if k != "ret" and fail and fail[0] == "not_found" and len([e for e in st.events if e[0] == "lookup"]) else None)
                if fail:
                    good = k != "ret" and str(tn).endswith(fail[0]) and [e[1] for e in mk] == made and not any(e[0] in ("desync", "oob") for e in st.events)
                    if sh == "u":
                        sub.check(len([e for e in st.events if e[0] == "push"]) <= accepted, key + ":kept", "not kept", "a class is kept as known although its %s was rejected; %s" % ("type hash" if bad else "id", fn.name))
                    sub.check(good, key, fail[0], "reading %s ends with %s after making %s, expected %s with only %s made; %s" % (fail[1], tn or k, [e[1] for e in mk], fail[0], made, fn.name))
                    continue
                good = k == "ret" and [e[1] for e in mk] == made and not any(e[0] in ("oob", "desync", "badname") for e in st.events)
                ptrs = [ip.load(st, Ptr(("arg", j + 1), 0), 8, "ptr") for j in range(3)]
                good = good and ptrs == [Ptr(e[2], D0[T]) for e in mk]
                good = good and [(e[1], e[3]) for e in dc] == [(e[1], Ptr(e[2], BASEOFF)) for e in mk]
                sub.check(good, key, "the classes' own objects, decoded by them", "reading the class ids %s makes %s, decodes %s and stores %s (%s); %s" % (seq, [e[1] for e in mk], [(e[1], repr(e[3])) for e in dc], ptrs, tn or k, fn.name))
                sub.check(sh == "u" or all(e[4] for e in dc), key + ":cycle", "recorded before its body", "an object is read before it is recorded under its id, so a reference to it from inside is lost; %s" % fn.name)
                # each object was checked against the pointer's class before it was made
                ok = True
                for j, e in enumerate(st.events):
                    if e[0] == "make":
                        before = [x for x in st.events[:j] if x[0] == "sub" and x[1:] == (T, e[1])]
                        ok = ok and len(before) >= 1
                sub.check(ok, key + ":sub", "subclass checked first", "an object is made before its class is known to be a subclass of %s; %s" % (T, fn.name))
            if not outs:
                sub.bad(key, "never completes")
            return
        # one object seen through pointers to different dynamic classes
        fn = fn1(prog, "probe_mix" + t)
        feed = varint(1) + varint(0) + varint(5) + [("text", "alpha")] + hbytes(HASH["alpha"], t) + varint(1) + varint(1)
        classes = {}

        def su(ip, st):
            st.env[("a", 0)] = Ptr(("arg", 0), 0)
            for k in range(3):
                p = Ptr(("arg", k + 1), 0)
                st.env[("a", k + 1)] = p
                ip.store(st, p, NULL, 8)
                ip.store(st, Ptr(p.obj, 8), NULL, 8)
        ip, outs = errs.go(fn, chain(reg_model(classes, (), () if bad else {("D1", "alpha")}), wire_model(feed)), su)
        for k, st in outs:
            ptrs = [ip.load(st, Ptr(("arg", j + 1), 0), 8, "ptr") for j in range(3)]
            if bad:
                sub.check(k == "ret" and len(set(map(repr, ptrs))) == 1 and len([e for e in st.events if e[0] == "make"]) == 1 and ("sub", "D1", "alpha") in st.events and not any(e[0] == "badname" for e in st.events),
                          key, "shared after checking the class", "an object shared by pointers to two classes is read as %s (%s); %s" % (ptrs, errs.thrown(st)[0] or k, fn.name))
            else:
                sub.check(k != "ret" and errs.thrown(st)[0] == "arpc::errors::data_mismatch", key, "data_mismatch", "an object shared with a pointer to a class it does not derive from is read as %s; %s" % (ptrs, fn.name))
        if not outs:
            sub.bad(key, "never completes")
    par.each(rep, run, jobs)


# ---- C05: structure verification
SRC5 = HEAD + r'''
struct rec : public arpc::serializable<rec> { std::uint16_t a; std::uint32_t b; ARPC_FIELDS(a, b); };
struct tag0 {};
''' + "".join(r"""
void probe_e%(t)s%(k)d(%(E)s& e, const %(T)s& v) { e(v, arpc::verify_structure{}); }
void probe_p%(t)s%(k)d(%(E)s& e, const %(T)s& v) { e(v); }
void probe_d%(t)s%(k)d(%(D)s& d, %(T)s& v) { d(v, arpc::verify_structure{}); }
void probe_ee%(t)s%(k)d(%(E)s& e, const %(T)s& v) { e(v, arpc::verify_structure{}, arpc::verify_structure{}); }
void probe_dd%(t)s%(k)d(%(D)s& d, %(T)s& v) { d(v, arpc::verify_structure{}, arpc::verify_structure{}); }
""" % dict(t=t, k=k, T=T, E=t.upper() + "E", D=t.upper() + "D") for t in "lb" for k, T in enumerate(("body<0>", "body<1>", "std::uint32_t", "rec"))) + \
    "".join("unsigned probe_hash%d() { return arpc::traits::type_hash_v<%s>; }\n" % (k, T) for k, T in enumerate(("body<0>", "body<1>", "std::uint32_t", "rec")))


def c05(rep, tier):
    import par
    prog = ir.extract([ir.compile_bc("verify.cpp", (), SRC5)], POL7)
    names = ("a custom class", "another custom class", "uint32_t", "a record")
    size = {2: 4, 3: 6}
    hashes = []
    for k in range(4):
        ip, outs = errs.go(fn1(prog, "probe_hash%d" % k), chain(), lambda ip, st: None)
        h = [e for e in outs[0][1].events if e[0] == "ret"][0][1].value
        if h is None:
            raise ir.AnalysisError("type hash of %s is not a constant" % names[k])
        hashes.append(h)
    jobs = [(kind, t, k, n, b) for kind in "ed" for t in "lb" for k in range(4) for n in (1, 2) for b in ([None] if kind == "e" else [None] + [(j, bit) for j in range(n) for bit in range(32)])]

    def run(sub, job):
        kind, t, k, n, bad = job
        key = "%s%s:%d:%d:%s" % (kind, t, k, n, bad)
        fn = fn1(prog, "probe_%s%s%d" % (kind * n, t, k))
        hb = hbytes(hashes[k], t)

        def su(ip, st):
            st.env[("a", 0)] = Ptr(("arg", 0), 0)
            st.env[("a", 1)] = Ptr(("buf", "v"), 0)
        if kind == "e":
            ip0, ref = errs.go(fn1(prog, "probe_p%s%d" % (t, k)), chain(wire_model(())), su)
            want = [e[1] for e in wbytes(ref[0][1])]
            ip, outs = errs.go(fn, chain(wire_model(())), su)
            for kk, st in outs:
                got = wbytes(st)
                head = [e[1].value if e[0] == "w" else None for e in got[:4 * n]]
                sub.check(kk == "ret" and head == hb * n and [e[1] for e in got[4 * n:]] == want, key, "type hash, then the value",
                          "saving %s with verify_structure writes %s before the value, expected its type hash %s; %s" % (names[k], head, hb * n, fn.name))
            if not outs:
                sub.bad(key, "never completes")
            return
        feed = []
        for j in range(n):
            feed += hbytes(hashes[k] ^ (1 << bad[1] if bad and bad[0] == j else 0), t)
        feed += [[(("in%d" % j), b) for b in range(8)] for j in range(size.get(k, 0))]
        ip, outs = errs.go(fn, chain(wire_model(feed)), su)
        for kk, st in outs:
            body = any(e[0] == "body" for e in st.events) or any(isinstance(m, tuple) and m[0] == ("buf", "v") and isinstance(m[1], int) for m in st.mem)
            if bad:
                sub.check(kk != "ret" and errs.thrown(st)[0] == "arpc::errors::data_mismatch" and not body, key, "data_mismatch before anything is read",
                          "reading %s after a type hash that differs in bit %d: %s%s, expected data_mismatch with the value untouched; %s" % (names[k], bad[1], errs.thrown(st)[0] or kk, ", value written" if body else "", fn.name))
            else:
                sub.check(kk == "ret" and body and st.mem.get(("$pos",)) == len(feed), key, "accepted",
                          "reading %s after its own type hash ends with %s, %s of %d units consumed; %s" % (names[k], errs.thrown(st)[0] or kk, st.mem.get(("$pos",)), len(feed), fn.name))
        if not outs:
            sub.bad(key, "never completes")
    par.each(rep, run, jobs)
