"""Packet codecs and protocols: COBS, MAC, HighwayHash, framing."""
import ir, absint, bufs, par
from absint import Int, Ptr, Sym, TOP, NULL, tiname
from serial import POL

PPOL = POL.replace("entry ^probe_", "entry ^probe_\nentry ^arpc::(cobs|mac)_codec::(encode|decode|mac_codec)$")


def model(interp, st, i, name, args):
    h, r = bufs.model(interp, st, i, name, args)
    if h:
        return r
    base = name.split("::")[-1]
    if name == "__cxa_throw":
        g = args[1].obj if isinstance(args[1], Ptr) else ("g", "?")
        st.events.append(("throw", tiname(g[1] if isinstance(g, tuple) else g), i["i"]))
        return None
    if name == "__cxa_allocate_exception":
        st.fresh += 1
        return Ptr(("exc", st.fresh), 0)
    if name == "__assert_fail":
        st.events.append(("throw", "assertion failure", i["i"]))
        return None
    if name == "strlen" or base == "length" and "char_traits" in name:
        return Int.top(64)
    if base in ("memcmp", "bcmp", "__memcmp") and all(isinstance(a, Ptr) for a in args[:2]) and bufs.num(args[2]) is not None and bufs.num(args[2]) < 1 << 16:
        n = bufs.num(args[2])
        a, b = ([interp.load(st, Ptr(p.obj, p.off + k), 1, "i8") for k in range(n)] for p in args[:2])
        return bufs.differ(interp, a, b)
    if name in ("memcpy", "memmove", "memset", "memchr", "memcmp", "bcmp"):
        if name in ("memcpy", "memmove", "memset"):
            interp.intrinsic(st, i, "llvm." + name, args)
            return args[0]
    if "exception" in base or "error" in name or "errors::" in name or name.startswith("operator ") or "allocator" in name or name == "__cxa_free_exception":
        if name == "operator new":
            st.fresh += 1
            return Ptr(("new", st.fresh), 0)
        return None
    if name.startswith("arpc::"):
        raise ir.AnalysisError("call to %s was neither inlined nor modelled" % name)
    for a in args:
        if isinstance(a, Ptr) and (isinstance(a.obj, tuple) and a.obj[0] == "sbuf" or bufs.get(st, a)):
            raise ir.AnalysisError("call to %s on tracked data is outside the model (%s)" % (name, interp.fn.where(i["i"])))
        if isinstance(a, Ptr) and isinstance(a.obj, tuple) and a.obj[0] == "alloca":
            interp.havoc(st, a, name)
    return None


def content(ip, st, p):
    return [v.b for v in bufs.content(ip, st, p)]


def input_bytes(shape):
    """shape: string of '0' (zero byte) and 'x' (any nonzero byte)."""
    return [(0,) * 8 if c == "0" else tuple((("d", k), j) for j in range(8)) for k, c in enumerate(shape)]


def run_codec(fn, data, notzero=(), extra=None, visits=4000):
    """Abstractly applies encode/decode to a string with the given bytes."""
    P = Ptr(("str", 0), 0)

    def init(ip, st):
        st.env[("a", 0)] = Ptr(("codec", 0), 0)
        st.env[("a", 1)] = P
        b = bufs.make(st, P, len(data))
        for k, v in enumerate(data):
            st.mem[(b.obj, k)] = ("b", tuple(v))
        for z in notzero:
            st.notzero.add(frozenset(z))
        if extra:
            extra(st)
    ip = absint.Interp(fn, extra and extra.model or model, max_visits=visits, max_parts=20000, max_steps=4000000)
    out = []
    for kind, st in ip.run(init):
        if kind == "unreachable" and not any(e[0] == "throw" for e in st.events):
            continue
        out.append((kind, st, content(ip, st, P) if kind == "ret" else None))
    return out


def bits_nonzero(b, notzero):
    if any(x == 1 and x is not TOP for x in b if not isinstance(x, tuple)):
        return True
    s = frozenset(x for x in b if isinstance(x, tuple))
    return any(z <= s for z in notzero)


def fails(fn, kind, st):
    """Reason this partition is not an ordinary return, with its location."""
    oob = [e for e in st.events if e[0] in ("oob", "hugesize")]
    if oob:
        return "accesses memory outside its buffer at %s" % fn.where(oob[0][-1])
    if kind == "bound":
        return "does not terminate"
    if kind != "ret":
        th = [e for e in st.events if e[0] == "throw"]
        return "throws %s at %s" % (th[-1][1], fn.where(th[-1][-1])) if th else "does not return"
    return None


def cobs_shapes(tier):
    n = 5 if tier == "quick" else 7
    out = [""]
    lvl = [""]
    for _ in range(n):
        lvl = [s + c for s in lvl for c in "0x"]
        out += lvl
    for r in (252, 253, 254, 255, 256):
        out += ["x" * r, "x" * r + "0", "0" + "x" * r, "x" * r + "0x", "x" * r + "00"]
    out += ["x" * 508, "x" * 509, "x" * 254 + "0" + "x" * 254, "x" * 253 + "0" + "x" * 254 + "0", "0" * 260, "x0" * 130]
    if tier != "quick":
        for r in (507, 508, 509, 510, 762, 763):
            out += ["x" * r, "x" * r + "0", "0" + "x" * r + "0"]
        out += ["x" * a + "0" + "x" * b for a in (253, 254, 255) for b in (0, 1, 253, 254, 255)]
    return list(dict.fromkeys(out))


def short(s):
    import itertools
    return " ".join("%s*%d" % ("nonzero" if c == "x" else "zero", len(list(g))) for c, g in itertools.groupby(s)) or "empty"


def load():
    return ir.extract([ir.compile_bc(ir.repo_src("packet_codecs.cpp"))], PPOL)


def fn1(prog, name):
    fs = prog.by_name.get(name)
    if not fs:
        raise ir.AnalysisError("%s not found" % name)
    return fs[0]


def cobs(rep, tier):
    prog = load()
    enc, dec = fn1(prog, "arpc::cobs_codec::encode"), fn1(prog, "arpc::cobs_codec::decode")
    shapes = cobs_shapes(tier)
    parts = 0
    for s in shapes:
        data = input_bytes(s)
        nz = [d for d in data if d[0] != 0]
        key = "cobs:rt:%s" % short(s)
        for kind, st, enc_bytes in run_codec(enc, data, nz):
            parts += 1
            f = fails(enc, kind, st)
            if f:
                rep.bad(key, "encoding a packet of bytes [%s] %s" % (short(s), f))
                continue
            zero = [k for k, b in enumerate(enc_bytes) if not bits_nonzero(b, st.notzero)]
            if zero:
                rep.bad(key + ":zero", "encoding of [%s] may contain a zero byte (position %d of %d); in %s" % (short(s), zero[0], len(enc_bytes), enc.name))
                continue
            if len(enc_bytes) > len(s) + 1 + len(s) // 254:
                rep.bad(key + ":overhead", "encoding of [%s] takes %d bytes, more than n + 1 + n/254; in %s" % (short(s), len(enc_bytes), enc.name))
                continue
            for k2, s2, back in run_codec(dec, enc_bytes, nz):
                f = fails(dec, k2, s2)
                if f:
                    rep.bad(key, "decoding the encoding of [%s] %s" % (short(s), f))
                    continue
                d = [k for k in range(max(len(back), len(data))) if k >= len(back) or k >= len(data) or tuple(back[k]) != tuple(data[k])]
                rep.check(not d, key, "%d -> %d bytes, bit-exact" % (len(s), len(enc_bytes)),
                          "decode(encode(x)) != x for bytes [%s]: byte %s differs (%d bytes back, %d in); in %s / %s" % (
                              short(s), d[:1], len(back), len(data), enc.name, dec.name))
    cobs_arbitrary(rep, tier, dec)
    rep.note("byte shapes", len(shapes))
    rep.note("trace partitions", parts)


def cobs_reference(data):
    """The framing's definition: a group code c stands for c-1 bytes and, for
    c < 255, a zero byte; the last group's zero is the end of the packet."""
    if not data:
        return None
    out, k, z = [], 0, False
    while k < len(data):
        c = sum(b << j for j, b in enumerate(data[k]))
        k += 1
        if c == 0 or k + c - 1 > len(data):
            return None
        out += data[k:k + c - 1]
        k += c - 1
        z = c < 255
        if z:
            out.append((0,) * 8)
    return out[:-1] if z else out


def cobs_arbitrary(rep, tier, dec):
    """Group codes are enumerated, the bytes they cover are symbolic."""
    def sym(k):
        return tuple((("d", k), j) for j in range(8))

    def code(c):
        return tuple((c >> j) & 1 for j in range(8))
    seqs = set()
    maxlen = 4 if tier == "quick" else 6

    def gen(prefix):
        seqs.add(tuple(prefix))
        if len(prefix) >= maxlen:
            return
        for c in (0, 1, 2, 3, 4, 128, 255):
            p = prefix + [code(c)]
            seqs.add(tuple(p))
            for have in range(max(0, c - 1) if c < 5 else 0, -1, -1):
                q = p + [sym(len(p) + j) for j in range(have)]
                if len(q) > maxlen:
                    continue
                seqs.add(tuple(q))
                if have == c - 1:
                    gen(q)
            if c in (0, 128, 255):
                for have in range(1, maxlen - len(p) + 1):
                    seqs.add(tuple(p + [sym(len(p) + j) for j in range(have)]))
    gen([])
    for c in (128, 254, 255):
        for have in (c - 2, c - 1):
            base = [code(c)] + [sym(1 + j) for j in range(have)]
            seqs.add(tuple(base))
            if have == c - 1:
                for tail in ([code(1)], [code(2), sym(900)], [code(2)], [code(0)], [code(255)]):
                    seqs.add(tuple(base + tail))
    n = 0
    for s in sorted(seqs, key=repr):
        want = cobs_reference(list(s))
        label = " ".join(str(sum(b << j for j, b in enumerate(x))) if not isinstance(x[0], tuple) else "?" for x in s[:12]) + (" ... %d bytes" % len(s) if len(s) > 12 else "")
        key = "cobs:decode:[%s]" % label
        n += 1
        outs = run_codec(dec, list(s))
        if not outs:
            rep.bad(key, "decoding bytes [%s] never completes; %s" % (label, dec.name))
        for kind, st, back in outs:
            oob = [e for e in st.events if e[0] == "oob"]
            th = [e for e in st.events if e[0] == "throw"]
            if oob:
                rep.bad(key, "decoding bytes [%s] %s" % (label, fails(dec, kind, st)))
            elif kind == "bound":
                rep.bad(key, "decoding bytes [%s] does not terminate; %s" % (label, dec.name))
            elif want is None:
                rep.check(kind == "throw" and th and th[-1][1] == "arpc::errors::data_mismatch", key, "data_mismatch",
                          "decoding bytes [%s], which no packet encodes to, %s instead of throwing data_mismatch; %s" % (
                              label, "returns" if kind == "ret" else "fails (%s)" % (fails(dec, kind, st) or kind), dec.name))
            elif kind != "ret":
                rep.bad(key, "decoding the well-formed bytes [%s] %s" % (label, fails(dec, kind, st)))
            else:
                rep.check([tuple(b) for b in back] == [tuple(b) for b in want], key, "%d bytes, as defined" % len(want),
                          "decoding bytes [%s] gives other bytes than the groups stand for (%d instead of %d); %s" % (label, len(back), len(want), dec.name))
    rep.note("decoder inputs", n)


# ---------------------------------------------------------------- MAC
def mac_model(interp, st, i, name, args):
    if name == "arpc::highway_hash::hash64" or name.endswith("highway_hash::hash64"):
        n = bufs.num(args[1])
        if not isinstance(args[0], Ptr) or not isinstance(args[2], Ptr):
            raise ir.AnalysisError("hash64 called with arguments outside the model at %s" % interp.fn.where(i["i"]))
        if n is None or n > 1 << 20:
            # not the packet's size, which is known here
            st.events.append(("hugesize", -1 if n is None else n, i["i"]))
            return "end"
        by = tuple(tuple(interp.load(st, Ptr(args[0].obj, args[0].off + k), 1, "i8").b) for k in range(n))
        key = tuple(tuple(interp.load(st, Ptr(args[2].obj, args[2].off + k), 1, "i8").b) for k in range(32))
        return Int.src(64, ("hash", absint.intern(("hash64", by, key))))
    return model(interp, st, i, name, args)


def mac_expect(by, key):
    return Int.src(64, ("hash", absint.intern(("hash64", tuple(tuple(b) for b in by), key))))


def mac(rep, tier):
    prog = load()
    enc, dec = fn1(prog, "arpc::mac_codec::encode"), fn1(prog, "arpc::mac_codec::decode")
    ctor = fn1(prog, "arpc::mac_codec::mac_codec")
    # the constructor's effect on the object, from a key of 32 symbolic bytes
    key = tuple(tuple((("key", k), j) for j in range(8)) for k in range(32))

    def init(ip, st):
        st.env[("a", 0)] = Ptr(("codec", 0), 0)
        st.env[("a", 1)] = Ptr(("karg", 0), 0)
        st.mem[("$size", ("karg", 0))] = 32
        for k in range(32):
            st.mem[(("karg", 0), k)] = ("b", key[k])
    objs = []
    for kind, st in absint.Interp(ctor, mac_model).run(init):
        f = fails(ctor, kind, st)
        if f:
            rep.bad("mac:ctor", "constructing a mac_codec from a 32-byte key %s" % f)
            return
        objs.append({k: v for k, v in st.mem.items() if k[0] == ("codec", 0)})
    if len(objs) != 1:
        raise ir.AnalysisError("the mac_codec constructor branches")

    def extra(st):
        st.mem.update(objs[0])
    extra.model = mac_model
    sizes = (0, 1, 2, 7, 8, 9, 16, 31, 32, 33) if tier == "quick" else range(0, 80)
    for n in sizes:
        data = [tuple((("d", k), j) for j in range(8)) for k in range(n)]
        want = mac_expect(data, key)
        tail = [tuple(want.b[8 * k:8 * k + 8]) for k in range(8)]
        outs = run_codec(enc, data, (), extra)
        for kind, st, out in outs:
            f = fails(enc, kind, st)
            if f:
                rep.bad("mac:encode:%d" % n, "encoding %d bytes %s" % (n, f))
                continue
            out = [tuple(b) for b in out]
            rep.check(out[:n] == data, "mac:payload:%d" % n, "payload unchanged", "encoding %d bytes changes the payload itself; %s" % (n, enc.name))
            rep.check(len(out) == n + 8 and out[n:] == tail, "mac:tag:%d" % n, "tag = 64-bit keyed hash of all %d bytes, least significant byte first" % n,
                      "the %d bytes appended to a %d-byte packet are not the 64-bit hash of exactly that packet under the constructor's key, least significant byte first; %s" % (len(out) - n, n, enc.name))
        # acceptance: the right tag
        good = [o for o in run_codec(dec, data + tail, (), extra)]
        for kind, st, out in good:
            f = fails(dec, kind, st)
            if f:
                rep.bad("mac:accept:%d" % n, "decoding a packet with the right tag (%d payload bytes) %s" % (n, f))
            else:
                rep.check([tuple(b) for b in out] == data, "mac:accept:%d" % n, "returns the payload", "decoding a packet with the right tag does not give back its %d payload bytes; %s" % (n, dec.name))
        if not good:
            rep.bad("mac:accept:%d" % n, "decoding a packet with the right tag never completes")
        # rejection: bit k of the tag wrong, the other 63 unconstrained
        for k in range(64):
            if n > 9 and tier == "quick" and k % 9:
                continue
            t = [tuple((("t", j), b) for b in range(8)) for j in range(8)]
            row = list(t[k // 8])
            row[k % 8] = absint.neg(want.b[k])
            t[k // 8] = tuple(row)
            ok, why = True, ""
            rs = run_codec(dec, data + t, (), extra)
            for kind, st, out in rs:
                th = [e for e in st.events if e[0] == "throw"]
                oob = [e for e in st.events if e[0] == "oob"]
                if oob or kind != "throw" or not th or th[-1][1] != "arpc::errors::data_mismatch":
                    ok, why = False, "the packet is accepted" if kind == "ret" else (fails(dec, kind, st) or kind)
            rep.check(ok and rs, "mac:reject:%d:%d" % (n, k), "every such packet throws data_mismatch",
                      "a tag that differs from the hash in bit %d (%d payload bytes) is not always rejected with data_mismatch: %s; %s" % (k, n, why, dec.name))
    for n in range(8):
        data = [tuple((("d", k), j) for j in range(8)) for k in range(n)]
        rs = run_codec(dec, data, (), extra)
        bad = [x for x in rs if x[0] != "throw" or [e for e in x[1].events if e[0] == "oob"] or [e for e in x[1].events if e[0] == "throw"][-1:][0][1] != "arpc::errors::data_mismatch"]
        rep.check(rs and not bad, "mac:short:%d" % n, "data_mismatch", "decoding a packet of %d bytes, too short for a tag, %s instead of throwing data_mismatch; %s" % (
            n, ("returns" if bad and bad[0][0] == "ret" else fails(dec, bad[0][0], bad[0][1])) if bad else "never completes", dec.name))
    rep.note("payload sizes", list(sizes))


# ---------------------------------------------------------------- HighwayHash
M64 = 64


class Ref:
    """HighwayHash as published (portable form), over the term domain."""

    def __init__(self, ip, key):
        self.ip = ip
        I = lambda v: Int.const(64, v)
        self.mul0 = [I(v) for v in (0xdbe6d5d5fe4cce2f, 0xa4093822299f31d0, 0x13198a2e03707344, 0x243f6a8885a308d3)]
        self.mul1 = [I(v) for v in (0x3bd39e10cb0ef593, 0xc0acf169b5f18a8c, 0xbe5466cf34e90c6c, 0x452821e638d01377)]
        self.v0 = [self.x(self.mul0[k], key[k]) for k in range(4)]
        self.v1 = [self.x(self.mul1[k], self.rot(key[k], 32)) for k in range(4)]

    def op(self, o, a, b):
        return self.ip.binop(o, a, b, 64)

    def x(self, a, b):
        return self.op("xor", a, b)

    def a(self, a, b):
        return self.op("add", a, b)

    def rot(self, v, n):
        n %= v.w
        return Int(v.w, list(v.b[v.w - n:]) + list(v.b[:v.w - n]))

    @staticmethod
    def lo(v):
        return Int(64, list(v.b[:32]) + [0] * 32)

    @staticmethod
    def hi(v):
        return Int(64, list(v.b[32:]) + [0] * 32)

    @staticmethod
    def by(v, k):
        return list(v.b[8 * k:8 * k + 8])

    def zipper(self, v1, v0):
        b = [self.by(v0, k) for k in range(8)] + [self.by(v1, k) for k in range(8)]
        e0 = [3, 12, 2, 5, 14, 1, 15, 0]
        e1 = [11, 4, 10, 13, 9, 6, 8, 7]
        return Int(64, sum((b[k] for k in e0), [])), Int(64, sum((b[k] for k in e1), []))

    def update(self, lanes):
        for k in range(4):
            self.v1[k] = self.a(self.v1[k], self.a(self.mul0[k], lanes[k]))
            self.mul0[k] = self.x(self.mul0[k], self.op("mul", self.lo(self.v1[k]), self.hi(self.v0[k])))
            self.v0[k] = self.a(self.v0[k], self.mul1[k])
            self.mul1[k] = self.x(self.mul1[k], self.op("mul", self.lo(self.v0[k]), self.hi(self.v1[k])))
        for d, s in ((self.v0, self.v1), (self.v1, self.v0)):
            for k in (0, 2):
                z0, z1 = self.zipper(s[k + 1], s[k])
                d[k] = self.a(d[k], z0)
                d[k + 1] = self.a(d[k + 1], z1)

    @staticmethod
    def lanes(by):
        return [Int(64, sum((list(b) for b in by[8 * k:8 * k + 8]), [])) for k in range(4)]

    def process(self, data):
        while len(data) >= 32:
            self.update(self.lanes(data[:32]))
            data = data[32:]
        n = len(data)
        if n:
            for k in range(4):
                self.v0[k] = self.a(self.v0[k], Int.const(64, (n << 32) + n))
            for k in range(4):
                l, h = Int(32, self.v1[k].b[:32]), Int(32, self.v1[k].b[32:])
                self.v1[k] = Int(64, list(self.rot(l, n).b) + list(self.rot(h, n).b))
            pk = [(0,) * 8] * 32
            m4 = n & 3
            whole = n & ~3
            pk[:whole] = data[:whole]
            if n & 16:
                for k in range(4):
                    pk[28 + k] = data[whole + k + m4 - 4]
            elif m4:
                pk[16] = data[whole]
                pk[17] = data[whole + (m4 >> 1)]
                pk[18] = data[whole + m4 - 1]
            self.update(self.lanes(pk))

    def permute(self):
        v = self.v0
        self.update([self.rot(v[2], 32), self.rot(v[3], 32), self.rot(v[0], 32), self.rot(v[1], 32)])

    def fin64(self):
        for _ in range(4):
            self.permute()
        return [self.a(self.a(self.v0[0], self.v1[0]), self.a(self.mul0[0], self.mul1[0]))]

    def fin128(self):
        for _ in range(6):
            self.permute()
        return [self.a(self.a(self.v0[k], self.mul0[k]), self.a(self.v1[k + 2], self.mul1[k + 2])) for k in range(2)]

    def red(self, a3, a2, a1, a0):
        a3 = Int(64, list(a3.b[:62]) + [0, 0])
        sh = lambda v, n: self.op("shl", v, Int.const(64, n))
        sr = lambda v, n: self.op("lshr", v, Int.const(64, n))
        m1 = self.x(a1, self.x(self.op("or", sh(a3, 1), sr(a2, 63)), self.op("or", sh(a3, 2), sr(a2, 62))))
        m0 = self.x(a0, self.x(sh(a2, 1), sh(a2, 2)))
        return m0, m1

    def fin256(self):
        for _ in range(10):
            self.permute()
        s = lambda v, m, k: self.a(v[k], m[k])
        h0, h1 = self.red(s(self.v1, self.mul1, 1), s(self.v1, self.mul1, 0), s(self.v0, self.mul0, 1), s(self.v0, self.mul0, 0))
        h2, h3 = self.red(s(self.v1, self.mul1, 3), s(self.v1, self.mul1, 2), s(self.v0, self.mul0, 3), s(self.v0, self.mul0, 2))
        return [h0, h1, h2, h3]


HH = r'''
#include "arpc/highway_hash.cpp"
using u8 = std::uint8_t; using u64 = std::uint64_t;
void probe_h64(const u8* d, std::size_t n, const u64* k, u64* out) { out[0] = arpc::highway_hash::hash64(d, n, k); }
void probe_h128(const u8* d, std::size_t n, const u64* k, u64* out) { arpc::highway_hash::hash128(d, n, k, out); }
void probe_h256(const u8* d, std::size_t n, const u64* k, u64* out) { arpc::highway_hash::hash256(d, n, k, out); }
void probe_inc(const u8* d, std::size_t a, std::size_t b, std::size_t c, const u64* k, u64* out) {
  arpc::highway_hash h(k);
  h.append(d, a); h.append(d + a, b); h.append(d + a + b, c);
  out[0] = h.finish64(); h.finish128(out + 1); h.finish256(out + 3); out[7] = h.finish64();
}
void probe_mid(const u8* d, std::size_t a, std::size_t b, const u64* k, u64* out) {
  arpc::highway_hash h(k);
  h.append(d, a); out[0] = h.finish64(); h.append(d + a, b); out[1] = h.finish64();
}
void probe_reset(const u8* d, std::size_t a, std::size_t b, const u64* k, const u64* k2, u64* out) {
  arpc::highway_hash h(k2);
  h.append(d, a); h.finish64(); h.reset(k); h.append(d, b); out[0] = h.finish64();
}
'''


def hh_model(interp, st, i, name, args):
    if name in ("memcpy", "memmove", "memset"):
        interp.intrinsic(st, i, "llvm." + name, args)
        return args[0]
    if name == "?" or name.startswith(("arpc::", "std::", "*")):
        raise ir.AnalysisError("call to %s was neither inlined nor modelled" % name)
    return None


def highway(rep, tier):
    prog = ir.extract([ir.compile_bc("hh.cpp", (), HH)], POL)
    kb = [tuple((("key", k), j) for j in range(8)) for k in range(32)]
    key = [Int(64, sum((list(b) for b in kb[8 * k:8 * k + 8]), [])) for k in range(4)]
    absint.TERMS.clear()
    absint.TERMKEY.clear()

    def db(k):
        return tuple((("d", k), j) for j in range(8))
    dummy = absint.Interp(fn1(prog, "probe_h64"), hh_model)
    dummy.terms = True
    refs = {}

    def ref(n, w, kk=None):
        if (n, w) not in refs:
            r = Ref(dummy, key)
            r.process([db(k) for k in range(n)])
            refs[(n, w)] = getattr(r, "fin%d" % w)()
        return refs[(n, w)]

    def run(name, total, ints, nout, keys=1):
        fn = fn1(prog, name)

        def init(ip, st):
            a = 0
            st.env[("a", a)] = Ptr(("data", 0), 0)
            st.mem[("$size", ("data", 0))] = total
            for k in range(total):
                st.mem[(("data", 0), k)] = ("b", db(k))
            for v in ints:
                a += 1
                st.env[("a", a)] = Int.const(64, v)
            for q in range(keys):
                a += 1
                o = ("karg", q)
                st.env[("a", a)] = Ptr(o, 0)
                st.mem[("$size", o)] = 32
                for k in range(32):
                    st.mem[(o, k)] = ("b", kb[k] if q == 0 else tuple((("key2", k), j) for j in range(8)))
            st.env[("a", a + 1)] = Ptr(("out", 0), 0)
            st.mem[("$size", ("out", 0))] = 8 * nout
        ip = absint.Interp(fn, hh_model, max_visits=6000, max_steps=3000000)
        ip.terms = True
        res = []
        for kind, st in ip.run(init):
            f = fails(fn, kind, st)
            if f:
                return None, f
            res.append([ip.load(st, Ptr(("out", 0), 8 * k), 8, "i64") for k in range(nout)])
        if len(res) != 1:
            return None, "has %d outcomes for a fixed size" % len(res)
        return res[0], None

    def cmp(rep, key_, got, want, err, what):
        if err:
            rep.bad(key_, "%s %s" % (what, err))
        else:
            rep.check(got == want and all(TOP not in g.b for g in got), key_, "same value number as the definition", "%s is not the keyed HighwayHash of those bytes (word %s differs)" % (
                what, [k for k in range(len(want)) if got[k] != want[k]][:1]))
    sizes = list(range(0, 66)) + ([96, 100, 127, 128, 300] if tier == "quick" else list(range(66, 200)) + [1000])
    chunks = [0, 1, 3, 16, 17, 31, 32, 33, 64, 65] if tier == "quick" else [0, 1, 2, 3, 4, 7, 15, 16, 17, 30, 31, 32, 33, 47, 63, 64, 65, 100]
    work = [("64", n) for n in sizes] + [("w", n) for n in (sizes if tier != "quick" else list(range(0, 34)) + [64, 65])]
    work += [("inc", a, b, c) for a in chunks for b in chunks for c in ((0, 5) if tier == "quick" else (0, 1, 5, 31, 32))]
    work += [("mid", a, b) for a in chunks for b in chunks]

    def one(rep, w):
        if w[0] == "64":
            n = w[1]
            g, e = run("probe_h64", n, (n,), 1)
            cmp(rep, "hh:64:%d" % n, g, ref(n, 64), e, "hash64 of %d bytes" % n)
        elif w[0] == "w":
            n = w[1]
            g, e = run("probe_h128", n, (n,), 2)
            cmp(rep, "hh:128:%d" % n, g, ref(n, 128), e, "hash128 of %d bytes" % n)
            g, e = run("probe_h256", n, (n,), 4)
            cmp(rep, "hh:256:%d" % n, g, ref(n, 256), e, "hash256 of %d bytes" % n)
        elif w[0] == "inc":
            a, b, c = w[1:]
            n = a + b + c
            g, e = run("probe_inc", n, (a, b, c), 8)
            cmp(rep, "hh:append:%d+%d+%d" % (a, b, c), g, ref(n, 64) + ref(n, 128) + ref(n, 256) + ref(n, 64), e, "appending %d, %d and %d bytes, then finishing with 64, 128, 256 and again 64 bits," % (a, b, c))
        else:
            a, b = w[1:]
            g, e = run("probe_mid", a + b, (a, b), 2)
            cmp(rep, "hh:mid:%d+%d" % (a, b), g, ref(a, 64) + ref(a + b, 64), e, "finishing after %d bytes and again after %d more" % (a, b))
            g, e = run("probe_reset", max(a, b), (a, b), 1, 2)
            cmp(rep, "hh:reset:%d+%d" % (a, b), g, ref(b, 64), e, "after %d bytes, reset and %d bytes, the hash" % (a, b))
    par.each(rep, one, work)
    rep.note("message sizes", sizes)


# ---------------------------------------------------------------- framing
FRAME = r'''
#include <string>
#include "arpc/packet_codecs.cpp"
#include "arpc/packet_protocols.h"
template <class P> void send_(P& p, arpc::output_stream& o, const std::string& d) { p.send(o, d); }
void probe_send(arpc::serial_line_packet_protocol<>& p, arpc::output_stream& o, const std::string& d) { p.send(o, d); }
void probe_recv(arpc::serial_line_packet_protocol<>& p, arpc::input_stream& i, std::string& d) { d = p.receive(i); }
void probe_recv12(arpc::serial_line_packet_protocol<12>& p, arpc::input_stream& i, std::string& d) { d = p.receive(i); }
void probe_recv300(arpc::serial_line_packet_protocol<300>& p, arpc::input_stream& i, std::string& d) { d = p.receive(i); }
void probe_ctor(arpc::serial_line_packet_protocol<>* p) { new (p) arpc::serial_line_packet_protocol<>(); }
void probe_psend(arpc::protected_stream_packet_protocol<>& p, arpc::output_stream& o, const std::string& d) { p.send(o, d); }
void probe_precv(arpc::protected_stream_packet_protocol<>& p, arpc::input_stream& i, std::string& d) { d = p.receive(i); }
'''


def frame_model(feed, fixed=None):
    def mo(interp, st, i, name, args):
        if fixed and name.endswith("highway_hash::hash64"):
            r = mac_model(interp, st, i, name, args)
            # tag bits the sender's partition has already decided
            return Int(64, [0 if b in fixed[0] else 1 if b in fixed[1] else b for b in r.b])
        if name.endswith("output_stream::write"):
            n = bufs.num(args[2])
            if n is None or not isinstance(args[1], Ptr):
                raise ir.AnalysisError("write of unknown length at %s" % interp.fn.where(i["i"]))
            for k in range(n):
                st.events.append(("w", interp.load(st, Ptr(args[1].obj, args[1].off + k), 1, "i8"), i["i"]))
            return None
        if name.endswith("output_stream::putc"):
            st.events.append(("w", Int(8, args[1].b[:8]), i["i"]))
            return None
        if name.endswith("output_stream::flush"):
            st.events.append(("flush", i["i"]))
            return None
        if name.endswith(("input_stream::getc", "input_stream::read_fully")):
            k0 = sum(e[1] for e in st.events if e[0] == "r")
            n = 1 if name.endswith("getc") else bufs.num(args[2])
            if n is None:
                raise ir.AnalysisError("read of unknown length at %s" % interp.fn.where(i["i"]))
            st.events.append(("r", n, i["i"]))
            if k0 + n > len(feed):
                st.events.append(("overread", i["i"]))
                return "end"
            if name.endswith("getc"):
                return Int(8, feed[k0])
            for k in range(n):
                st.mem[(args[1].obj, args[1].off + k)] = ("b", tuple(feed[k0 + k]))
            return None
        return mac_model(interp, st, i, name, args)
    return mo


FPOL = PPOL + "inline ^std::basic_string_view\n"


def framing(rep, tier):
    prog = ir.extract([ir.compile_bc("frame.cpp", (), FRAME)], FPOL)
    psend, precv = fn1(prog, "probe_psend"), fn1(prog, "probe_precv")
    send, recv, recv12, recv300, ctor = (fn1(prog, "probe_" + n) for n in ("send", "recv", "recv12", "recv300", "ctor"))
    S = Ptr(("str", 0), 0)

    def run(fn, data, nz, feed=(), proto=None, fixed=None):
        def init(ip, st):
            st.env[("a", 0)] = Ptr(("proto", 0), 0)
            st.env[("a", 1)] = Ptr(("stream", 0), 0)
            st.env[("a", 2)] = S
            b = bufs.make(st, S, len(data))
            for k, v in enumerate(data):
                st.mem[(b.obj, k)] = ("b", tuple(v))
            for z in nz:
                st.notzero.add(frozenset(x for x in z if isinstance(x, tuple)))
            st.mem.update(proto or {})
        out = []
        for kind, st in absint.Interp(fn, frame_model(feed, fixed), max_visits=4000, max_parts=20000, max_steps=4000000).run(init):
            if kind == "unreachable" and not any(e[0] == "throw" for e in st.events):
                continue
            out.append((kind, st, content(None or absint.Interp(fn, model), st, S) if kind == "ret" else None))
        return out

    objs = []
    for kind, st in absint.Interp(ctor, mac_model).run(lambda ip, st: st.env.__setitem__(("a", 0), Ptr(("proto", 0), 0))):
        objs.append({k: v for k, v in st.mem.items() if k[0] == ("proto", 0)})
    if len(objs) != 1:
        raise ir.AnalysisError("the protocol constructor branches")
    proto = objs[0]
    sizes = 3 if tier == "quick" else 4
    shapes = [""]
    for n in range(1, sizes):
        shapes += [s + c for s in [x for x in shapes if len(x) == n - 1] for c in "0x"]
    if tier != "quick":
        shapes += ["x" * 246, "x" * 247, "0" * 20]

    def cls(st, b):
        z = all(x == 0 for x in b if not isinstance(x, tuple)) and not any(isinstance(x, tuple) or x is TOP for x in b)
        return "zero" if z else "nonzero" if bits_nonzero(b, st.notzero) else "unknown"

    def one(rep, s):
        data = input_bytes(s)
        nz = [d for d in data if d[0] != 0]
        key = "frame:%s" % short(s)
        n = 0
        for kind, st, _ in run(send, data, nz, (), proto):
            f = fails(send, kind, st)
            if f:
                rep.bad(key, "sending a packet of bytes [%s] over the serial line %s" % (short(s), f))
                continue
            n += 1
            ev = [e for e in st.events if e[0] in ("w", "flush")]
            w = [e for e in ev if e[0] == "w"]
            if not ev or ev[-1][0] != "flush":
                rep.bad(key + ":flush", "the frame is not flushed after its last byte; %s" % send.where(ev[-1][-1] if ev else 0))
                continue
            kinds = [cls(st, e[1].b) for e in w]
            if not w or kinds[-1] != "zero" or any(k != "nonzero" for k in kinds[:-1]):
                rep.bad(key + ":zero", "the frame of [%s] is not a run of nonzero bytes closed by one zero byte (%s); %s" % (
                    short(s), " ".join(kinds[:14]), send.where(w[-1][-1]) if w else send.name))
                continue
            feed = [e[1].b for e in w] + [(("more", 0),) * 8]
            for k2, s2, back in run(recv, [(("stale", j),) * 8 for j in range(2)], [z for z in st.notzero], feed, proto, (st.zeroed, st.oned)):
                f = fails(recv, k2, s2)
                if any(e[0] == "overread" for e in s2.events) or sum(e[1] for e in s2.events if e[0] == "r") > len(w):
                    rep.bad(key, "receiving the frame of [%s] reads beyond its closing zero; %s" % (short(s), recv.name))
                elif f:
                    rep.bad(key, "receiving the frame of [%s] %s" % (short(s), f))
                else:
                    rep.check([tuple(b) for b in back] == [tuple(d) for d in data], key, "bit-exact", "receive(send(x)) != x for bytes [%s] over the serial line; %s" % (short(s), recv.name))
        if not n and not rep.out:
            rep.bad(key, "sending [%s] never completes" % short(s))
    par.each(rep, one, shapes)

    # size limit: that many bytes may precede the closing zero, no more
    for m, lim, rx in [(m, 12, recv12) for m in (0, 1, 11, 12, 13, 14)] + [(m, 300, recv300) for m in (255, 256, 299, 300, 301, 302)]:
        # short frames of any nonzero bytes; long ones of empty groups
        nzb = [tuple(((("d", k), j)) for j in range(8)) if lim == 12 else (1,) + (0,) * 7 for k in range(m)]
        feed = nzb + [(0,) * 8, (("more", 0),) * 8]
        key = "frame:limit:%d" % m
        # group codes that match make the frame well formed as COBS (all data nonzero): code m
        if m and lim == 12:
            feed[0] = tuple((m >> j) & 1 for j in range(8))
        rs = run(rx, [], [z for z in nzb] if lim == 12 else [], feed, proto)
        if not rs:
            rep.bad(key, "receiving a frame of %d bytes never completes" % m)
        for kind, st, back in rs:
            th = [e for e in st.events if e[0] == "throw"]
            got = th[-1][1] if th else kind
            read = sum(e[1] for e in st.events if e[0] == "r")
            if [e for e in st.events if e[0] in ("oob", "overread", "hugesize")]:
                rep.bad(key, "receiving a frame of %d bytes %s" % (m, fails(rx, kind, st) or "reads beyond its closing zero"))
            elif m > lim:
                rep.check(got == "arpc::errors::out_of_range", key, "out_of_range", "a frame of %d bytes is not refused with out_of_range by a protocol limited to %d (%s); %s" % (m, lim, got, rx.name))
            else:
                rep.check(got == "ret" or got == "arpc::errors::data_mismatch", key, got, "a frame of %d bytes, within the limit of %d, fails with %s; %s" % (m, lim, got, rx.name))
                rep.check(read == m + 1, key + ":consumed", "consumes the frame and its closing zero", "receiving a frame of %d bytes consumes %d; %s" % (m, read, rx.name))

    for n in (0, 1, 2, 127, 128, 300):
        data = [tuple((("d", k), j) for j in range(8)) for k in range(n)]
        key = "frame:protected:%d" % n
        for kind, st, _ in run(psend, data, ()):
            f = fails(psend, kind, st)
            if f:
                rep.bad(key, "sending %d bytes over a protected stream %s" % (n, f))
                continue
            ev = [e for e in st.events if e[0] in ("w", "flush")]
            rep.check(ev and ev[-1][0] == "flush", key + ":flush", "flushed last", "the packet is not flushed after its last byte; %s" % psend.name)
            feed = [e[1].b for e in ev if e[0] == "w"]
            for k2, s2, back in run(precv, [(("stale", j),) * 8 for j in range(2)], (), feed):
                f = fails(precv, k2, s2)
                read = sum(e[1] for e in s2.events if e[0] == "r")
                if f:
                    rep.bad(key, "receiving a packet of %d bytes from a protected stream %s" % (n, f))
                else:
                    rep.check([tuple(b) for b in back] == data and read == len(feed), key, "bit-exact", "receive(send(x)) != x for %d bytes over a protected stream (%d of %d bytes consumed); %s" % (n, read, len(feed), precv.name))
    rep.note("byte shapes", len(shapes))
