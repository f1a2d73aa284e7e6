"""decode(encode(x)) == x, bit for bit, for every value of the element bits.

The encoder's abstract byte sequence is fed to the decoder's abstract run; the
comparison is type-directed and checks the provenance of every stored bit.
Container element counts are partitioned (0..3 per container).
"""
import absint, ir
from absint import Int, Ptr, NULL
from heap import std_model, setc, getc, HEAP
from serial import POL, io_model, describe

POLICY = "keep ^arpc::(detail::)?flat_(tree|map|set|multimap|multiset)::\n" + POL + '''inline ^std::(pair::pair|tuple|_Tuple_impl|_Head_base|__get_helper|make_pair|apply|__apply_impl|invoke|__invoke|__invoke_impl|tie|forward_as_tuple|__pair_get)
inline ^std::chrono
inline ^scust
'''

HEAD = '''
#include <array>
#include <chrono>
#include <cstdint>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "arpc/binary_codecs.h"
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "arpc/serializable.h"
struct agg { std::uint16_t a; std::string b; std::uint32_t c; };
struct agg1 { std::int64_t only; };
struct sbase1 : arpc::serializable<sbase1> { std::uint16_t p; std::string q; ARPC_FIELDS(p, q); };
struct sbase2 : arpc::serializable<sbase2> { std::uint64_t r; ARPC_FIELDS(r); };
struct sder : arpc::serializable<sder, sbase1, sbase2> { std::uint8_t x; std::vector<std::uint32_t> y; std::uint16_t z; ARPC_FIELDS(x, y, z); };
struct scust : arpc::serializable<scust> {
  std::uint16_t f; std::uint32_t g; std::string h;
  ARPC_FIELDS(f);
  template <typename S> void save(S& s) const { s(g); s(h); }
  template <typename S> void load(S& s) { s(g); s(h); }
  ARPC_CUSTOM_SERIALIZATION_VERSION(3);
};
struct scustb : arpc::serializable<scustb, sbase2> {
  std::uint32_t g;
  template <typename S> void save(S& s) const { s(g); }
  template <typename S> void load(S& s) { s(g); }
  ARPC_CUSTOM_SERIALIZATION_VERSION(1);
};
'''


class T:
    def __init__(self, cpp, kind, parts=(), size=None, names=None):
        self.cpp, self.kind, self.parts, self.size, self.names = cpp, kind, list(parts), size, names


def S(cpp, n):
    return T(cpp, "scalar", size=n)


U8, U16, U32, U64 = S("std::uint8_t", 1), S("std::uint16_t", 2), S("std::uint32_t", 4), S("std::uint64_t", 8)
I16, I32, I64, BOOL, DBL = S("std::int16_t", 2), S("std::int32_t", 4), S("std::int64_t", 8), T("bool", "bool", size=1), S("double", 8)
STR = T("std::string", "cont", [S("char", 1)])


def C(cpp, e):
    return T("%s<%s>" % (cpp, e.cpp), "cont", [e])


def M(cpp, k, v):
    return T("%s<%s, %s>" % (cpp, k.cpp, v.cpp), "cont", [P(k, v)])


def P(a, b):
    return T("std::pair<%s, %s>" % (a.cpp, b.cpp), "tup", [a, b], names=["first", "second"])


def TU(*e):
    return T("std::tuple<%s>" % ", ".join(x.cpp for x in e), "tup", e)


def AG(cpp, **f):
    return T(cpp, "tup", list(f.values()), names=list(f))


def ARR(e, n):
    return T("std::array<%s, %d>" % (e.cpp, n), "arr", [e], size=n)


def CARR(e, n):
    t = T("carr_%s_%d" % (e.cpp.replace("std::", "").replace("_t", ""), n), "arr", [e], size=n)
    t.decl = "using %s = %s[%d];\n" % (t.cpp, e.cpp, n)
    return t


def O(e):
    return T("std::optional<%s>" % e.cpp, "opt", [e])


def UP(e):
    return T("std::unique_ptr<%s>" % e.cpp, "uptr", [e])


SB1 = AG("sbase1", p=U16, q=STR)
SB2 = AG("sbase2", r=U64)


def scalars_and_classes():
    return [
        STR, C("std::vector", U32), C("std::vector", STR), C("std::vector", BOOL), C("std::deque", U16), C("std::list", U32), C("std::list", STR),
        C("std::set", U32), C("std::multiset", U16), C("std::set", STR), M("std::map", U32, STR), M("std::multimap", U16, U32),
        M("std::unordered_map", U32, U16), C("std::unordered_set", U32),
        C("arpc::flat_set", U32), C("arpc::flat_multiset", U16), M("arpc::flat_map", U16, STR), M("arpc::flat_multimap", U32, U16),
        P(U16, U32), P(STR, U16), TU(U8, U32, STR, U16), TU(U64), T("std::tuple<>", "tup", []),
        AG("agg", a=U16, b=STR, c=U32), AG("agg1", only=I64), ARR(U32, 3), ARR(STR, 2), ARR(P(U16, U32), 2), CARR(I16, 3), CARR(STR, 2),
        O(U32), O(STR), O(BOOL), O(C("std::vector", U16)), UP(U32), UP(STR), UP(P(U16, STR)),
        S("std::chrono::milliseconds", 8), S("std::chrono::nanoseconds", 8), S("std::chrono::hours", 8), S("std::chrono::system_clock::time_point", 8), S("std::chrono::steady_clock::time_point", 8),
        SB1, AG("sder", **{"sbase1::p": U16, "sbase1::q": STR, "sbase2::r": U64, "x": U8, "y": C("std::vector", U32), "z": U16}),
        AG("scust", f=U16, g=U32, h=STR), AG("scustb", **{"sbase2::r": U64, "g": U32}),
        C("std::vector", C("std::vector", U16)), C("std::vector", O(U32)), M("std::map", STR, C("std::vector", O(P(U16, STR)))), O(O(U16)),
        P(ARR(U16, 2), TU(BOOL, DBL)), C("std::list", AG("agg", a=U16, b=STR, c=U32)), C("std::deque", P(U16, C("std::set", U32))),
        TU(C("std::vector", U8), M("std::map", U8, U8)), C("std::vector", UP(U16)), C("std::vector", TU(U16, U32)), C("std::vector", ARR(U32, 2)),
    ]


class Probe:
    def __init__(self, types):
        self.types = []
        self.ids = {}
        txt = ""

        def reg(t):
            if t.cpp in self.ids:
                return
            for p in t.parts:
                reg(p)
            self.ids[t.cpp] = len(self.ids)
            nonlocal txt
            k = self.ids[t.cpp]
            txt += getattr(t, "decl", "")
            txt += "using T%d = %s;\nunsigned long probe_sz_%d() { return sizeof(T%d); }\n" % (k, t.cpp, k, k)
            if t.kind == "tup":
                for j in range(len(t.parts)):
                    acc = "t.%s" % t.names[j] if t.names else "std::get<%d>(t)" % j
                    txt += "const void* probe_off_%d_%d(const T%d& t) { return &(%s); }\n" % (k, j, k, acc)
        for t in types:
            reg(t)
        self.tops = types
        for t in types:
            k = self.ids[t.cpp]
            for e, d, tag in (("little", "little", "l"), ("big", "big", "b")):
                txt += "void probe_e%s_%d(arpc::%s_endian_binary_encoder& c, const T%d& v) { c(v); }\n" % (tag, k, e, k)
                txt += "void probe_d%s_%d(arpc::%s_endian_binary_decoder& c, T%d& v) { c(v); }\n" % (tag, k, d, k)
        self.txt = txt
        self.prog = ir.extract([ir.compile_bc("roundtrip.cpp", (), HEAD + txt)], POLICY)
        self.szs, self.offs = {}, {}

    def fn(self, name):
        fs = self.prog.by_name.get(name)
        if not fs:
            raise ir.AnalysisError("probe %s vanished" % name)
        return fs[0]

    def ret(self, name):
        it = absint.Interp(self.fn(name), io_model)

        def init(interp, st):
            st.env[("a", 0)] = Ptr("obj", 0)
        for kind, st in it.run(init):
            if kind == "ret":
                v = st.events[-1][1]
                return v.value if isinstance(v, Int) else v.off
        raise ir.AnalysisError("layout of %s unknown" % name)

    def size(self, t):
        k = self.ids[t.cpp]
        if k not in self.szs:
            self.szs[k] = self.ret("probe_sz_%d" % k)
        return self.szs[k]

    def off(self, t, j):
        k = self.ids[t.cpp]
        if (k, j) not in self.offs:
            self.offs[(k, j)] = self.ret("probe_off_%d_%d" % (k, j))
        return self.offs[(k, j)]

    # -- the abstract source value
    def build(self, st, t, p, n, depth=0):
        if t.kind == "cont":
            cnt = n if depth == 0 else (n + depth + self.ctr) % 3
            self.ctr += 1
            base = Ptr(("data", p.obj, p.off), 0)
            es = self.size(t.parts[0])
            items = tuple(Ptr(base.obj, k * es) for k in range(cnt))
            setc(st, p, ("cont", items, base))
            for it in items:
                self.build(st, t.parts[0], it, n, depth + 1)
        elif t.kind == "tup":
            for j, e in enumerate(t.parts):
                self.build(st, e, Ptr(p.obj, p.off + self.off(t, j)), n, depth)
        elif t.kind == "arr":
            for j in range(t.size):
                self.build(st, t.parts[0], Ptr(p.obj, p.off + j * self.size(t.parts[0])), n, depth)
        elif t.kind in ("opt", "uptr"):
            on = (n if depth == 0 else n + self.ctr) % 2 == 1
            self.ctr += 1
            pay = Ptr(("payload" if t.kind == "opt" else "pointee", p.obj, p.off), 0)
            setc(st, p, (t.kind, pay if on else None))
            if on:
                self.build(st, t.parts[0], pay, n, depth + 1)

    # -- a destination holding unrelated previous contents
    def stale(self, st, t, p):
        if t.kind == "cont":
            setc(st, p, ("cont", (("stale",),), None))
        elif t.kind == "tup":
            for j, e in enumerate(t.parts):
                self.stale(st, e, Ptr(p.obj, p.off + self.off(t, j)))
        elif t.kind == "arr":
            for j in range(t.size):
                self.stale(st, t.parts[0], Ptr(p.obj, p.off + j * self.size(t.parts[0])))
        elif t.kind in ("opt", "uptr"):
            pay = Ptr(("stalepay", p.obj, p.off), 0)
            setc(st, p, (t.kind, pay))
            self.stale(st, t.parts[0], pay)

    def same(self, sst, s, dst, d, t, path):
        """None, or what differs."""
        if t.kind in ("scalar", "bool"):
            for k in range(t.size):
                m = dst.mem.get((d.obj, d.off + k))
                bits = m[1] if m is not None and m[0] == "b" else (None,) * 8
                want = sst.mem.get((s.obj, s.off + k))
                want = want[1] if want is not None and want[0] == "b" else tuple(((s.obj, s.off + k), j) for j in range(8))
                for j in range(1 if t.kind == "bool" else 8):
                    w = want[j]
                    if bits[j] != w or w is absint.TOP:
                        return "%s: bit %d of byte %d is %s, not the encoded value's" % (path, j, k, absint.bitstr(bits[j]) if bits[j] is not None else "never written")
            return None
        if t.kind == "tup":
            for j, e in enumerate(t.parts):
                o = self.off(t, j)
                r = self.same(sst, Ptr(s.obj, s.off + o), dst, Ptr(d.obj, d.off + o), e, "%s.%s" % (path, t.names[j] if t.names else j))
                if r:
                    return r
            return None
        if t.kind == "arr":
            for j in range(t.size):
                o = j * self.size(t.parts[0])
                r = self.same(sst, Ptr(s.obj, s.off + o), dst, Ptr(d.obj, d.off + o), t.parts[0], "%s[%d]" % (path, j))
                if r:
                    return r
            return None
        a, b = getc(sst, s), getc(dst, d)
        if b is None:
            return "%s is never written" % path
        if t.kind == "cont":
            if any(isinstance(x, tuple) and x[0] in ("stale",) for x in b[1]):
                return "%s keeps elements it held before decoding" % path
            if any(isinstance(x, tuple) and x[0] == "unknown-op" for x in b[1]):
                raise ir.AnalysisError("container operation %s outside the model" % [x[1] for x in b[1] if isinstance(x, tuple) and x[0] == "unknown-op"][0])
            if len(a[1]) != len(b[1]):
                return "%s has %d elements, the encoded one %d" % (path, len(b[1]), len(a[1]))
            for j, (x, y) in enumerate(zip(a[1], b[1])):
                if isinstance(y, tuple) and y[0] == "slot":
                    y = Ptr(b[2].obj, y[1] * self.size(t.parts[0]))
                if not isinstance(y, Ptr):
                    return "%s[%d] has unknown contents" % (path, j)
                r = self.same(sst, x, dst, y, t.parts[0], "%s[%d]" % (path, j))
                if r:
                    return r
            return None
        if (a[1] is None) != (b[1] is None):
            return "%s is %s, the encoded one is %s" % (path, "engaged" if b[1] is not None else "empty", "engaged" if a[1] is not None else "empty")
        if a[1] is not None:
            if isinstance(b[1].obj, tuple) and b[1].obj[0] == "stalepay":
                return "%s keeps the value it held before decoding" % path
            return self.same(sst, a[1], dst, b[1], t.parts[0], "*" + path)
        return None


def model(feed=None):
    def mo(interp, st, i, name, args):
        if feed is not None and (name.endswith("input_stream::read_fully") or name.endswith("input_stream::getc")):
            k0 = sum(e[2] for e in st.events if e[0] == "r")
            if name.endswith("getc"):
                n, p = 1, None
            else:
                p, n = args[1], args[2].value if isinstance(args[2], Int) else None
            if n is None or k0 + n > len(feed):
                st.events.append(("overread", n, i["i"]))
                return "end"
            st.events.append(("r", p, n, i["i"]))
            if p is None:
                return Int(8, feed[k0])
            for k in range(n):
                st.mem[(p.obj, p.off + k)] = ("b", tuple(feed[k0 + k]))
            return None
        h, r = std_model(interp, st, i, name, args)
        if h:
            return r
        return io_model(interp, st, i, name, args)
    return mo


def roundtrip(rep, types, counts, prop="C03"):
    pr = Probe(types)
    parts = 0
    for t in types:
        k = pr.ids[t.cpp]
        for tag, end in (("l", "little"), ("b", "big")):
            fe, fd = pr.fn("probe_e%s_%d" % (tag, k)), pr.fn("probe_d%s_%d" % (tag, k))
            for n in (counts if has_dyn(t) else counts[:1]):
                what = "%s (%s-endian, element count %d)" % (t.cpp, end, n) if has_dyn(t) else "%s (%s-endian)" % (t.cpp, end)
                key = "rt:%s:%s:%d" % (t.cpp, end, n)

                def initE(interp, st):
                    st.env[("a", 0)] = Ptr(("arg", 0), 0)
                    st.env[("a", 1)] = Ptr(("src", 0), 0)
                    pr.ctr = 0
                    pr.build(st, t, Ptr(("src", 0), 0), n)
                done = 0
                fails = len(rep.viol)
                for kind, st in absint.Interp(fe, model(), max_visits=60).run(initE):
                    if kind == "unreachable" or len(rep.viol) > fails + 2:
                        continue
                    bad = [e for e in st.events if e[0] == "W"]
                    if kind != "ret" or bad:
                        if kind == "bound":
                            rep.bad(key, "encoding %s does not terminate" % what)
                        elif kind == "throw":
                            th = [e for e in st.events if e[0] == "throw"]
                            rep.bad(key, "encoding %s throws; at %s" % (what, fe.where(th[-1][-1]) if th else fe.name))
                        elif bad:
                            rep.bad(key, "encoding %s writes a block whose length or origin is not the value's; at %s" % (what, fe.where(bad[0][-1])))
                        continue
                    ws = [e for e in st.events if e[0] == "w"]
                    feed = [e[1].b if isinstance(e[1], Int) else (absint.TOP,) * 8 for e in ws]
                    parts += 1
                    done += 1

                    def initD(ip, s2):
                        s2.env[("a", 0)] = Ptr(("arg", 0), 0)
                        s2.env[("a", 1)] = Ptr(("dst", 0), 0)
                        pr.stale(s2, t, Ptr(("dst", 0), 0))
                    rets = 0
                    for k2, s2 in absint.Interp(fd, model(feed), max_visits=60).run(initD):
                        if k2 == "unreachable":
                            continue
                        tot = sum(e[2] for e in s2.events if e[0] == "r")
                        last = [e for e in s2.events if e[0] in ("r", "overread", "throw")]
                        at = fd.where(last[-1][-1]) if last else fd.name
                        if any(e[0] == "overread" for e in s2.events):
                            rep.bad(key, "decoding %s reads past the %d bytes the encoder wrote; at %s" % (what, len(feed), at))
                        elif k2 == "bound":
                            rep.bad(key, "decoding %s does not terminate" % what)
                        elif k2 == "throw":
                            th = [e for e in s2.events if e[0] == "throw"]
                            rep.bad(key, "decoding the encoding of %s throws%s; at %s" % (what, " " + str(th[-1][1]) if th else "", at))
                        elif k2 == "ret":
                            rets += 1
                            r = pr.same(st, Ptr(("src", 0), 0), s2, Ptr(("dst", 0), 0), t, "value")
                            if not r and tot != len(feed):
                                r = "%d of the %d encoded bytes are left unread" % (len(feed) - tot, len(feed))
                            rep.check(not r, key, "%d bytes, bit-exact" % len(feed), "decode(encode(x)) != x for %s: %s; at %s" % (what, r, at))
                    if not rets and not any(v[0] == key for v in rep.viol):
                        rep.bad(key, "decoding %s never completes; %s" % (what, fd.name))
                if not done and not any(v[0] == key for v in rep.viol):
                    rep.bad(key, "encoding %s never completes; %s" % (what, fe.name))
    rep.note("types", len(types))
    rep.note("trace partitions", parts)
    return pr


def has_dyn(t):
    return t.kind in ("cont", "opt", "uptr") or any(has_dyn(p) for p in t.parts)


def c03(rep, tier):
    counts = (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4, 5)
    roundtrip(rep, scalars_and_classes(), counts)
