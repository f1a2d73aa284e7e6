"""Wire-format rules decided by bit-provenance abstract interpretation."""
import ir, absint
from absint import Int, Ptr, Sym, TOP, NULL

POL = '''opt lite
entry ^probe_
keep ^arpc::input_stream::read_fully$
inline ^arpc::
inline ^probe_
inline ^std::(move|forward|__addressof|addressof|array::data|array::size|array::operator\\[\\]|as_const|exchange|__exchange|swap|get|size|data|begin|end)$
inline ^__gnu_cxx::__normal_iterator
inline ^std::(iter_swap|reverse|__reverse|reverse_copy|reverse_iterator)
inline ^std::(min|max|__niter_base|__niter_wrap)$
inline ^std::(__iterator_category|__copy_move_a|copy|copy_n|__copy_move_a1|__copy_move_a2|__miter_base)
inline ^std::__copy_move
inline ^std::(__)?(for_each|for_each_n|copy_if|copy_backward|move_backward|transform|accumulate|reduce|fill|fill_n|__fill_a|__fill_a1|__fill_n_a|__fill_n_a1|__copy_n|swap_ranges|all_of|any_of|none_of|find|find_if|find_if_not|count|count_if|equal|mismatch|next|prev|advance|distance|__advance|__distance|back_inserter|inserter|back_insert_iterator|__iter_|__ops|__size_to_integer|__is_byte|__copy_backward|invoke|__invoke|__invoke_impl|apply|__apply_impl|to_string|clamp|rotate|generate|generate_n|iota|max_element|min_element|ref|cref|reference_wrapper|pointer_traits|__to_address|to_address|as_bytes|byte|to_integer|numeric_limits)
inline ^std::(char_traits|__char_traits)
inline ^__gnu_cxx::__ops
inline ^__gnu_cxx::operator
inline ^std::(__pair_get|__get_helper|_Tuple_impl|_Head_base|__tuple_|__shared_ptr_pointer)
minline ^[^(]*std::operator(==|!=|<|>|<=|>=|-)(<.*>)?[(]std::(reverse_iterator|move_iterator)
'''


def io_model(interp, st, i, name, args):
    """Byte streams, vector geometry and exceptions."""
    base = name.split("::")[-1]
    if name.endswith("output_stream::write"):
        p, n = args[1], args[2]
        nv = n.value if isinstance(n, Int) else None
        if nv is not None and isinstance(p, Ptr) and isinstance(p.off, int):
            for k in range(nv):
                b = interp.load(st, Ptr(p.obj, p.off + k), 1, "i8")
                st.events.append(("w", b, i["i"]))
        else:
            st.events.append(("W", p, n, i["i"]))
        return None
    if name.endswith("output_stream::putc"):
        v = args[1]
        st.events.append(("w", Int(8, v.b[:8]) if isinstance(v, Int) else v, i["i"]))
        return None
    if name.endswith("input_stream::read_fully"):
        p, n = args[1], args[2]
        nv = n.value if isinstance(n, Int) else None
        k0 = sum(e[2] for e in st.events if e[0] == "r")
        if nv is not None and isinstance(p, Ptr) and isinstance(p.off, int):
            for k in range(nv):
                st.mem[(p.obj, p.off + k)] = ("b", tuple(("in%d" % (k0 + k), j) for j in range(8)))
            st.events.append(("r", p, nv, i["i"]))
        else:
            st.events.append(("R", p, n, i["i"]))
            interp.havoc(st, p, name)
        return None
    if name.endswith("input_stream::getc"):
        k0 = sum(e[2] for e in st.events if e[0] == "r")
        st.events.append(("r", None, 1, i["i"]))
        return Int.src(8, "in%d" % k0)
    if name.endswith("input_stream::read"):
        st.events.append(("rawread", args[1], args[2], i["i"]))
        interp.havoc(st, args[1], name)
        return None
    if base == "size" and name.startswith("std::") and isinstance(args[0], Ptr) and ("$len", args[0].obj, args[0].off) in st.mem:
        return st.mem[("$len", args[0].obj, args[0].off)]
    if base == "size" and name.startswith("std::"):
        return Int.src(64, ("size", args[0].obj if isinstance(args[0], Ptr) else "?", args[0].off if isinstance(args[0], Ptr) else 0))
    if base in ("data", "begin", "c_str") and name.startswith("std::"):
        return Ptr(("data", args[0].obj, args[0].off), 0)
    if base in ("resize", "reserve", "assign"):
        st.events.append((base, args[0], args[1], i["i"]))
        if base != "reserve" and isinstance(args[0], Ptr) and isinstance(args[1], Int):
            st.mem[("$len", args[0].obj, args[0].off)] = args[1]
        return None
    if name == "__cxa_throw":
        g = args[1].obj if isinstance(args[1], Ptr) else ("g", "?")
        st.events.append(("throw", g[1] if isinstance(g, tuple) else g, i["i"]))
        return None
    if name == "__cxa_allocate_exception":
        st.fresh += 1
        return Ptr(("exc", st.fresh), 0)
    if name == "operator new":
        st.fresh += 1
        return Ptr(("new", st.fresh), 0)
    if name.startswith("arpc::"):
        raise ir.AnalysisError("call to %s was neither inlined nor modelled" % name)
    # anything else: results unknown, pointed-to objects forgotten
    for a in args:
        if isinstance(a, Ptr) and isinstance(a.obj, tuple) and a.obj[0] == "alloca":
            interp.havoc(st, a, name)
    st.events.append(("call", name, i["i"]))
    return None


SCALARS = [  # C++ type, byte size, tag
    ("bool", 1), ("char", 1), ("signed char", 1), ("unsigned char", 1), ("char16_t", 2), ("char32_t", 4),
    ("wchar_t", 4), ("std::int16_t", 2), ("std::uint16_t", 2), ("std::int32_t", 4), ("std::uint32_t", 4),
    ("std::int64_t", 8), ("std::uint64_t", 8), ("float", 4), ("double", 8),
    ("probe_ns::e8", 1), ("probe_ns::e16", 2), ("probe_ns::e32", 4), ("probe_ns::e64", 8), ("probe_ns::plain", 4),
]

PROBE_HEAD = '''
#include <array>
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>
#include "arpc/binary_codecs.h"
namespace probe_ns {
enum class e8 : std::uint8_t { a, b };
enum class e16 : std::uint16_t { a, b };
enum class e32 : std::uint32_t { a, b };
enum class e64 : std::uint64_t { a, b };
enum plain { pa, pb };
}
using LE = arpc::little_endian_binary_encoder;
using LD = arpc::little_endian_binary_decoder;
using BE = arpc::big_endian_binary_encoder;
using BD = arpc::big_endian_binary_decoder;
'''


def scalar_program():
    t = PROBE_HEAD
    for k, (ty, n) in enumerate(SCALARS):
        for e, d, tag in (("LE", "LD", "l"), ("BE", "BD", "b")):
            t += "void probe_e%s_%d(%s& c, const %s& v) { c(v); }\n" % (tag, k, e, ty)
            t += "void probe_d%s_%d(%s& c, %s& v) { c(v); }\n" % (tag, k, d, ty)
            t += "void probe_ea%s_%d(%s& c, const std::array<%s, 3>& v) { c(v); }\n" % (tag, k, e, ty)
            t += "void probe_da%s_%d(%s& c, std::array<%s, 3>& v) { c(v); }\n" % (tag, k, d, ty)
            if ty != "bool":
                t += "void probe_ev%s_%d(%s& c, const std::vector<%s>& v) { c(v); }\n" % (tag, k, e, ty)
                t += "void probe_dv%s_%d(%s& c, std::vector<%s>& v) { c(v); }\n" % (tag, k, d, ty)
    t += "void probe_str_el(LE& c, const std::string& v) { c(v); }\n"
    t += "void probe_str_dl(LD& c, std::string& v) { c(v); }\n"
    t += "void probe_sv_el(LE& c, std::string_view v) { c(v); }\n"
    return ir.extract([ir.compile_bc("scalars.cpp", (), t)], POL)


def arg_init(interp, st):
    for n, p in enumerate(interp.fn.params):
        if p["t"] == "ptr":
            st.env[("a", n)] = Ptr(("arg", n), 0)
        elif p["t"].startswith("i"):
            st.env[("a", n)] = Int.src(int(p["t"][1:]), ("arg%d" % n))


def analyse(fn, visits=14, model=io_model):
    it = absint.Interp(fn, model, max_visits=visits)
    return it.run(arg_init)


def one(prog, name):
    fs = prog.by_name.get(name)
    if not fs:
        raise ir.AnalysisError("probe %s vanished" % name)
    return fs[0]


def wrong_throw(fn, st, ctx):
    th = [e for e in st.events if e[0] == "throw"]
    return th[-1][1] if th else "?"


def c01(rep, tier):
    prog = scalar_program()
    u8 = [k for k, (t, n) in enumerate(SCALARS) if t == "unsigned char"][0]
    probes = [("encoder(vector<uint8_t>) little", "probe_evl_%d" % u8), ("encoder(vector<uint8_t>) big", "probe_evb_%d" % u8),
              ("encoder(string)", "probe_str_el")]
    for label, pn in probes:
        fn = one(prog, pn)
        outs = analyse(fn, 90)
        good = set()
        for kind, st in outs:
            if kind in ("throw", "unreachable"):
                continue
            if kind == "bound":
                rep.bad("%s:unbounded" % pn, "%s: the size prefix has no bound on its length" % label)
                continue
            ws = []
            for e in st.events:
                if e[0] == "w":
                    ws.append(e)
                elif e[0] == "W":
                    break
            k = len(ws)
            bad = None
            src = None
            for e in ws:
                if not isinstance(e[1], Int):
                    bad = "byte of unknown origin written"
            if k == 0:
                bad = "no size prefix is written"
            if not bad:
                for e in ws:
                    for x in e[1].b:
                        if isinstance(x, tuple) and not isinstance(x[0], str) and x[0][0] == "size":
                            src = x[0]
                for n, e in enumerate(ws):
                    b = e[1].b
                    if b[7] != (1 if n + 1 < k else 0):
                        bad = "byte %d of a %d-byte prefix has continuation bit %s" % (n, k, absint.bitstr(b[7]))
                        break
                    for j in range(7):
                        idx = 7 * n + j
                        x = b[j]
                        if idx >= 64:
                            okb = x == 0
                        elif isinstance(x, tuple) and not isinstance(x[0], str) and x[0][0] == "size":
                            okb = x == (src, idx)
                        else:
                            # the branch conditions of this partition may have fixed the bit
                            okb = src is not None and ((x == 1 and (src, idx) in st.oned) or (x == 0 and (src, idx) in st.zeroed))
                        if not okb:
                            bad = "bit %d of byte %d of a %d-byte prefix carries %s instead of size bit %d" % (j, n, k, absint.bitstr(x), idx)
                            break
                    if bad:
                        break
            if not bad:
                # everything above the emitted groups must be known to be zero here:
                # the trace left the loop only because the remainder is zero
                rem = remaining_bits(st, src, 7 * k)
                if rem:
                    bad = "a %d-byte prefix is emitted although size bits %s may be set" % (k, sorted(rem)[:6])
            if bad:
                where = fn.where(ws[-1][2]) if ws else fn.name
                rep.bad("%s:k%d" % (pn, k), "%s: %s; at %s" % (label, bad, where))
            else:
                good.add(k)
                rep.ok("%s:k%d" % (pn, k), "%s: every %d-byte prefix carries size bits 0..%d, least significant group first" % (label, k, 7 * k - 1))
        if good and good != set(range(1, 11)):
            rep.bad("%s:lengths" % pn, "%s: prefix lengths %s instead of 1..10" % (label, sorted(good)))
    for label, pn in [("decoder(vector<uint8_t>) little", "probe_dvl_%d" % u8), ("decoder(vector<uint8_t>) big", "probe_dvb_%d" % u8),
                      ("decoder(string)", "probe_str_dl")]:
        fn = one(prog, pn)
        outs = analyse(fn, 90)
        good = set()
        for kind, st in outs:
            if kind == "unreachable":
                continue
            rs = []
            res = None
            for e in st.events:
                if e[0] == "r" and res is None:
                    rs.append(e)
                elif e[0] in ("resize", "assign") and res is None:
                    res = e
                elif e[0] == "R" and res is None:
                    res = (e[0], e[1], e[2], e[3])
            k = sum(e[2] for e in rs)
            if kind == "bound":
                rep.bad("%s:unbounded" % pn, "%s: an arbitrarily long prefix is consumed without being rejected" % label)
                continue
            if kind in ("throw",):
                th = [e for e in st.events if e[0] == "throw"]
                if not th:
                    continue
                if "data_mismatch" not in th[-1][1]:
                    rep.bad("%s:reject%d" % (pn, k), "%s: a malformed prefix is reported as %s, not data_mismatch; at %s" % (label, th[-1][1], fn.where(th[-1][2])))
                    continue
                # may only reject what the encoder cannot emit
                excess = set()
                for n in range(k):
                    for j in range(7):
                        if 7 * n + j >= 64:
                            excess.add(("in%d" % n, j))
                ok = k > 10 or any(z and z <= excess for z in st.notzero) or has_excess(st, excess)
                rep.check(ok, "%s:reject%d" % (pn, k), "%s: rejection after %d bytes only of values above 2^64-1" % (label, k),
                          "%s: a %d-byte prefix the encoder can emit is rejected; at %s" % (label, k, fn.where(th[-1][2])))
                continue
            if res is None:
                rep.bad("%s:k%d" % (pn, k), "%s: the decoded size is not used" % label)
                continue
            l = res[2]
            bad = None
            if not isinstance(l, Int):
                bad = "decoded size has unknown origin"
            else:
                fixed = {("in%d" % n, 7): None for n in range(k)}
                for idx in range(64):
                    n, j = idx // 7, idx % 7
                    want = ("in%d" % n, j) if n < k else 0
                    if l.b[idx] != want:
                        bad = "after %d bytes, bit %d of the decoded value is %s instead of %s" % (k, idx, absint.bitstr(l.b[idx]), absint.bitstr(want))
                        break
                if not bad:
                    # bits that do not fit must have been proved zero
                    for n in range(k):
                        for j in range(7):
                            if 7 * n + j >= 64 and not proved_zero(st, ("in%d" % n, j)):
                                bad = "bit %d of byte %d does not fit in 64 bits and is dropped silently" % (j, n)
            if bad:
                rep.bad("%s:k%d" % (pn, k), "%s: %s; at %s" % (label, bad, fn.where(res[3])))
            else:
                good.add(k)
                rep.ok("%s:k%d" % (pn, k), "%s: %d-byte prefix decoded bit for bit" % (label, k))
        if good and not good >= set(range(1, 11)):
            rep.bad("%s:lengths" % pn, "%s: only prefixes of %s bytes can be decoded" % (label, sorted(good)))
    rep.note("probe functions", 6)
    rep.note("trace partitions", len(rep.obl))
    rep.assumptions.append("std::size_t is 64 bits wide (the analysed target)")


def remaining_bits(st, src, n):
    """Bits >= n of `src` not known to be zero in this partition."""
    if src is None:
        return set()
    return {i for i in range(n, 64) if not proved_zero(st, (src, i))}


def proved_zero(st, bit):
    return bit in st.zeroed


def has_excess(st, excess):
    # a fact (cmp eq a b)=0 whose differing bits are all excess bits
    for pred, a, b, v in st.facts:
        if pred == "eq" and v == 0:
            d = [(x, y) for x, y in zip(a.b, b.b) if x != y]
            if d and all((x in excess or x in (0, 1)) and (y in excess or y in (0, 1)) for x, y in d):
                return True
    return any(b in st.oned for b in excess)


def expect_bytes(n, big, obj, base):
    return [tuple(((obj, base + k), j) for j in range(8)) for k in (range(n - 1, -1, -1) if big else range(n))]


def c02(rep, tier):
    prog = scalar_program()
    cnt = 0
    for k, (ty, n) in enumerate(SCALARS):
        for tag, big in (("l", False), ("b", True)):
            end = "big" if big else "little"
            for arr, count in (("", 1), ("a", 3)):
                what = ty if not arr else "std::array<%s, 3>" % ty
                # encoder
                fn = one(prog, "probe_e%s%s_%d" % (arr, tag, k))
                cnt += 1
                for kind, st in analyse(fn, 40):
                    if kind != "ret":
                        if kind == "bound":
                            rep.bad("enc:%s:%s" % (end, what), "%s-endian encoder of %s: unbounded output; %s" % (end, what, fn.name))
                        continue
                    want = []
                    for c in range(count):
                        want += expect_bytes(n, big, ("arg", 1), c * n)
                    got = [e for e in st.events if e[0] in ("w", "W", "call")]
                    gb = [tuple(e[1].b) if e[0] == "w" and isinstance(e[1], Int) else e[0] for e in got]
                    rep.check(gb == want, "enc:%s:%s" % (end, what), "%d bytes in %s-endian order" % (len(want), end),
                              "the %s-endian encoding of %s is not its %d bytes in %s-endian order: %s; at %s" % (
                                  end, what, len(want), end, describe(gb), fn.where(got[0][-1]) if got else fn.name))
                # decoder
                fn = one(prog, "probe_d%s%s_%d" % (arr, tag, k))
                cnt += 1
                for kind, st in analyse(fn, 40):
                    if kind != "ret":
                        if kind == "bound":
                            rep.bad("dec:%s:%s" % (end, what), "%s-endian decoder of %s: unbounded input" % (end, what))
                        continue
                    tot = sum(e[2] for e in st.events if e[0] == "r")
                    got = []
                    for b in range(count * n):
                        m = st.mem.get((("arg", 1), b))
                        got.append(m[1] if m is not None and m[0] == "b" else None)
                    want = []
                    for c in range(count):
                        ks = range(n - 1, -1, -1) if big else range(n)
                        want += [tuple(("in%d" % (c * n + q), j) for j in range(8)) for q in ks]
                    rep.check(got == want and tot == count * n, "dec:%s:%s" % (end, what), "%d bytes stored in place" % (count * n),
                              "the %s-endian decoding of %s consumes %d bytes and stores %s; at %s" % (end, what, tot, describe(got), dec_where(fn, st)))
            if ty == "bool":
                continue
            # resizable contiguous sequences: element bytes after the size prefix
            fn = one(prog, "probe_ev%s_%d" % (tag, k))
            cnt += 1
            seqenc(rep, fn, ty, n, big, end)
            fn = one(prog, "probe_dv%s_%d" % (tag, k))
            cnt += 1
            seqdec(rep, fn, ty, n, big, end)
    rep.note("probe functions", cnt)


def small_size_model(cnt):
    """Partition on a concrete element count: size() == cnt."""
    def model(interp, st, i, name, args):
        base = name.split("::")[-1]
        if base == "size" and name.startswith("std::"):
            return Int.const(64, cnt)
        return io_model(interp, st, i, name, args)
    return model


def seqenc(rep, fn, ty, n, big, end):
    for cnt in (0, 1, 3):
        for kind, st in analyse(fn, 60, small_size_model(cnt)):
            if kind == "bound":
                rep.bad("encv:%s:%s" % (end, ty), "%s-endian encoder of vector<%s>: unbounded output" % (end, ty))
            if kind != "ret":
                continue
            got = [e for e in st.events if e[0] in ("w", "W", "call")]
            gb = [tuple(e[1].b) if e[0] == "w" and isinstance(e[1], Int) else e[0] for e in got]
            want = [Int.const(8, cnt).b]
            for c in range(cnt):
                want += expect_bytes(n, big, ("data", ("arg", 1), 0), c * n)
            rep.check(gb == want, "encv:%s:%s:%d" % (end, ty, cnt), "size prefix then %d element bytes" % (cnt * n),
                      "the %s-endian encoding of a vector<%s> of %d elements is %s; at %s" % (end, ty, cnt, describe(gb), fn.where(got[0][-1]) if got else fn.name))


def seqdec(rep, fn, ty, n, big, end):
    for cnt in (0, 1, 3):
        def model(interp, st, i, name, args, cnt=cnt):
            if name.endswith("input_stream::read_fully") and not any(e[0] == "r" for e in st.events):
                # the size prefix: one byte holding cnt
                p = args[1]
                st.mem[(p.obj, p.off)] = ("b", Int.const(8, cnt).b)
                st.events.append(("r", p, 1, i["i"]))
                return None
            if name.endswith("input_stream::getc") and not any(e[0] == "r" for e in st.events):
                st.events.append(("r", None, 1, i["i"]))
                return Int.const(8, cnt)
            return io_model(interp, st, i, name, args)
        for kind, st in analyse(fn, 60, model):
            if kind == "bound":
                rep.bad("decv:%s:%s" % (end, ty), "%s-endian decoder of vector<%s>: unbounded input" % (end, ty))
            if kind != "ret":
                continue
            tot = sum(e[2] for e in st.events if e[0] == "r")
            rz = [e for e in st.events if e[0] == "resize"]
            got, want = [], []
            for b in range(cnt * n):
                m = st.mem.get((("data", ("arg", 1), 0), b))
                got.append(m[1] if m is not None and m[0] == "b" else None)
            for c in range(cnt):
                ks = range(n - 1, -1, -1) if big else range(n)
                want += [tuple(("in%d" % (1 + c * n + q), j) for j in range(8)) for q in ks]
            ok = got == want and tot == 1 + cnt * n and len(rz) == 1 and isinstance(rz[0][2], Int) and rz[0][2].value == cnt
            rep.check(ok, "decv:%s:%s:%d" % (end, ty, cnt), "resize(%d) and %d element bytes stored in place" % (cnt, cnt * n),
                      "the %s-endian decoding of a vector<%s> of %d elements consumes %d bytes, resizes to %s and stores %s; at %s" % (
                          end, ty, cnt, tot, [repr(e[2]) for e in rz], describe(got), dec_where(fn, st)))


def dec_where(fn, st):
    rs = [e for e in st.events if e[0] in ("r", "R")]
    return fn.where(rs[-1][3]) if rs else fn.name


def describe(bytes_):
    out = []
    for b in bytes_[:12]:
        if isinstance(b, tuple) and len(b) == 8:
            if all(isinstance(x, tuple) for x in b) and len({x[0] for x in b}) == 1 and [x[1] for x in b] == list(range(8)):
                s = b[0][0]
                out.append("byte %s" % (s[1] if isinstance(s, tuple) and len(s) == 2 else s))
            else:
                out.append("<" + " ".join(absint.bitstr(x) for x in b) + ">")
        else:
            out.append(str(b))
    return "[" + ", ".join(out) + ("..." if len(bytes_) > 12 else "") + "]"
