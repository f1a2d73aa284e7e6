"""Byte-stream adapters: the defaults of io_adapters, strings and iostreams."""
import ir, absint, bufs, packets
import re
from absint import Int, Ptr, Sym, TOP, NULL, May, Throw, Nested, tiname
from serial import POL
from packets import fn1, fails

EOF = "_ZTIN4arpc6errors3eofE"
IOERR = "_ZTIN4arpc6errors8io_errorE"

BASE = {EOF: (EOF, "_ZTISt13runtime_error", "_ZTISt9exception"), IOERR: (IOERR, "_ZTISt13runtime_error", "_ZTISt9exception")}

SRC = r'''
#include "arpc/io_adapters.cpp"
#include "arpc/string_adapters.cpp"
#include "arpc/iostream_adapters.cpp"
using S = std::string; using sz = std::size_t;
void probe_readfully(arpc::input_stream& is, char* p, sz l, sz* out) { is.read_fully(p, l); }
void probe_defread(arpc::input_stream& is, char* p, sz l, sz* out) { out[0] = is.arpc::input_stream::read(p, l); }
void probe_defgetc(arpc::input_stream& is, char* p, sz l, sz* out) { *p = is.arpc::input_stream::getc(); }
void probe_defwrite(arpc::output_stream& os, const char* p, sz l) { os.arpc::output_stream::write(p, l); }
void probe_defputc(arpc::output_stream& os, const char* p, sz l) { os.arpc::output_stream::putc(*p); }
void probe_sread(const S& s, sz pos, sz l, char* p, sz* out) { arpc::string_input_stream is(s, pos); out[0] = is.read(p, l); out[1] = is.pos(); out[2] = is.read(p + out[0], l); out[3] = is.pos(); }
void probe_sdef(const S& s, sz pos, sz l, char* p, sz* out) { arpc::string_input_stream is(s); out[0] = is.pos(); }
void probe_sgetc(const S& s, sz pos, sz l, char* p, sz* out) { arpc::string_input_stream is(s, pos); p[0] = is.getc(); out[1] = is.pos(); }
void probe_sgetcpos(const S& s, sz pos, sz l, char* p, sz* out) { arpc::string_input_stream is(s, pos); try { p[0] = is.getc(); } catch (const arpc::errors::eof&) { p[0] = 1; } out[1] = is.pos(); }
void probe_spos(const S& s, sz pos, sz l, char* p, sz* out) { arpc::string_input_stream is(s, pos); is.pos(l); out[0] = is.pos(); }
void probe_spos2(const S& s, sz pos, sz l, char* p, sz* out) { arpc::string_input_stream is(s, pos); try { is.pos(l); } catch (const arpc::errors::out_of_range&) {} out[0] = is.pos(); }
void probe_swrite(S& s, const char* p, sz l) { arpc::string_output_stream os(s); os.write(p, l); }
void probe_sputc(S& s, const char* p, sz l) { arpc::string_output_stream os(s); os.putc(*p); }
void probe_sflush(S& s, const char* p, sz l) { arpc::string_output_stream os(s); os.flush(); }
void probe_iread(std::istream& s, char* p, sz l, sz* out) { arpc::istream_input_stream is(s); out[0] = is.read(p, l); }
void probe_igetc(std::istream& s, char* p, sz l, sz* out) { arpc::istream_input_stream is(s); *p = is.getc(); }
void probe_owrite(arpc::ostream_output_stream& os, const char* p, sz l) { os.arpc::ostream_output_stream::write(p, l); }
void probe_oputc(arpc::ostream_output_stream& os, const char* p, sz l) { os.arpc::ostream_output_stream::putc(*p); }
void probe_oflush(arpc::ostream_output_stream& os, const char* p, sz l) { os.arpc::ostream_output_stream::flush(); }
void probe_odtor(arpc::ostream_output_stream& os) { os.arpc::ostream_output_stream::~ostream_output_stream(); }
'''

_prog = None
SPOL = POL.replace('keep ^arpc::input_stream::read_fully$\n', '') + "entry ^arpc::(string|istream|ostream)_(in|out)put_stream::(read|getc|write|putc|flush)$\n"


def load():
    global _prog
    if _prog is None:
        _prog = ir.extract([ir.compile_bc("streams.cpp", (), SRC)], SPOL)
    return _prog


def byte(k):
    return tuple((("d", k), j) for j in range(8))


def sbytes(k):
    return Int(8, byte(k))


def run(fn, model, setup):
    ip = absint.Interp(fn, model, max_visits=200, unwind=True)
    ip.bases = BASE
    out = []
    for kind, st in ip.run(setup):
        if kind == "unreachable" and not any(e[0] in ("throw", "thrown") for e in st.events):
            continue
        out.append((kind, st))
    return out


def outcome(fn, kind, st):
    """'ret', or the escaping exception's type, or what went wrong."""
    oob = [e for e in st.events if e[0] in ("oob", "hugesize")]
    if oob:
        return "an access outside the buffer at %s" % fn.where(oob[0][-1])
    if kind == "ret":
        return "ret"
    if kind == "throw":
        return tiname(st.exc) if st.exc not in (None, "?") else "unknown exception"
    th = [e for e in st.events if e[0] in ("throw", "thrown")]
    if kind == "unreachable" and th:
        return tiname(th[-1][1]) if th[-1][0] == "thrown" else th[-1][1]
    return kind


def concrete(prog, kinds, inner):
    """Calls to stream operations through the classes under test, or their
    bases, carry on in the operation of the class the probe has built."""
    def mo(interp, st, i, name, args):
        m = re.match(r"(?:virtual )?arpc::(\w+_stream)::(read|getc|write|putc|flush)$", re.sub(r" const$", "", name))
        if m:
            c = kinds.get(m.group(1), m.group(1))
            f = prog.by_name.get("arpc::%s::%s" % (c, m.group(2))) or prog.by_name.get("arpc::%s::%s" % ("input_stream" if "input" in c else "output_stream", m.group(2)))
            if f:
                return Nested(f[0], args)
        return inner(interp, st, i, name, args)
    return mo


def virt(st):
    return st.mem.setdefault(("$pos",), 0)


def source_model(avail, fault=None, chunk=None):
    """An input stream holding `avail` bytes, then end of file (or `fault`)."""
    def mo(interp, st, i, name, args):
        if name.endswith("input_stream::read"):
            n = bufs.num(args[2])
            pos = virt(st)
            k = min(n, avail - pos)
            if k < n and fault:
                return Throw(fault)
            st.events.append(("vread", n, i["i"]))
            for j in range(k):
                interp.store(st, Ptr(args[1].obj, args[1].off + j), sbytes(pos + j), 1)
            st.mem[("$pos",)] = pos + k
            return Int.const(64, k)
        if name.endswith("input_stream::getc"):
            pos = virt(st)
            st.events.append(("vgetc", i["i"]))
            if pos >= avail:
                return Throw(fault or EOF)
            st.mem[("$pos",)] = pos + 1
            return sbytes(pos)
        if name.endswith("output_stream::write"):
            n = bufs.num(args[2])
            for j in range(n):
                st.events.append(("w", interp.load(st, Ptr(args[1].obj, args[1].off + j), 1, "i8"), i["i"]))
            return None
        if name.endswith("output_stream::putc"):
            st.events.append(("w", Int(8, args[1].b[:8]), i["i"]))
            return None
        return base_model(interp, st, i, name, args)
    return mo


def base_model(interp, st, i, name, args):
    if name.startswith("__cxa_") or name in ("std::terminate", "__clang_call_terminate", "_Unwind_Resume"):
        if name == "__cxa_begin_catch":
            st.events.append(("begin_catch", i["i"]))
            return args[0]
        if name == "__cxa_end_catch":
            return None
        if name in ("std::terminate", "__clang_call_terminate"):
            st.events.append(("throw", "std::terminate", i["i"]))
            return None
    return packets.model(interp, st, i, name, args)


def defaults(rep, tier):
    prog = load()
    L = range(0, 6) if tier == "quick" else range(0, 10)

    def mem(k, n):
        return lambda ip, st: None

    def setup(l, size):
        def f(ip, st):
            st.env[("a", 0)] = Ptr(("stream", 0), 0)
            st.env[("a", 1)] = Ptr(("p", 0), 0)
            st.env[("a", 2)] = Int.const(64, l)
            st.env[("a", 3)] = Ptr(("out", 0), 0)
            st.mem[("$size", ("p", 0))] = size
        return f

    def got(ip, st, n):
        return [tuple((st.mem.get((("p", 0), k)) or ("", ()))[1]) for k in range(n)]
    for name, label, l_all in (("probe_readfully", "read_fully(%d)", L), ("probe_defread", "the default read(%d)", L), ("probe_defgetc", "the default getc() (%d)", [1])):
        fn = fn1(prog, name)
        for l in l_all:
            for avail in range(0, l + 3):
                for fault in (None, IOERR):
                    key = "%s:%d:%d:%s" % (name[6:], l, avail, "fault" if fault else "eof")
                    what = (label % l) + " on a stream with %d bytes and then %s" % (avail, "an I/O error" if fault else "end of file")
                    rs = run(fn, source_model(avail, fault), setup(l, l))
                    if not rs:
                        rep.bad(key, what + " never completes; " + fn.name)
                    for kind, st in rs:
                        o = outcome(fn, kind, st)
                        ip = absint.Interp(fn, base_model)
                        if avail >= l:
                            exp = "ret"
                        elif fault:
                            exp = "arpc::errors::io_error"
                        else:
                            exp = "ret" if name == "probe_defread" else "arpc::errors::eof"
                        if o != exp:
                            rep.bad(key, "%s ends with %s, expected %s; %s" % (what, o, exp, fn.name))
                            continue
                        if o == "ret":
                            n = min(l, avail)
                            b = got(ip, st, n)
                            pos = st.mem.get(("$pos",), 0)
                            r = bufs.num(ip.load(st, Ptr(("out", 0), 0), 8, "i64")) if name == "probe_defread" else n
                            rep.check(b == [byte(k) for k in range(n)] and pos == n and r == n, key, "%d bytes in order" % n,
                                      "%s delivers %s bytes (%d taken from the stream), expected the first %d in order; %s" % (what, r, pos, n, fn.name))
                        else:
                            rep.ok(key, o)
    for name, label, l_all in (("probe_defwrite", "the default write(%d)", L), ("probe_defputc", "the default putc (%d)", [1])):
        fn = fn1(prog, name)
        for l in l_all:
            def su(ip, st):
                setup(l, l)(ip, st)
                for k in range(l):
                    st.mem[(("p", 0), k)] = ("b", byte(k))
            key = "%s:%d" % (name[6:], l)
            rs = run(fn, source_model(0), su)
            for kind, st in rs:
                o = outcome(fn, kind, st)
                w = [tuple(e[1].b) for e in st.events if e[0] == "w"]
                rep.check(o == "ret" and w == [byte(k) for k in range(l)], key, "every byte once, in order",
                          "%s ends with %s after passing on %d bytes; expected each of the %d bytes once, in order; %s" % (label % l, o, len(w), l, fn.name))
            if not rs:
                rep.bad(key, "%s never completes" % (label % l))
    rep.note("probes", 5)


def strings(rep, tier):
    prog = load()
    model = concrete(prog, {"input_stream": "string_input_stream", "output_stream": "string_output_stream"}, base_model)
    N = range(0, 4) if tier == "quick" else range(0, 7)
    BIG = (1 << 64) - 1
    S = Ptr(("str", 0), 0)

    def setup(n, pos, l):
        def f(ip, st):
            st.env[("a", 0)] = S
            b = bufs.make(st, S, n)
            for k in range(n):
                st.mem[(b.obj, k)] = ("b", byte(k))
            st.env[("a", 1)] = Int.const(64, pos)
            st.env[("a", 2)] = Int.const(64, l)
            st.env[("a", 3)] = Ptr(("p", 0), 0)
            st.env[("a", 4)] = Ptr(("out", 0), 0)
            if l < 100:
                st.mem[("$size", ("p", 0))] = max(1, 2 * l)
        return f
    names = ("sread", "sdef", "sgetc", "sgetcpos", "spos", "spos2")
    for nm in names:
        fn = fn1(prog, "probe_" + nm)
        for n in N:
            for pos in list(range(0, n + 2)) + [BIG]:
                for l in list(range(0, n + 2)) + [BIG] if nm in ("sread", "spos", "spos2") else [0]:
                    key = "%s:%d:%d:%d" % (nm, n, pos, l)
                    what = {"sread": "string of %d bytes, position %d, reading %d bytes twice", "sdef": "a stream over a string of %d bytes (%d/%d)",
                            "sgetc": "string of %d bytes, position %d, getc (%d)", "sgetcpos": "string of %d bytes, position %d, getc (%d) and its effect on the position",
                            "spos": "string of %d bytes, position %d, moving to %d", "spos2": "string of %d bytes, position %d, after trying to move to %d"}[nm] % (n, pos, l)
                    oor = "arpc::errors::out_of_range"
                    if pos > n and nm != "sdef":
                        exp, vals = oor, {}
                    elif nm == "sread":
                        k = min(l, n - pos)
                        k2 = min(l, n - pos - k)
                        exp, vals = "ret", {0: k, 1: pos + k, 2: k2, 3: pos + k + k2, "p": [byte(pos + j) for j in range(k + k2)]}
                    elif nm == "sdef":
                        exp, vals = "ret", {0: 0}
                    elif nm == "sgetc":
                        exp, vals = ("arpc::errors::eof", {}) if pos >= n else ("ret", {1: pos + 1, "p": [byte(pos)]})
                    elif nm == "sgetcpos":
                        exp, vals = "ret", {1: min(pos + 1, n)}
                    elif nm == "spos":
                        exp, vals = (oor, {}) if l > n else ("ret", {0: l})
                    else:
                        exp, vals = "ret", {0: l if l <= n else pos}
                    rs = run(fn, model, setup(n, pos, l))
                    if not rs:
                        rep.bad(key, what + " never completes; " + fn.name)
                    for kind, st in rs:
                        o = outcome(fn, kind, st)
                        ip = absint.Interp(fn, base_model)
                        if o != exp:
                            rep.bad(key, "%s: ends with %s, expected %s; %s" % (what, o, exp, fn.name))
                            continue
                        bad = None
                        for k, v in vals.items():
                            if k == "p":
                                b = [tuple((st.mem.get((("p", 0), j)) or ("", ()))[1]) for j in range(len(v))]
                                if b != v:
                                    bad = "the wrong bytes are delivered"
                            else:
                                g = bufs.num(ip.load(st, Ptr(("out", 0), 8 * k), 8, "i64"))
                                if g != v:
                                    bad = "%s is %s, expected %s" % ({0: "result", 1: "position", 2: "second result", 3: "final position"}[k], g, v)
                        rep.check(not bad, key, "as documented", "%s: %s; %s" % (what, bad, fn.name))
    for nm in ("swrite", "sputc", "sflush"):
        fn = fn1(prog, "probe_" + nm)
        for n in N:
            for l in range(0, 4) if nm == "swrite" else [1]:
                def su(ip, st):
                    st.env[("a", 0)] = S
                    b = bufs.make(st, S, n)
                    for k in range(n):
                        st.mem[(b.obj, k)] = ("b", byte(k))
                    st.env[("a", 1)] = Ptr(("q", 0), 0)
                    st.mem[("$size", ("q", 0))] = l
                    for k in range(l):
                        st.mem[(("q", 0), k)] = ("b", byte(100 + k))
                    st.env[("a", 2)] = Int.const(64, l)
                key = "%s:%d:%d" % (nm, n, l)
                want = [byte(k) for k in range(n)] + ([byte(100 + k) for k in range(l)] if nm != "sflush" else [])
                rs = run(fn, model, su)
                if not rs:
                    rep.bad(key, "string_output_stream: %s never completes" % nm)
                for kind, st in rs:
                    o = outcome(fn, kind, st)
                    b = packets.content(absint.Interp(fn, base_model), st, S) if o == "ret" else None
                    rep.check(o == "ret" and [tuple(x) for x in b] == want, key, "appended in order", "string_output_stream (%s) of %d bytes to a string of %d: ends with %s, and the string is not its old contents followed by the new bytes; %s" % (
                        nm[1:], l, n, o, fn.name))
    rep.note("string sizes", list(N))


def ios_model(avail, failure, ofail, mayth=False):
    """std::istream with `avail` bytes then 'eof' or 'bad'; std::ostream whose
    operations fail or not.  States: 'good', 'eof' (eofbit|failbit), 'bad', 'fail'."""
    def mo(interp, st, i, name, args):
        nm = name.replace(" const", "")
        base = nm.split("::")[-1]
        S = st.mem.setdefault(("$ios",), "good")
        if nm.startswith(("std::basic_istream::", "std::istream::")):
            pos = virt(st)
            if base == "read":
                n = bufs.num(args[2])
                k = min(n, avail - pos)
                for j in range(k):
                    interp.store(st, Ptr(args[1].obj, args[1].off + j), sbytes(pos + j), 1)
                st.mem[("$pos",)] = pos + k
                st.mem[("$gcount",)] = k
                if k < n:
                    st.mem[("$ios",)] = failure
                return args[0]
            if base == "gcount":
                return Int.const(64, st.mem.get(("$gcount",), 0))
            if base == "get" and len(args) == 2:
                if pos < avail:
                    interp.store(st, args[1], sbytes(pos), 1)
                    st.mem[("$pos",)] = pos + 1
                    st.mem[("$gcount",)] = 1
                else:
                    st.mem[("$gcount",)] = 0
                    st.mem[("$ios",)] = failure
                return args[0]
            if base == "get" and len(args) == 1:
                if pos < avail:
                    st.mem[("$pos",)] = pos + 1
                    return Int(32, list(byte(pos)) + [0] * 24)
                st.mem[("$ios",)] = failure
                return Int.const(32, (1 << 32) - 1)
        if nm.startswith(("std::basic_ostream::", "std::ostream::")) and base in ("write", "put", "flush"):
            if base == "write":
                n = bufs.num(args[2])
                for j in range(n):
                    st.events.append(("w", interp.load(st, Ptr(args[1].obj, args[1].off + j), 1, "i8"), i["i"]))
            elif base == "put":
                st.events.append(("w", Int(8, args[1].b[:8]), i["i"]))
            else:
                st.events.append(("oflush", i["i"]))
            if ofail:
                st.mem[("$ios",)] = ofail
            return May(args[0]) if mayth else args[0]
        if nm in ("std::operator&", "std::operator|") and all(isinstance(a, Int) for a in args):
            return interp.binop("and" if nm.endswith("&") else "or", args[0], args[1], args[0].w)
        if nm.startswith("std::basic_ios::"):
            v = {"bad": S == "bad", "eof": S == "eof", "fail": S != "good", "good": S == "good", "operator!": S != "good", "operator bool": S == "good"}.get(base)
            if v is not None:
                return Int.const(1, int(v))
            if base == "rdstate":
                return Int.const(32, {"good": 0, "bad": 1, "eof": 6, "fail": 4}[S])
            if base == "exceptions":
                return Int.const(32, 0)
        if nm.startswith(("std::basic_istream", "std::basic_ostream", "std::basic_ios")):
            raise ir.AnalysisError("%s is outside the iostream model" % nm)
        return base_model(interp, st, i, name, args)
    return mo


def iostreams(rep, tier):
    prog = load()

    def ios(*a):
        return concrete(prog, {"input_stream": "istream_input_stream", "output_stream": "ostream_output_stream"}, ios_model(*a))
    L = range(0, 4) if tier == "quick" else range(0, 8)

    def setup(l):
        def f(ip, st):
            st.env[("a", 0)] = Ptr(("stream", 0), 0)
            st.env[("a", 1)] = Ptr(("p", 0), 0)
            st.env[("a", 2)] = Int.const(64, l)
            st.env[("a", 3)] = Ptr(("out", 0), 0)
        return f
    for nm in ("iread", "igetc"):
        fn = fn1(prog, "probe_" + nm)
        for l in L if nm == "iread" else [1]:
            for avail in range(0, l + 2):
                for failure in ("eof", "bad", "fail"):
                    if nm == "iread" and failure == "fail":
                        continue   # a short formatted-input failure cannot come from read()
                    key = "%s:%d:%d:%s" % (nm, l, avail, failure)
                    what = "%s(%d) on a std::istream with %d bytes and then %s" % (nm[1:], l, avail, {"eof": "end of file", "bad": "an error", "fail": "a failure"}[failure])
                    short = avail < l
                    if not short:
                        exp = "ret"
                    elif failure == "eof":
                        exp = "ret" if nm == "iread" else "arpc::errors::eof"
                    else:
                        exp = "arpc::errors::io_error"
                    rs = run(fn, ios(avail, failure, None), setup(l))
                    if not rs:
                        rep.bad(key, what + " never completes")
                    for kind, st in rs:
                        o = outcome(fn, kind, st)
                        if o != exp:
                            rep.bad(key, "%s ends with %s, expected %s; %s" % (what, o, exp, fn.name))
                        elif o == "ret":
                            n = min(l, avail)
                            b = [tuple((st.mem.get((("p", 0), k)) or ("", ()))[1]) for k in range(n)]
                            r = bufs.num(absint.Interp(fn, base_model).load(st, Ptr(("out", 0), 0), 8, "i64")) if nm == "iread" else n
                            rep.check(b == [byte(k) for k in range(n)] and r == n, key, "%d bytes" % n, "%s reports %s bytes, expected the first %d in order; %s" % (what, r, n, fn.name))
                        else:
                            rep.ok(key, o)
    for nm in ("owrite", "oputc", "oflush"):
        fn = fn1(prog, "probe_" + nm)
        for l in L if nm == "owrite" else [1]:
            for ofail in (None, "bad", "fail"):
                key = "%s:%d:%s" % (nm, l, ofail)

                def su(ip, st):
                    setup(l)(ip, st)
                    for k in range(l):
                        st.mem[(("p", 0), k)] = ("b", byte(k))
                rs = run(fn, ios(0, "eof", ofail), su)
                if not rs:
                    rep.bad(key, "%s never completes" % nm)
                for kind, st in rs:
                    o = outcome(fn, kind, st)
                    exp = "arpc::errors::io_error" if ofail else "ret"
                    w = [tuple(e[1].b) for e in st.events if e[0] == "w"]
                    if o != exp:
                        rep.bad(key, "ostream_output_stream::%s, when the std::ostream %s, ends with %s, expected %s; %s" % (nm[1:], "fails" if ofail else "succeeds", o, exp, fn.name))
                    elif nm == "oflush":
                        rep.check(any(e[0] == "oflush" for e in st.events), key, "flushes the std::ostream", "flush() does not flush the std::ostream; %s" % fn.name)
                    else:
                        rep.check(w == [byte(k) for k in range(l)], key, "bytes in order", "ostream_output_stream::%s passes on the wrong bytes; %s" % (nm[1:], fn.name))
    fn = fn1(prog, "probe_odtor")
    for ofail in (None, "bad"):
        for mayth in (False, True):
            rs = run(fn, ios(0, "eof", ofail, mayth), setup(0))
            if not rs:
                rep.bad("odtor", "the destructor never completes")
            for kind, st in rs:
                o = outcome(fn, kind, st)
                key = "odtor:%s:%s:%s" % (ofail, mayth, o)
                rep.check(o == "ret" and any(e[0] == "oflush" for e in st.events), key, "flushes, does not throw",
                          "~ostream_output_stream, when the final flush %s, ends with %s%s; %s" % (
                              "throws" if mayth else "fails" if ofail else "succeeds", o, "" if any(e[0] == "oflush" for e in st.events) else " without flushing", fn.name))
    rep.note("probes", 6)
