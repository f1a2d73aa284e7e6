"""std::string / std::string_view as symbolic tokens (their contents by name),
plus small helpers shared by the rules on registries, errors and results."""
import re
import ir, absint
from absint import Int, Ptr, Sym, TOP, NULL, May, Throw, tiname, Agg

K = "$tok"
STR = re.compile(r"^std::(?:__cxx11::)?basic_string::(.+)$")


def get(st, p):
    return st.mem.get((K, p.obj, p.off)) if isinstance(p, Ptr) else None


def put(st, p, tok):
    st.mem[(K, p.obj, p.off)] = tok


def cdata(tok):
    return Ptr(("tokdata", tok), 0)


def clen(tok):
    if tok[0] == "lit":
        return Int.const(64, len(tok[1]))
    if tok == ("empty",):
        return Int.const(64, 0)
    return Int.src(64, ("len", tok))


def cstr_tok(interp, p):
    if isinstance(p, Ptr) and isinstance(p.obj, tuple):
        if p.obj[0] == "tokdata" and p.off == 0:
            return p.obj[1]
        s = interp.strs.get(p.obj[1]) if p.obj[0] == "g" else None
        if s is not None and isinstance(p.off, int):
            return ("lit", s[p.off:].split("\0")[0])
    return ("cstr", repr(p))


def sv_tok(interp, ln, p):
    n = ln.value if isinstance(ln, Int) else None
    if n == 0:
        return ("lit", "")
    if isinstance(p, Ptr) and isinstance(p.obj, tuple):
        if p.obj[0] == "tokdata" and p.off == 0 and ln == clen(p.obj[1]):
            return p.obj[1]
        s = interp.strs.get(p.obj[1]) if p.obj[0] == "g" else None
        if s is not None and isinstance(p.off, int) and n is not None:
            return ("lit", s[p.off:p.off + n])
    return ("sv", repr(p), repr(ln))


def load_sv(interp, st, p):
    return sv_tok(interp, interp.load(st, p, 8, "i64"), interp.load(st, Ptr(p.obj, p.off + 8), 8, "ptr"))


def store_sv(interp, st, p, tok):
    interp.store(st, p, clen(tok), 8)
    interp.store(st, Ptr(p.obj, p.off + 8), cdata(tok), 8)


def tok_at(interp, st, p, dem, argtext):
    """Token of a string-like argument passed by address."""
    t = get(st, p)
    if t is not None:
        return t
    if "string_view" in argtext:
        return load_sv(interp, st, p)
    return None


def params(dem):
    """Parameter type texts of a demangled signature."""
    m = dem.rfind(")")
    d, k = 0, m
    while k >= 0:
        if dem[k] == ")":
            d += 1
        elif dem[k] == "(":
            d -= 1
            if d == 0:
                break
        k -= 1
    out, d, cur = [], 0, ""
    for c in dem[k + 1:m]:
        if c in "<(":
            d += 1
        elif c in ">)":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def chr_tok(v):
    c = v.value if isinstance(v, Int) else None
    return ("lit", chr(c)) if c is not None and c < 128 else ("chr", repr(v))


def cat(a, b):
    if a in (("empty",), ("lit", "")):
        return b
    if b in (("empty",), ("lit", "")):
        return a
    if a[0] == "cat":
        a = a[1]
    else:
        a = (a,)
    b = b[1] if b[0] == "cat" else (b,)
    if a[-1][0] == "lit" and b[0][0] == "lit":
        r = a[:-1] + (("lit", a[-1][1] + b[0][1]),) + b[1:]
    else:
        r = a + b
    return r[0] if len(r) == 1 else ("cat", r)


def string_model(interp, st, i, name, args):
    """Returns (handled, value)."""
    nm = re.sub(r" const$", "", name)
    dem = i.get("dem", "")
    if nm == "std::operator+" or nm == "std::__cxx11::operator+":
        dst, a, b = args[0], args[1], args[2]
        ps = params(dem)
        ta = get(st, a) or cstr_tok(interp, a)
        tb = get(st, b)
        if tb is None:
            tb = chr_tok(b) if ps and ps[-1] == "char" else cstr_tok(interp, b)
        put(st, dst, cat(ta, tb))
        return True, None
    if nm in ("std::__cxx11::to_string", "std::to_string"):
        put(st, args[0], ("num", repr(args[1]), params(dem)[0] if params(dem) else ""))
        return True, None
    m = STR.match(nm)
    if not m:
        return False, None
    op = m.group(1)
    a = args[1:] if i.get("sret") else args
    this = a[0]
    ps = params(dem)
    if op == "basic_string":
        if len(a) == 1 or ps and ps[0].startswith("std::allocator"):
            put(st, this, ("empty",))
            return True, None
        t = get(st, a[1])
        if t is None and len(ps) >= 1 and "basic_string_view" in ps[0] and len(a) >= 3 and isinstance(a[1], Int):
            t = sv_tok(interp, a[1], a[2])
        if t is None and ps and ("string_view" in ps[0]):
            t = load_sv(interp, st, a[1])
        if t is None and len(a) >= 3 and isinstance(a[2], Int) and isinstance(a[1], Ptr):
            t = sv_tok(interp, a[2], a[1])
        if t is None and ps and ps[0].startswith("char const*"):
            t = cstr_tok(interp, a[1])
        if t is None:
            t = ("unknown", repr(a[1:]))
        put(st, this, t)
        if ps and ps[0].endswith("&&") and get(st, a[1]) is not None:
            put(st, a[1], ("moved-from",))
        return True, None
    if op.startswith("~"):
        st.mem.pop((K, this.obj, this.off), None)
        return True, None
    t = get(st, this)
    if t is None:
        t = ("str", repr(this))
    if op in ("operator=", "assign", "operator+=", "append"):
        s = get(st, a[1])
        if s is None and len(a) >= 3 and isinstance(a[1], Int):
            s = sv_tok(interp, a[1], a[2])
        if s is None and len(a) >= 3 and isinstance(a[2], Int):
            s = sv_tok(interp, a[2], a[1])
        if s is None and ps and "string_view" in dem and isinstance(a[1], Ptr) and ps[0] != "char const*":
            s = load_sv(interp, st, a[1])
        if s is None:
            s = cstr_tok(interp, a[1]) if isinstance(a[1], Ptr) else chr_tok(a[1])
        put(st, this, s if op in ("operator=", "assign") else cat(t, s))
        if op == "operator=" and ps and ps[0].endswith("&&") and get(st, a[1]) is not None:
            put(st, a[1], ("moved-from",))
        return True, this
    if op == "push_back":
        put(st, this, cat(t, chr_tok(a[1])))
        return True, None
    if op == "swap":
        u = get(st, a[1]) or ("str", repr(a[1]))
        put(st, a[1], t)
        put(st, this, u)
        return True, None
    if op in ("c_str", "data"):
        return True, cdata(t)
    if op in ("size", "length"):
        return True, clen(t)
    if op == "empty":
        if t == ("empty",) or t == ("lit", ""):
            return True, Int.const(1, 1)
        if t[0] == "lit":
            return True, Int.const(1, 0)
        return True, Int(1, [(("emptystr", t), 0)])
    if op == "clear":
        put(st, this, ("empty",))
        return True, None
    if op in ("reserve", "shrink_to_fit", "capacity"):
        return True, None
    if op.startswith("operator "):   # conversion to string_view
        return True, Agg({0: clen(t), 1: cdata(t)})
    return False, None


def exc_model(interp, st, i, name, args):
    if name == "__cxa_allocate_exception":
        st.fresh += 1
        return True, Ptr(("exc", st.fresh), 0)
    if name in ("__cxa_begin_catch", "__cxa_get_exception_ptr"):
        return True, args[0]
    if name in ("__cxa_end_catch", "__cxa_free_exception", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit"):
        return True, None
    if name == "__cxa_throw":
        g = args[1].obj if isinstance(args[1], Ptr) else ("g", "?")
        what = None
        if isinstance(args[0], Ptr):
            what = st.mem.get(("$what", args[0].obj))
        st.events.append(("throw", tiname(g[1] if isinstance(g, tuple) else g), what, i["i"]))
        return True, None
    if name == "std::runtime_error::runtime_error":
        t = get(st, args[1]) or cstr_tok(interp, args[1])
        st.mem[("$what", args[0].obj)] = t
        return True, None
    return False, None
