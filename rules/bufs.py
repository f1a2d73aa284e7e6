"""std::string and std::vector<scalar> as sized buffers of abstract bytes.

Lengths are concrete in each partition, contents are bit-provenance vectors.
Accesses outside [0, size) are recorded as ("oob", ...) events.
"""
import re
from absint import Int, Ptr, Sym, TOP, NULL, May
from ir import AnalysisError

KEY = "$buf"
RX = re.compile(r"^std::(?:__cxx11::)?(basic_string|vector|basic_string_view)::(.+)$")
SZ = {"unsigned long": 8, "long": 8, "int": 4, "unsigned int": 4, "char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "bool": 1, "signed char": 1}


def esize(i, kind):
    if kind != "vector":
        return 1
    m = re.match(r"std::vector<([^,<>]+),", re.sub(r"^.*? (?=std::vector<)", "", i.get("dem", "")))
    return SZ.get(m.group(1).strip()) if m else None


def make(st, p, n, base=None, es=1):
    """Declare the container at p: n elements stored at base."""
    if base is None:
        st.fresh += 1
        base = Ptr(("sbuf", st.fresh), 0)
    st.mem[(KEY, p.obj, p.off)] = (n, base, es)
    st.mem[("$size", base.obj)] = n * es
    if es == 1:
        st.mem[("$nul", base.obj)] = True
    return base


def get(st, p):
    if isinstance(p, Ptr):
        return st.mem.get((KEY, p.obj, p.off))
    return None


def setlen(st, p, n):
    o, base, es = get(st, p)
    st.mem[(KEY, p.obj, p.off)] = (n, base, es)
    st.mem[("$size", base.obj)] = n * es
    for k in list(st.mem):
        if k[0] == base.obj and isinstance(k[1], int) and k[1] >= n * es:
            del st.mem[k]


def content(interp, st, p):
    n, base, es = get(st, p)
    return [interp.load(st, Ptr(base.obj, base.off + k), 1, "i8") for k in range(n * es)]


def setbytes(st, base, off, ints):
    for k, v in enumerate(ints):
        st.mem[(base.obj, base.off + off + k)] = ("b", tuple(v.b[:8]))


def span(a, b):
    """Bytes between two pointers into the same object."""
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and isinstance(a.off, int) and isinstance(b.off, int) and b.off >= a.off:
        return b.off - a.off
    return None


def put(st, this, at, ints):
    """Everything from byte `at` on becomes `ints`."""
    n, base, es = get(st, this)
    st.mem[(KEY, this.obj, this.off)] = ((at + len(ints)) // es, base, es)
    st.mem[("$size", base.obj)] = at + len(ints)
    setbytes(st, base, at, ints)


def part(interp, st, i, a):
    """(string, position[, count])"""
    by = content(interp, st, a[0])
    at, k = num(a[1]), num(a[2]) if len(a) > 2 and isinstance(a[2], Int) else len(by)
    if at is None or k is None:
        return None
    if at > len(by):
        st.events.append(("oob", "position", a[0].obj, at, 0, i["i"]))
        return []
    return by[at:at + k]


def given(interp, st, i, a, es):
    """The bytes a container operation is given: (container), (container, position, count),
    (first, last), (pointer, count), (count, value), (value)."""
    def mem(p, k):
        return [interp.load(st, Ptr(p.obj, p.off + j), 1, "i8") for j in range(k)]

    def elem(v):
        if isinstance(v, Int):
            return [Int(8, v.b[8 * j:8 * j + 8]) for j in range(es)] if len(v.b) >= 8 * es else None
        return mem(v, es) if isinstance(v, Ptr) else None
    if not a:
        return [Int.const(8, 0)] * es
    if get(st, a[0]) is not None:
        return part(interp, st, i, a) if len(a) > 1 and isinstance(a[1], Int) else content(interp, st, a[0])
    if len(a) >= 2:
        k = span(a[0], a[1])
        if k is not None:
            return mem(a[0], k)
        if isinstance(a[0], Ptr) and num(a[1]) is not None:
            return mem(a[0], num(a[1]) * es)
        if num(a[0]) is not None and num(a[0]) < 1 << 20:
            v = elem(a[1])
            return v * num(a[0]) if v is not None else None
        return None
    if isinstance(a[0], Ptr) and es == 1 and re.search(r"\(char const\*\)", i.get("dem", "")):
        lit = getattr(interp, "strs", {}).get(a[0].obj[1]) if a[0].obj[0] == "g" else None
        if lit is not None:
            lit = (lit if isinstance(lit, bytes) else lit.encode())[a[0].off:].split(b"\0")[0]
            return [Int.const(8, c) for c in lit]
        for k in range(1 << 12):
            v = byte_is(st, mem(a[0], k + 1)[k], 0)
            if v:
                return mem(a[0], k)
            if v is None:
                # data that need not end in a zero byte, taken for a C string
                st.events.append(("oob", "C string", a[0].obj, k, 0, i["i"]))
                return mem(a[0], k)
        return None
    return elem(a[0])


def byte_is(st, v, c):
    """Whether this byte has the value c: True, False or None (not known)."""
    if v.value is not None:
        return v.value == c
    if any(x in (0, 1) and not isinstance(x, tuple) and x is not TOP and x != (c >> j) & 1 for j, x in enumerate(v.b)):
        return False
    if c == 0 and any(z <= frozenset(x for x in v.b if isinstance(x, tuple)) for z in st.notzero):
        return False
    return None


def differ(interp, a, b):
    """Zero exactly when the bytes are the same (only good for == and !=)."""
    r = Int.const(8, 0)
    for x, y in zip(a, b):
        r = interp.binop("or", r, interp.binop("xor", x, y, 8), 8)
    return Int(32, tuple(r.b) + (0,) * 24)


def num(v):
    return v.value if isinstance(v, Int) else None


def model(interp, st, i, name, args):
    """Returns (handled, value)."""
    h, r = model_(interp, st, i, name, args)
    if h and args and "vector::" in name:
        for p in args[:2]:
            c = get(st, p)
            if c and "basic_string" not in i.get("dem", ""):
                st.mem.pop(("$nul", c[1].obj), None)
    return h, r


def model_(interp, st, i, name, args):
    m = RX.match(re.sub(r" const$", "", name))
    if not m:
        return False, None
    kind, op = m.group(1), m.group(2)
    sret = i.get("sret")
    if sret:
        dst, args = args[0], args[1:]
    this = args[0] if args else None
    c = get(st, this)
    es = c[2] if c else esize(i, kind)
    if op == kind:   # constructors
        if es is None:
            return False, None
        if len(args) == 1 or (kind == "vector" and len(args) == 2 and get(st, args[1]) is None and not isinstance(args[1], Int)):
            make(st, this, 0, None, es)
            return True, None
        src = get(st, args[1])
        if src is not None and len(args) > 2 and isinstance(args[2], Int):
            by = part(interp, st, i, args[1:])
            if by is None:
                return False, None
            setbytes(st, make(st, this, len(by), None, 1), 0, by)
            return True, None
        if src is not None:
            b = make(st, this, src[0], None, src[2])
            if "&&" in i.get("dem", ""):
                for k in range(src[0] * src[2]):
                    v = st.mem.get((src[1].obj, src[1].off + k))
                    if v is not None:
                        st.mem[(b.obj, k)] = v
                setlen(st, args[1], 0)
                st.mem[("$moved", args[1].obj, args[1].off)] = True
            else:
                setbytes(st, b, 0, content(interp, st, args[1]))
            return True, None
        if len(args) >= 3 and span(args[1], args[2]) is not None:
            src_, n = args[1], span(args[1], args[2])
            b = make(st, this, n // es, None, es)
            for k in range(n):
                setbytes(st, b, k, [interp.load(st, Ptr(src_.obj, src_.off + k), 1, "i8")])
            return True, None
        if len(args) >= 3 and isinstance(args[1], Ptr) and num(args[2]) is not None:
            n = num(args[2])
            b = make(st, this, n, None, es)
            for k in range(n * es):
                setbytes(st, b, k, [interp.load(st, Ptr(args[1].obj, args[1].off + k), 1, "i8")])
            return True, None
        if num(args[1]) is not None:
            n = num(args[1])
            b = make(st, this, n, None, es)
            v = args[2] if len(args) > 2 and isinstance(args[2], Int) else Int.const(8 * es, 0)
            if isinstance(v, Int) and v.w == 8 * es:
                for k in range(n):
                    interp.store(st, Ptr(b.obj, k * es), v, es)
            return True, None
        return False, None
    if op.startswith("~") or op in ("reserve", "shrink_to_fit", "get_allocator"):
        return True, None
    if c is None:
        return False, None
    n, base, es = c
    if op in ("size", "length"):
        return True, Int.const(64, n)
    if op == "empty":
        return True, Int.const(1, int(n == 0))
    if op in ("data", "c_str", "begin", "cbegin"):
        return True, base
    if op in ("end", "cend"):
        return True, Ptr(base.obj, base.off + n * es)
    if op in ("rbegin", "rend", "crbegin", "crend"):
        v = Ptr(base.obj, base.off + (n * es if op.endswith("rbegin") or op == "rbegin" else 0))
        if sret:
            interp.store(st, dst, v, 8)
            return True, None
        return True, v
    if op in ("operator[]", "at"):
        k = num(args[1])
        if k is None:
            return False, None
        return True, Ptr(base.obj, base.off + k * es)
    if op in ("front", "back"):
        k = 0 if op == "front" else n - 1
        if n == 0:
            st.events.append(("oob", op, base.obj, k, 0, i["i"]))
        return True, Ptr(base.obj, base.off + k * es)
    if op in ("push_back", "emplace_back"):
        add = given(interp, st, i, args[1:], es)
        if add is None:
            return False, None
        put(st, this, n * es, add)
        return True, (this if op != "emplace_back" else Ptr(base.obj, base.off + n * es))
    if op in ("append", "operator+=", "assign", "operator=") and not (op == "operator=" and kind == "vector"):
        add = given(interp, st, i, args[1:], es)
        if add is None:
            return False, None
        if op in ("assign", "operator="):
            moved = op == "operator=" and "&&" in i.get("dem", "") and get(st, args[1]) is not None and args[1] != this
            make(st, this, 0, None, es)
            put(st, this, 0, add)
            if moved:
                setlen(st, args[1], 0)
                st.mem[("$moved", args[1].obj, args[1].off)] = True
            return True, this
        put(st, this, n * es, add)
        return True, this
    if op == "pop_back":
        setlen(st, this, n - 1)
        return True, None
    if op == "clear":
        setlen(st, this, 0)
        return True, None
    if op == "resize":
        k = num(args[1])
        if k is None:
            return False, None
        if k > 1 << 20:
            st.events.append(("hugesize", k, i["i"]))
            return True, "end"
        old = n
        setlen(st, this, k)
        fill = args[2] if len(args) > 2 and isinstance(args[2], Int) else Int.const(8 * es, 0)
        for j in range(old, k):
            interp.store(st, Ptr(base.obj, base.off + j * es), fill, es)
        return True, None
    if op == "erase" and len(args) in (2, 3):
        if isinstance(args[1], Ptr):
            a = args[1].off - base.off
            b = args[2].off - base.off if len(args) == 3 else a + es
        else:
            a = num(args[1]) * es
            b = min(n * es, a + (num(args[2]) if len(args) == 3 else n) * es)
        by = content(interp, st, this)
        by = by[:a] + by[b:]
        setlen(st, this, len(by) // es)
        setbytes(st, base, 0, by)
        return True, Ptr(base.obj, base.off + a) if isinstance(args[1], Ptr) else this
    if op in ("insert", "emplace") and len(args) >= 3:
        rest = args[2:]
        if isinstance(args[1], Ptr):
            at = args[1].off - base.off
            # position, count, value
            add = given(interp, st, i, rest, es)
        else:
            at = num(args[1])
            add = given(interp, st, i, rest, es) if at is not None else None
        if add is None:
            return False, None
        if at > n * es:
            st.events.append(("oob", op, base.obj, at, 0, i["i"]))
        by = content(interp, st, this)
        put(st, this, at, add + by[at:])
        return True, (Ptr(base.obj, base.off + at) if isinstance(args[1], Ptr) else this)
    if op == "replace" and len(args) >= 4 and kind == "basic_string":
        if isinstance(args[1], Ptr) and span(args[1], args[2]) is not None:
            at, k = args[1].off - base.off, span(args[1], args[2])
        else:
            at, k = num(args[1]), num(args[2])
        add = given(interp, st, i, args[3:], 1) if at is not None and k is not None else None
        if add is None:
            return False, None
        by = content(interp, st, this)
        tail = by[at + min(k, n - at):]
        setlen(st, this, at)
        put(st, this, at, add + tail)
        return True, this
    if op == "copy" and kind == "basic_string" and len(args) >= 3 and isinstance(args[1], Ptr):
        k, at = num(args[2]), num(args[3]) if len(args) > 3 else 0
        if k is None or at is None:
            return False, None
        by = content(interp, st, this)[at:][:k]
        for j, v in enumerate(by):
            interp.store(st, Ptr(args[1].obj, args[1].off + j), v, 1)
        return True, Int.const(64, len(by))
    if op in ("find", "find_first_of", "rfind", "find_last_of") and kind != "vector" and len(args) in (2, 3) and num(args[1]) is not None and args[1].w == 8:
        at = num(args[2]) if len(args) == 3 else (0 if op.startswith("find_f") or op == "find" else (1 << 64) - 1)
        if at is None:
            return False, None
        by = list(enumerate(content(interp, st, this)))
        by = [x for x in by if x[0] >= at] if op in ("find", "find_first_of") else [x for x in by if x[0] <= at][::-1]
        for j, v in by:
            same = byte_is(st, v, num(args[1]))
            if same is None:
                return False, None
            if same:
                return True, Int.const(64, j)
        return True, Int.const(64, (1 << 64) - 1)
    if op == "compare" and len(args) == 2 and get(st, args[1]) is not None:
        a, b = content(interp, st, this), content(interp, st, args[1])
        return True, differ(interp, a, b) if len(a) == len(b) else Int.const(32, 1)
    if op in ("capacity", "max_size"):
        return True, Int.const(64, 1 << 40) if op == "max_size" else Int.top(64)
    if op in ("operator=", "swap") and len(args) == 2 and get(st, args[1]) is not None:
        by, o = content(interp, st, args[1]), content(interp, st, this)
        make(st, this, len(by) // es, None, es)
        setbytes(st, get(st, this)[1], 0, by)
        if op == "operator=" and "&&" in i.get("dem", "") and args[1] != this:
            setlen(st, args[1], 0)
        if op == "swap":
            make(st, args[1], len(o) // es, None, es)
            setbytes(st, get(st, args[1])[1], 0, o)
        return True, this
    if op == "substr" and sret:
        a = num(args[1])
        k = num(args[2])
        if a is None:
            return False, None
        by = content(interp, st, this)
        if k is None:
            k = n
        by = by[a:a + k]
        make(st, dst, len(by), None, 1)
        setbytes(st, get(st, dst)[1], 0, by)
        return True, None
    if op == "resize_and_overwrite":
        return False, None
    raise AnalysisError("%s on a buffer is outside the model" % name)
