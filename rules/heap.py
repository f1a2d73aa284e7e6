"""Abstract standard-library objects for the codec rules.

Every standard object is known only through its documented operations: a
container is a list of element addresses, an optional/unique_ptr is a flag plus
a payload address.  The contents stay bit-provenance vectors, so a result says
which source bit ended up where for every value of the elements.
"""
import re
from absint import Int, Ptr, Sym, TOP, NULL
from ir import AnalysisError
import objs

CONT = r"(?:basic_string|vector|deque|list|forward_list|set|multiset|map|multimap|unordered_(?:multi)?(?:map|set)|flat_(?:tree|map|set|multimap|multiset)|array)"
RX = re.compile(r"^(?:std|arpc|__gnu_cxx)::(?:[\w]+::)*?(%s)::(~?[\w]+(?: ?[^\w\s]+)?)" % CONT)
HEAP = "$heap"


class Cont:
    """contents: list of element addresses."""
    __slots__ = ("items", "size", "esize", "kind")

    def __init__(self, items, esize=None, kind=None):
        self.items = items
        self.size = None
        self.esize = esize
        self.kind = kind


def H(st):
    """Container / optional / pointer states live in st.mem under HEAP keys."""
    return st.mem


def getc(st, p):
    return st.mem.get((HEAP, p.obj, p.off))


def setc(st, p, v):
    st.mem[(HEAP, p.obj, p.off)] = v


def drop(st, p):
    st.mem.pop((HEAP, p.obj, p.off), None)


def deep_copy(st, s, d, extent=None):
    """Member-wise copy of the object at s to the object at d."""
    for k in list(st.mem):
        if k[0] == HEAP:
            if k[1] == s.obj and isinstance(k[2], int) and k[2] >= s.off and (extent is None or k[2] < s.off + extent):
                st.mem[(HEAP, d.obj, d.off + k[2] - s.off)] = st.mem[k]
        elif k[0] == s.obj and isinstance(k[1], int) and k[1] >= s.off and (extent is None or k[1] < s.off + extent):
            st.mem[(d.obj, d.off + k[1] - s.off)] = st.mem[k]


def new_obj(st, tag):
    st.fresh += 1
    return Ptr((tag, st.fresh), 0)


def cint(v):
    return Int.const(64, v)


def ptr_arg(a):
    return isinstance(a, Ptr) and isinstance(a.off, int)


def std_model(interp, st, i, name, args):
    """Returns (handled, value)."""
    if i.get("sret") and ptr_arg(args[0]) and len(args) == 1 and re.match(r"^std::make_unique$", name):
        setc(st, args[0], ("uptr", new_obj(st, "new")))
        return True, None
    if i.get("sret") and name.startswith(("std::", "__gnu_cxx::", "arpc::flat", "arpc::detail::flat")) and ptr_arg(args[0]):
        h, r = std_call(interp, st, i, name, args[1:])
        if h and isinstance(r, (Ptr, Int)):
            interp.store(st, args[0], r, 8)
        return h, None
    return std_call(interp, st, i, name, args)


def std_call(interp, st, i, name, args):
    base = name.split("::")[-1]
    name = re.sub(r" const$", "", name)
    base = re.sub(r" const$", "", base)
    m = RX.match(name)
    if m:
        kind, op = m.group(1), m.group(2).strip()
        this = args[0] if args else None
        if not ptr_arg(this):
            return True, None
        c = getc(st, this)
        if op == kind:      # constructor
            if len(args) == 1:
                setc(st, this, ("cont", ()))
            elif len(args) >= 2 and ptr_arg(args[1]) and getc(st, args[1]) is not None:
                setc(st, this, getc(st, args[1]))
            else:
                setc(st, this, ("cont", (("?", i["i"]),)))
            return True, None
        if op.startswith("~"):
            return True, None
        items = c[1] if c is not None else None
        if op in ("size", "length") and items is not None:
            return True, cint(len(items))
        if op == "empty" and items is not None:
            return True, Int.const(1, int(not items))
        if op in ("data", "c_str"):
            if c is not None and len(c) > 2 and c[2] is not None:
                return True, c[2]
            return True, Ptr(("data", this.obj, this.off), 0)
        if op in ("begin", "cbegin"):
            return True, Ptr(("it", this.obj, this.off), 0)
        if op in ("end", "cend") and items is not None:
            return True, Ptr(("it", this.obj, this.off), len(items))
        if op == "clear":
            setc(st, this, ("cont", ()))
            return True, None
        if op in ("reserve", "shrink_to_fit"):
            return True, None
        if op == "resize" and isinstance(args[1], Int) and args[1].value is not None:
            n = args[1].value
            # laid out contiguously in fresh storage: element k at slot k
            setc(st, this, ("cont", tuple(("slot", k) for k in range(n)), new_obj(st, "buf")))
            return True, None
        if op in ("push_back", "insert", "emplace_back", "emplace", "push_front", "emplace_front"):
            va = args[-1]
            if op in ("insert", "emplace") and len(args) == 4 and i.get("sret"):
                va = args[-1]
            tgt = this
            if isinstance(va, Int):   # by-value scalar (vector<bool>)
                e = new_obj(st, "el")
                interp.store(st, e, va, max(1, (va.w + 7) // 8))
            elif ptr_arg(va):
                e = new_obj(st, "el")
                deep_copy(st, va, e)
            else:
                e = Ptr(("el?", i["i"]), 0)
            old = items if items is not None else (("stale",),)
            new = (e,) if op.endswith("front") else ()
            setc(st, tgt, ("cont", new + tuple(old) + (() if new else (e,))))
            if i["t"] == "ptr":
                return True, e
            return True, None
        if op in ("operator[]", "at", "front", "back"):
            if items is not None and items:
                if op == "front":
                    k = 0
                elif op == "back":
                    k = len(items) - 1
                else:
                    k = args[1].value if isinstance(args[1], Int) else None
                if k is not None and k < len(items) and isinstance(items[k], Ptr):
                    return True, items[k]
            return True, None
        if op in ("operator=", "swap", "assign") and len(args) == 2 and ptr_arg(args[1]):
            a, b = getc(st, this), getc(st, args[1])
            if b is not None:
                setc(st, this, b)
                if op == "swap" and a is not None:
                    setc(st, args[1], a)
            return True, this
        # an operation outside the vocabulary: contents unknown from here on
        if op not in ("get_allocator", "max_size", "capacity", "begin", "end"):
            setc(st, this, ("cont", (("unknown-op", name),)))
        return True, None
    if base in ("operator!=", "operator==") and len(args) == 2:
        a, b = deref(st, args[0]), deref(st, args[1])
        if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.obj, tuple) and a.obj[0] == "it" and a.obj == b.obj:
            r = int(a.off == b.off)
            return True, Int.const(1, r if base == "operator==" else 1 - r)
    if base in ("operator!=", "operator==") and name.startswith("std::") and ptr_arg(args[0]):
        c = getc(st, args[0])
        if c is not None and c[0] in ("opt", "uptr"):
            return True, Int.const(1, int((c[1] is not None) == (base == "operator!=")))
    if base in ("operator++", "operator--") and ptr_arg(args[0]):
        it = deref(st, args[0])
        if isinstance(it, Ptr) and isinstance(it.obj, tuple) and it.obj[0] == "it":
            n = Ptr(it.obj, it.off + (1 if base == "operator++" else -1))
            for k in range(8):
                st.mem[(args[0].obj, args[0].off + k)] = ("v", n, k)
            return True, args[0] if len(args) == 1 else it
    if base in ("operator*", "operator->") and ptr_arg(args[0]) and getc(st, args[0]) is None:
        it = deref(st, args[0])
        if isinstance(it, Ptr) and isinstance(it.obj, tuple) and it.obj[0] == "it":
            c = st.mem.get((HEAP, it.obj[1], it.obj[2]))
            if c is not None and 0 <= it.off < len(c[1]):
                e = c[1][it.off]
                if isinstance(e, Ptr):
                    if i["t"] == "i1":
                        return True, Int(1, interp.load(st, e, 1, "i8").b[:1])
                    if i["t"].startswith("i"):
                        w = int(i["t"][1:])
                        return True, interp.load(st, e, w // 8, i["t"])
                    return True, e
    if name.endswith("__const_get") or name.endswith("__pair_get::__get"):
        return False, None
    m = re.match(r"^std::(optional|_Optional_base|unique_ptr|_Optional_payload)::(.*)$", name)
    if m and ptr_arg(args[0]):
        kind, op = m.group(1), m.group(2)
        this = args[0]
        c = getc(st, this)
        ps = objs.params(i.get("dem", ""))
        p0 = ps[0] if ps else ""
        bare = re.sub(r"^const | const$|[&]+$", "", p0.replace(" const&", "&")).strip()
        own = "&" in p0 and re.search(r"(^| )%s::(%s|operator=)" % (re.escape(bare), kind), i.get("dem", ""))
        if kind != "unique_ptr" and op in (kind, "operator=") and (len(args) == 1 or "nullopt_t" in p0):
            setc(st, this, ("opt", None))
            return True, this if op == "operator=" else None
        if kind == "optional" and op in (kind, "operator=") and len(args) == 2 and ptr_arg(args[1]):
            src = args[1]
            if own:
                c2 = getc(st, src)
                if c2 is None or c2[1] is None:
                    setc(st, this, ("opt", None))
                    return True, this if op == "operator=" else None
                src = c2[1]
            e = new_obj(st, "payload")
            if not own and getc(st, src) is not None and getc(st, src)[0] == "cont":
                pass
            setc(st, this, ("opt", e))
            deep_copy(st, src, e)
            return True, this if op == "operator=" else None
        if op == kind and len(args) == 2 and isinstance(args[1], Ptr) and kind == "unique_ptr":
            if own:
                setc(st, this, getc(st, args[1]))
                setc(st, args[1], ("uptr", None))
            else:
                setc(st, this, ("uptr", args[1] if args[1] != NULL else None))
            return True, None
        if op == kind and len(args) == 1:
            setc(st, this, ("opt" if kind != "unique_ptr" else "uptr", None))
            return True, None
        if op.startswith("~"):
            return True, None
        if op in ("operator bool", "has_value") and c is not None:
            return True, Int.const(1, int(c[1] is not None))
        if op in ("value", "operator*", "operator->", "get"):
            if c is not None and isinstance(c[1], Ptr):
                return True, c[1]
            if c is not None:
                st.events.append(("emptyderef", name, i["i"]))
                return True, NULL
            return True, None
        if op == "emplace":
            e = new_obj(st, "payload")
            st.events.append(("valueinit", e, i["i"]))
            setc(st, this, ("opt", e))
            return True, e
        if op in ("reset", "release"):
            if kind == "unique_ptr" and op == "reset" and len(args) == 2 and isinstance(args[1], Ptr) and args[1] != NULL:
                setc(st, this, ("uptr", args[1]))
            else:
                setc(st, this, ("uptr" if kind == "unique_ptr" else "opt", None))
            return True, None
        if kind == "unique_ptr" and op == "operator=" and len(args) == 2 and ptr_arg(args[1]):
            if "nullptr_t" in p0:
                setc(st, this, ("uptr", None))
                return True, this
            if getc(st, args[1]) is not None:
                setc(st, this, getc(st, args[1]))
                setc(st, args[1], ("uptr", None))
                return True, this
    if name == "operator new":
        return True, new_obj(st, "new")
    if name == "operator delete":
        return True, None
    return False, None


def deref(st, a):
    """The iterator behind a reference to an iterator variable."""
    if isinstance(a, Ptr) and isinstance(a.obj, tuple) and a.obj[0] == "it":
        return a
    if isinstance(a, Ptr) and isinstance(a.off, int):
        v = st.mem.get((a.obj, a.off))
        if v is not None and v[0] == "v":
            return v[1]
    return None
