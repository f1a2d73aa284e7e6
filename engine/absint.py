"""Abstract interpreter over the normalised IR: bit provenance.

Integers are vectors of abstract bits: 0, 1, (source, index) - "this bit is
exactly bit `index` of the input named `source`" - or TOP. Memory is a map from
(object, offset) to abstract bytes. Traces are partitioned at branches the domain
cannot decide and by loop iteration; a branch on a single provenance bit refines
that bit in the partition. Nothing is executed and no constraint is solved.
"""
import copy
from ir import AnalysisError

TOP = None


class Int:
    __slots__ = ("w", "b")

    def __init__(self, w, b):
        self.w = w
        self.b = tuple(b)

    @staticmethod
    def const(w, v):
        return Int(w, [(v >> i) & 1 for i in range(w)])

    @staticmethod
    def top(w):
        return Int(w, [TOP] * w)

    @staticmethod
    def src(w, name):
        return Int(w, [(name, i) for i in range(w)])

    @property
    def value(self):
        v = 0
        for i, x in enumerate(self.b):
            if x is TOP or isinstance(x, tuple):
                return None
            v |= x << i
        return v

    def signed(self):
        v = self.value
        if v is None:
            return None
        return v - (1 << self.w) if v >> (self.w - 1) else v

    def __eq__(self, o):
        return isinstance(o, Int) and self.w == o.w and self.b == o.b

    def __hash__(self):
        return hash((self.w, self.b))

    def __repr__(self):
        v = self.value
        if v is not None:
            return "i%d:%d" % (self.w, v)
        return "i%d<%s>" % (self.w, " ".join(bitstr(x) for x in self.b))


def bitstr(x):
    if x is TOP:
        return "T"
    if isinstance(x, tuple):
        if x[0] == "~":
            return "!" + bitstr(x[1])
        return "%s.%s" % (x[0] if isinstance(x[0], str) else "(%s)" % (x[0],), x[1])
    return str(x)


# Value numbering: results of arithmetic the bit domain cannot express become
# named terms, equal exactly when their (normalised) operator trees are.
TERMS = {}
TERMKEY = {}


def intern(key):
    n = TERMS.get(key)
    if n is None:
        n = len(TERMS)
        TERMS[key] = n
        TERMKEY[n] = key
    return n


def term(w, key):
    return Int(w, [(("t", intern(key)), k) for k in range(w)])


def as_term(v):
    """The key of the term this integer is exactly, or None."""
    b = v.b[0]
    if isinstance(b, tuple) and isinstance(b[0], tuple) and b[0][0] == "t" and b[1] == 0:
        k = TERMKEY[b[0][1]]
        if k[1] == v.w and all(x == (b[0], j) for j, x in enumerate(v.b)):
            return k
    return None


def addends(v):
    """constant and {bits: coefficient} of a sum."""
    c = v.value
    if c is not None:
        return c, {}
    k = as_term(v)
    if k is not None and k[0] == "add":
        return k[2], dict(k[3])
    return 0, {v.b: 1}


def mksum(w, c, d):
    m = (1 << w) - 1
    d = {k: n & m for k, n in d.items() if n & m}
    c &= m
    if not d:
        return Int.const(w, c)
    if c == 0 and len(d) == 1:
        (b, n), = d.items()
        if n == 1:
            return Int(w, b)
    return term(w, ("add", w, c, frozenset(d.items())))


def xorbits(x, y):
    s, par = set(), 0
    for v in (x, y):
        if not isinstance(v, tuple):
            par ^= v
            continue
        if v[0] == "~":
            par ^= 1
            v = v[1]
        if isinstance(v[0], tuple) and v[0][0] == "xt":
            s ^= TERMKEY[v[0][1]][1]
        else:
            s ^= {v}
    if not s:
        return par
    r = next(iter(s)) if len(s) == 1 else (("xt", intern(("xor", frozenset(s)))), 0)
    return neg(r) if par else r


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)


NULL = Ptr("null", 0)


class Sym:
    """A value the domain knows only by name (pointer-sized or aggregate)."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Sym) and self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return "$%s" % (self.n,)


class Agg:
    """A first-class aggregate: field index -> value."""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return "{%s}" % ", ".join("%s:%r" % kv for kv in sorted(self.f.items()))


class May:
    """Returned by a model: the call may also throw (an unknown exception)."""

    def __init__(self, ret=None, event=None):
        self.ret = ret
        self.event = event


class Throw:
    """Returned by a model: the call throws an exception of this type."""

    def __init__(self, ti):
        self.ti = ti


class Nested:
    """Returned by a model: carry on in the body of this function."""

    def __init__(self, fn, args):
        self.fn = fn
        self.args = args


class State:
    def __init__(self):
        self.env = {}
        self.mem = {}      # (obj, off) -> (value, byte index) abstract byte: list of 8 bits, or ("v", val, k)
        self.events = []
        self.decisions = []
        self.fresh = 0
        self.visits = {}
        self.notzero = set()
        self.facts = []
        self.zeroed = set()
        self.oned = set()
        self.exc = None    # type of the exception in flight, "?" when unknown

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.events = list(self.events)
        s.decisions = list(self.decisions)
        s.fresh = self.fresh
        s.visits = dict(self.visits)
        s.notzero = set(self.notzero)
        s.facts = list(self.facts)
        s.zeroed = set(self.zeroed)
        s.oned = set(self.oned)
        s.exc = self.exc
        return s

    def subst(self, bit, val):
        if bit[0] != '~':
            (self.oned if val else self.zeroed).add(bit)
        def fix(v):
            if isinstance(v, Int) and bit in v.b:
                return Int(v.w, [val if x == bit else x for x in v.b])
            return v
        for k, v in self.env.items():
            nv = fix(v)
            if nv is not v:
                self.env[k] = nv
        for k, v in self.mem.items():
            if isinstance(v, tuple) and v and v[0] == "b" and bit in v[1]:
                self.mem[k] = ("b", tuple(val if x == bit else x for x in v[1]))

        def fe(e):
            if isinstance(e, Int):
                return fix(e)
            if isinstance(e, tuple):
                return tuple(fe(x) for x in e)
            if isinstance(e, list):
                return [fe(x) for x in e]
            return e
        self.events = [fe(e) for e in self.events]
        self.notzero = {frozenset(b for b in s) for s in self.notzero}


DISTINCT = ("g", "alloca", "buf", "new", "sbuf", "exc")


class Interp:
    """Runs one function; `model(interp, st, inst, name, args)` handles calls.

    The model returns a value (or None for "unknown result"), or the string
    "end" to stop the partition there, or ("fork", [states]) is not needed.
    """

    def __init__(self, fn, model, max_parts=3000, max_visits=80, max_steps=400000, unwind=False):
        self.fn = fn
        self.unwind = unwind
        self.model = model
        self.max_parts = max_parts
        self.max_visits = max_visits
        self.max_steps = max_steps
        self.steps = 0
        self.strs = {}   # contents of constant strings met so far
        self.done = []   # (kind, state): kind in ret/throw/end/unreachable

    # ---- values
    def val(self, st, ref):
        if isinstance(ref, dict):
            if "a" in ref:
                return st.env.get(("a", ref["a"]), Sym(("arg", ref["a"])))
            if "c" in ref:
                return Int.const(ref["w"], ref["c"])
            if "null" in ref:
                return NULL
            if "g" in ref:
                if "str" in ref:
                    self.strs[ref["g"]] = ref["str"]
                return Ptr(("g", ref["g"]), 0)
            if "cegep" in ref:
                b = self.val(st, ref["cegep"])
                return Ptr(b.obj, b.off + ref["off"]) if isinstance(b, Ptr) else Sym(("cegep", repr(ref)))
            if "undef" in ref:
                return Sym("undef")
            if "zero" in ref:
                return Sym("zero")
            if self.memptrs and "agg" in ref:
                return Agg({k: self.val(st, x) for k, x in enumerate(ref["agg"])})
            if self.memptrs and ref.get("ce") == "inttoptr":
                return self.val(st, ref["ops"][0])      # offsets in vtables
            if ref.get("ce") == "ptrtoint":
                b = self.val(st, ref["ops"][0])
                if isinstance(b, Ptr):
                    return Sym(("p2i", b.obj, b.off))
            return Sym(("x", repr(ref)))
        return st.env.get(ref, Sym(("undefd", ref)))

    def load(self, st, p, size, ty):
        if self.memptrs and ty == "{ i64, i64 }" and isinstance(p, Ptr) and isinstance(p.off, int):
            return Agg({0: self.load(st, p, 8, "i64"), 1: self.load(st, Ptr(p.obj, p.off + 8), 8, "i64")})
        if not isinstance(p, Ptr) or not isinstance(p.off, int):
            return self.unknown(st, ty, ("ld", p))
        if size == 1 and ("$nul", p.obj) in st.mem and st.mem.get(("$size", p.obj)) == p.off:
            return Int.const(8, 0)      # the terminator of a string
        self.bounds(st, p, size, "read")
        bs = [st.mem.get((p.obj, p.off + k)) for k in range(size)]
        if all(b is not None and b[0] == "v" for b in bs) and bs[0][2] == 0 and all(b[1] == bs[0][1] and b[2] == k for k, b in enumerate(bs)):
            if self.memptrs and bs[0][1] == NULL and ty.startswith("i"):
                return Int.const(int(ty[1:]), 0)
            return bs[0][1]
        if all(b is None for b in bs) and p.obj[0] == "g" and isinstance(p.obj[1], str) and p.obj[1].startswith("_ZGV") and self.guard is not None and ty.startswith("i"):
            return Int.const(int(ty[1:]), self.guard)
        if all(b is None for b in bs) and p.obj[0] == "g" and self.constant(st, p.obj[1]) and (p.obj, p.off) in st.mem:
            return self.load(st, p, size, ty)
        if all(b is None for b in bs):
            # first read of an input object: named provenance
            if ty.startswith("i") and ty[1:].isdigit():
                w = int(ty[1:])
                for k in range(size):
                    st.mem[(p.obj, p.off + k)] = ("b", tuple(((p.obj, p.off + k), i) for i in range(8)))
                bits = []
                for k in range(size):
                    bits += list(st.mem[(p.obj, p.off + k)][1])
                return Int(w, bits[:w])
            v = self.init_pointer(st, p, ty)
            for k in range(size):
                st.mem[(p.obj, p.off + k)] = ("v", v, k)
            return v
        if all(b is not None and b[0] == "b" for b in bs) and ty.startswith("i"):
            w = int(ty[1:])
            bits = []
            for b in bs:
                bits += list(b[1])
            return Int(w, bits[:w])
        if any(b is None for b in bs) and ty.startswith("i") and all(b is None or b[0] == "b" for b in bs):
            for k in range(size):
                if bs[k] is None:
                    st.mem[(p.obj, p.off + k)] = ("b", tuple(((p.obj, p.off + k), i) for i in range(8)))
            return self.load(st, p, size, ty)
        return self.unknown(st, ty, ("mix", p))

    def constant(self, st, g):
        """Materialises a constant object's initialiser; False if it has none."""
        c = self.fn.prog.consts.get(g) if isinstance(g, str) else None
        if c is None and self.virtuals and isinstance(g, str):
            c = self.fn.prog.vtables.get(g)
        if c is None or ("$const", g) in st.mem:
            return False
        st.mem[("$const", g)] = True
        for off, size, ref in c:
            self.store(st, Ptr(("g", g), off), self.val(st, ref), size)
        return True

    cur = None
    terms = False
    virtuals = False   # follow virtual calls on objects built in this run
    frame = None       # identifies this activation when it is a nested one
    depth = 0

    def call(self, st, fn, args):
        """Runs a callee in this state; outcomes as (kind, state)."""
        if self.depth > 60:
            raise AnalysisError("%s: calls nest too deeply" % fn.name)
        sub = copy.copy(self)
        st.fresh += 1
        sub.fn, sub.done, sub.steps, sub.frame, sub.depth = fn, [], 0, st.fresh, self.depth + 1
        visits, st.visits = st.visits, {}
        st.env = {("up", k): v for k, v in st.env.items()}
        for k, a in enumerate(args):
            st.env[("a", k)] = a
        sub.run(state=st)
        for k, s in sub.done:
            s.env = {kk[1]: v for kk, v in s.env.items() if isinstance(kk, tuple) and kk[0] == "up"}
            s.visits = dict(visits)
            for kk in [kk for kk in s.mem if isinstance(kk[0], tuple) and kk[0][0] == "alloca" and isinstance(kk[0][1], tuple) and kk[0][1][0] == sub.frame]:
                del s.mem[kk]
        return sub.done
    memptrs = False    # pointers to member functions keep their value
    guard = None     # 0/1: local statics not yet / already initialised; None: either

    def bounds(self, st, p, size, what):
        n = st.mem.get(("$size", p.obj))
        if n is not None and (p.off < 0 or p.off + size > n):
            st.events.append(("oob", what, p.obj, p.off, n, self.cur))

    def init_pointer(self, st, p, ty):
        if ty == "ptr":
            return Ptr(("ld", p.obj, p.off), 0)
        return Sym(("ld", p.obj, p.off))

    def unknown(self, st, ty, tag):
        if ty.startswith("i") and ty[1:].isdigit():
            return Int.top(int(ty[1:]))
        if ty == "ptr":
            st.fresh += 1
            return Ptr(("unk", st.fresh), 0)
        return Sym(("unk", repr(tag)))

    def store(self, st, p, v, size):
        if not isinstance(p, Ptr):
            # unknown target: forget everything integer-like
            return
        if not isinstance(p.off, int):
            for k in list(st.mem):
                if k[0] == p.obj:
                    st.mem[k] = ("b", (TOP,) * 8)
            return
        if self.memptrs and isinstance(v, Agg) and size == 8 * len(v.f):
            for k, x in v.f.items():
                self.store(st, Ptr(p.obj, p.off + 8 * k), x, 8)
            return
        self.bounds(st, p, size, "write")
        if isinstance(v, Int):
            bits = list(v.b) + [0] * (size * 8 - v.w)
            for k in range(size):
                st.mem[(p.obj, p.off + k)] = ("b", tuple(bits[8 * k:8 * k + 8]))
        else:
            for k in range(size):
                st.mem[(p.obj, p.off + k)] = ("v", v, k)

    def havoc(self, st, p, name):
        """An opaque callee may have written the whole object."""
        if isinstance(p, Ptr):
            st.fresh += 1
            for k in list(st.mem):
                if k[0] == p.obj:
                    st.mem[k] = ("b", (TOP,) * 8)

    # ---- arithmetic
    def binop(self, op, a, b, w):
        if op in ("and", "or", "xor"):
            out = []
            for x, y in zip(a.b, b.b):
                r = bit2(op, x, y)
                if r is TOP and self.terms and x is not TOP and y is not TOP:
                    if op == "xor":
                        r = xorbits(x, y)
                    else:
                        r = (("bt", intern((op, frozenset((x, y))))), 0)
                out.append(r)
            return Int(w, out)
        if op in ("shl", "lshr", "ashr"):
            n = b.value
            if n is None:
                return Int.top(w)
            if n >= w:
                return Int.top(w)
            if op == "shl":
                return Int(w, [0] * n + list(a.b[:w - n]))
            fill = a.b[-1] if op == "ashr" else 0
            return Int(w, list(a.b[n:]) + [fill] * n)
        av, bv = a.value, b.value
        m = (1 << w) - 1
        if av is not None and bv is not None:
            if op == "add":
                return Int.const(w, (av + bv) & m)
            if op == "sub":
                return Int.const(w, (av - bv) & m)
            if op == "mul":
                return Int.const(w, (av * bv) & m)
            if op == "udiv" and bv:
                return Int.const(w, av // bv)
            if op == "urem" and bv:
                return Int.const(w, av % bv)
            sa, sb = a.signed(), b.signed()
            if op == "sdiv" and sb:
                q = abs(sa) // abs(sb)
                return Int.const(w, (q if (sa < 0) == (sb < 0) else -q) & m)
            if op == "srem" and sb:
                r = abs(sa) % abs(sb)
                return Int.const(w, (r if sa >= 0 else -r) & m)
        if op in ("mul", "udiv", "urem"):
            # by a power of two: a shift / mask
            for x, y in ((a, bv), (b, av)):
                if y is not None and y and (y & (y - 1)) == 0:
                    n = y.bit_length() - 1
                    if op == "mul":
                        return self.binop("shl", x, Int.const(w, n), w) if n < w else Int.top(w)
                    if x is a:
                        if op == "udiv":
                            return self.binop("lshr", x, Int.const(w, n), w)
                        return Int(w, list(a.b[:n]) + [0] * (w - n))
            if op == "mul" and (av == 0 or bv == 0):
                return Int.const(w, 0)
        if op in ("add", "sub") and bv == 0:
            return a
        if op == "add" and av == 0:
            return b
        if op == "add":
            # disjoint bits: an or
            if all(x == 0 or y == 0 for x, y in zip(a.b, b.b)):
                return self.binop("or", a, b, w)
        if self.terms and TOP not in a.b and TOP not in b.b:
            if op in ("add", "sub"):
                ca, da = addends(a)
                cb, db = addends(b)
                sg = 1 if op == "add" else -1
                d = dict(da)
                for k, n in db.items():
                    d[k] = d.get(k, 0) + sg * n
                return mksum(w, ca + sg * cb, d)
            if op == "mul":
                if av is not None or bv is not None:
                    c, d = addends(a if bv is not None else b)
                    n = bv if bv is not None else av
                    return mksum(w, c * n, {k: v * n for k, v in d.items()})
                return term(w, ("mul", w, frozenset((a.b, b.b)) if a.b != b.b else (a.b,)))
            return term(w, (op, w, a.b, b.b))
        return Int.top(w)

    def icmp(self, st, pred, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if pred in ("eq", "ne"):
                if a == b:
                    r = 1
                elif a.obj == b.obj and isinstance(a.off, int) and isinstance(b.off, int):
                    r = 0
                elif {a.obj, b.obj} & {"null"} and isinstance(a.obj, tuple) | isinstance(b.obj, tuple):
                    o = a.obj if a.obj != "null" else b.obj
                    if o[0] in DISTINCT:
                        r = 0
                    else:
                        return Int.top(1)
                elif isinstance(a.obj, tuple) and isinstance(b.obj, tuple) and (a.obj[0] == b.obj[0] == "iter" or a.obj[0] in DISTINCT and b.obj[0] in DISTINCT):
                    r = 0      # different objects
                else:
                    return Int.top(1)
                return Int.const(1, r if pred == "eq" else 1 - r)
            if a.obj == b.obj and isinstance(a.off, int) and isinstance(b.off, int):
                return Int.const(1, int({"ult": a.off < b.off, "ule": a.off <= b.off, "ugt": a.off > b.off, "uge": a.off >= b.off}.get(pred, 0)))
            return Int.top(1)
        if isinstance(a, Sym) and isinstance(b, Sym) and a.n[0] == "sel" and b.n[0] == "tid":
            # does the handler for this type take the exception in flight?
            key = ("catch", a.n[1], b.n[1])
            for f in st.facts:
                if f[0] == "catch" and f[1] == key:
                    return Int.const(1, f[3] if pred == "eq" else 1 - f[3])
            if st.exc not in (None, "?") and (st.exc in self.bases or st.exc == b.n[1] or not self.derives(st.exc, b.n[1])):
                r = int(self.derives(st.exc, b.n[1]))   # clauses are tested in order
                return Int.const(1, r if pred == "eq" else 1 - r)
            bit = (key, 0)
            return Int(1, [bit if pred == "eq" else neg(bit)])
        if not (isinstance(a, Int) and isinstance(b, Int)):
            return Int.top(1)
        av, bv = a.value, b.value
        if av is not None and bv is not None:
            sa, sb = a.signed(), b.signed()
            r = {"eq": av == bv, "ne": av != bv, "ult": av < bv, "ule": av <= bv, "ugt": av > bv,
                 "uge": av >= bv, "slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb, "sge": sa >= sb}[pred]
            return Int.const(1, int(r))
        if bv is not None and pred in ("ugt", "ule", "uge", "ult"):
            # against a power of two: whether any higher bit is set
            k = bv + (pred in ("ugt", "ule"))
            if 0 < k < 1 << a.w and k & (k - 1) == 0:
                k = k.bit_length() - 1
                return self.icmp(st, "ne" if pred in ("ugt", "uge") else "eq", Int(a.w, (0,) * k + tuple(a.b[k:])), Int.const(a.w, 0))
        if pred in ("eq", "ne"):
            if a == b and TOP not in a.b:
                return Int.const(1, int(pred == "eq"))
            # a known differing bit decides
            for x, y in zip(a.b, b.b):
                if isinstance(x, tuple) and isinstance(y, tuple) and (x == ("~", y) or y == ("~", x)):
                    return Int.const(1, int(pred == "ne"))
                if x in (0, 1) and y in (0, 1) and x != y and x is not TOP and y is not TOP:
                    return Int.const(1, int(pred == "ne"))
            # comparison of one provenance bit with a constant
            diff = [(x, y) for x, y in zip(a.b, b.b) if not (x == y and x is not TOP)]
            if len(diff) == 1:
                x, y = diff[0]
                if isinstance(y, tuple):
                    x, y = y, x
                if isinstance(x, tuple) and y in (0, 1) and y is not TOP:
                    want_eq = (y == 1)
                    if (pred == "eq") == want_eq:
                        return Int(1, [x])
                    return Int(1, [("~",) + x]) if False else Int(1, [neg(x)])
            if b.value == 0 or a.value == 0:
                x = a if b.value == 0 else b
                bits = frozenset(t for t in x.b if isinstance(t, tuple))
                if any(z <= bits for z in st.notzero):
                    return Int.const(1, int(pred == "ne"))
                if b.value != 0:
                    a, b = b, a
            return self.cmpbit(st, "eq", a, b, pred == "ne")
        # interval reasoning on known bits
        la = sum((x if x in (0, 1) and x is not TOP and not isinstance(x, tuple) else 0) << i for i, x in enumerate(a.b))
        ha = sum((x if x in (0, 1) and x is not TOP and not isinstance(x, tuple) else 1) << i for i, x in enumerate(a.b))
        lb = sum((x if x in (0, 1) and x is not TOP and not isinstance(x, tuple) else 0) << i for i, x in enumerate(b.b))
        hb = sum((x if x in (0, 1) and x is not TOP and not isinstance(x, tuple) else 1) << i for i, x in enumerate(b.b))
        if pred[0] == "s":
            sa, sb = a.b[-1], b.b[-1]
            if sb in (0, 1) and sb is not TOP and isinstance(sa, tuple) and (bv == 0 and pred in ("slt", "sge") or b.signed() == -1 and pred in ("sgt", "sle")):
                return Int(1, [sa if pred in ("slt", "sle") else neg(sa)])
            if TOP in (sa, sb) or isinstance(sa, tuple) or isinstance(sb, tuple):
                return Int.top(1)
            if sa != sb:
                return Int.const(1, int((sa == 1) == (pred in ("slt", "sle"))))
            pred = "u" + pred[1:]
        if pred in ("ugt", "ule"):
            a, b, la, ha, lb, hb = b, a, lb, hb, la, ha
            pred = {"ugt": "ult", "ule": "uge"}[pred]
        if ha < lb:
            return Int.const(1, int(pred == "ult"))
        if la >= hb:
            return Int.const(1, int(pred == "uge"))
        return self.cmpbit(st, "ult", a, b, pred == "uge")

    bases = {}   # exception type -> its base types; unknown ones fork

    def derives(self, t, b):
        return b in self.bases.get(t, (b,))

    def cmpbit(self, st, pred, a, b, negate):
        """A comparison the domain cannot decide becomes a named bit."""
        if TOP in a.b or TOP in b.b:
            return Int.top(1)
        for p, x, y, v in st.facts:
            if p == pred and x == a and y == b:
                return Int.const(1, v ^ int(negate))
        bit = (("cmp", pred, a, b), 0)
        return Int(1, [neg(bit) if negate else bit])

    # ---- driver
    def run(self, init=None, state=None):
        st = state or State()
        if init:
            init(self, st)
        work = [(0, None, st, None)]
        parts = 0
        while work:
            b, prev, st, start = work.pop()
            parts += 1
            if parts > self.max_parts:
                raise AnalysisError("%s: too many trace partitions" % self.fn.name)
            self.block(b, prev, st, work, start)
        return self.done

    def block(self, b, prev, st, work, start=None):
        fn = self.fn
        while True:
            if start is not None:
                insts = fn.blocks[b]
                body = insts[start:]
                start = None
                r = self.body(body, b, st, work)
                if r is None:
                    return
                prev, (b, st) = b, r
                continue
            n = st.visits.get(b, 0) + 1
            st.visits[b] = n
            if n > self.max_visits:
                self.done.append(("bound", st))
                return
            insts = fn.blocks[b]
            # phis in parallel
            phis = []
            for i in insts:
                if i["op"] != "phi":
                    break
                v = None
                for o, pb in i["in"]:
                    if pb == prev:
                        v = self.val(st, o)
                phis.append((i["i"], v))
            for k, v in phis:
                st.env[k] = v
            r = self.body(insts[len(phis):], b, st, work)
            if r is None:
                return
            prev, (b, st) = b, r

    def body(self, insts, b, st, work):
        for i in insts:
            self.steps += 1
            if self.steps > self.max_steps:
                raise AnalysisError("%s: step bound" % self.fn.name)
            r = self.step(i, st)
            if r is None:
                continue
            if r[0] == "goto":
                return r[1], st
            if r[0] == "stop":
                self.done.append((r[1], st))
                return None
            if r[0] == "fork":
                for tgt, s2 in r[1][1:]:
                    work.append((tgt, b, s2, None))
                return r[1][0]
            if r[0] == "split":
                for s2 in r[1]:
                    work.append((b, None, s2, self.fn.pos[i["i"]] + 1))
                return None
        return None

    def step(self, i, st):
        op = i["op"]
        self.cur = i["i"]
        ty = i["t"]
        if op == "alloca":
            st.env[i["i"]] = Ptr(("alloca", (self.frame, i["i"]) if self.frame else i["i"]), 0)
        elif op == "load":
            st.env[i["i"]] = self.load(st, self.val(st, i["ops"][0]), i["sz"], ty)
        elif op == "store":
            self.store(st, self.val(st, i["ops"][1]), self.val(st, i["ops"][0]), i["sz"])
        elif op == "cmpxchg":
            p, old, new = (self.val(st, x) for x in i["ops"][:3])
            cur = self.load(st, p, old.w // 8, "i%d" % old.w) if isinstance(old, Int) and isinstance(p, Ptr) else None
            if isinstance(cur, Int) and cur.value is not None and old.value is not None:
                # no other thread comes in between
                if cur.value == old.value:
                    self.store(st, p, new, old.w // 8)
                st.env[i["i"]] = Agg({0: cur, 1: Int.const(1, int(cur.value == old.value))})
            else:
                st.env[i["i"]] = self.unknown(st, ty, ("cmpxchg", i["i"]))
        elif op == "getelementptr":
            p = self.val(st, i["ops"][0])
            o = i.get("off")
            if isinstance(p, Ptr) and o is not None and isinstance(p.off, int):
                tot = p.off + o
                for v, s in i.get("var", []):
                    x = self.val(st, v)
                    c = x.signed() if isinstance(x, Int) else None
                    if c is None:
                        tot = ("?", repr(x))
                        break
                    tot += c * s
                st.env[i["i"]] = Ptr(p.obj, tot)
            elif isinstance(p, Ptr):
                st.env[i["i"]] = Ptr(p.obj, ("?", "x"))
            else:
                st.env[i["i"]] = Sym(("gep", i["i"]))
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            a, b = self.val(st, i["ops"][0]), self.val(st, i["ops"][1])
            w = int(ty[1:]) if ty[1:].isdigit() else 64
            if isinstance(a, Int) and isinstance(b, Int):
                st.env[i["i"]] = self.binop(op, a, b, w)
            elif op == "sub" and isinstance(a, Sym) and isinstance(b, Sym) and a.n[0] == b.n[0] == "p2i" and a.n[1] == b.n[1] and isinstance(a.n[2], int) and isinstance(b.n[2], int):
                st.env[i["i"]] = Int.const(w, (a.n[2] - b.n[2]) & ((1 << w) - 1))
            elif self.memptrs and op == "and" and isinstance(a, Sym) and a.n[0] == "p2i" and a.n[1][0] == "g" and isinstance(b, Int) and b.value == 1:
                st.env[i["i"]] = Int.const(w, 0)    # functions are aligned
            else:
                st.env[i["i"]] = self.unknown(st, ty, i["i"])
        elif op in ("trunc", "zext", "sext"):
            a = self.val(st, i["ops"][0])
            w = int(ty[1:])
            if isinstance(a, Int):
                if op == "trunc":
                    st.env[i["i"]] = Int(w, a.b[:w])
                elif op == "zext":
                    st.env[i["i"]] = Int(w, list(a.b) + [0] * (w - a.w))
                else:
                    st.env[i["i"]] = Int(w, list(a.b) + [a.b[-1]] * (w - a.w))
            else:
                st.env[i["i"]] = Int.top(w)
        elif op == "icmp":
            st.env[i["i"]] = self.icmp(st, i["pred"], self.val(st, i["ops"][0]), self.val(st, i["ops"][1]))
        elif op == "select":
            c = self.val(st, i["ops"][0])
            cv = c.value if isinstance(c, Int) else None
            if cv is not None:
                st.env[i["i"]] = self.val(st, i["ops"][1 if cv else 2])
            else:
                return self.select_fork(i, st, c)
        elif op == "ptrtoint":
            p = self.val(st, i["ops"][0])
            st.env[i["i"]] = Sym(("p2i", p.obj, p.off)) if isinstance(p, Ptr) else Sym(("p2i?", i["i"]))
        elif op == "inttoptr" and self.memptrs and isinstance(self.val(st, i["ops"][0]), Sym) and self.val(st, i["ops"][0]).n[0] == "p2i":
            v = self.val(st, i["ops"][0])
            st.env[i["i"]] = Ptr(v.n[1], v.n[2])
        elif op in ("freeze", "bitcast", "inttoptr"):
            st.env[i["i"]] = self.val(st, i["ops"][0])
        elif op == "extractvalue" and len(i.get("idx", ())) == 1 and isinstance(self.val(st, i["ops"][0]), Agg):
            st.env[i["i"]] = self.val(st, i["ops"][0]).f.get(i["idx"][0], Sym(("field", i["i"])))
        elif op == "insertvalue" and len(i["idx"]) == 1:
            a = self.val(st, i["ops"][0])
            f = dict(a.f) if isinstance(a, Agg) else {}
            f[i["idx"][0]] = self.val(st, i["ops"][1])
            st.env[i["i"]] = Agg(f)
        elif op == "landingpad":
            st.events.append(("caught", i["i"]))
            st.env[i["i"]] = Agg({0: Ptr(("exn", i["i"]), 0), 1: Sym(("sel", i["i"]))})
        elif op == "extractvalue" and i.get("idx") == [0] and isinstance(self.val(st, i["ops"][0]), (Ptr, Int)):
            # a small aggregate returned in registers: models name its first word
            st.env[i["i"]] = self.val(st, i["ops"][0])
        elif op == "br":
            if len(i["succ"]) == 1:
                return ("goto", i["succ"][0])
            c = self.val(st, i["ops"][0])
            cv = c.value if isinstance(c, Int) else None
            if cv is not None:
                return ("goto", i["succ"][0 if cv else 1])
            return ("fork", self.split(i, st, c, i["succ"][0], i["succ"][1]))
        elif op == "switch":
            c = self.val(st, i["ops"][0])
            cv = c.signed() if isinstance(c, Int) else None
            if cv is not None:
                for v, t in i["cases"]:
                    if v == cv:
                        return ("goto", t)
                return ("goto", i["default"])
            outs = []
            for v, t in i["cases"]:
                s2 = st.copy()
                s2.decisions.append((i["i"], v))
                outs.append((t, s2))
            s2 = st.copy()
            s2.decisions.append((i["i"], "default"))
            outs.append((i["default"], s2))
            return ("fork", outs)
        elif op in ("call", "invoke"):
            name = self.fn.callee(i) or "?"
            args = [self.val(st, o) for o in i["ops"]]
            if (name == "?" or self.virtuals) and "icallee" in i:
                self.target = self.val(st, i["icallee"])
                if isinstance(self.target, Ptr) and isinstance(self.target.obj, tuple) and self.target.obj[0] == "g":
                    name = "@" + self.target.obj[1]
            if name.startswith("llvm."):
                r = self.intrinsic(st, i, name, args)
            else:
                r = self.model(self, st, i, name, args)
            if r == "end":
                return ("stop", "end")
            if isinstance(r, Nested):
                on, un = [], []
                for k, s2 in self.call(st, r.fn, r.args):
                    if k == "ret":
                        v = s2.events.pop()[1]
                        if ty != "void":
                            s2.env[i["i"]] = v if v is not None else self.unknown(s2, ty, i["i"])
                        on.append(s2)
                    elif k == "throw" and op == "invoke":
                        un.append(s2)
                    else:
                        self.done.append((k, s2))
                if op != "invoke":
                    return ("split", on)
                outs = [(i["normal"], s) for s in on] + [(i["unwind"], s) for s in un]
                return ("fork", outs) if outs else ("split", [])
            if isinstance(r, Throw):
                st.exc = r.ti
                st.events.append(("thrown", r.ti, i["i"]))
                if op == "invoke":
                    return ("fork", [(i["unwind"], st)])
                return ("stop", "throw")
            if isinstance(r, May):
                s2 = st.copy()
                if r.event:
                    s2.events.append(r.event)
                s2.events.append(("unwind", name, i["i"]))
                s2.exc = "?"
                if ty != "void":
                    st.env[i["i"]] = r.ret if r.ret is not None else self.unknown(st, ty, i["i"])
                if op == "invoke":
                    return ("fork", [(i["normal"], st), (i["unwind"], s2)])
                self.done.append(("throw", s2))
                return None
            if name == "__cxa_throw":
                g = args[1].obj if isinstance(args[1], Ptr) else ("g", "?")
                st.exc = g[1] if isinstance(g, tuple) else g
            if i.get("noreturn") and r is None:
                if self.unwind and op == "invoke" and name in ("__cxa_throw", "__cxa_rethrow", "std::rethrow_exception"):
                    if name == "std::rethrow_exception":
                        st.exc = "?"
                    return ("fork", [(i["unwind"], st)])
                return ("stop", "throw")
            if ty != "void":
                st.env[i["i"]] = r if r is not None else self.unknown(st, ty, i["i"])
            if op == "invoke":
                return ("goto", i["normal"])
        elif op == "ret":
            st.events.append(("ret", self.val(st, i["ops"][0]) if i["ops"] else None))
            return ("stop", "ret")
        elif op == "resume":
            return ("stop", "throw")
        elif op == "unreachable":
            return ("stop", "unreachable")
        elif op == "phi":
            pass
        else:
            st.env[i["i"]] = self.unknown(st, ty, i["i"])
        return None

    def select_fork(self, i, st, c):
        a, b = self.val(st, i["ops"][1]), self.val(st, i["ops"][2])
        if a == b and not (isinstance(a, Int) and TOP in a.b):
            st.env[i["i"]] = a
            return None
        s2 = st.copy()
        self.assume(st, i, c, True)
        self.assume(s2, i, c, False)
        st.env[i["i"]] = self.val(st, i["ops"][1])
        s2.env[i["i"]] = self.val(s2, i["ops"][2])
        return ("split", [st, s2])

    def split(self, i, st, c, tgt, fgt):
        s2 = st.copy()
        self.assume(st, i, c, True)
        self.assume(s2, i, c, False)
        return [(tgt, st), (fgt, s2)]

    def assume(self, st, i, c, truth):
        st.decisions.append((i["i"], truth))
        bit = c.b[0] if isinstance(c, Int) else TOP
        if not isinstance(bit, tuple):
            return
        v = int(truth)
        if bit[0] == "~":
            bit, v = bit[1], 1 - v
        st.subst(bit, v)
        st.subst(neg(bit), 1 - v)
        if isinstance(bit[0], tuple) and bit[0] and bit[0][0] == "catch":
            st.facts.append(("catch", bit[0], None, v))
            st.events.append(("handler" if v else "nohandler", bit[0][2], i["i"]))
            if v and st.exc == "?":
                st.exc = bit[0][2]
        if isinstance(bit[0], tuple) and bit[0] and bit[0][0] == "cmp":
            _, pred, a, b = bit[0]
            st.facts.append((pred, a, b, v))
            if pred == "eq":
                if v:
                    for x, y in zip(a.b, b.b):
                        for p, q in ((x, y), (y, x)):
                            if isinstance(p, tuple) and p[0] != "~" and q in (0, 1) and q is not TOP and not isinstance(q, tuple):
                                st.subst(p, q)
                                st.subst(neg(p), 1 - q)
                elif b.value == 0:
                    st.notzero.add(frozenset(x for x in a.b if isinstance(x, tuple)))

    def copied(self, st, to, fr, n):
        """A block of memory is about to be copied; for subclasses that follow accesses."""

    def intrinsic(self, st, i, name, args):
        base = name.split(".")[1]
        if base == "eh" and name.endswith("typeid.for") or name.startswith("llvm.eh.typeid.for"):
            g = args[0].obj if isinstance(args[0], Ptr) else ("g", "?")
            return Sym(("tid", g[1] if isinstance(g, tuple) else g))
        if base in ("memcpy", "memmove"):
            n = args[2].value if isinstance(args[2], Int) else None
            if n is None or not isinstance(args[0], Ptr) or not isinstance(args[1], Ptr) or not isinstance(args[0].off, int) or not isinstance(args[1].off, int):
                self.havoc(st, args[0], name)
                return None
            self.copied(st, args[0], args[1], n)
            if n:
                nul = ("$nul", args[1].obj) in st.mem and st.mem.get(("$size", args[1].obj)) == args[1].off + n - 1
                self.bounds(st, args[1], n - nul, "read")
                self.bounds(st, args[0], n, "write")
                if nul:
                    st.mem[(args[1].obj, args[1].off + n - 1)] = ("b", (0,) * 8)
            src = []
            for k in range(n):
                kk = (args[1].obj, args[1].off + k)
                if kk not in st.mem:
                    st.mem[kk] = ("b", tuple(((args[1].obj, args[1].off + k), j) for j in range(8)))
                src.append(st.mem[kk])
            for k in range(n):
                st.mem[(args[0].obj, args[0].off + k)] = src[k]
            # abstract objects inside the range move along
            for kk in [kk for kk in st.mem if len(kk) == 3 and isinstance(kk[2], int) and isinstance(kk[0], str) and kk[0].startswith("$") and kk[1] == args[1].obj and args[1].off <= kk[2] < args[1].off + n]:
                st.mem[(kk[0], args[0].obj, args[0].off + kk[2] - args[1].off)] = st.mem[kk]
            return None
        if base == "memset":
            n = args[2].value
            v = args[1]
            if n is None:
                self.havoc(st, args[0], name)
                return None
            for k in range(n):
                self.store(st, Ptr(args[0].obj, args[0].off + k), v, 1)
            return None
        if base == "bswap":
            a = args[0]
            if isinstance(a, Int):
                out = []
                for k in range(a.w // 8 - 1, -1, -1):
                    out += list(a.b[8 * k:8 * k + 8])
                return Int(a.w, out)
        if base == "lifetime" and len(args) == 2 and isinstance(args[1], Ptr) and name.startswith("llvm.lifetime.start"):
            st.fresh += 1
            for k in [k for k in st.mem if k[0] == args[1].obj or (k[0] == "$heap" and k[1] == args[1].obj)]:
                del st.mem[k]
            return None
        if base == "fshl" and isinstance(args[2], Int) and args[2].value is not None:
            a, b, n = args
            w = a.w
            n = n.value % w
            cat = list(b.b) + list(a.b)
            return Int(w, cat[w - n:2 * w - n])
        if base in ("umax", "umin", "smax", "smin"):
            c = self.icmp(st, {"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}[base], args[0], args[1])
            if c.value is not None:
                return args[0] if c.value else args[1]
            return None
        if base == "expect":
            return args[0]
        if base == "is" and name.startswith("llvm.is.constant"):
            return Int.const(1, 0)
        if base == "assume":
            return None
        if base == "threadlocal":
            return args[0]      # one thread's view
        return None


def neg(bit):
    if bit[0] == "~":
        return bit[1]
    return ("~", bit)


def bit2(op, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and (x == ("~", y) or y == ("~", x)):
        return 0 if op == "and" else 1
    cx = x in (0, 1) and not isinstance(x, tuple) and x is not TOP
    cy = y in (0, 1) and not isinstance(y, tuple) and y is not TOP
    if op == "and":
        if (cx and x == 0) or (cy and y == 0):
            return 0
        if cx and x == 1:
            return y
        if cy and y == 1:
            return x
        return x if x == y else TOP
    if op == "or":
        if (cx and x == 1) or (cy and y == 1):
            return 1
        if cx and x == 0:
            return y
        if cy and y == 0:
            return x
        return x if x == y else TOP
    if x == y and x is not TOP and isinstance(x, tuple):
        return 0
    if cx and cy:
        return x ^ y
    if cx and x == 0:
        return y
    if cy and y == 0:
        return x
    if cx and x == 1 and isinstance(y, tuple):
        return neg(y)
    if cy and y == 1 and isinstance(x, tuple):
        return neg(x)
    return TOP


def tiname(m):
    """_ZTIN4arpc6errors3eofE -> arpc::errors::eof"""
    import re
    if not m:
        return "?"
    s = re.sub(r"^_ZT[ISV]", "", m)
    st = s.startswith("St")
    if s.startswith("N"):
        s = s[1:]
        if s.startswith("St"):
            st, s = True, s[2:]
    elif st:
        s = s[2:]
    out = ["std"] if st else []
    while True:
        k = re.match(r"(\d+)", s)
        if not k:
            break
        n = int(k.group(1))
        s = s[len(k.group(1)):]
        out.append(s[:n])
        s = s[n:]
    return "::".join(out) or m
