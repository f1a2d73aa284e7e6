"""Shared ground of the rules on the concurrent half: locks, condition
variables, heap objects, calls through stored functions, and the record of
which memory is touched with which locks held."""
import os
import re
import ir, absint, objs, errs
from absint import Int, Ptr, Sym, TOP, NULL, Throw, May, Agg, Nested
from packets import fn1

STUB = ("-I" + os.path.join(ir.VERIF, "stub"),)
POL = '''opt lite
keep ^std::(mutex|recursive_mutex|shared_mutex|timed_mutex)::
keep ^std::condition_variable
keep ^std::(__cxx11::)?(basic_string|to_string)
keep ^std::(__cxx11::)?operator[+]
keep ^std::(vector|deque|map|set|list|_Vector_base|_Deque_base|_Deque_iterator|_Rb_tree)
keep ^std::__cxx11::(list|_List_base)
keep ^std::(thread|this_thread)
keep ^std::chrono::_V2
keep ^std::(rethrow_exception|current_exception|terminate|lock)$
keep ^std::__exception_ptr::exception_ptr::_M_(addref|release)
keep ^__gnu_cxx::__(exchange_and_add|atomic_add)
keep ^arpc::throw_io_error
keep ^arpc::errors::
keep ^arpc::(detail::)?flat_(tree|map|set|multimap|multiset)::
inline ^arpc::
inline ^probe_
inline ^std::
inline ^fu2::
inline ^__gnu_cxx::
minline ^[^(]*(std|arpc|fu2|__gnu_cxx)::
entry .
'''
HELD = ("$held",)


class Interp(absint.Interp):
    """Records every access to the objects named in `watch` with the locks held."""
    virtuals = True
    watch = ()

    def note(self, st, p, size, rw, how):
        if isinstance(p, Ptr) and p.obj in self.watch and isinstance(p.off, int):
            self.acc.append((p.obj, p.off, size, rw, st.mem.get(HELD, frozenset()), how))

    def load(self, st, p, size, ty):
        if self.rec:
            self.note(st, p, size, "r", "read")
        return absint.Interp.load(self, st, p, size, ty)

    def store(self, st, p, v, size):
        if self.rec:
            self.note(st, p, size, "w", "written")
        return absint.Interp.store(self, st, p, v, size)

    def copied(self, st, to, fr, n):
        if self.rec:
            self.note(st, fr, n, "r", "read")
            self.note(st, to, n, "w", "written")

    rec = True


def held(st):
    return st.mem.get(HELD, frozenset())


def key(p):
    return (p.obj, p.off) if isinstance(p, Ptr) else p


def sync_model(ip, st, i, name, args):
    """Mutexes, condition variables, memory management, reference counts."""
    nm = re.sub(r" const$", "", name)
    m = re.match(r"std::(?:\w*mutex)::(lock|unlock|try_lock|lock_shared|unlock_shared)$", nm)
    if m or nm in ("arpc::mutex::lock", "arpc::mutex::unlock"):
        op, k, h = nm.split("::")[-1], key(args[0]), held(st)
        if "unlock" in op:
            if k not in h:
                st.events.append(("badunlock", k, i["i"]))
            st.mem[HELD] = h - {k}
            st.events.append(("unlock", k))
        else:
            for x in h:
                st.events.append(("order", x, k))
            if k in h:
                st.events.append(("relock", k, i["i"]))
            st.mem[HELD] = h | {k}
            st.events.append(("lock", k))
            if op == "try_lock":
                return True, Int.top(1)
        return True, None
    if re.match(r"std::(mutex|condition_variable)::~?(mutex|condition_variable)$", nm):
        st.events.append((nm.split("::")[-1], key(args[0])))
        return True, None
    m = re.match(r"std::condition_variable::(\w+)$", nm)
    if m:
        op = m.group(1)
        if op == "wait":
            # the lock object's first word is its mutex
            mu = ip.load(st, args[1], 8, "ptr")
            st.events.append(("wait", key(args[0]), key(mu), held(st)))
        else:
            st.events.append(("notify", key(args[0]), held(st), op))
        return True, None
    if name in ("operator new", "operator new[]") or i.get("mangled") in ("_Znwm", "_Znam"):
        st.fresh += 1
        p = Ptr(("new", st.fresh), 0)
        st.events.append(("new", p, args[0]))
        return True, p
    if i.get("mangled", "").startswith(("_ZdlPv", "_ZdaPv")):
        st.events.append(("delete", args[0]))
        if isinstance(args[0], Ptr) and isinstance(args[0].obj, tuple) and args[0].obj[0] == "new":
            if ("$gone", args[0].obj) in st.mem:
                st.events.append(("doublefree", args[0]))
            st.mem[("$gone", args[0].obj)] = True
        return True, None
    m = re.match(r"__gnu_cxx::__(exchange_and_add|atomic_add)(_dispatch|_single)?$", nm)
    if m:
        rec, ip.rec = ip.rec, False     # atomic: needs no lock
        v = ip.load(st, args[0], 4, "i32")
        d = args[1]
        n = ip.binop("add", v, d, 32) if isinstance(v, Int) and isinstance(d, Int) else Int.top(32)
        ip.store(st, args[0], n, 4)
        ip.rec = rec
        return True, (v if m.group(1) == "exchange_and_add" else None)
    return False, None


EXN = "$exn"


def exc_ptr_model(ip, st, i, name, args):
    nm = re.sub(r" const$", "", name)
    if nm.endswith("exception_ptr::_M_addref") or nm.endswith("exception_ptr::_M_release"):
        return True, None
    if nm == "std::rethrow_exception":
        p = ip.load(st, args[0], 8, "ptr")
        st.events.append(("rethrow", p))
        return True, Throw(p.obj[1].split(" ", 1)[1] if isinstance(p.obj, tuple) and p.obj[0] == "buf" and str(p.obj[1]).startswith("exception ") else "rethrown")
    if nm == "std::current_exception":
        ip.store(st, args[0], Ptr(("buf", "exception " + str(st.exc)), 0), 8)
        return True, None
    return False, None


def touch(ip, st, i, nm, args):
    """An opaque call on part of a watched object is an access to it."""
    const = nm.endswith(" const")
    a = args[1:] if i.get("sret") else args
    for k, x in enumerate(a):
        if isinstance(x, Ptr) and x.obj in ip.watch:
            ip.note(st, x, 1, "r" if const and k == 0 or k else "w", "used by " + nm)


def base_model(prog, extra=None, ignore=None):
    """extra(ip, st, i, name, args) -> (handled, value) comes first."""
    def mo(ip, st, i, name, args):
        if name.startswith("@"):
            f = prog.by_mangled.get(name[1:])
            if f is not None:
                return Nested(f, args)
            name = name[1:]
        nm = re.sub(r"\[abi:\w+\]", "", name)
        f = prog.by_mangled.get(i.get("mangled"))
        if f is not None and nm.startswith("std::condition_variable::"):
            return Nested(f, args)      # the forms that take a predicate
        for m in ((extra,) if extra else ()) + (sync_model, exc_ptr_model, objs.string_model, objs.exc_model):
            h, r = m(ip, st, i, nm, args)
            if h:
                return r
        if nm in ("std::terminate", "__clang_call_terminate"):
            st.events.append(("terminate",))
            return "end"
        f = prog.by_mangled.get(i.get("mangled"))
        if f is not None and not re.match(r"std::(vector|deque|map|set|list|__cxx11|thread)|arpc::(detail::)?flat_", nm):
            return Nested(f, args)
        touch(ip, st, i, nm, args)
        st.events.append(("call", nm, tuple(args)))
        return None if i.get("nounwind") else None
    return mo


def explore(prog, fn, init, extra=None, watch=(), cls=None, **kw):
    f = fn1(prog, fn) if isinstance(fn, str) else fn
    ip = (cls or Interp)(f, base_model(prog, extra), unwind=True, **kw)
    ip.strs, ip.guard, ip.watch, ip.acc, ip.bases = errs.STRS, 1, watch, [], prog.bases
    ip.run(init)
    return [(k, s) for k, s in ip.done if k != "unreachable"], ip


def locks_ok(rep, where, label, outs):
    """Typestate of every lock on every path: taken once, released by its holder, released at the end."""
    for k, st in outs:
        bad = [e for e in st.events if e[0] in ("relock", "badunlock")]
        left = held(st) if k in ("ret", "throw") else ()
        rep.check(not bad and not left, "locks:" + label, "locks are taken and released in turn", "%s: %s: %s" % (where, label, "takes a lock it already holds" if any(e[0] == "relock" for e in bad) else "releases a lock it does not hold" if bad else "ends (%s) holding %s" % (k, sorted(map(str, left)))))
        for e in st.events:
            if e[0] == "wait":
                rep.check(e[2] in e[3] and len(e[3]) >= 1, "wait:" + label, "waits with its lock held", "%s: %s waits on a condition without holding the lock it gives up" % (where, label))


def common(acc, skip=()):
    """Eraser's rule over all accesses: byte offset -> (written, locks held at every access, accesses)."""
    out = {}
    for obj, off, size, rw, h, how in acc:
        for k in range(off, off + size):
            w, l, ev = out.get((obj, k), (False, None, []))
            out[(obj, k)] = (w or rw == "w", h if l is None else l & h, ev + [(rw, h, how)])
    return out


DONE, IN, COUNT, STUCK = ("$hooked",), ("$inhook",), ("$points",), ("$blocked",)


def meanwhile(prog, fn, hook, init, extra, points=r"^$", own=(), limit=60, **kw):
    """Everything `hook` does, on another thread, at each point of `fn` (between
    mark(0) and mark(1)) where it is about to take a lock or call a function
    matching `points`. Yields (point, outcomes); `own`: memory each thread has
    its own copy of, as (address, size, fresh value)."""
    h = fn1(prog, hook)
    for at in range(limit):
        def mo(ip, st, i, name, args):
            nm = re.sub(r" const$", "", name)
            if (re.match(r"(std::\w*mutex|arpc::mutex)::lock$", nm) or re.match(points, nm)) and IN not in st.mem and DONE not in st.mem and STUCK not in st.mem:
                ms = [e[1] for e in st.events if e[0] == "mark"]
                if 0 in ms and 1 not in ms:
                    n = st.mem.get(COUNT, 0)
                    st.mem[COUNT] = n + 1
                    if n == at:
                        run(ip, st)
            return extra(ip, st, i, name, args)

        def run(ip, st):
            s = st.copy()
            mine = held(s)
            s.mem[HELD], s.mem[IN] = frozenset(), True
            rec, ip.rec = ip.rec, False
            saved = [ip.load(s, p, n, "ptr") for p, n, v in own]
            for p, n, v in own:
                ip.store(s, p, v, n)
            k0 = len(s.events)
            env = dict(st.env)
            res = ip.call(s, h, [])
            if len(res) != 1:
                raise ir.AnalysisError("%s has %d outcomes at point %d of %s" % (hook, len(res), at, fn))
            k, s = res[0]
            if k == "ret":
                s.events.pop()
            if any(e[0] == "lock" and e[1] in mine for e in s.events[k0:]) or k == "end":
                st.mem[STUCK] = True
                ip.rec = rec
                return
            for (p, n, v), x in zip(own, saved):
                ip.store(s, p, x, n)
            ip.rec = rec
            s.mem[HELD] = mine
            del s.mem[IN]
            s.mem[DONE] = k
            s.env = env
            st.__dict__.update(s.__dict__)
        outs, ip = explore(prog, fn, init, mo, **kw)
        if not any(DONE in s.mem or STUCK in s.mem for k, s in outs):
            return
        yield at, [(k, s) for k, s in outs if DONE in s.mem]
    raise ir.AnalysisError("%s: more than %d points" % (fn, limit))
