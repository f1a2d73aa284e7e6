"""Normalised-IR front end of the rule engine.

Compiles probe translation units against /repo's *current* sources with clang
(front end only: -Xclang -disable-llvm-passes), lets engine/irx.cpp link them,
inline the repository's own functions (so helper extraction, statement
reordering and loop rewriting disappear) and dump the interesting functions, and
gives the rules a Python view of them: control flow with exception edges,
resolved callees and typed access paths for memory.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/bin/clang++" if os.path.exists("/usr/bin/clang++") else "clang++"
BASE_FLAGS = ["-std=c++17", "-fno-rtti", "-I" + os.path.join(REPO, "src"),
              "-I" + os.path.join(VERIF, "stub"), "-I" + os.path.join(VERIF, "probes")]


class AnalysisError(Exception):
    """The analysis could not be carried out (never a verdict)."""


class Splits(AnalysisError):
    """One fixed program with several outcomes: something in it decides on a value nothing determines."""


class Rejected(AnalysisError):
    """The front end rejects a program that uses the interface as documented:
    a definite verdict, since such a program has to be accepted."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tool():
    """Builds irx if it is missing or stale; returns its path."""
    src = os.path.join(VERIF, "engine", "irx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(VERIF, "build", "irx-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cfg = shutil.which("llvm-config-18") or shutil.which("llvm-config")
    cxx = run([cfg, "--cxxflags"]).stdout.split()
    ld = run([cfg, "--ldflags"]).stdout.split()
    tmp = out + ".%d" % os.getpid()
    r = run([CLANG] + cxx + ["-fno-rtti", "-O1", src, "-o", tmp] + ld + ["-lLLVM-18"])
    if r.returncode:
        raise AnalysisError("cannot build irx:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def compile_bc(src, flags=(), text=None):
    """Compiles one TU to bitcode; returns its path."""
    d = scratch()
    if text is not None:
        p = os.path.join(d, src)
        with open(p, "w") as f:
            f.write(text)
        src = p
    key = hashlib.sha256((src + repr(flags)).encode()).hexdigest()[:12]
    out = os.path.join(d, os.path.basename(src) + "." + key + ".bc")
    cmd = [CLANG] + BASE_FLAGS + list(flags) + ["-O1", "-Xclang", "-disable-llvm-passes", "-g",
           "-fstandalone-debug", "-emit-llvm", "-c", src, "-o", out, "-w"]
    r = run(cmd)
    if r.returncode:
        first = re.search(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", r.stderr, re.M)
        if first and "file not found" not in first.group(3):
            raise Rejected("a program that uses the interface is rejected: %s:%s: %s" % (first.group(1).replace(REPO + "/", "").replace(d + "/", ""), first.group(2), first.group(3)[:300]))
        raise AnalysisError("cannot compile %s:\n%s" % (src, r.stderr[:3000]))
    return out


def compile_all(items):
    """items: list of (src, flags, text-or-None)."""
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda it: compile_bc(*it), items))


def repo_src(name):
    return os.path.join(REPO, "src", "arpc", name)


def extract(bcs, policy):
    d = scratch()
    h = hashlib.sha256((policy + repr(bcs)).encode()).hexdigest()[:12]
    pol = os.path.join(d, "policy-" + h)
    out = os.path.join(d, "out-" + h + ".json")
    with open(pol, "w") as f:
        f.write(policy)
    r = run([tool(), out, pol] + list(bcs))
    if r.returncode:
        raise AnalysisError("irx failed: " + r.stderr[-3000:])
    with open(out) as f:
        return Program(json.load(f))


class Program:
    def __init__(self, j):
        self.types = j["types"]
        self.locs = j["locs"]
        self.consts = j.get("consts", {})
        self.inits = j.get("inits", {})   # variables this unit only loads
        self.vtables = j.get("vtables", {})
        # exception type -> everything it derives from, itself included
        direct = {k: [x["g"] for _, _, x in v if isinstance(x, dict) and str(x.get("g", "")).startswith("_ZTI")] for k, v in self.vtables.items() if k.startswith("_ZTI")}
        self.bases = {}
        for k in direct:
            seen, todo = [], [k]
            while todo:
                t = todo.pop()
                if t not in seen:
                    seen.append(t)
                    todo += direct.get(t, [])
            self.bases[k] = tuple(seen)
        self.functions = [Fn(self, f) for f in j["functions"]]
        self.by_name = {}
        self.by_mangled = {}
        for f in self.functions:
            self.by_name.setdefault(f.name, []).append(f)
            self.by_mangled[f.mangled] = f

    def find(self, regex, dem=None):
        r = re.compile(regex)
        out = [f for f in self.functions if r.search(f.name)]
        if dem:
            d = re.compile(dem)
            out = [f for f in out if d.search(f.dem)]
        return out

    def type(self, tid):
        if tid is None:
            return None
        if tid <= -2:
            tid = -2 - tid
        return self.types[tid] if tid >= 0 else None

    def vmethod(self, tid, slot):
        t = self.type(tid)
        while t is not None and t.get("fields") is not None:
            for v in t.get("virts", []):
                if v["i"] == slot and not v["n"].startswith("~"):
                    return t["name"], v["n"]
            for v in t.get("virts", []):
                if v["n"].startswith("~") and slot in (v["i"], v["i"] + 1):
                    return t["name"], v["n"]
            nxt = None
            for f in t["fields"]:
                if f["n"] == "<base>" and f["o"] == 0:
                    nxt = self.type(f["ty"])
                    break
            t = nxt
        return None

    def field_chain(self, tid, off):
        """All (name, type id, residual offset) reachable at byte offset `off`."""
        out = []
        t = self.type(tid)
        prefix = []
        while t is not None and t.get("fields") is not None:
            best = None
            for f in t["fields"]:
                sz = f["s"]
                if f["n"] == "<base>":
                    bt = self.type(f["ty"])
                    sz = bt["size"] if bt else 0
                    # empty bases share offset 0
                    if bt is not None and not bt.get("fields") and sz <= 1:
                        continue
                if f["o"] <= off and (off < f["o"] + max(sz, 1)):
                    # several empty members may share an offset: the last one with size wins
                    if best is None or f["s"] > 0:
                        if best is None or best["n"] == "<base>" or f["o"] >= best["o"]:
                            best = f
            if best is None:
                break
            if best["n"] != "<base>":
                prefix = prefix + [best["n"]]
            off = off - best["o"]
            out.append((".".join(prefix), best["ty"], off))
            t = self.type(best["ty"])
        return out


class Fn:
    def __init__(self, prog, j):
        self.prog = prog
        self.j = j
        self.name = j["name"]
        self.dem = j["dem"]
        self.mangled = j["mangled"]
        self.params = j["params"]
        self.blocks = j["blocks"]
        self.inst = {}
        self.block_of = {}
        self.pos = {}
        for b, insts in enumerate(self.blocks):
            for k, i in enumerate(insts):
                self.inst[i["i"]] = i
                self.block_of[i["i"]] = b
                self.pos[i["i"]] = k
        self.succ = [self._succs(b) for b in range(len(self.blocks))]
        self.pred = [[] for _ in self.blocks]
        for b, ss in enumerate(self.succ):
            for kind, s in ss:
                self.pred[s].append((kind, b))
        self._users = None
        self._stores = None
        self._dom = None
        self._lk = {}

    def __repr__(self):
        return "<Fn %s>" % self.dem[:120]

    def _succs(self, b):
        t = self.blocks[b][-1]
        op = t["op"]
        if op == "br":
            s = t["succ"]
            if len(s) == 2:
                # LLVM stores [true, false]
                return [(("T", t["ops"][0]), s[0]), (("F", t["ops"][0]), s[1])]
            return [(("J",), s[0])]
        if op == "switch":
            out = [(("S", t["ops"][0], v), s) for v, s in t["cases"]]
            out.append((("D", t["ops"][0], [v for v, _ in t["cases"]]), t["default"]))
            return out
        if op == "invoke":
            return [(("N",), t["normal"]), (("U",), t["unwind"])]
        return []

    # -- source positions ------------------------------------------------
    def loc(self, i):
        """Innermost repository source position of an instruction."""
        inst = i if isinstance(i, dict) else self.inst[i]
        chain = self.prog.locs[inst["loc"]] if "loc" in inst else []
        for c in chain:
            if "/src/arpc/" in c["f"] or c["f"].startswith("arpc/"):
                return "%s:%d" % (short_file(c["f"]), c["l"])
        if chain:
            return "%s:%d" % (short_file(chain[0]["f"]), chain[0]["l"])
        return "%s:%s" % (short_file(self.j.get("file", "?")), self.j.get("line", "?"))

    def where(self, i):
        inst = i if isinstance(i, dict) else self.inst[i]
        chain = self.prog.locs[inst["loc"]] if "loc" in inst else []
        scopes = []
        for c in chain:
            if "/src/arpc/" in c["f"] and c["s"] and c["s"] not in scopes:
                scopes.append(c["s"])
        return "%s (%s)" % (self.loc(inst), " <- ".join(scopes[:4]) or self.name)

    # -- def/use ------------------------------------------------------------
    @property
    def users(self):
        if self._users is None:
            u = {}
            for insts in self.blocks:
                for i in insts:
                    for o in i["ops"]:
                        for r in inst_refs(o):
                            u.setdefault(r, []).append(i["i"])
                    for o, _ in i.get("in", []):
                        for r in inst_refs(o):
                            u.setdefault(r, []).append(i["i"])
                    for o, _ in i.get("var", []):
                        for r in inst_refs(o):
                            u.setdefault(r, []).append(i["i"])
                    if "icallee" in i:
                        for r in inst_refs(i["icallee"]):
                            u.setdefault(r, []).append(i["i"])
            self._users = u
        return self._users

    def calls(self, regex=None):
        r = re.compile(regex) if regex else None
        for insts in self.blocks:
            for i in insts:
                if i["op"] in ("call", "invoke"):
                    c = i.get("callee")
                    if r is None or (c and r.search(c)):
                        yield i

    def insts(self):
        for insts in self.blocks:
            for i in insts:
                yield i

    def vcallee(self, i):
        """(class, method, object key) of a virtual call, from debug info."""
        if "icallee" not in i:
            return None
        k = self.key(i["icallee"])
        if k[0] != "ld":
            return None
        k = k[1]
        slot = 0
        if k[0] == "off":
            slot, k = k[2] // 8, k[1]
        if k[0] != "ld":
            return None
        obj = k[1]
        t = self.ktype(obj)
        v = self.prog.vmethod(t, slot)
        return (v[0], v[1], obj) if v else None

    def callee(self, i):
        """Qualified callee name; virtual calls as 'virtual Class::method'."""
        c = i.get("callee")
        if c is not None:
            return c
        v = self.vcallee(i)
        return "virtual %s::%s" % (v[0], v[1]) if v else None

    # -- dominators -----------------------------------------------------------
    @property
    def dom(self):
        if self._dom is None:
            n = len(self.blocks)
            allb = set(range(n))
            order = self.rpo()
            reach = set(order)
            dom = [set(allb) for _ in range(n)]
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == 0:
                        continue
                    ps = [p for _, p in self.pred[b] if p in reach]
                    nd = set.intersection(*[dom[p] for p in ps]) if ps else set()
                    nd = nd | {b}
                    if nd != dom[b]:
                        dom[b] = nd
                        ch = True
            self._dom = dom
        return self._dom

    def rpo(self):
        seen, out = set(), []
        stack = [(0, iter([s for _, s in self.succ[0]]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter([x for _, x in self.succ[s]])))
                    break
            else:
                out.append(b)
                stack.pop()
        return out[::-1]

    def dominates(self, a, b):
        ba, bb = self.block_of[a], self.block_of[b]
        if ba == bb:
            return self.pos[a] < self.pos[b]
        return ba in self.dom[bb]

    # -- memory locations -------------------------------------------------------
    def key(self, ref):
        """Identity of a value used as an address (or of an object pointer).

        ("arg", n) | ("alloca", id) | ("g", name) | ("off", key, n) |
        ("idx", key, varkeys, n) | ("ld", key) | ("call", id) | ("v", id) | const
        Loads are named by the location they read, whatever the time.
        """
        k = json.dumps(ref, sort_keys=True) if isinstance(ref, dict) else ref
        if k in self._lk:
            return self._lk[k]
        self._lk[k] = ("v", k)
        r = self._key(ref)
        self._lk[k] = r
        return r

    def _key(self, ref):
        if isinstance(ref, dict):
            if "a" in ref:
                return ("arg", ref["a"])
            if "c" in ref:
                return ("c", ref["c"])
            if "null" in ref:
                return ("null",)
            if "g" in ref:
                return ("g", ref["n"], ref["g"])
            if "cegep" in ref:
                return off(self.key(ref["cegep"]), ref["off"])
            return ("x", json.dumps(ref, sort_keys=True))
        i = self.inst[ref]
        op = i["op"]
        if op == "alloca":
            return ("alloca", ref)
        if op == "getelementptr":
            b = self.key(i["ops"][0])
            if "off" not in i:
                return ("v", ref)
            if i.get("var"):
                vs = tuple((self.key(v), s) for v, s in i["var"])
                return ("idx", b, vs, i["off"])
            return off(b, i["off"])
        if op == "load":
            return ("ld", self.key(i["ops"][0]))
        if op in ("call", "invoke"):
            return ("call", ref)
        if op in ("freeze", "bitcast"):
            return self.key(i["ops"][0])
        return ("v", ref)

    def ktype(self, key):
        """DI type id of the object an address key designates, if known."""
        if key[0] == "arg":
            p = self.params[key[1]]
            if "di" not in p:
                return None
            if p["di"] <= -2:
                return -2 - p["di"]
            t = self.prog.type(p["di"])
            if t and "base" in t and t["tag"] in PTR_TAGS:
                return t["base"]
            return None
        if key[0] == "alloca":
            return self.inst[key[1]].get("di")
        if key[0] == "off":
            ch = self.prog.field_chain(self.ktype(key[1]), key[2]) if self.ktype(key[1]) is not None else []
            ch = [c for c in ch if c[2] == 0]
            return ch[-1][1] if ch else None
        if key[0] == "ld":
            # pointer-typed location
            for nm, ty, res in reversed(self.leaf_chain(key[1])):
                t = self.prog.type(ty)
                if res == 0 and t and t["tag"] in PTR_TAGS:
                    return t["base"]
            return None
        return None

    def leaf_chain(self, key):
        if key[0] == "off":
            base, o = key[1], key[2]
        else:
            base, o = key, 0
        t = self.ktype_obj(base)
        if t is None:
            return []
        return [("", t, o)] + self.prog.field_chain(t, o)

    def ktype_obj(self, key):
        if key[0] == "off":
            return None
        return self.ktype(key)

    def names(self, key):
        """All access-path names of an address key, outermost first."""
        if key[0] == "arg":
            return ["P%d" % key[1]] if self.params[key[1]].get("n") != "this" else ["this"]
        if key[0] == "alloca":
            return ["local." + (self.inst[key[1]].get("var") or self.inst[key[1]].get("name") or str(key[1]))]
        if key[0] == "g":
            return ["global." + key[1]]
        if key[0] == "ld":
            out = []
            for n in self.names(key[1]):
                out.append(n + "->")
            return out
        if key[0] == "call":
            i = self.inst[key[1]]
            c = i.get("callee") or "?"
            args = [self.names(self.key(o)) for o in i["ops"][:3]]
            return ["%s(%s)" % (c, ", ".join(a[-1] if a else "?" for a in args))]
        if key[0] == "off" or key[0] in ("arg", "alloca"):
            pass
        if key[0] == "off":
            base = self.names(key[1])
            out = []
            t = self.ktype(key[1])
            ch = self.prog.field_chain(t, key[2]) if t is not None else []
            for nm, ty, res in ch:
                if nm:
                    for b in base[-1:]:
                        out.append(join(b, nm) + ("+%d" % res if res else ""))
            if not out:
                out = [b + "+%d" % key[2] for b in base[-1:]]
            return dedup(out)
        if key[0] == "idx":
            return [n + "[]" for n in self.names(key[1])]
        if key[0] == "c":
            return [str(key[1])]
        return [repr(key)]

    def first_names(self, key):
        """names(), plus the members at offset 0 of the designated object."""
        out = list(self.names(key))
        t = self.ktype(key)
        if t is not None and key[0] != "off":
            for nm, ty, res in self.prog.field_chain(t, 0):
                if res == 0 and nm:
                    out.append(join(self.names(key)[-1], nm))
        return dedup(out)

    def pretty(self):
        out = ["fn %s" % self.dem]
        for b, insts in enumerate(self.blocks):
            out.append(" B%d:  preds %s" % (b, [p for _, p in self.pred[b]]))
            for i in insts:
                out.append("   " + self.fmt(i))
        return "\n".join(out)

    def fmt(self, i):
        def r(o):
            if isinstance(o, dict):
                if "a" in o:
                    return "P%d" % o["a"]
                if "c" in o:
                    return str(o["c"])
                if "g" in o:
                    return "@" + o["n"] + (":" + repr(o["str"]) if "str" in o else "")
                if "null" in o:
                    return "null"
                return json.dumps(o)
            return "%" + str(o)
        s = "%%%d = %s " % (i["i"], i["op"])
        if "callee" in i:
            s += i["callee"]
        if "icallee" in i:
            s += "*" + r(i["icallee"])
        s += "(" + ", ".join(r(o) for o in i["ops"]) + ")"
        for k in ("pred", "off", "var", "in", "succ", "normal", "unwind", "at", "idx", "cases", "default"):
            if k in i:
                s += " %s=%s" % (k, i[k])
        if i["op"] in ("load", "store"):
            a = i["ops"][-1]
            s += "  {" + self.first_names(self.key(a))[-1] + "}"
        elif i["op"] in ("call", "invoke"):
            s += "  {" + "; ".join(self.names(self.key(o))[-1] for o in i["ops"][:4]) + "}"
        s += "   ; " + i["t"] + " " + self.loc(i).replace("src/arpc/", "")
        return s


PTR_TAGS = ("DW_TAG_pointer_type", "DW_TAG_reference_type", "DW_TAG_rvalue_reference_type")


def short_file(f):
    k = f.rfind("/src/arpc/")
    return f[k + 1:] if k >= 0 else f


def join(a, b):
    return a + b if a.endswith("->") else a + "." + b


def dedup(l):
    out = []
    for x in l:
        if x not in out:
            out.append(x)
    return out


def off(k, n):
    if n == 0:
        return k
    if k[0] == "off":
        return off(k[1], k[2] + n)
    return ("off", k, n)


def inst_refs(o):
    if isinstance(o, int) and not isinstance(o, bool):
        yield o
    elif isinstance(o, dict):
        for v in o.values():
            if isinstance(v, list):
                for x in v:
                    yield from inst_refs(x) if isinstance(x, dict) else ()
            elif isinstance(v, dict):
                yield from inst_refs(v)
