"""Flat containers: order abstraction.

Keys are symbols; the comparator given to the container is an opaque function
that the domain answers from a weak order over those symbols (one partition per
weak order).  std::vector and the <algorithm> code are inlined from the headers;
only std::sort is replaced by its contract, taken at its least favourable
(equal elements come out in any order: reversed)."""
import re, itertools
import ir, absint, par
from absint import Int, Ptr, Sym, TOP, NULL, Throw, Agg, tiname
from packets import fn1

FPOL = r'''opt lite
entry ^probe_
keep ^C::operator\(\)$
keep ^std::(sort|stable_sort|__throw_.*|terminate)$
keep ^operator (new|delete)
keep ^(sink|sinkn|sinkc|sinkb|mark)$
inline ^
'''

SRC = r'''
#include <cstddef>
#include <new>
#include <utility>
#include <initializer_list>
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
struct K { int v; K(int x) : v(x) {} K(const K&) = default; K& operator=(const K&) = default; K(K&& o) noexcept : v(o.v) { o.v = -77; } K& operator=(K&& o) noexcept { int x = o.v; o.v = -77; v = x; return *this; } };
struct V { int w; };
struct C { int id; explicit C(int i) : id(i) {} C() : id(-1) {} bool operator()(const K&, const K&) const; };
using P = std::pair<K, V>;
using FS = arpc::flat_set<K, C>;
using FMS = arpc::flat_multiset<K, C>;
using FM = arpc::flat_map<K, V, C>;
using FMM = arpc::flat_multimap<K, V, C>;
void sink(const void*);          // one element of the container, in order
void sinkn(std::ptrdiff_t);      // a position or a count
void sinkb(bool);
void sinkc(int);                 // identity of a comparator
void mark(int);
const K* anyk(); const P* anyp();
template <class E> const E& any();
template <> const K& any<K>() { return *anyk(); }
template <> const P& any<P>() { return *anyp(); }
template <class T, class It> void pos(const T& t, It it) { sinkn(it - t.begin()); }
template <class T, class R> void res(const T& t, const R& r) {
  if constexpr (std::is_same_v<R, std::pair<typename T::iterator, bool>>) { sinkb(r.second); pos(t, r.first); } else { sinkb(true); pos(t, r); }
}
inline const K& keyof(const K& k) { return k; }
inline const K& keyof(const P& p) { return p.first; }
template <class T> void out(const T& t) {
  mark(1); sinkn(t.size()); sinkb(t.empty());
  for (auto it = t.begin(); it != t.end(); ++it) sink(&*it);
  if (t.begin() != t.end()) (void)t.find(keyof(*t.begin()));
  sinkc(t.key_comp().id);
  auto vc = t.value_comp(); (void)vc(any<typename T::value_type>(), any<typename T::value_type>());
  mark(3);
}
struct A { const C& c; C& c2; };
template <class T> struct X : T { using T::T; };
#define TT(T, E) \
void probe_range_##T(const E* a, std::size_t n) { T t(a, a + n, C(7)); out(t); } \
void probe_rangedef_##T(const E* a, std::size_t n) { T t(a, a + n); out(t); } \
void probe_ilist3_##T(const E* a) { T t({a[0], a[1], a[2]}, C(7)); out(t); } \
void probe_ilist2_##T(const E* a) { T t({a[0], a[1]}, C(7)); out(t); } \
void probe_ilist1_##T(const E* a) { T t({a[0]}, C(7)); out(t); } \
void probe_ilistassign3_##T(const E* a) { T t(C(7)); t = {a[0], a[1], a[2]}; out(t); } \
void probe_ilistassign2_##T(const E* a) { T t(a, a + 2, C(7)); t = {a[0], a[1]}; out(t); } \
void probe_ilistassign1_##T(const E* a) { T t(a, a + 1, C(7)); t = {a[0]}; out(t); } \
void probe_comp_##T(const E* a, std::size_t n) { T t(C(7)); out(t); t.insert(a, a + n); out(t); } \
void probe_insc_##T(const E* a, std::size_t n, const E* e) { T t(a, a + n, C(7)); mark(0); res(t, t.insert(*e)); out(t); } \
void probe_insm_##T(const E* a, std::size_t n, E* e) { T t(a, a + n, C(7)); mark(0); res(t, t.insert(std::move(*e))); out(t); } \
void probe_hintc_##T(const E* a, std::size_t n, const E* e, std::size_t h) { T t(a, a + n, C(7)); mark(0); pos(t, t.insert(t.cbegin() + (h < t.size() ? h : t.size()), *e)); out(t); } \
void probe_hintm_##T(const E* a, std::size_t n, E* e, std::size_t h) { T t(a, a + n, C(7)); mark(0); pos(t, t.insert(t.cbegin() + (h < t.size() ? h : t.size()), std::move(*e))); out(t); } \
void probe_emplace_##T(const E* a, std::size_t n, const E* e) { T t(a, a + n, C(7)); mark(0); res(t, t.emplace(*e)); out(t); } \
void probe_emphint_##T(const E* a, std::size_t n, const E* e, std::size_t h) { T t(a, a + n, C(7)); mark(0); pos(t, t.emplace_hint(t.cbegin() + (h < t.size() ? h : t.size()), *e)); out(t); } \
void probe_insr_##T(const E* a, std::size_t n, const E* e, std::size_t m) { T t(a, a + n, C(7)); mark(0); t.insert(e, e + m); out(t); } \
void probe_insi_##T(const E* a, std::size_t n, const E* e) { T t(a, a + n, C(7)); mark(0); t.insert({e[0], e[1]}); out(t); } \
void probe_query_##T(const E* a, std::size_t n, const K* k) { T t(a, a + n, C(7)); const T& c = t; mark(0); pos(t, t.find(*k)); pos(t, c.find(*k)); sinkn(c.count(*k)); pos(t, t.lower_bound(*k)); pos(t, c.lower_bound(*k)); pos(t, t.upper_bound(*k)); pos(t, c.upper_bound(*k)); { auto r = t.equal_range(*k); pos(t, r.first); pos(t, r.second); } { auto r = c.equal_range(*k); pos(t, r.first); pos(t, r.second); } out(t); } \
void probe_erasek_##T(const E* a, std::size_t n, const K* k) { T t(a, a + n, C(7)); mark(0); sinkn(t.erase(*k)); out(t); } \
void probe_erasei_##T(const E* a, std::size_t n, std::size_t h) { T t(a, a + n, C(7)); if (h < t.size()) { mark(0); pos(t, t.erase(t.cbegin() + h)); out(t); } } \
void probe_eraser_##T(const E* a, std::size_t n, std::size_t h, std::size_t g) { T t(a, a + n, C(7)); if (h <= g && g <= t.size()) { mark(0); pos(t, t.erase(t.cbegin() + h, t.cbegin() + g)); out(t); } } \
void probe_clear_##T(const E* a, std::size_t n) { T t(a, a + n, C(7)); mark(0); t.clear(); out(t); } \
void probe_copy_##T(const E* a, std::size_t n) { T t(a, a + n, C(7)); mark(0); T u(t); out(u); out(t); } \
void probe_move_##T(const E* a, std::size_t n) { T t(a, a + n, C(7)); mark(0); T u(std::move(t)); out(u); } \
void probe_copya_##T(const E* a, std::size_t n) { T t(a, a + n, C(7)); mark(0); T u(t, t.get_allocator()); out(u); out(t); } \
void probe_movea_##T(const E* a, std::size_t n) { T t(a, a + n, C(7)); mark(0); T u(std::move(t), t.get_allocator()); out(u); } \
void probe_cassign_##T(const E* a, std::size_t n, const E* e, std::size_t m) { T t(a, a + n, C(7)); T u(e, e + m, C(8)); mark(0); u = t; out(u); out(t); } \
void probe_massign_##T(const E* a, std::size_t n, const E* e, std::size_t m) { T t(a, a + n, C(7)); T u(e, e + m, C(8)); mark(0); u = std::move(t); out(u); } \
void probe_sassign_##T(const E* a, std::size_t n) { T t(a, a + n, C(7)); mark(0); T& r = t; t = r; out(t); } \
void probe_swap_##T(const E* a, std::size_t n, const E* e, std::size_t m) { T t(a, a + n, C(7)); T u(e, e + m, C(8)); mark(0); u.swap(t); out(u); out(t); } \
void probe_copyins_##T(const E* a, std::size_t n, const E* e) { T t(a, a + n, C(7)); T u(t); mark(0); res(u, u.insert(*e)); out(u); out(t); }
TT(FS, K) TT(FMS, K) TT(FM, P) TT(FMM, P)
void probe_idxc(const P* a, std::size_t n, const K* k, const V* v) { FM t(a, a + n, C(7)); mark(0); V& r = t[*k]; out(t); r = *v; out(t); }
void probe_idxm(const P* a, std::size_t n, K* k, const V* v) { FM t(a, a + n, C(7)); mark(0); V& r = t[std::move(*k)]; out(t); r = *v; out(t); }
void probe_at(const P* a, std::size_t n, const K* k) { FM t(a, a + n, C(7)); mark(0); sinkn((P*)((char*)&t.at(*k) - sizeof(K)) - &*t.begin()); out(t); }
void probe_atc(const P* a, std::size_t n, const K* k) { const FM t(a, a + n, C(7)); mark(0); sinkn((P*)((char*)&t.at(*k) - sizeof(K)) - (P*)&*t.begin()); out(t); }
bool probe_cmp_set(const K* x, const K* y) { FS t(C(7)); return t.value_comp()(*x, *y); }
bool probe_cmp_map(const P* x, const P* y) { FM t(C(7)); return t.value_comp()(*x, *y); }
bool probe_cmp_mset(const K* x, const K* y) { FMS t(C(7)); return t.value_comp()(*x, *y); }
bool probe_cmp_mmap(const P* x, const P* y) { FMM t(C(7)); return t.value_comp()(*x, *y); }
bool probe_cmp_key(const K* x, const K* y) { FM t(C(7)); return t.key_comp()(*x, *y); }
'''


def key_at(ip, st, p):
    v = ip.load(st, p, 4, "i32")
    if isinstance(v, Int):
        b = v.b[0]
        if isinstance(b, tuple) and b[0] != "~" and all(x == (b[0], k) for k, x in enumerate(v.b[:8])):
            return b[0]
        if v.value is not None:
            return ("const", v.value)
    return None


def make_model(rank, esz):
    """rank: key token -> int"""
    def less(ip, st, i, ids, pa, pb):
        a, b = key_at(ip, st, pa), key_at(ip, st, pb)
        if a not in rank or b not in rank:
            st.events.append(("bad", "compares something that is not a key (%s, %s)" % (a, b), i["i"]))
            return Int.top(1)
        st.events.append(("cmp", ids, i["i"]))
        return Int.const(1, int(rank[a] < rank[b]))

    def model(ip, st, i, name, args):
        nm = re.sub(r" const$", "", name)
        if nm == "C::operator()":
            w = ip.load(st, args[0], 4, "i32")
            return less(ip, st, i, w.signed() if isinstance(w, Int) else None, args[1], args[2])
        if nm in ("operator new", "operator new[]"):
            st.fresh += 1
            o = ("new", st.fresh)
            if isinstance(args[0], Int) and args[0].value is not None:
                st.mem[("$size", o)] = args[0].value
            return Ptr(o, 0)
        if nm.startswith("operator delete"):
            return None
        if nm in ("memcpy", "memmove", "memset"):
            ip.intrinsic(st, i, "llvm." + nm, args)
            return args[0]
        if nm in ("sink",):
            p = args[0]
            st.events.append(("el", tuple(st.mem.get((p.obj, p.off + k)) or ("b", tuple(((p.obj, p.off + k), j) for j in range(8))) for k in range(esz)) if isinstance(p, Ptr) and isinstance(p.off, int) else None))
            return None
        if nm in ("anyk", "anyp"):
            return Ptr(("buf", "any"), 0)
        if nm in ("sinkn", "sinkb", "sinkc", "mark"):
            st.events.append((nm, args[0].signed() if isinstance(args[0], Int) and nm != "sinkb" else args[0].value if isinstance(args[0], Int) else None))
            return None
        if nm in ("std::sort", "std::stable_sort"):
            f, l, c = args[0], args[1], args[2] if len(args) > 2 else None
            if not (isinstance(f, Ptr) and isinstance(l, Ptr) and isinstance(f.off, int) and (f.obj == l.obj) and isinstance(l.off, int)):
                raise ir.AnalysisError("sort of an unknown range at %s" % ip.fn.where(i["i"]))
            n = (l.off - f.off) // esz
            rows = []
            for r in range(n):
                o = f.off + r * esz
                t = key_at(ip, st, Ptr(f.obj, o))
                if t not in rank:
                    st.events.append(("bad", "sorts something that is not a key (%s)" % (t,), i["i"]))
                    return None
                rows.append((rank[t], [st.mem.get((f.obj, o + k)) for k in range(esz)]))
            cv = c.value if isinstance(c, Int) else ip.load(st, c, 4, "i32").value if isinstance(c, Ptr) else None
            st.events.append(("cmp", None if cv is None else cv if cv < 1 << 31 else cv - (1 << 32), i["i"]))
            if nm == "std::sort":
                rows.reverse()
            rows.sort(key=lambda x: x[0])
            for r, (_, bs) in enumerate(rows):
                for k in range(esz):
                    st.mem[(f.obj, f.off + r * esz + k)] = bs[k]
            return None
        if nm == "__cxa_allocate_exception":
            st.fresh += 1
            return Ptr(("exc", st.fresh), 0)
        if nm == "__cxa_throw":
            g = args[1].obj if isinstance(args[1], Ptr) else ("g", "?")
            st.events.append(("throw", tiname(g[1] if isinstance(g, tuple) else g), i["i"]))
            return None
        if i.get("noreturn"):
            st.events.append(("throw", nm, i["i"]))
            return None
        if re.match(r"std::\w+::~?\w+$", nm) and args and isinstance(args[0], Ptr) and args[0].obj[0] == "exc" or nm.startswith("__cxa_"):
            return None
        raise ir.AnalysisError("call to %s is outside the model (%s)" % (nm, ip.fn.where(i["i"])))
    return model


def place(fn):
    """The container's operation the probe is about: file, line, function."""
    got = None
    for insts in fn.blocks:
        for i in insts:
            if i["op"] in ("call", "invoke") and (fn.callee(i) or "") == "mark":
                if i["ops"] and isinstance(i["ops"][0], dict) and i["ops"][0].get("c") == 0:
                    got = None
                elif got:
                    return got
            if got is None and "loc" in i:
                for c in reversed(fn.prog.locs[i["loc"]]):
                    if "/src/arpc/container" in c["f"] and c["s"]:
                        got = "%s:%s (%s)" % (c["f"][c["f"].index("src/arpc"):], c.get("l"), c["s"])
                        break
    return got or "src/arpc/container/detail/flat_tree.h"


def weak_orders(n):
    """Every weak order of n things, as rank vectors."""
    if n == 0:
        return [()]
    out = set()
    for v in itertools.product(range(n), repeat=n):
        m = {x: k for k, x in enumerate(sorted(set(v)))}
        out.add(tuple(m[x] for x in v))
    return sorted(out)


def bits(obj, off, n):
    return tuple(("b", tuple(((obj, off + k), j) for j in range(8))) for k in range(n))


A, B = ("buf", "a"), ("buf", "e")


class Ref:
    """What the container must hold, element tokens with their ranks."""

    def __init__(self, multi, els=()):
        self.multi = multi
        self.e = []
        for x in els:
            self.insert(x)

    def insert(self, x):
        if not self.multi:
            for y in self.e:
                if y[1] == x[1]:
                    return False
        k = 0
        while k < len(self.e) and self.e[k][1] <= x[1]:
            k += 1
        self.e.insert(k, x)
        return True


def split(events):
    """[(before first mark)...]: sections of sunk values; mark(1) opens a dump."""
    return events


def dumps(evs):
    """Sequence of ('v', kind, value) and ('dump', size, empty, [elements], c1, c2) after the last mark(0)."""
    k = 0
    for j, e in enumerate(evs):
        if e == ("mark", 0):
            k = j + 1
    out = []
    cur = None
    for e in evs[k:]:
        if e == ("mark", 1):
            cur = ["dump"]
            out.append(cur)
        elif e == ("mark", 3):
            cur = None
        elif e[0] == "cmp" and cur is not None:
            cur.append(e)
        elif e[0] in ("sinkn", "sinkb", "sinkc", "el"):
            (out if cur is None else cur).append(e)
    return out


def c16(rep, tier):
    prog = ir.extract([ir.compile_bc("flat.cpp", (), SRC)], FPOL)
    rep.require(100, "container operations analysed", len(prog.find("^probe_")))
    for f in prog.find("^probe_"):
        for i in f.calls():
            pass
    NMAX = 4 if tier == "thorough" else 3
    jobs = []
    for T, multi, esz in (("FS", False, 4), ("FMS", True, 4), ("FM", False, 8), ("FMM", True, 8)):
        for n in range(NMAX + 1):
            jobs.append((T, multi, esz, n))
    par.each(rep, lambda sub, it: one(sub, prog, *it), sorted(jobs, key=lambda j: -j[3]))
    compares(rep, prog)
    exposed(rep)


def compares(rep, prog):
    for nm in ("set", "map", "mset", "mmap", "key"):
        fn = fn1(prog, "probe_cmp_" + nm)
        for rk in weak_orders(2):
            rank = {(A, 0): rk[0], (B, 0): rk[1]}
            ip = absint.Interp(fn, make_model(rank, 8))

            def init(ip, st):
                st.env[("a", 0)] = Ptr(A, 0)
                st.env[("a", 1)] = Ptr(B, 0)
            for kindd, st in ip.run(init):
                r = [e[1] for e in st.events if e[0] == "ret"]
                ok = kindd == "ret" and r and isinstance(r[0], Int) and r[0].b[0] == int(rk[0] < rk[1]) and all(e[1] == 7 for e in st.events if e[0] == "cmp")
                rep.check(ok, "cmp:%s:%s" % (nm, rk), "answers as the comparator does",
                          "%s (%s) does not answer as the comparator given does for keys ordered %s: %s" % ("key_comp()" if nm == "key" else "value_comp()", nm, rk, r))


def one(sub, prog, T, multi, esz, n):
    def run(name, ranks, extra, args, thru=None):
        """ranks: n for a then the e/k ones."""
        rank = {}
        els = []
        for k in range(n):
            rank[(A, k * esz)] = ranks[k]
            els.append((k, ranks[k]))
        for k in range(extra):
            rank[(B, k * esz)] = ranks[n + k]
        rank[("buf", "any"), 0] = 0
        fn = fn1(prog, name)
        ip = absint.Interp(fn, make_model(rank, esz), max_visits=400)

        def init(ip, st):
            for k, v in enumerate(args):
                st.env[("a", k)] = v
        res = ip.run(init)
        return fn, res

    def tok(o, k):
        return bits(o, k * esz, esz)

    pa, pn = Ptr(A, 0), Int.const(64, n)
    pe = Ptr(B, 0)
    i64 = lambda x: Int.const(64, x)

    def sorted_ok(d, want, fn, key, what, comp, exact=True, lax=()):
        """d: a dump; want: list of (token, rank)."""
        vals = [e for e in d if e[0] == "el"]
        size = [e[1] for e in d if e[0] == "sinkn"]
        emp = [e[1] for e in d if e[0] == "sinkb"]
        cs = [e[1] for e in d if e[0] == "sinkc"]
        cs += [e[1] for e in d if e[0] == "cmp"]
        got = [v[1] for v in vals]
        wt = [t for t, _ in want]
        same = got == wt
        if not same and multi and len(got) == len(wt):
            # equal keys may come in any order
            rk = {t: r for t, r in want}
            if not exact:
                rk = {tok(A, k): r for k, r in enumerate(lax)}
            same = all(g in rk for g in got) and len(set(got)) == len(got) and (not exact or set(got) == set(wt)) and [rk[g] for g in got] == [r for _, r in want]
        ok = same and size == [len(wt)] and emp == [int(not wt)]
        sub.check(ok, key + ":content", "holds the right elements in order",
                  "%s: after %s the container (%s) holds %s, size %s, empty %s instead of %d elements in order" % (place(fn), what, T, show(got), size, emp, len(wt)))
        sub.check(len(cs) >= 2 and set(cs) == {comp}, key + ":comparator", "keeps its comparator",
                  "%s: after %s the container (%s) answers with comparator %s instead of the one given (%d)" % (place(fn), what, T, cs, comp))

    def show(got):
        out = []
        for g in got:
            try:
                b = g[0][1][0]
                out.append("%s[%d]" % ("ae"[b[0][0] == B], b[0][1] // esz) if isinstance(b, tuple) else "?")
            except Exception:
                out.append("?")
        return "(" + " ".join(out) + ")"

    def common(fn, res, key, comps=(7,), throws=()):
        good = []
        for kind, st in res:
            bad = [e for e in st.events if e[0] in ("bad", "oob")]
            ths = [e for e in st.events if e[0] == "throw"]
            wc = [e for e in st.events if e[0] == "cmp" and e[1] not in comps]
            sub.check(not bad, key + ":access", "touches only its elements", "%s: %s" % (fn.where(bad[0][-1]) if bad else "", bad[0][:5] if bad else ""))
            sub.check(not wc, key + ":cmp", "compares with the comparator given",
                      "%s: compares with comparator %s instead of the one given" % (fn.where(wc[0][2]) if wc else "", wc[0][1] if wc else ""))
            if kind == "ret":
                good.append(st)
            elif kind == "throw" and throws:
                good.append(st)
            else:
                sub.bad(key + ":exit", "%s ends with %s %s" % (place(fn), kind, ths))
        return good

    def vals(o):
        return [e for e in o if not isinstance(e, list)]

    def dmp(o):
        return [e for e in o if isinstance(e, list)]

    def nth(ds, k):
        return ds[k] if k < len(ds) else []

    def ref(ranks, comp=None):
        r = Ref(multi)
        for k in range(n):
            r.insert((tok(A, k), ranks[k]))
        return r

    def bref(ranks, m):
        r = Ref(multi)
        for k in range(m):
            r.insert((tok(B, k), ranks[n + k]))
        return r

    # construction and whole-container operations
    for rk in weak_orders(n):
        base = "%s:%d:%s" % (T, n, rk)
        r0 = ref(rk)
        whole = [("range", "construction from a range"), ("copy", "copying"), ("move", "moving"), ("copya", "copying with an allocator"),
                 ("movea", "moving with an allocator"), ("sassign", "self-assignment"), ("clear", "clear"), ("rangedef", "construction from a range")]
        if 1 <= n <= 3:
            whole += [("ilist%d" % n, "construction from an initializer list"), ("ilistassign%d" % n, "assignment of an initializer list")]
        for op, what in whole:
            fn, res = run("probe_%s_%s" % (op, T), rk, 0, [pa] if op.startswith("ilist") else [pa, pn])
            key = "%s:%s" % (op, base)
            comp = -1 if op == "rangedef" else 7
            for st in common(fn, res, key, (comp,)):
                ds = dmp(dumps(st.events))
                if not sub.check(len(ds) >= 1, key + ":dump", "", "%s: nothing to observe" % place(fn)):
                    continue
                for j, d in enumerate(ds):
                    sorted_ok(d, [] if op == "clear" else r0.e, fn, "%s:%d" % (key, j), what, comp)
        fn, res = run("probe_comp_" + T, rk, 0, [pa, pn])
        key = "comp:" + base
        for st in common(fn, res, key):
            ds = dmp(dumps(st.events))
            if sub.check(len(ds) == 2, key + ":dump", "", ""):
                sorted_ok(ds[0], [], fn, key + ":0", "construction", 7)
                sorted_ok(nth(ds, 1), r0.e, fn, key + ":1", "inserting a range", 7)
        for h in range(n + 1):
            # erasing by position
            if h < len(r0.e):
                fn, res = run("probe_erasei_" + T, rk, 0, [pa, pn, i64(h)])
                key = "erasei:%s:%d" % (base, h)
                for st in common(fn, res, key):
                    o = dumps(st.events)
                    sub.check(vals(o) == [("sinkn", h)], key + ":next", "gives the position after it", "%s: erase at %d gives position %s" % (place(fn), h, vals(o)))
                    sorted_ok(nth(dmp(o), 0), r0.e[:h] + r0.e[h + 1:], fn, key, "erasing position %d" % h, 7, False, rk)
            for g in range(h, len(r0.e) + 1):
                fn, res = run("probe_eraser_" + T, rk, 0, [pa, pn, i64(h), i64(g)])
                key = "eraser:%s:%d:%d" % (base, h, g)
                for st in common(fn, res, key):
                    o = dumps(st.events)
                    sub.check(vals(o) == [("sinkn", h)], key + ":next", "gives the position after it", "%s: erase gives position %s" % (place(fn), vals(o)))
                    sorted_ok(nth(dmp(o), 0), r0.e[:h] + r0.e[g:], fn, key, "erasing positions %d to %d" % (h, g), 7, False, rk)
        # two containers
    for m in (0, 1, 2):
        if n > 2:
            continue
        for rk in weak_orders(n + m):
            base = "%s:%d+%d:%s" % (T, n, m, rk)
            r0, r1 = ref(rk), bref(rk, m)
            for op, what in (("cassign", "copy assignment"), ("massign", "move assignment"), ("swap", "swap")):
                fn, res = run("probe_%s_%s" % (op, T), rk, m, [pa, pn, pe, i64(m)])
                key = "%s:%s" % (op, base)
                for st in common(fn, res, key, (7, 8)):
                    ds = dmp(dumps(st.events))
                    if not sub.check(len(ds) >= 1, key + ":dump", "", ""):
                        continue
                    sorted_ok(ds[0], r0.e, fn, key + ":to", what, 7)
                    if op == "cassign":
                        sorted_ok(nth(ds, 1), r0.e, fn, key + ":from", what, 7)
                    if op == "swap":
                        sorted_ok(nth(ds, 1), r1.e, fn, key + ":other", what, 8)
            if m:
                ops = [("insr", "inserting a range", [pa, pn, pe, i64(m)])]
                if m == 2:
                    ops.append(("insi", "inserting an initializer list", [pa, pn, pe]))
                for op, what, args in ops:
                    fn, res = run("probe_%s_%s" % (op, T), rk, m, args)
                    key = "%s:%s" % (op, base)
                    for st in common(fn, res, key):
                        r = ref(rk)
                        for k in range(m):
                            r.insert((tok(B, k), rk[n + k]))
                        sorted_ok(nth(dmp(dumps(st.events)), 0), r.e, fn, key, what, 7)
    # one element or key
    for rk in weak_orders(n + 1):
        base = "%s:%d:%s" % (T, n, rk)
        kr = rk[n]
        r0 = ref(rk)
        lo = sum(1 for e in r0.e if e[1] < kr)
        hi = sum(1 for e in r0.e if e[1] <= kr)
        fn, res = run("probe_query_" + T, rk, 1, [pa, pn, pe])
        key = "query:" + base
        for st in common(fn, res, key):
            o = dumps(st.events)
            v = [e[1] for e in vals(o)]
            found = lo if hi > lo else len(r0.e)
            want = [found, found, hi - lo, lo, lo, hi, hi, lo, hi, lo, hi]
            names = ["find", "find const", "count", "lower_bound", "lower_bound const", "upper_bound", "upper_bound const", "equal_range.first", "equal_range.second", "equal_range.first const", "equal_range.second const"]
            for k, nmm in enumerate(names):
                g = v[k] if k < len(v) else None
                okv = g == want[k] or (multi and nmm.startswith("find") and g is not None and lo <= g < hi)
                sub.check(okv, "%s:%s" % (key, nmm), "answers %d" % want[k], "%s: %s of a key (%s) in %s gives %s instead of %s" % (place(fn), nmm, T, base, g, want[k]))
            sorted_ok(nth(dmp(o), 0), r0.e, fn, key, "queries", 7)
        fn, res = run("probe_erasek_" + T, rk, 1, [pa, pn, pe])
        key = "erasek:" + base
        for st in common(fn, res, key):
            o = dumps(st.events)
            sub.check(vals(o) == [("sinkn", hi - lo)], key + ":count", "counts the erased", "%s: erase of a key returns %s instead of %d" % (place(fn), vals(o), hi - lo))
            sorted_ok(nth(dmp(o), 0), r0.e[:lo] + r0.e[hi:], fn, key, "erasing a key", 7)
        ins = [("insc", "insert", None), ("insm", "insert", None), ("emplace", "emplace", None), ("copyins", "insert into a copy", None)]
        for h in range(n + 1):
            ins += [("hintc", "insert with a hint", h), ("hintm", "insert with a hint", h), ("emphint", "emplace with a hint", h)]
        for op, what, h in ins:
            fn, res = run("probe_%s_%s" % (op, T), rk, 1, [pa, pn, pe] + ([i64(h)] if h is not None else []))
            key = "%s:%s:%s" % (op, base, h)
            r = ref(rk)
            new = r.insert((tok(B, 0), kr))
            for st in common(fn, res, key):
                o = dumps(st.events)
                v = vals(o)
                if h is None:
                    sub.check(v[:1] == [("sinkb", int(new))], key + ":new", "tells whether it inserted", "%s: %s of an element (%s) says inserted=%s, expected %s" % (place(fn), what, T, v[:1], new))
                    v = v[1:]
                p = v[0][1] if v else None
                els = [e[1] for e in nth(dmp(o), 0) if e[0] == "el"]
                if new:
                    okp = p is not None and 0 <= p < len(els) and els[p] == tok(B, 0)
                else:
                    okp = p == lo
                sub.check(okp, key + ":pos", "gives the element's position", "%s: %s gives position %s, which is not the element's" % (place(fn), what, p))
                sorted_ok(nth(dmp(o), 0), r.e, fn, key, what, 7)
                if op == "copyins":
                    sorted_ok(nth(dmp(o), 1), r0.e, fn, key + ":orig", what, 7)
        if T == "FM":
            zero = bits(B, 0, 4) + tuple(("b", (0,) * 8) for _ in range(4))
            for op in ("idxc", "idxm"):
                fn, res = run("probe_" + op, rk, 1, [pa, pn, pe, Ptr(("buf", "v"), 0)])
                key = "%s:%s" % (op, base)
                r = ref(rk)
                new = r.insert((zero, kr))
                r2 = ref(rk)
                vb = bits(("buf", "v"), 0, 4)
                if new:
                    r2.insert((bits(B, 0, 4) + vb, kr))
                else:
                    r2.e = [(t[:4] + vb, q) if q == kr else (t, q) for t, q in r2.e]
                for st in common(fn, res, key):
                    ds = dmp(dumps(st.events))
                    if sub.check(len(ds) == 2, key + ":dump", "", ""):
                        sorted_ok(ds[0], r.e, fn, key + ":made", "operator[]", 7)
                        sorted_ok(nth(ds, 1), r2.e, fn, key + ":assigned", "assigning through operator[]", 7)
            for op in ("at", "atc"):
                fn, res = run("probe_" + op, rk, 1, [pa, pn, pe])
                key = "%s:%s" % (op, base)
                for st in common(fn, res, key, throws=(1,)):
                    th = [e[1] for e in st.events if e[0] == "throw"]
                    o = dumps(st.events)
                    if hi > lo:
                        sub.check(not th and vals(o) == [("sinkn", lo)], key, "gives the value", "%s: at of a present key gives %s %s" % (place(fn), vals(o), th))
                    else:
                        sub.check(th == ["std::out_of_range"], key, "throws out_of_range", "%s: at of an absent key throws %s instead of out_of_range" % (place(fn), th))


WPRE = r'''
#include <type_traits>
#include <vector>
#include <memory>
#include <string>
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
struct K { int v; }; struct V { int w; };
struct C { bool operator()(const K&, const K&) const; };
using E1 = K; using E2 = std::pair<K, V>;
using FS = arpc::flat_set<K, C>; using FMS = arpc::flat_multiset<K, C>;
using FM = arpc::flat_map<K, V, C>; using FMM = arpc::flat_multimap<K, V, C>;
template <class...> using vt = void;
#define DET(NAME, EXPR) template <class T, class = void> struct has_##NAME : std::false_type {}; template <class T> struct has_##NAME<T, vt<decltype(EXPR)>> : std::true_type {};
#define DT std::declval<T&>()
#define DV std::declval<typename T::value_type>()
DET(push_back, DT.push_back(DV)) DET(emplace_back, DT.emplace_back(DV)) DET(pop_back, DT.pop_back()) DET(resize, DT.resize(3))
DET(assign, DT.assign(3, DV)) DET(assignr, DT.assign(DT.begin(), DT.end())) DET(insn, DT.insert(DT.begin(), std::size_t{3}, DV)) DET(swapv, DT.swap(std::declval<std::vector<typename T::value_type>&>()))
DET(index, DT[std::size_t{0}]) DET(front, DT.front()) DET(eraseif, DT.erase(DT.begin()))
struct MK { std::unique_ptr<int> p; };
'''


def exposed(rep):
    import witness
    claims = []
    for T, multi, ismap in (("FS", 0, 0), ("FMS", 1, 0), ("FM", 0, 1), ("FMM", 1, 1)):
        for m in ("push_back", "emplace_back", "pop_back", "resize", "assign", "assignr", "insn", "swapv", "index"):
            claims.append(("%s:%s" % (T, m), "!has_%s<%s>::value" % (m, T) if False else "has_%s<%s>::value == false" % (m, T), "that a %s cannot be changed behind its order's back through %s" % (T, m)))
        v = "std::vector<%s::value_type>" % T
        claims.append((T + ":slice", "!std::is_convertible_v<%s*, %s*> && !std::is_convertible_v<%s&, %s&>" % (T, v, T, v), "that a %s does not pass for its vector" % T))
        claims.append((T + ":value", "std::is_same_v<%s::value_type, %s> && std::is_same_v<%s::key_type, K>" % (T, "E2" if ismap else "E1", T), "the element type of a %s" % T))
        e = "std::declval<%s&>().insert(std::declval<%s::value_type>())" % (T, T)
        claims.append((T + ":insert", "std::is_same_v<decltype(%s), %s>" % (e, "%s::iterator" % T if multi else "std::pair<%s::iterator, bool>" % T), "what insert of a %s returns" % T))
        claims.append((T + ":regular", "std::is_copy_constructible_v<{0}> && std::is_move_constructible_v<{0}> && std::is_copy_assignable_v<{0}> && std::is_move_assignable_v<{0}> && std::is_default_constructible_v<{0}>".format(T), "that a %s can be copied, moved and assigned" % T))
    claims.append(("move-only", "{ arpc::flat_map<int, std::unique_ptr<int>> a; a[1] = nullptr; a.emplace(2, nullptr); arpc::flat_map<int, std::unique_ptr<int>> b(std::move(a)); a = std::move(b); a.swap(b); a.erase(1); }", "that maps to move-only values can be filled, moved and swapped"))
    for n, T, v in (("set", "arpc::flat_set<std::unique_ptr<int>>", "std::move(p)"), ("multiset", "arpc::flat_multiset<std::unique_ptr<int>>", "std::move(p)"),
                    ("map", "arpc::flat_map<int, std::unique_ptr<int>>", "std::make_pair(1, std::move(p))"), ("multimap", "arpc::flat_multimap<int, std::unique_ptr<int>>", "std::make_pair(1, std::move(p))")):
        claims.append(("moved:" + n, "{ std::unique_ptr<int> p; %s s; s.insert(%s); s.insert(s.end(), %s); s.emplace(%s); s.emplace_hint(s.end(), %s); }" % (T, v, v, v, v), "that a flat_%s takes elements that can only be moved" % n))
    claims.append(("moved:index", "{ std::unique_ptr<int> p; arpc::flat_map<std::unique_ptr<int>, int> m; m[std::move(p)] = 1; }", "that operator[] of a flat_map takes keys that can only be moved"))
    witness.decide(rep, "flat", WPRE, claims, "src/arpc/container/detail/flat_tree.h")
