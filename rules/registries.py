"""Registries of dynamic classes: registration, lookup, hierarchy."""
import re
import ir, absint, objs, errs, asyncs
from absint import Int, Ptr, Sym, TOP, NULL, tiname, Agg
from packets import fn1

HIER = r'''
struct D0 : public arpc::dynamic<D0> { int a = 0; D0(); ARPC_FIELDS(a); };
struct D1 : public arpc::dynamic<D1> { char b = 0; D1(); ARPC_FIELDS(b); };
struct N1 { int q; };
struct D2 : public arpc::dynamic<D2, D0> { long c = 0; D2(); ARPC_FIELDS(c); };
struct D3 : public arpc::dynamic<D3, D2> { short d = 0; D3(); ARPC_FIELDS(d); };
struct X { virtual ~X(); int z; };
struct D4 : public X, public arpc::dynamic<D4> { unsigned e = 0; D4(); ARPC_FIELDS(e); };
struct D5 : public arpc::dynamic<D5, D0, D1> { int f; D5(); ARPC_FIELDS(f); };
struct N0 { int a; };
template <int N> struct fake { template <typename T> void operator()(const T&); };
template <int N> struct fake_in { template <typename T> void operator()(T&); };
using encs = arpc::mpt::pack<fake<0>, fake<1>, fake<2>>;
using decs = arpc::mpt::pack<fake_in<0>, fake_in<1>>;
'''
SRC = '#include "arpc/registry.cpp"\n#include "arpc/serializable.h"\nnamespace R = arpc::registry;\n' + HIER + r'''
#define PROBES(T) \
void probe_reg_##T(std::string_view n, std::string_view* out) { *out = R::dynamic_object_factory::get().register_class<T, encs, decs>(n); } \
void probe_sub_##T(std::string_view n) { R::dynamic_subclass_registry<T>::get().register_subclass(n); } \
bool probe_is_##T(std::string_view n) { return R::dynamic_subclass_registry<T>::get().is_subclass(n); } \
bool probe_compat_##T(arpc::dynamic_base_class* o) { return R::check_dynamic_compatibility<T>(o); } \
unsigned probe_hash_##T() { return arpc::traits::type_hash_v<T>; } \
const T* probe_cast_##T(const arpc::dynamic_base_class* o) { return static_cast<const T*>(o); }
PROBES(D0) PROBES(D1) PROBES(D2) PROBES(D3) PROBES(D4)
void probe_sub_D5(std::string_view n) { R::dynamic_subclass_registry<D5>::get().register_subclass(n); }
bool probe_compat_N0(void* o) { return R::check_dynamic_compatibility<N0>(o); }
R::type_id probe_id_N0() { return R::get_type_id<N0>(); }
R::type_id probe_id_int() { return R::get_type_id<int>(); }
R::type_id probe_id_D0() { return R::get_type_id<D0>(); }
void probe_factory(std::string_view n, R::dynamic_object_factory::info* o) { *o = R::dynamic_object_factory::get()[n]; }
void probe_enc(std::string_view n, R::dynamic_encoder_registry<fake<0>>::info* o) { *o = R::dynamic_encoder_registry<fake<0>>::get()[n]; }
void probe_dec(std::string_view n, R::dynamic_decoder_registry<fake_in<0>>::info* o) { *o = R::dynamic_decoder_registry<fake_in<0>>::get()[n]; }
void probe_addenc(std::string_view n) { R::dynamic_encoder_registry<fake<0>>::get().register_class<D2>(n); }
void probe_adddec(std::string_view n) { R::dynamic_decoder_registry<fake_in<0>>::get().register_class<D2>(n); }
'''

RPOL = errs.EPOL.replace("mentry register_error_class\n", "mentry register_(error_)?class\nkeep ^fake(_in)?::\nkeep ^D[0-9]::\nkeep ^arpc::dynamic_base_class::\nkeep ^dynamic_base_class::\n")


def regname(p, prog):
    return p.obj[1] if isinstance(p, Ptr) and isinstance(p.obj, tuple) else repr(p)


def c09(rep, tier):
    errs.STRS.clear()
    prog = ir.extract([ir.compile_bc("registry.cpp", (), SRC)], RPOL)
    sm, em = objs.string_model, objs.exc_model
    N = ("name",)
    seenf = {}

    def argsv(ip, st):
        st.env[("a", 0)] = objs.clen(N)
        st.env[("a", 1)] = objs.cdata(N)
        st.env[("a", 2)] = Ptr(("out", 0), 0)

    def insts(p):
        """The registry an operation works on, as the class template instance."""
        if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "g":
            m = re.match(r"_ZZN4arpc9singletonI(.*)E3getEvE8instance", p.obj[1])
            return (m.group(1) if m else p.obj[1])
        return repr(p)

    order = ("D0", "D1", "D2", "D3", "D4", "D5")
    bases = {"D0": [], "D1": [], "D2": ["D0"], "D3": ["D2"], "D4": [], "D5": ["D0", "D1"]}

    def closure(t):
        r = {t}
        for b in bases[t]:
            r |= closure(b)
        return r

    def sub_of(reg):
        m = re.search(r"dynamic_subclass_registryI(.*?)E*$", reg)
        if not m:
            return None
        x = m.group(1)
        x = re.sub(r"^\d+", "", x)
        return "dynamic_base_class" if "dynamic_base_class" in m.group(1) or "18dynamic" in m.group(1) or m.group(1).startswith("NS") else x.rstrip("E")

    for T in order:
        # hierarchy
        fn = fn1(prog, "probe_sub_" + T)
        ip, outs = errs.go(fn, errs.chain(errs.map_model(False), sm, em), argsv)
        want = closure(T)
        for k, st in outs:
            got = {}
            for e in st.events:
                if e[0] == "emplace":
                    s = sub_of(insts(e[3]))
                    got.setdefault(s, []).append(e[2][0])
            gs = {s for s in got if s in order}
            rep.check(k == "ret" and gs == want and all(set(v) == {N} for v in got.values()), "hierarchy:" + T,
                      "%s is recorded as a subclass of %s" % (T, sorted(want)),
                      "registering %s records it as a subclass of %s under %s, expected %s; %s" % (T, sorted(map(str, got)), {tuple(map(str, v)) for v in got.values()}, sorted(want), fn.name))
        if not outs:
            rep.bad("hierarchy:" + T, "register_subclass never completes")
        if T == "D5":
            continue
        # is_subclass, compatibility
        for pn in ("probe_is_", "probe_compat_"):
            fn = fn1(prog, pn + T)
            for present, greater in ((False, False), (False, True), (True, False), (True, True)):
                def nm(ip, st, i, n, a):
                    if n.endswith("dynamic_base_class::portable_class_name"):
                        st.events.append(("pcn", a[0]))
                        return True, Agg({0: objs.clen(N), 1: objs.cdata(N)})
                    return False, None

                def su(ip, st):
                    if pn == "probe_is_":
                        argsv(ip, st)
                    else:
                        st.env[("a", 0)] = Ptr(("buf", "obj"), 0)
                ip, outs = errs.go(fn, errs.chain(nm, errs.map_model(present, greater), sm, em), su)
                for k, st in outs:
                    r = [e for e in st.events if e[0] == "ret"]
                    v = r[-1][1] if r else None
                    lk = [e for e in st.events if e[0] == "lookup"]
                    ok = k == "ret" and isinstance(v, Int) and v.value == int(present) and lk and all(e[2] == N and sub_of(insts(e[3])) == T for e in lk)
                    if pn == "probe_compat_":
                        ok = ok and all(e[1] == Ptr(("buf", "obj"), 0) for e in st.events if e[0] == "pcn")
                    rep.check(ok, "%s%s:%d%d" % (pn[6:], T, present, greater), "answers whether the class name is recorded under %s" % T,
                              "%s for a class that %s a subclass of %s (with%s a name after it) answers %s (looked up %s)" % (fn.name, "is" if present else "is not", T, "" if greater else "out", v if k == "ret" else errs.thrown(st), [(e[2], sub_of(insts(e[3]))) for e in lk]))
                if not outs:
                    rep.bad(pn + T, "never completes")
        # full registration
        fn = fn1(prog, "probe_reg_" + T)
        hv = fn1(prog, "probe_hash_" + T)
        ip, outs = errs.go(hv, errs.chain(sm, em), lambda ip, st: None)
        thash = [e for e in outs[0][1].events if e[0] == "ret"][0][1]
        if thash.value is None:
            # the hash is a run-time initialised constant: compare by origin
            pass
        ip, outs = errs.go(fn, errs.chain(errs.map_model(False), sm, em), argsv)
        for k, st in outs:
            if k != "ret":
                # registries that answer "new" everywhere never fail
                rep.bad("register:" + T, "registering a new class ends with %s; %s" % (errs.thrown(st)[0] or k, fn.name))
                continue
            ev = [e for e in st.events if e[0] == "emplace"]
            fac = [e for e in ev if "dynamic_object_factory" in insts(e[3])]
            enc = [e for e in ev if "dynamic_encoder_registry" in insts(e[3])]
            dec = [e for e in ev if "dynamic_decoder_registry" in insts(e[3])]
            sub = {sub_of(insts(e[3])) for e in ev if "dynamic_subclass_registry" in insts(e[3])}
            rep.check(all(e[2][0] == N for e in ev), "name:" + T, "every registry gets the given name", "registering %s files it under %s; %s" % (T, {str(e[2][0]) for e in ev}, fn.name))
            rep.check(objs.load_sv(ip, st, Ptr(("out", 0), 0)) == N, "ret:" + T, "the name is returned", "register_class returns another name than it was given; %s" % fn.name)
            rep.check(sub & set(order) == want, "subclasses:" + T, "recorded as a subclass of %s" % sorted(want), "register_class records %s as a subclass of %s only; %s" % (T, sorted(map(str, sub)), fn.name))
            rep.check(sorted(insts(e[3]) for e in enc) == sorted(set(insts(e[3]) for e in enc)) and len(enc) == 3, "encoders:" + T, "one entry per encoder", "%d encoder entries over %d encoders (3 configured)" % (len(enc), len({insts(e[3]) for e in enc})))
            rep.check(len(dec) == 2 and len({insts(e[3]) for e in dec}) == 2, "decoders:" + T, "one entry per decoder", "%d decoder entries over %d decoders (2 configured)" % (len(dec), len({insts(e[3]) for e in dec})))
            if not rep.check(len(fac) == 1, "factory:" + T, "one factory entry", "%d factory entries" % len(fac)):
                continue
            e = fac[0]
            p = [v[1] for v in e[2] if isinstance(v, tuple) and len(v) == 2 and v[0] == "obj"]
            base = p[0] if p else None
            h = ip.load(st, Ptr(base.obj, base.off + 8), 4, "i32") if base is not None else None
            rep.check(h == thash, "hash:" + T, "type hash of the class", "the factory entry of %s carries the type hash %s, that of the class is %s; %s" % (T, h, thash, fn.name))
            g = prog.by_mangled.get(e[2][1].obj[1]) if isinstance(e[2][1], Ptr) and isinstance(e[2][1].obj, tuple) and e[2][1].obj[0] == "g" else None
            if g is None:
                raise ir.AnalysisError("the factory function of %s is unknown" % T)

            def ctor(ip, st, i, n, a):
                m = re.match(r"^(?:\w+::)*(D\d)::(D\d)$", n)
                if m:
                    st.events.append(("ctor", m.group(1), a[0]))
                    return True, None
                return False, None
            ip2, o2 = errs.go(g, errs.chain(ctor, sm, em), lambda ip, st: None)
            good = bool(o2)
            for k2, s2 in o2:
                r = [x for x in s2.events if x[0] == "ret"]
                cs = [x for x in s2.events if x[0] == "ctor"]
                v = r[-1][1] if r else None
                good = good and k2 == "ret" and [c[1] for c in cs] == [T] and isinstance(v, Ptr) and v.obj == cs[0][2].obj and v.obj[0] == "new"
                if good:
                    seenf[T] = v.off
            rep.check(good, "make:" + T, "returns a new %s" % T, "the factory function registered for %s does not return one new %s; %s" % (T, T, g.name))
            cfn = fn1(prog, "probe_cast_" + T)
            ipc, oc = errs.go(cfn, errs.chain(sm, em), lambda ip, st: st.env.__setitem__(("a", 0), Ptr(("buf", "obj"), 64)))
            cast = {[x for x in s.events if x[0] == "ret"][0][1] for k, s in oc if k == "ret"}
            cast = {c for c in cast if isinstance(c, Ptr) and c.obj == ("buf", "obj")}
            if len(cast) == 1 and good:
                rep.check(next(iter(cast)).off == 64 - seenf[T], "upcast:" + T, "as a dynamic_base_class", "the factory function of %s returns the object at offset %s of its dynamic_base_class part" % (T, seenf[T]))
            for kind, es in (("encoder", enc), ("decoder", dec)):
                for e in es:
                    f = e[2][1]
                    g = prog.by_mangled.get(f.obj[1]) if isinstance(f, Ptr) and isinstance(f.obj, tuple) and f.obj[0] == "g" else None
                    if g is None:
                        raise ir.AnalysisError("the %s function of %s is unknown" % (kind, T))
                    which = re.search(r"I4fakeILi(\d)|I7fake_inILi(\d)", insts(e[3]))
                    which = next(x for x in which.groups() if x)

                    def call(ip, st, i, n, a):
                        if re.match(r"^fake(_in)?::operator\(\)$", n):
                            st.events.append(("code", i.get("dem", ""), a[0], a[1]))
                            return True, None
                        return False, None

                    def su(ip, st):
                        st.env[("a", 0)] = Ptr(("buf", "coder"), 0)
                        st.env[("a", 1)] = Ptr(("buf", "obj"), 64)
                    ip3, o3 = errs.go(g, errs.chain(call, sm, em), su)
                    ok = bool(o3)
                    for k3, s3 in o3:
                        cs = [x for x in s3.events if x[0] == "code"]
                        ok = ok and k3 == "ret" and len(cs) == 1 and cs[0][2] == Ptr(("buf", "coder"), 0) and cs[0][3] in cast and \
                            re.search(r"operator\(\)<%s>" % T, cs[0][1]) and re.search(r"fake(_in)?<%s>" % which, cs[0][1])
                    rep.check(bool(ok), "%s:%s:%s" % (kind, T, which), "codes the object as a %s" % T, "the %s function registered for %s does not code it once as a %s; %s" % (kind, T, T, g.name))
        if not outs:
            rep.bad("register:" + T, "register_class never completes")
        # duplicates
        for bad in ("dynamic_object_factory", "dynamic_encoder_registry", "dynamic_decoder_registry"):
            yes, no = errs.map_model(True), errs.map_model(False)

            def mm(ip, st, i, n, a):
                at = a[1] if i.get("sret") else a[0] if a else None
                return (yes if isinstance(at, Ptr) and bad in insts(at) else no)(ip, st, i, n, a)
            ip, outs = errs.go(fn, errs.chain(mm, sm, em), argsv)
            for k, st in outs:
                rep.check(k != "ret" and errs.thrown(st)[0] == "arpc::errors::invalid_state" and not any(e[0] == "overwrite" for e in st.events), "dup:%s:%s" % (T, bad), "invalid_state, the first entry stays",
                          "registering a second class under a name taken in %s ends with %s instead of throwing invalid_state; %s" % (bad, errs.thrown(st)[0] or k, fn.name))
            if not outs:
                rep.bad("dup:" + T, "never completes")
    # lookups
    for pn, size, reg in (("probe_factory", 12, "dynamic_object_factory"), ("probe_enc", 8, "dynamic_encoder_registry"), ("probe_dec", 8, "dynamic_decoder_registry")):
        fn = fn1(prog, pn)
        for present, greater in ((False, False), (False, True), (True, False)):
            ip, outs = errs.go(fn, errs.chain(errs.map_model(present, greater), sm, em), argsv)
            for k, st in outs:
                lk = [e for e in st.events if e[0] == "lookup"]
                okl = lk and all(e[2] == N and reg in insts(e[3]) for e in lk) and not any(e[0] in ("emplace", "overwrite") for e in st.events)
                if present:
                    v = ip.load(st, Ptr(("out", 0), 0), 8, "ptr")
                    ok = k == "ret" and okl and v == Ptr(("ld", ("iter", "elem"), 16), 0)
                    if size == 12:
                        h = ip.load(st, Ptr(("out", 0), 8), 4, "i32")
                        ok = ok and isinstance(h, Int) and h.b == Int(32, [((("iter", "elem"), 24 + j), b) for j in range(4) for b in range(8)]).b
                    rep.check(ok, "lookup:%s:known" % pn, "the entry registered under the name", "looking up a registered name in %s gives %s (%s); %s" % (reg, v, errs.thrown(st)[0] or k, fn.name))
                else:
                    rep.check(k != "ret" and okl and errs.thrown(st)[0] == "arpc::errors::not_found", "lookup:%s:unknown" % pn, "not_found", "looking up an unknown name in %s ends with %s instead of throwing not_found; %s" % (reg, errs.thrown(st)[0] or k, fn.name))
            if not outs:
                rep.bad("lookup:" + pn, "never completes")
    for pn in ("probe_addenc", "probe_adddec"):
        fn = fn1(prog, pn)
        for present in (False, True):
            ip, outs = errs.go(fn, errs.chain(errs.map_model(present), sm, em), argsv)
            for k, st in outs:
                if present:
                    rep.check(k != "ret" and errs.thrown(st)[0] == "arpc::errors::invalid_state", "add:%s:dup" % pn, "invalid_state", "a duplicate registration ends with %s; %s" % (errs.thrown(st)[0] or k, fn.name))
                else:
                    rep.check(k == "ret" and len([e for e in st.events if e[0] == "emplace"]) == 1, "add:%s:new" % pn, "recorded", "a new registration ends with %s; %s" % (errs.thrown(st)[0] or k, fn.name))
    # non-dynamic types
    vals = {}
    for pn in ("probe_id_N0", "probe_id_int", "probe_id_D0", "probe_compat_N0"):
        ip, outs = errs.go(fn1(prog, pn), errs.chain(sm, em), lambda ip, st: None)
        vs = {repr([e for e in st.events if e[0] == "ret"][-1][1]) for k, st in outs if k == "ret"}
        vals[pn] = vs.pop() if len(vs) == 1 else None
    rep.check(vals["probe_compat_N0"] == repr(Int.const(1, 1)), "compat:N0", "always compatible", "check_dynamic_compatibility of a non-dynamic type answers %s" % vals["probe_compat_N0"])
    rep.check(vals["probe_id_D0"] == repr(NULL), "id:dynamic", "null", "the type id of a dynamic class is %s, expected null" % vals["probe_id_D0"])
    rep.check(None not in vals.values() and vals["probe_id_N0"] != vals["probe_id_int"] and repr(NULL) not in (vals["probe_id_N0"], vals["probe_id_int"]), "id:distinct", "distinct addresses",
              "two non-dynamic types share the type id %s" % vals["probe_id_N0"])
    declared(rep)


MSRC = r'''
#include <new>
#include <type_traits>
#include <memory>
#include "arpc/dynamic_base_class.cpp"
#include "arpc/serializable.h"
struct G1 : public arpc::dynamic<G1> { int a = 0; ARPC_FIELDS(a); };
namespace gns { struct G2 : public arpc::dynamic<G2, G1> { int b = 0; ARPC_FIELDS(b); }; struct G5 : public arpc::dynamic<G5> { ARPC_FIELDS(); }; }
template <typename A, typename B> struct G3 : public arpc::dynamic<G3<A, B>> { ARPC_OWN_TYPE(G3); int c = 0; ARPC_FIELDS(c); };
struct G4 : public arpc::dynamic<G4> { int d = 0; ARPC_FIELDS(d); };
template <typename A, typename B> struct G6 : public arpc::dynamic<G6<A, B>> { ARPC_OWN_TYPE(G6); int c = 0; ARPC_FIELDS(c); };
ARPC_REGISTER(G1);
ARPC_REGISTER(gns::G2);
ARPC_REGISTER(G3<int, char>);
ARPC_REGISTER_WITH_NAME("four", G4);
ARPC_REGISTER_WITH_NAME("a longer name", gns::G5);
ARPC_REGISTER_WITH_NAME("six", G6<int, char>);
using T0 = G1; using T1 = gns::G2; using T2 = G3<int, char>; using T3 = G4; using T4 = gns::G5; using T5 = G6<int, char>;
'''
MNAMES = ["G1", "gns::G2", "G3<int, char>", "four", "a longer name", "six"]
MPROBES = "template <typename T> void want_codec();\nvoid probe_codecs() { want_codec<arpc::big_endian_binary_encoder>(); want_codec<arpc::little_endian_binary_encoder>(); want_codec<arpc::big_endian_binary_decoder>(); want_codec<arpc::little_endian_binary_decoder>(); }\n" + "".join("std::string_view probe_name_%d() { return arpc::portable_class_name<T%d>(); }\nvoid probe_own_%d(std::string_view* r) { T%d x; *r = static_cast<arpc::dynamic_base_class&>(x).portable_class_name(); }\nvoid probe_kill_%d(arpc::dynamic_base_class* p) { delete p; }\n" % ((k,) * 5) for k in range(6))
MPRE = MSRC + r'''
template <typename P, typename... Ts> struct holds;
template <typename... As, typename... Ts> struct holds<arpc::mpt::pack<As...>, Ts...> { template <typename T> static constexpr bool one = (std::is_same_v<As, T> || ...); static constexpr bool value = (one<Ts> && ...); };
'''


def declared(rep):
    """What the registration macros do before main, and what the objects then say they are."""
    import witness
    S = "src/arpc/serializable.h"
    prog = ir.extract([ir.compile_bc("regmacros.cpp", (), MSRC + MPROBES)], RPOL.replace("mentry register_(error_)?class\n", "keep ^arpc::registry::dynamic_object_factory::(register_class|get)$\n").replace("keep ^arpc::dynamic_base_class::\n", "").replace("keep ^dynamic_base_class::\n", "").replace("inline ^arpc::\n", "inline ^(G[0-9]|gns)\ninline ^arpc::\n", 1) + "mentry portable_class_name_internal\n")
    regs, glob = [], {}

    def reg(ip, st, i, name, args):
        if name.endswith("dynamic_object_factory::get") or name.endswith("singleton::get"):
            return True, Ptr(("factory", 0), 0)
        if re.search(r"dynamic_object_factory::register_class$", name):
            st.events.append(("registered", i.get("mangled"), i.get("dem", ""), objs.sv_tok(ip, args[1], args[2])))
            return True, absint.Agg({0: args[1], 1: args[2]})
        return False, None
    mods = errs.chain(reg, errs.map_model(False), objs.string_model, objs.exc_model)
    codecs = []

    def named(ip, st, i, name, args):
        if name == "want_codec":
            codecs.append(re.search(r"want_codec<(.*)>\(\)", i.get("dem", "")).group(1))
            return True, None
        return False, None
    errs.go(fn1(prog, "probe_codecs"), errs.chain(named), lambda ip, st: None)
    rep.require(4, "codecs", len(set(codecs)))
    for f in prog.functions:
        if f.name.startswith("__cxx_global_var_init"):
            ip, outs = errs.go(f, mods, lambda ip, st: None, guard=0)
            for k, st in outs:
                es = [e for e in st.events if e[0] == "registered"]
                regs += es
                if k == "ret":
                    for kk, v in st.mem.items():
                        if isinstance(kk[0], tuple) and kk[0][0] == "g" and not kk[0][1].startswith("_ZGV"):
                            glob[kk] = v
    got = sorted(e[3][1] if e[3] and e[3][0] == "lit" else str(e[3]) for e in regs)
    rep.check(got == sorted(MNAMES), "macro:names", "each class once, under the name written or given", "%s: the registration macros register %s, should be %s" % (S, got, sorted(MNAMES)))
    cls = ["G1", "gns::G2", "G3<int, char>", "G4", "gns::G5", "G6<int, char>"]
    for n, (want, c) in enumerate(zip(MNAMES, cls)):
        e = [e for e in regs if e[3] == ("lit", want)]
        d = e[0][2] if len(e) == 1 else ""
        rep.check("register_class<" + c + ", " in d, "macro:class:" + want, "the class registered", "%s: the name '%s' is registered for %s, should be for %s" % (S, want, re.sub(r".*register_class<", "", d)[:60] or "nothing", c))
        left = [w for w in codecs if w not in d]
        rep.check(not left, "macro:codecs:" + want, "for every codec", "%s: %s is registered without %s" % (S, c, left))
        for how, fn in (("portable_class_name<T>()", "probe_name_%d"), ("portable_class_name() of the object", "probe_own_%d")):
            f = fn1(prog, fn % n)
            outs, ip = asyncs.explore(prog, f, lambda ip, st: (st.mem.update(glob), st.env.__setitem__(("a", 0), Ptr(("out", 0), 0))), reg)
            toks = set()
            for k, st in outs:
                r = [e for e in st.events if e[0] == "ret"]
                v = r[-1][1] if r else None
                toks.add(objs.sv_tok(ip, v.f[0], v.f[1]) if isinstance(v, absint.Agg) else objs.load_sv(ip, st, Ptr(("out", 0), 0)) if k == "ret" else (k, k))
            rep.check(toks == {("lit", want)}, "macro:%s:%s" % (fn[:-3], want), "the name it is registered under", "%s: %s for %s is %s, should be '%s'" % (S, how, c, sorted(map(str, toks)), want))
    rep.require(6, "registrations", len(regs))
    enc = ["arpc::big_endian_binary_encoder", "arpc::little_endian_binary_encoder"]
    witness.decide(rep, "registered", MPRE, [
        ("config:encoders", "holds<arpc::config::all_encoders, %s>::value" % ", ".join(enc), "that registered classes can be encoded in both byte orders"),
        ("config:decoders", "holds<arpc::config::all_decoders, %s>::value" % ", ".join(e.replace("encoder", "decoder") for e in enc), "that registered classes can be decoded in both byte orders"),
        ("dtor", "std::has_virtual_destructor_v<arpc::dynamic_base_class> && std::has_virtual_destructor_v<G1>", "that an object can be destroyed as a dynamic_base_class"),
    ], "src/arpc/config.h")
