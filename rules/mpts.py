"""The compile-time sequence toolkit: every claim is a constant expression or a
type identity that the type checker decides on /repo's current header."""
import witness

H = "src/arpc/mpt.h"

PRE = '''
#include <array>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include "arpc/mpt.h"
namespace m = arpc::mpt;
template <typename X, typename Y> constexpr bool same = std::is_same_v<X, Y>;
struct nil {};
enum class ec { a, b };
template <int k> struct tag { static constexpr int v = k; };
// What a visitor saw, in order.
struct log { int n = 0; long v[40] = {}; constexpr void add(long x) { v[n++] = x; }
  template <typename... X> constexpr bool is(X... x) const { long w[] = {long(x)..., 0}; if (n != int(sizeof...(x))) return false; for (int i = 0; i < n; i++) if (v[i] != w[i]) return false; return true; } };
struct rec { template <typename T> constexpr void operator()(const T& x, log& l) { l.add(long(x)); } };
struct rec2 { template <typename T> constexpr void operator()(const T& x, log& l, int a, int b) { l.add(long(x) * 100 + a * 10 + b); } };
struct rect { template <typename T> constexpr void operator()(m::wrap_type<T>, log& l) { l.add(T::v); } };
template <typename... V> constexpr log seen(V... v);
struct mo { int v; constexpr mo(int v) : v(v) {} mo(const mo&) = delete; constexpr mo(mo&& o) : v(o.v) { o.v = -1; } };
constexpr auto fx = [](auto x) { return x; }; constexpr auto fs = [](auto a, auto b) { return a + b; };
struct even { constexpr bool operator()(long v) { return v % 2 == 0; } };
struct odd_tag { template <int k> constexpr bool operator()(m::wrap_type<tag<k>>) { return k % 2 == 1; } constexpr bool operator()(...) { return false; } };
struct all_of { constexpr bool operator()(...) { return true; } };
struct none_of { constexpr bool operator()(...) { return false; } };
'''


def seq(ty, vals):
    return "m::integer_sequence<%s>" % ", ".join([ty] + [str(v) for v in vals])


def idx(vals):
    return "m::index_sequence<%s>" % ", ".join(str(v) for v in vals)


def vp(vals):
    return "m::value_pack<%s>" % ", ".join(str(v) for v in vals)


def pk(vals):
    return "m::pack<%s>" % ", ".join(vals)


def c21(rep, tier):
    out = []

    def A(cid, text, what):
        out.append((cid, text, what, H))

    # Operators.
    vals = [(7, 3), (-8, 3), (0, 5), (6, -4), (1, 1)] + ([(a, b) for a in (-9, -1, 0, 2, 12) for b in (-5, 1, 2, 9)] if tier == "thorough" else [])
    UN = {"negate": "-", "logical_not": "!", "bit_not": "~"}
    BI = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "modulus": "%", "equal_to": "==", "not_equal_to": "!=", "greater": ">", "less": "<",
          "greater_equal": ">=", "less_equal": "<=", "logical_and": "&&", "logical_or": "||", "bit_and": "&", "bit_or": "|", "bit_xor": "^"}
    for n, o in list(UN.items()) + [("identity", "")]:
        for a, _ in vals:
            A("op:%s:%d" % (n, a), "m::%s()(%d) == (%s(%d)) && same<decltype(m::%s()(%d)), std::decay_t<decltype(%s(%d))>>" % (n, a, o, a, n, a, o, a), "%s applies %s" % (n, o))
    for n, o in BI.items():
        for a, b in vals:
            A("op:%s:%d,%d" % (n, a, b), "m::%s()(%d, %d) == ((%d) %s (%d))" % (n, a, b, a, o, b), "%s applies %s, left operand first" % (n, o))
        A("op:%s:mixed" % n, "same<decltype(m::%s()(short(6), 4L)), decltype(short(6) %s 4L)>" % (n, o), "operands keep their types")
    # Integer sequences.
    for a in ((), (5,), (5, 0, -3), (9, 8, 7, 6, 5)):
        A("iseq:size:%d" % len(a), "%s::size == %d && m::size_v<%s> == %d" % (seq("int", a), len(a), seq("int", a), len(a)), "its size")
        A("iseq:type:%d" % len(a), "same<%s::type, %s> && same<%s::value_type, int>" % (seq("int", a), seq("int", a), seq("int", a)), "its own type")
        for n, o in UN.items():
            res = "bool" if n == "logical_not" else "int"
            want = seq(res, ["%s(%d)" % (o, x) for x in a])
            A("iseq:%s:%d" % (n, len(a)), "same<%s::%s_t, %s>" % (seq("int", a), n, want), "elementwise %s" % n)
            A("iseq:%s():%d" % (n, len(a)), "same<decltype(%s%s{}), %s>" % (o, seq("int", a), want), "elementwise %s as an operator" % n)
        A("iseq:identity:%d" % len(a), "same<%s::identity_t, %s>" % (seq("int", a), seq("int", a)), "elementwise identity")
        b = [x % 4 + 1 for x in range(len(a))]
        for n, o in BI.items():
            res = "bool" if n in ("equal_to", "not_equal_to", "greater", "less", "greater_equal", "less_equal", "logical_and", "logical_or") else "int"
            want = seq(res, ["((%d) %s (%d))" % (x, o, y) for x, y in zip(a, b)])
            A("iseq:%s:%d" % (n, len(a)), "same<%s::%s_t<%s>, %s>" % (seq("int", a), n, seq("int", b), want), "elementwise %s" % n)
            A("iseq:%s():%d" % (n, len(a)), "same<decltype(%s{} %s %s{}), %s>" % (seq("int", a), o, seq("int", b), want), "elementwise %s as an operator" % n)
    A("iseq:mixed", "same<decltype(m::integer_sequence<short, 1, 2>{} + m::integer_sequence<long, 3, 4>{}), m::integer_sequence<long, 4, 6>>", "mixed element types promote")
    A("iseq:unequal", "!{ auto x = m::index_sequence<1, 2>{} + m::index_sequence<1>{}; }", "sequences of different length cannot be combined")
    top = 70 if tier == "quick" else 300
    for n in range(top):
        A("make:%d" % n, "same<m::make_index_sequence<%d>, %s>" % (n, idx(range(n))), "the integers from 0 to n-1 in order")
    for n in list(range(18)) + [31, 32, 33]:
        A("make:signed:%d" % n, "same<m::make_integer_sequence<signed char, %d>, %s>" % (n, seq("signed char", range(n))), "the integers from 0 to n-1 in order")
        A("const:%d" % n, "same<m::make_constant_index_sequence<%d, 7>, %s>" % (n, idx([7] * n)), "n copies of the value")
        A("const:int:%d" % n, "same<m::make_constant_integer_sequence<int, %d, -2>, %s>" % (n, seq("int", [-2] * n)), "n copies of the value")

    # Aggregates of every supported arity.
    tys = ["int", "char", "double", "const char*", "ec", "long", "nil", "short", "std::string_view", "bool"]
    decl = []
    for n in range(0, 33):
        f = [tys[(i * 3 + n) % len(tys)] for i in range(n)]
        decl.append("struct ag%d { %s };" % (n, " ".join("%s f%d;" % (t, i) for i, t in enumerate(f))))
        decl.append("inline ag%d g%d{};" % (n, n))
        A("arity:%d" % n, "m::aggregate_arity_v<ag%d> == %d && m::aggregate_arity_v<const ag%d&> == %d" % (n, n, n, n), "the number of fields")
        A("as_tuple:type:%d" % n, "same<decltype(m::as_tuple(g%d)), std::tuple<%s>>" % (n, ", ".join(t + "&" for t in f)), "references to the fields, in order")
        A("as_tuple:const:%d" % n, "same<decltype(m::as_tuple(std::declval<const ag%d&>())), std::tuple<%s>>" % (n, ", ".join(("const char* const&" if t == "const char*" else "const %s&" % t) for t in f)), "constant references to the fields of a constant")
        if n:
            A("as_tuple:refs:%d" % n, "[] { ag%d* p = &g%d; auto t = m::as_tuple(*p); return %s; }()" % (n, n, " && ".join("&std::get<%d>(t) == &p->f%d" % (i, i) for i in range(n))), "each reference is to its own field")
        else:
            A("as_tuple:refs:0", "std::tuple_size_v<decltype(m::as_tuple(g0))> == 0", "no fields")
    decl.append("struct ag33 { %s };" % " ".join("int f%d;" % i for i in range(33)))
    A("arity:33", "!{ ag33 v{}; (void)m::as_tuple(v); }", "an aggregate with more fields than supported must be rejected")
    decl.append("struct agc { std::string s; std::vector<int> v; std::string_view p; std::array<int, 3> a; agx_ x; };".replace("agx_ x", "ag3 x"))
    A("arity:classes", "m::aggregate_arity_v<agc> == 5 && same<decltype(m::as_tuple(std::declval<agc&>())), std::tuple<std::string&, std::vector<int>&, std::string_view&, std::array<int, 3>&, ag3&>>", "members of class type count once")
    A("as_tuple:not-aggregate", "!{ struct n { n(int); int a; }; n v(1); (void)m::as_tuple(v); }", "a class that is not an aggregate must be rejected")

    # Classification.
    forms = {"tuple": ["std::tuple<>", "std::tuple<int>", "std::tuple<int, char, nil>", "std::pair<int, char>"], "pack": [pk([]), pk(["int"]), pk(["int", "void", "int"])],
             "value_pack": [vp([]), vp([1]), "m::value_pack<1, 'c', true>"], "integer_sequence": [seq("int", []), seq("char", [1, 2])], None: ["int", "nil", "std::vector<int>", "std::array<int, 2>", "m::wrap_type<int>", "std::tuple<int>*"]}
    for k, ts in forms.items():
        for t in ts:
            for kind in ("tuple", "pack", "value_pack", "integer_sequence"):
                for q in ("%s", "const %s&"):
                    A("is_%s:%s:%s" % (kind, t, q), "m::is_%s_v<%s> == %s" % (kind, q % t, str(k == kind).lower()), "what kind of sequence it is")
    for t, n in (("std::tuple<>", 0), ("std::tuple<int, char, nil>", 3), ("std::pair<int, char>", 2), (pk([]), 0), (pk(["int", "void", "int"]), 3), (vp([]), 0), ("m::value_pack<1, 'c', true>", 3), (seq("char", [1, 2]), 2)):
        for q in ("%s", "const %s&", "%s&", "%s&&"):
            A("size:%s" % (q % t), "m::size_v<%s> == %d" % (q % t, n), "the number of elements")

    # as_tuple / as_pack / as_value_pack / element_type / at.
    A("as_tuple:iseq", "m::as_tuple(%s{}) == std::make_tuple(4, -1, 4) && same<decltype(m::as_tuple(%s{})), std::tuple<int, int, int>>" % ((seq("int", [4, -1, 4]),) * 2), "the values in order")
    A("as_tuple:vpack", "m::as_tuple(m::value_pack<4, 'x', true>{}) == std::make_tuple(4, 'x', true) && same<decltype(m::as_tuple(m::value_pack<4, 'x', true>{})), std::tuple<int, char, bool>>", "the values in order")
    A("as_tuple:pack", "same<decltype(m::as_tuple(m::pack<int, void, char&>{})), std::tuple<m::wrap_type<int>, m::wrap_type<void>, m::wrap_type<char&>>>", "the wrapped types in order")
    for base in ("std::tuple<int, char>", "std::pair<int, char>"):
        for q in ("%s&", "const %s&", "%s&&", "const %s&&"):
            A("as_tuple:%s" % (q % base), "same<decltype(m::as_tuple(std::declval<%s>())), %s>" % (q % base, q % base), "a tuple or pair is itself, with its value category")
    A("as_tuple:rvalue", "[] { auto t = m::as_tuple(std::tuple<int, char>(3, 'c')); return std::get<0>(t) == 3 && std::get<1>(t) == 'c'; }()", "an rvalue tuple can be passed on")
    A("as_tuple:rvalue-pair", "[] { auto t = m::as_tuple(std::pair<int, char>(3, 'c')); return t.first == 3 && t.second == 'c'; }()", "an rvalue pair can be passed on")
    A("as_pack:tuple", "same<decltype(m::as_pack(std::tuple<m::wrap_type<int>, m::wrap_type<void>>{})), m::pack<int, void>>", "the wrapped types in order")
    A("as_pack:pack", "same<decltype(m::as_pack(m::pack<int, void>{})), m::pack<int, void>>", "a pack is itself")
    A("as_value_pack", "same<decltype(m::as_value_pack(%s{})), m::value_pack<3, 1>> && same<decltype(m::as_value_pack(m::value_pack<3, 'x'>{})), m::value_pack<3, 'x'>>" % seq("int", [3, 1]), "the values in order")
    for i, t in enumerate(("int", "char", "nil")):
        A("element:tuple:%d" % i, "same<m::element_type_t<%d, std::tuple<int, char, nil>>, %s> && same<m::element_type_t<%d, const std::tuple<int, char, nil>&>, %s>" % (i, t, i, t), "the type of element i")
        A("element:pack:%d" % i, "same<m::element_type_t<%d, m::pack<int, char, nil>>, m::wrap_type<%s>>" % (i, t), "the wrapped type i")
    A("element:pair", "same<m::element_type_t<0, std::pair<int, char>>, int> && same<m::element_type_t<1, std::pair<int, char>>, char>", "the type of element i")
    A("element:values", "same<m::element_type_t<1, m::value_pack<1, 'x'>>, char> && same<m::element_type_t<1, m::integer_sequence<short, 1, 2>>, short>", "the type of value i")
    A("element:aggregate", "same<m::element_type_t<1, agc>, std::vector<int>&>", "a field's type")
    for i, x in enumerate((4, -1, 9)):
        A("at:iseq:%d" % i, "m::at<%d>(%s{}) == %d" % (i, seq("int", [4, -1, 9]), x), "value i")
        A("at:vpack:%d" % i, "m::at<%d>(%s{}) == %d" % (i, vp([4, -1, 9]), x), "value i")
        A("at:tuple:%d" % i, "m::at<%d>(std::make_tuple(4, -1, 9)) == %d" % (i, x), "element i")
        A("at:tuple:lv:%d" % i, "[] { std::tuple<int, int, int> t(4, -1, 9); const auto& c = t; return &m::at<%d>(t) == &std::get<%d>(t) && &m::at<%d>(c) == &std::get<%d>(t); }()" % (i, i, i, i), "a reference to element i")
    for base, e0, e1 in (("std::tuple<int, char>", "int", "char"), ("std::pair<int, char>", "int", "char")):
        for i, e in ((0, e0), (1, e1)):
            A("at:%s:%d" % (base, i), "same<decltype(m::at<%d>(std::declval<%s&>())), %s&> && same<decltype(m::at<%d>(std::declval<const %s&>())), const %s&> && same<decltype(m::at<%d>(std::declval<%s>())), %s&&>" % (i, base, e, i, base, e, i, base, e), "the value category follows the sequence's")
    A("at:pair:lv", "[] { std::pair<int, char> p(4, 'c'); return &m::at<0>(p) == &p.first && &m::at<1>(p) == &p.second; }()", "a reference to element i")
    A("at:move", "[] { std::tuple<int, mo> t(1, mo(5)); mo x(m::at<1>(std::move(t))); return x.v == 5 && std::get<1>(t).v == -1; }()", "elements can be moved out of an rvalue")
    A("at:pack", "same<decltype(m::at<1>(m::pack<int, void>{})), m::wrap_type<void>>", "wrapped type i")
    A("at:range", "!{ (void)m::at<2>(m::pack<int, void>{}); }", "an index beyond the end must be rejected")

    # for_each / transform.
    A("for_each:iseq", "[] { log l; m::for_each(%s{}, rec{}, l); return l.is(4, -1, 9, 4); }()" % seq("int", [4, -1, 9, 4]), "every element once, in order")
    A("for_each:vpack", "[] { log l; m::for_each(m::value_pack<4, 'x', true>{}, rec{}, l); return l.is(4, 'x', 1); }()", "every element once, in order")
    A("for_each:tuple", "[] { log l; m::for_each(std::make_tuple(4, 'x', 7L), rec{}, l); return l.is(4, 'x', 7); }()", "every element once, in order")
    A("for_each:pair", "[] { log l; m::for_each(std::make_pair(4, 'x'), rec{}, l); return l.is(4, 'x'); }()", "every element once, in order")
    A("for_each:pack", "[] { log l; m::for_each(m::pack<tag<3>, tag<1>, tag<2>>{}, rect{}, l); return l.is(3, 1, 2); }()", "every element once, in order")
    A("for_each:empty", "[] { log l; m::for_each(std::tuple<>{}, rec{}, l); m::for_each(m::pack<>{}, rect{}, l); return l.is(); }()", "no call for an empty sequence")
    A("for_each:args", "[] { log l; m::for_each(std::make_tuple(1, 2, 3), rec2{}, l, 4, 5); return l.is(145, 245, 345); }()", "every call gets all of the further arguments")
    A("for_each:lvalue", "[] { std::tuple<int, int, int> t(1, 2, 3); m::for_each(t, [](int& x) { x *= 10; }); return t == std::make_tuple(10, 20, 30); }()", "elements of an lvalue can be changed")
    A("for_each:rvalue", "[] { log l; std::tuple<mo, mo> t(mo(1), mo(2)); m::for_each(std::move(t), [](mo&& x, log& l) { mo y(std::move(x)); l.add(y.v); }, l); return l.is(1, 2) && std::get<0>(t).v == -1 && std::get<1>(t).v == -1; }()", "elements of an rvalue can be moved")
    A("for_each:long", "[] { log l; m::for_each(m::make_index_sequence<33>{}, rec{}, l); if (l.n != 33) return false; for (int i = 0; i < 33; i++) if (l.v[i] != i) return false; return true; }()", "every element once, in order")
    A("for_each:same-functor", "[] { int n = 0; auto f = [&n, c = 0](int x) mutable { c++; n += c * x; }; m::for_each(std::make_tuple(1, 10, 100), f); return n == 321; }()", "one functor object sees all of the calls")
    A("transform:tuple", "m::transform(std::make_tuple(1, 2, 3), [](int x, int k) { return x * k; }, 5) == std::make_tuple(5, 10, 15)", "the results in order")
    A("transform:types", "same<decltype(m::transform(m::value_pack<1, 'c'>{}, fx)), std::tuple<int, char>> && m::transform(m::value_pack<1, 'c'>{}, [](auto x) { return x; }) == std::make_tuple(1, 'c')", "each result has its own type")
    A("transform:iseq", "m::transform(%s{}, [](int x) { return -x; }) == std::make_tuple(-4, 1, -9)" % seq("int", [4, -1, 9]), "the results in order")
    A("transform:pair", "m::transform(std::make_pair(4, 6), [](int x) { return x + 1; }) == std::make_tuple(5, 7)", "the results in order")
    A("transform:rvalue", "[] { std::tuple<mo, mo> t(mo(1), mo(2)); auto r = m::transform(std::move(t), [](mo&& x, int k) { mo y(std::move(x)); return y.v * k; }, 7); return r == std::make_tuple(7, 14) && std::get<0>(t).v == -1 && std::get<1>(t).v == -1; }()", "elements of an rvalue can be moved")
    A("transform:lvalue", "[] { std::tuple<int, int> t(1, 2); auto r = m::transform(t, [](int& x) { x *= 10; return x + 1; }); return r == std::make_tuple(11, 21) && t == std::make_tuple(10, 20); }()", "elements of an lvalue can be changed")
    A("transform:moved-results", "[] { auto r = m::transform(std::make_tuple(1, 2), [](int x) { return mo(x); }); return same<decltype(r), std::tuple<mo, mo>> && std::get<1>(r).v == 2; }()", "results are moved")
    A("transform:long", "m::transform(m::make_index_sequence<9>{}, [](int x) { return x * x; }) == std::make_tuple(0, 1, 4, 9, 16, 25, 36, 49, 64)", "the results in order")
    A("transform:empty", "m::transform(std::tuple<>{}, [](auto x) { return x; }) == std::tuple<>{}", "nothing for an empty sequence")

    # subset / range / head / tail.
    four = [4, -1, 9, 6]
    for sel in ((), (0,), (3, 1), (2, 2, 0), (3, 2, 1, 0), (0, 1, 2, 3)):
        I = idx(sel) + "{}"
        s = ":" + "".join(map(str, sel))
        w = [four[i] for i in sel]
        A("subset:iseq" + s, "same<decltype(m::subset(%s{}, %s)), %s>" % (seq("int", four), I, seq("int", w)), "exactly the selected elements, in the order selected")
        A("subset:vpack" + s, "same<decltype(m::subset(%s{}, %s)), %s>" % (vp(four), I, vp(w)), "exactly the selected elements, in the order selected")
        A("subset:pack" + s, "same<decltype(m::subset(%s{}, %s)), %s>" % (pk(["tag<%d>" % x for x in four]), I, pk(["tag<%d>" % x for x in w])), "exactly the selected types, in the order selected")
        A("subset:tuple" + s, "m::subset(std::make_tuple(4, -1, 9, 6), %s) == std::make_tuple(%s)" % (I, ", ".join(map(str, w))), "exactly the selected elements, in the order selected")
        A("subset:lvalue" + s, "[] { std::tuple<int, int, int, int> t(4, -1, 9, 6); auto r = m::subset(t, %s); (void)r; return same<decltype(r), std::tuple<%s>>%s; }()" % (I, ", ".join("int&" for _ in w), "".join(" && &std::get<%d>(r) == &std::get<%d>(t)" % (k, i) for k, i in enumerate(sel))), "references to the selected elements")
        A("subset:clvalue" + s, "[] { const std::tuple<int, int, int, int> t(4, -1, 9, 6); auto r = m::subset(t, %s); (void)r; return same<decltype(r), std::tuple<%s>>%s; }()" % (I, ", ".join("const int&" for _ in w), "".join(" && &std::get<%d>(r) == &std::get<%d>(t)" % (k, i) for k, i in enumerate(sel))), "references to the selected elements")
    A("subset:pair", "[] { std::pair<int, char> t(4, 'c'); auto r = m::subset(t, m::index_sequence<1, 0>{}); return same<decltype(r), std::tuple<char&, int&>> && &std::get<0>(r) == &t.second && &std::get<1>(r) == &t.first; }()", "references to the selected elements")
    A("subset:rpair", "m::subset(std::make_pair(4, 'c'), m::index_sequence<1, 0, 1>{}) == std::make_tuple('c', 4, 'c')", "the selected elements")
    A("subset:move-pair", "[] { auto r = m::subset(std::pair<mo, mo>(mo(5), mo(6)), m::index_sequence<1, 0>{}); return std::get<0>(r).v == 6 && std::get<1>(r).v == 5 && same<decltype(r), std::tuple<mo, mo>>; }()", "elements are moved out of an rvalue pair")
    A("subset:move", "[] { auto r = m::subset(std::make_tuple(1, mo(5), mo(6)), m::index_sequence<2, 1>{}); return std::get<0>(r).v == 6 && std::get<1>(r).v == 5 && same<decltype(r), std::tuple<mo, mo>>; }()", "elements are moved out of an rvalue tuple")
    for b in range(5):
        for e in range(b, 5):
            A("range:iseq:%d-%d" % (b, e), "same<decltype(m::range<%d, %d>(%s{})), %s>" % (b, e, seq("int", four), seq("int", four[b:e])), "the elements from begin up to end")
            A("range:tuple:%d-%d" % (b, e), "m::range<%d, %d>(std::make_tuple(4, -1, 9, 6)) == std::make_tuple(%s)" % (b, e, ", ".join(map(str, four[b:e]))), "the elements from begin up to end")
            A("range:pack:%d-%d" % (b, e), "same<decltype(m::range<%d, %d>(%s{})), %s>" % (b, e, pk(["tag<%d>" % x for x in four]), pk(["tag<%d>" % x for x in four[b:e]])), "the types from begin up to end")
            A("range:vpack:%d-%d" % (b, e), "same<decltype(m::range<%d, %d>(%s{})), %s>" % (b, e, vp(four), vp(four[b:e])), "the values from begin up to end")
    ten = [4, -1, 9, 6, 3, 0, -7, 12, 5, 8]
    for b, e in ((0, 10), (4, 9), (5, 5), (7, 10), (9, 10), (1, 8)):
        A("range:long:%d-%d" % (b, e), "same<decltype(m::range<%d, %d>(%s{})), %s> && m::range<%d, %d>(std::make_tuple(%s)) == std::make_tuple(%s)" % (b, e, seq("int", ten), seq("int", ten[b:e]), b, e, ", ".join(map(str, ten)), ", ".join(map(str, ten[b:e]))), "the elements from begin up to end")
    A("range:beyond", "!{ (void)m::range<2, 5>(%s{}); }" % seq("int", four), "a range beyond the end must be rejected")
    A("head", "m::head(std::make_tuple(4, 'c')) == 4 && m::head(%s{}) == 4 && m::head(%s{}) == 4 && same<decltype(m::head(m::pack<void, int>{})), m::wrap_type<void>> && m::head(std::make_pair(7, 'c')) == 7" % (seq("int", four), vp(four)), "the first element")
    A("tail", "same<decltype(m::tail(%s{})), %s> && same<decltype(m::tail(%s{})), %s> && same<decltype(m::tail(m::pack<int, void, nil>{})), m::pack<void, nil>> && same<decltype(m::tail(m::pack<int>{})), m::pack<>>" % (seq("int", four), seq("int", four[1:]), vp(four), vp(four[1:])), "all but the first element")
    A("tail:lvalue", "[] { std::tuple<int, mo, long> t(4, mo(5), 8L); auto r = m::tail(t); return same<decltype(r), std::tuple<mo&, long&>> && &std::get<0>(r) == &std::get<1>(t) && std::get<1>(t).v == 5; }()", "references to the elements of an lvalue")
    A("tail:rvalue", "[] { auto r = m::tail(std::make_tuple(mo(4), mo(5), 8L)); return same<decltype(r), std::tuple<mo, long>> && std::get<0>(r).v == 5 && std::get<1>(r) == 8; }()", "the elements are moved out of an rvalue")
    A("tail:rpair", "[] { auto r = m::tail(std::pair<mo, mo>(mo(5), mo(6))); return same<decltype(r), std::tuple<mo>> && std::get<0>(r).v == 6; }()", "the element is moved out of an rvalue")
    A("tail:refs", "[] { mo a(4), b(5), c(6); auto r = m::tail(std::forward_as_tuple(a, b, c)); return same<decltype(r), std::tuple<mo&, mo&>> && &std::get<0>(r) == &b && &std::get<1>(r) == &c && b.v == 5 && c.v == 6; }()", "references stay references to the same elements")
    A("subset:refs", "[] { mo a(4), b(5); auto r = m::subset(std::forward_as_tuple(a, b), m::index_sequence<1, 0>{}); return same<decltype(r), std::tuple<mo&, mo&>> && &std::get<0>(r) == &b && &std::get<1>(r) == &a && a.v == 4 && b.v == 5; }()", "references stay references to the same elements")
    A("range:refs", "[] { mo a(4), b(5), c(6); auto r = m::range<1, 3>(std::forward_as_tuple(a, b, c)); return same<decltype(r), std::tuple<mo&, mo&>> && &std::get<0>(r) == &b && b.v == 5 && c.v == 6; }()", "references stay references to the same elements")
    for k in range(1, 7):
        A("accumulate:lvalue:%d" % k, "[] { std::tuple<%s> t(%s); int n = m::accumulate(9, t, [](int a, mo& x) { return a * 10 + x.v; }); return n == %s%s; }()" % (", ".join(["mo"] * k), ", ".join("mo(%d)" % (j + 1) for j in range(k)), "9" + "".join(str(j + 1) for j in range(k)), "".join(" && std::get<%d>(t).v == %d" % (j, j + 1) for j in range(k))), "a fold leaves the elements it visits where they are")
        A("accumulate:clvalue:%d" % k, "[] { const std::tuple<%s> t(%s); int n = m::accumulate(9, t, [](int a, const mo& x) { return a * 10 + x.v; }); return n == %s; }()" % (", ".join(["mo"] * k), ", ".join("mo(%d)" % (j + 1) for j in range(k)), "9" + "".join(str(j + 1) for j in range(k))), "a fold from the left over elements that can not be copied")
    A("tail:tuple", "[] { std::tuple<int, char, long> t(4, 'c', 8L); return m::tail(t) == std::make_tuple('c', 8L); }()", "all but the first element")

    # accumulate: a left fold.
    digits = "[](long a, long d) { return a * 10 + d; }"
    for s, v in (("std::make_tuple(1, 2, 3)", 9123), ("std::make_tuple(5)", 95), ("std::tuple<>{}", 9), ("std::make_pair(4, 2)", 942), (seq("int", [4, 7, 1]) + "{}", 9471), (vp([1, 2]) + "{}", 912), ("m::make_index_sequence<6>{}", 9012345)):
        A("accumulate:" + s, "m::accumulate(9L, %s, %s) == %d" % (s, digits, v), "a fold from the left, starting with the initial value")
    A("accumulate:args", "m::accumulate(9L, std::make_tuple(1, 2), [](long a, long d, int k, int j) { return a * k + d + j; }, 100, 5) == 90607 ", "further arguments reach every step")
    A("accumulate:types", "same<decltype(m::accumulate(0, std::make_tuple('a', 2L), fs)), long>", "the result type may change with each step")
    A("accumulate:pack", "m::accumulate(0, m::pack<tag<3>, tag<5>>{}, [](int a, auto w) { return a * 10 + decltype(w)::type::v; }) == 35", "wrapped types are folded over in order")

    # wrap / unwrap / cat.
    A("wrap", "same<decltype(m::wrap(m::pack<int, void>{})), m::pack<m::wrap_type<int>, m::wrap_type<void>>> && same<decltype(m::unwrap(m::pack<m::wrap_type<int>, m::wrap_type<void>>{})), m::pack<int, void>> && same<decltype(m::wrap(m::pack<>{})), m::pack<>>", "wrap and unwrap are inverse")
    for parts in (((1,),), ((1, 2), (3,)), ((), (1,)), ((1,), ()), ((1, 2), (), (3, 4), (5,)), ((), ())):
        flat = [x for p in parts for x in p]
        s = ":" + "|".join("".join(map(str, p)) for p in parts)
        A("cat:iseq" + s, "same<decltype(m::cat(%s)), %s>" % (", ".join(seq("int", p) + "{}" for p in parts), seq("int", flat)), "the concatenation in order")
        A("cat:vpack" + s, "same<decltype(m::cat(%s)), %s>" % (", ".join(vp(p) + "{}" for p in parts), vp(flat)), "the concatenation in order")
        A("cat:pack" + s, "same<decltype(m::cat(%s)), %s>" % (", ".join(pk(["tag<%d>" % x for x in p]) + "{}" for p in parts), pk(["tag<%d>" % x for x in flat])), "the concatenation in order")
        A("cat:tuple" + s, "m::cat(%s) == std::make_tuple(%s)" % (", ".join("std::make_tuple(%s)" % ", ".join(map(str, p)) for p in parts), ", ".join(map(str, flat))), "the concatenation in order")
        A("cat:lvalue" + s, "[] { %s return same<decltype(m::cat(%s)), %s> && same<decltype(m::cat(%s)), %s>; }()" % (
            "".join("const %s s%d{}; %s v%d{}; (void)s%d; (void)v%d;" % (seq("int", p), k, vp(p), k, k, k) for k, p in enumerate(parts)), ", ".join("s%d" % k for k in range(len(parts))), seq("int", flat), ", ".join("v%d" % k for k in range(len(parts))), vp(flat)), "lvalues concatenate the same way")
    A("cat:move", "[] { auto r = m::cat(std::make_tuple(mo(1)), std::make_tuple(2, mo(3)), std::make_pair(mo(4), 5)); return same<decltype(r), std::tuple<mo, int, mo, mo, int>> && std::get<0>(r).v == 1 && std::get<2>(r).v == 3 && std::get<3>(r).v == 4 && std::get<4>(r) == 5; }()", "elements are moved out of rvalues")
    A("cat:keep", "[] { std::tuple<int, long> t(1, 2L); auto r = m::cat(t, std::make_tuple(3)); return r == std::make_tuple(1, 2L, 3) && t == std::make_tuple(1, 2L); }()", "lvalues stay as they are")
    A("cat:none", "!{ (void)m::cat(); }", "nothing to concatenate must be rejected")
    A("cat:mixed", "!{ (void)m::cat(m::pack<int>{}, m::value_pack<1>{}); }", "different kinds must be rejected")
    A("cat:mixed2", "!{ (void)m::cat(std::tuple<int>{}, m::pack<int>{}); }", "different kinds must be rejected")

    # Predicates, find, filter, count, membership, insertion.
    A("is_value", "m::is_value<3>()(3) && !m::is_value<3>()(4) && m::is_value<'x'>()('x') && m::is_value<ec::a>()(ec::a) && !m::is_value<ec::a>()(ec::b)", "equality with the value")
    A("is_type:const", "m::is_type<const int>()(m::wrap_type<const int>{}) && !m::is_type<const int>()(m::wrap_type<int>{}) && m::is_type<int&>()(m::wrap_type<int&>{}) && m::is_type_in_v<const char, m::pack<int, const char>>", "identity of the type")
    A("is_type", "m::is_type<int>()(m::wrap_type<int>{}) && !m::is_type<int>()(m::wrap_type<const int>{}) && !m::is_type<int>()(m::wrap_type<long>{}) && m::is_type<void>()(m::wrap_type<void>{})", "identity of the type")
    bits = [(a, b, c, d) for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1)]
    for bt in bits:
        A("index_if:%d%d%d%d" % bt, "same<m::index_if_t<m::index_sequence<7, 3, 5, 2>, %s>, %s>" % (", ".join("true" if x else "false" for x in bt), idx([v for v, x in zip((7, 3, 5, 2), bt) if x])), "the indices selected, in order")
    A("index_if:0", "same<m::index_if_t<m::index_sequence<>>, m::index_sequence<>>", "nothing")
    for vs in ((), (2,), (1,), (1, 2, 4, 3, 6), (1, 3), (2, 2), (1, 4, 3, 5, 7, 8, 9, 2, 11, 10, 6, 12)):
        ev = [i for i, v in enumerate(vs) if v % 2 == 0]
        s = ":" + "".join(map(str, vs))
        for kind, X in (("iseq", seq("long", vs)), ("vpack", vp(vs))):
            A("find_if:%s%s" % (kind, s), "same<m::find_if_t<%s, even>, %s>" % (X, idx(ev)), "the indices of the matching elements, in order")
            A("count_if:%s%s" % (kind, s), "m::count_if_v<%s, even> == %d" % (X, len(ev)), "the number of matching elements")
        A("filter_if:iseq" + s, "same<m::filter_if_t<%s, even>, %s>" % (seq("long", vs), seq("long", [vs[i] for i in ev])), "the matching elements, in order")
        A("filter_if:vpack" + s, "same<m::filter_if_t<%s, even>, %s>" % (vp(vs), vp([vs[i] for i in ev])), "the matching elements, in order")
        od = [v for v in vs if v % 2]
        P = pk(["tag<%d>" % v for v in vs])
        A("filter_if:pack" + s, "same<m::filter_if_t<%s, odd_tag>, %s> && m::count_if_v<%s, odd_tag> == %d" % (P, pk(["tag<%d>" % v for v in od]), P, len(od)), "the matching types, in order")
        A("filter_all" + s, "same<m::filter_if_t<%s, all_of>, %s> && same<m::filter_if_t<%s, none_of>, m::pack<>>" % (P, P, P), "all or nothing")
        for x in (1, 2, 5):
            yes = x in vs
            A("is_value_in%s:%d" % (s, x), "m::is_value_in_v<%d, %s> == %s && m::is_value_in_v<%d, %s> == %s" % (x, vp(vs), str(yes).lower(), x, seq("int", vs), str(yes).lower()), "membership")
            A("is_type_in%s:%d" % (s, x), "m::is_type_in_v<tag<%d>, %s> == %s" % (x, P, str(yes).lower()), "membership")
            A("insert_value%s:%d" % (s, x), "same<m::insert_value_into_t<%d, %s>, %s>" % (x, vp(vs), vp(vs if yes else vs + (x,))), "appended at the end when absent, otherwise unchanged")
            A("insert_type%s:%d" % (s, x), "same<m::insert_type_into_t<tag<%d>, %s>, %s>" % (x, P, pk(["tag<%d>" % v for v in (vs if yes else vs + (x,))])), "appended at the end when absent, otherwise unchanged")
    A("is_type_in:cv", "!m::is_type_in_v<int, m::pack<const int, int&, long>> && m::is_type_in_v<void, m::pack<int, void>>", "types are compared exactly")
    for i, t in enumerate(("int", "char", "void", "nil")):
        A("find:%d" % i, "m::find_v<m::pack<int, char, void, nil>, m::is_type<%s>> == %d" % (t, i), "the index of the only match")
    A("find:long", " && ".join("m::find_v<%s, m::is_type<tag<%d>>> == %d" % (pk(["tag<%d>" % x for x in ten]), x, i) for i, x in enumerate(ten)), "the index of the only match")
    A("find:values", "m::find_v<m::value_pack<5, 7, 9>, m::is_value<9>> == 2 && m::find_v<m::value_pack<5, 7, 9>, m::is_value<5>> == 0", "the index of the only match")
    A("find:none", "!{ (void)m::find_v<m::pack<int>, m::is_type<char>>; }", "no match must be rejected")
    A("find:two", "!{ (void)m::find_v<m::pack<int, char, int>, m::is_type<int>>; }", "several matches must be rejected")

    witness.decide(rep, "mpt", PRE + "\n".join(decl) + "\n", out, H)
    rep.note("aggregates", "33 aggregates with 0 to 32 fields; sequences of up to %d integers" % top)
