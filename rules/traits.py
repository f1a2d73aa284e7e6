"""What can be serialized is decided by the type checker: the applicability
matrix of the two overload sets, and the traits they are built from."""
import witness

PRE = '''
#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <complex>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <string>
#include <string_view>
#include <thread>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include "arpc/binary_codecs.h"
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "arpc/serializable.h"
struct agg { int a; std::string b; };
struct agg2 { agg x; std::vector<agg> y; };
struct nodefault { nodefault(int); int a; };
struct priv { private: int a; };
struct ptrs { int a; int* b; };
struct refm { int& a; };
struct virt { virtual ~virt(); int a; };
struct abase { int a; }; struct ader : abase { int b; };
union un { int a; float b; };
enum class ec { a }; enum eu { b }; enum class e8 : std::uint8_t { c }; enum class ei64 : std::int64_t { d };
struct plain : arpc::serializable<plain> { int p; ARPC_FIELDS(p); };
struct der : arpc::serializable<der, plain> { std::string q; ARPC_FIELDS(q); };
struct cust : arpc::serializable<cust> { int g; template <typename S> void save(S& s) const { s(g); } template <typename S> void load(S& s) { s(g); } ARPC_CUSTOM_SERIALIZATION_VERSION(3); };
struct cust2 : arpc::serializable<cust2> { int g; template <typename S> void save(S& s) const { s(g); } template <typename S> void load(S& s) { s(g); } ARPC_CUSTOM_SERIALIZATION_VERSION(4); };
struct nosave : arpc::serializable<nosave> { int g; template <typename S> void load(S& s) { s(g); } ARPC_CUSTOM_SERIALIZATION_VERSION(3); };
struct noload : arpc::serializable<noload> { int g; template <typename S> void save(S& s) const { s(g); } ARPC_CUSTOM_SERIALIZATION_VERSION(3); };
struct inhsave : arpc::serializable<inhsave, cust> { int g; template <typename S> void load(S& s) { s(g); } ARPC_CUSTOM_SERIALIZATION_VERSION(3); };
struct badfield : arpc::serializable<badfield> { int* p; ARPC_FIELDS(p); };
struct badbase : arpc::serializable<badbase, badfield> { int p; ARPC_FIELDS(p); };
struct dercust : arpc::serializable<dercust, cust> { int z; ARPC_FIELDS(z); };
struct dercust2 : arpc::serializable<dercust2, cust, plain, cust2> { int z; ARPC_FIELDS(z); };
struct custcust : arpc::serializable<custcust, cust> { int z; template <typename S> void save(S& s) const { s(z); } template <typename S> void load(S& s) { s(z); } ARPC_CUSTOM_SERIALIZATION_VERSION(9); };
struct empty {};
struct dyn : arpc::dynamic<dyn> { int v; ARPC_FIELDS(v); };
struct dyn2 : arpc::dynamic<dyn2, dyn, plain> { int w; ARPC_FIELDS(w); };
template <typename X> struct tmpl : arpc::serializable<tmpl<X>> { ARPC_OWN_TYPE(tmpl); X v; ARPC_FIELDS(v); };
struct ihash { std::size_t operator()(const agg&) const; }; struct ieq { bool operator()(const agg&, const agg&) const; };
struct iless { bool operator()(const agg&, const agg&) const; };
struct owncust { int g; template <typename S> void save(S& s) const { s(g); } template <typename S> void load(S& s) { s(g); } ARPC_CUSTOM_SERIALIZATION_VERSION(5); };
struct poly { virtual ~poly() {} };
struct polyser : arpc::serializable<polyser, poly> { int a; ARPC_FIELDS(a); };
struct own_assoc { using key_type = int; using value_type = long; };
struct own_multi { using key_type = int; using value_type = int; };
struct own_slice { der* data(); plain* begin(); plain* end(); };
struct onlyfields { int a; using field_descriptors = arpc::mpt::pack<arpc::field_descriptor<&onlyfields::a>>; };
struct own_range { int* begin(); int* end(); };
struct own_crange { const int* begin() const; const int* end() const; using size_type = unsigned char; void reserve(unsigned char); void resize(int); };
struct badres { using size_type = std::size_t; int reserve(std::size_t); bool resize(std::size_t); };
struct M { void a(); int b(int) ; const std::string& c(const std::string&, int&&) const; void d(std::string, const int*) const; void e(const std::string&, agg&&, const int); int f; const double g; static int s; };
namespace t = arpc::traits;
template <typename X, typename Y> constexpr bool same = std::is_same_v<X, Y>;
'''

BH = "src/arpc/binary_codecs.h"
ENC = "{ using T = %s; auto& e = *static_cast<%s*>(nullptr); %s& v = *static_cast<%s*>(static_cast<void*>(nullptr)); e(v); }"

GOOD = '''bool;char;signed char;unsigned char;short;unsigned long long;wchar_t;char16_t;char32_t;std::byte;float;double;long double;ec;eu;e8;ei64
std::string;std::wstring;std::u16string;std::vector<int>;std::vector<bool>;std::vector<std::string>;std::vector<agg>;std::vector<std::vector<int>>;std::deque<int>;std::deque<std::string>;std::list<agg>;std::list<int>
std::set<int>;std::multiset<int>;std::set<agg,iless>;std::unordered_set<int>;std::unordered_multiset<int>;std::unordered_set<agg,ihash,ieq>;std::map<int,std::string>;std::multimap<int,int>;std::unordered_map<int,int>;std::unordered_multimap<int,int>
arpc::flat_set<int>;arpc::flat_set<std::string>;arpc::flat_multiset<int>;arpc::flat_map<int,int>;arpc::flat_map<std::string,agg>;arpc::flat_multimap<int,int>;arpc::flat_set<agg,iless>
std::pair<int,std::string>;std::tuple<>;std::tuple<int>;std::tuple<int,agg>;std::tuple<std::tuple<int>,std::pair<char,std::vector<int>>>;agg;agg2;empty;onlyfields;owncust
std::array<int,3>;std::array<agg,2>;std::array<std::string,1>;std::array<std::array<int,2>,3>;int[4];agg[2];int[2][3]
std::optional<int>;std::optional<agg>;std::optional<std::string>;std::optional<std::vector<int>>;std::optional<std::optional<int>>
std::unique_ptr<int>;std::unique_ptr<agg>;std::unique_ptr<std::string>;std::unique_ptr<plain>;std::unique_ptr<dyn>;std::unique_ptr<dyn2>
std::shared_ptr<int>;std::shared_ptr<agg>;std::shared_ptr<plain>;std::shared_ptr<dyn>;std::shared_ptr<dyn2>;std::weak_ptr<int>;std::weak_ptr<agg>;std::weak_ptr<dyn>
std::chrono::seconds;std::chrono::nanoseconds;std::chrono::duration<int,std::ratio<2,7>>;std::chrono::system_clock::time_point;std::chrono::time_point<std::chrono::steady_clock,std::chrono::minutes>
plain;der;cust;dercust;dercust2;custcust;dyn;dyn2;tmpl<int>;tmpl<std::vector<plain>>
std::map<std::string,std::vector<std::optional<agg>>>;std::vector<std::pair<int,std::unique_ptr<der>>>;std::list<std::unique_ptr<agg>>;std::map<int,std::unique_ptr<int>>;std::array<std::unique_ptr<int>,2>;std::vector<std::shared_ptr<dyn>>;std::optional<plain>;std::vector<cust>;std::map<int,std::array<der,2>>'''
GOOD = [x for l in GOOD.split("\n") for x in l.split(";")]

BAD = '''int*;void*;char**;void(*)();int plain::*;void(plain::*)();plain*;dyn*
std::mutex;std::thread;std::function<void()>;std::atomic<int>;std::variant<int,char>;std::bitset<3>;std::complex<float>;std::stack<int>;std::queue<int>;std::type_index;std::reference_wrapper<int>
nodefault;priv;ptrs;refm;virt;ader;un;badfield;badbase
std::vector<int*>;std::deque<int*>;std::set<int*>;std::optional<int*>;std::unique_ptr<int*>;std::shared_ptr<int*>;std::pair<int,int*>;std::tuple<int,void*>;std::map<int,int*>;std::array<int*,2>;int*[2];std::vector<std::mutex>;arpc::flat_map<int,int*>;std::vector<nodefault>;std::map<int,nodefault>;std::weak_ptr<int*>
arpc::input_stream;arpc::output_stream'''
BAD = [x for l in BAD.split("\n") for x in l.split(";")]
ENC_ONLY = ["std::string_view", "std::wstring_view", "std::pair<const int, int>", "std::tuple<const int>", "std::array<const int, 2>", "noload", "std::optional<const int>"]
DEC_ONLY = ["nosave", "inhsave"]


def codec_claims(tier):
    out = []

    def one(T, codec, order, const, want, note=""):
        cls = "arpc::%s_endian_binary_%s" % (order, codec)
        q = "const T" if const else "T"
        text = ENC % (T, cls, q, q)
        cid = "%s:%s:%s%s" % (codec, order, "const:" if const else "", T)
        verb = "an encoder" if codec == "encoder" else "a decoder"
        out.append((cid, text if want else "!" + text,
                    "%s must %s %s%s" % (verb, "accept" if want else "reject", "const " if const else "", T), BH))
    for n, T in enumerate(GOOD):
        for order in (("little", "big") if tier == "thorough" else (("little", "big")[n % 2],)):
            one(T, "encoder", order, True, True)
            one(T, "encoder", order, False, True)
            one(T, "decoder", order, False, True)
        if T not in ("std::tuple<>", "empty"):
            one(T, "decoder", "little", True, False)
    for n, T in enumerate(BAD):
        order = ("little", "big")[n % 2]
        one(T, "encoder", order, True, False)
        one(T, "decoder", order, False, False)
        if tier == "thorough":
            one(T, "encoder", order, False, False)
    for T in ENC_ONLY:
        one(T, "encoder", "little", True, True)
        one(T, "encoder", "big", False, True)
        if T != "std::optional<const int>":
            one(T, "decoder", "little", False, False)
    for T in DEC_ONLY:
        one(T, "decoder", "little", False, True)
        one(T, "encoder", "little", True, False)
    return out


CT = "src/arpc/traits/container_traits.h"
ST = "src/arpc/traits/serialization_traits.h"
TT = "src/arpc/traits/type_traits.h"
TF = "src/arpc/traits/trait_factories.h"
SB = "src/arpc/serializable_base.h"

VEC, STR, ARR, LST, DEQ, SV = "std::vector<int>", "std::string", "std::array<int,3>", "std::list<int>", "std::deque<int>", "std::string_view"
SET = ["std::set<int>", "std::unordered_set<int>", "arpc::flat_set<int>"]
MSET = ["std::multiset<int>", "std::unordered_multiset<int>", "arpc::flat_multiset<int>"]
MAP = ["std::map<int,char>", "std::unordered_map<int,char>", "arpc::flat_map<int,char>", "std::map<std::string,agg>"]
MMAP = ["std::multimap<int,char>", "std::unordered_multimap<int,char>", "arpc::flat_multimap<int,char>"]
ASSOC = SET + MSET + MAP + MMAP
SEQ = [VEC, STR, LST, DEQ, "std::vector<bool>", "std::vector<agg>", "std::vector<std::set<int>>"]
NOTC = ["int", "int*", "void*", "agg", "plain", "std::pair<int,int>", "std::tuple<int>", "std::optional<int>", "std::unique_ptr<int>", "ec", "std::function<void()>"]
UNIV = SEQ + [ARR, "int[4]", SV, "std::forward_list<int>"] + ASSOC + NOTC + ["own_range", "own_crange", "badres", "int[2][3]"]


def trait_claims(tier):
    out = []

    def tab(trait, yes, where, universe, what):
        for T in universe:
            want = T in yes
            out.append(("%s<%s>" % (trait, T), "%st::%s_v<%s>" % ("" if want else "!", trait, T), what % ("is" if want else "is not"), where))
            out.append(("%s<%s>::value" % (trait, T), "%st::%s<%s>::value" % ("" if want else "!", trait, T), what % ("is" if want else "is not"), where))

    iterable = SEQ + [ARR, "int[4]", SV, "std::forward_list<int>", "int[2][3]"] + ASSOC
    tab("is_iterable", iterable + ["own_range", "own_crange"], CT, UNIV, "it %s iterable")
    tab("is_const_iterable", iterable + ["own_crange"], CT, UNIV, "it %s iterable when const")
    tab("is_associative", ASSOC, CT, UNIV, "it %s associative")
    tab("is_map", MAP + MMAP, CT, UNIV, "it %s a map")
    tab("is_set", SET + MSET, CT, UNIV, "it %s a set")
    tab("is_multi_key_associative", MSET + MMAP, CT, ASSOC + SEQ + ["int", "agg"], "it %s a container of repeated keys")
    contig = [VEC, STR, ARR, SV, "int[4]", "int[2][3]", "std::vector<agg>", "std::vector<std::set<int>>"] + [x for x in ASSOC if "flat" in x]
    tab("is_contiguous_sequence", contig, CT, UNIV, "it %s contiguous in memory")
    resv = [VEC, STR, "std::vector<bool>", "std::vector<agg>", "std::vector<std::set<int>>"] + [x for x in ASSOC if "flat" in x or "unordered" in x] + ["own_crange"]
    tab("can_reserve_capacity", resv, CT, UNIV, "its capacity %s reservable")
    tab("can_be_resized", SEQ + ["std::forward_list<int>", "own_crange"], CT, UNIV, "it %s resizable")
    stat = [ARR, "int[4]", "int[2][3]", "std::pair<int,int>", "std::tuple<int>"]
    tab("has_static_size", stat, CT, UNIV, "its size %s known at compile time")
    out += [("own-assoc", "t::is_associative_v<own_assoc> && t::is_map_v<own_assoc> && !t::is_set_v<own_assoc>", "a map's elements are something else than its keys", CT),
            ("own-multi", "t::is_set_v<own_multi> && !t::is_map_v<own_multi>", "a set's elements are its keys", CT),
            ("own-slice", "!t::is_contiguous_sequence_v<own_slice>", "data() must point to the elements themselves", CT)]
    for q in ("const %s", "%s&", "const %s&", "%s&&"):
        for T in (ARR, "std::pair<int,int>", "std::tuple<int>"):
            out.append(("has_static_size<%s>" % (q % T), "t::has_static_size_v<%s>" % (q % T), "qualifiers do not matter", CT))
        for T in (VEC, STR, ARR):
            out.append(("is_contiguous_sequence<%s>" % (q % T), "t::is_contiguous_sequence_v<%s>" % (q % T), "qualifiers do not matter", CT))
    for T, n in (("std::array<int,0>", 0), ("std::array<agg,7>", 7), ("std::tuple<>", 0), ("std::tuple<int,char,agg,int>", 4), ("std::pair<int,agg>", 2), ("int[9]", 9), ("int[2][3]", 2)):
        for q in ("%s", "const %s&", "%s&"):
            X = q % T if "[" not in T or q == "%s" else "std::add_lvalue_reference_t<%s>" % T
            out.append(("static_size<%s>" % X, "t::static_size_v<%s> == %d" % (X, n), "the number of elements is %d" % n, CT))

    sc = ["bool", "char", "signed char", "unsigned char", "wchar_t", "char16_t", "char32_t", "short", "unsigned", "long", "unsigned long long", "float", "double", "long double",
          "ec", "eu", "e8", "ei64", "std::byte", "const int", "volatile ec"]
    nsc = ["int*", "void*", "std::nullptr_t", "int&", "const int&", "int[3]", "agg", "plain", "un", "std::string", "void", "int plain::*", "void(*)()", "std::chrono::seconds", "std::atomic<int>"]
    tab("is_bit_transferrable_scalar", sc, TT, sc + nsc, "its bits %s transferrable as they are")
    ag = ["agg", "agg2", "empty", "ptrs", "std::array<int,2>", "const agg"]
    nag = ["un", "virt", "ader", "priv", "nodefault", "int", "int[3]", "std::string", "std::pair<int,int>", "int*", "ec", "der"]
    tab("is_bindable_aggregate", ag, TT, ag + nag, "it %s an aggregate that can be split into its fields")
    for T, U in (("const int&", "int"), ("volatile int", "int"), ("const std::pair<const int, const char>&", "std::pair<int,char>"), ("std::pair<const int&, char&&>", "std::pair<int,char>"),
                 ("std::tuple<const int, const std::string&, char>", "std::tuple<int,std::string,char>"), ("const std::tuple<>&", "std::tuple<>"), ("std::vector<const int*>", "std::vector<const int*>"), ("const agg", "agg")):
        out.append(("writable_value_type<%s>" % T, "same<t::writable_value_type_t<%s>, %s>" % (T, U), "a temporary to decode into has type " + U, TT))
    for T, U in (("const volatile int&&", "int"), ("int* const", "int*"), ("const int*", "const int*"), ("const agg&", "agg")):
        out.append(("remove_cvref<%s>" % T, "same<t::remove_cvref_t<%s>, %s>" % (T, U), "it is " + U, TT))
    out.append(("endian", "t::target_is_little_endian == (__BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__) && t::target_is_big_endian == (__BYTE_ORDER__ == __ORDER_BIG_ENDIAN__)", "the target byte order", TT))
    D = "t::member_data_pointer_traits<&%s>"
    for ptr, cls, ty in (("M::f", "M", "int"), ("M::g", "M", "const double"), ("agg::b", "agg", "std::string")):
        d = D % ptr
        out.append(("data<%s>" % ptr, "same<%s::class_type, %s> && same<%s::data_type, %s> && %s::data_ptr == &%s && same<%s::data_ptr_type, decltype(&%s)>" % (d, cls, d, ty, d, ptr, d, ptr), "class, type and pointer of the data member", TT))
    F = "t::member_function_pointer_traits<&%s>"
    for ptr, const, ret, sig, args, refs, rt in (
            ("M::a", False, "void", "void()", "", "", ""), ("M::b", False, "int", "int(int)", "int", "const int&", "int"),
            ("M::c", True, "const std::string&", "const std::string&(const std::string&, int&&) const", "std::string, int", "const std::string&, const int&", "const std::string&"),
            ("M::e", False, "void", "void(const std::string&, agg&&, int)", "std::string, agg, int", "const std::string&, const agg&, const int&", ""),
            ("M::d", True, "void", "void(std::string, const int*) const", "std::string, const int*", "const std::string&, const int* const&", "")):
        f = F % ptr
        out += [("method<%s>.const" % ptr, "%s::is_const == %s" % (f, str(const).lower()), "constness of the method", TT),
                ("method<%s>.ptr" % ptr, "%s::method_ptr == &%s && same<%s::method_ptr_type, decltype(&%s)> && same<%s::class_type, M>" % (f, ptr, f, ptr, f), "pointer and class", TT),
                ("method<%s>.type" % ptr, "same<%s::method_type, %s> && same<%s::return_type, %s>" % (f, sig, f, ret), "signature and result", TT),
                ("method<%s>.args" % ptr, "same<%s::args_tuple_type, std::tuple<%s>>" % (f, args), "arguments as values, in order", TT),
                ("method<%s>.refs" % ptr, "same<%s::args_ref_tuple_type, std::tuple<%s>>" % (f, refs), "arguments as constant references, in order", TT),
                ("method<%s>.ret" % ptr, "same<%s::return_tuple_type, std::tuple<%s>>" % (f, rt), "result as a tuple, empty for void", TT)]

    fields = ["plain", "der", "dercust", "dercust2", "dyn", "dyn2", "tmpl<int>", "cust", "onlyfields", "custcust"]
    cust = ["owncust", "cust", "cust2", "custcust", "nosave", "noload"]
    un = fields + ["owncust", "cust2", "nosave", "noload", "agg", "int", "std::string"]
    tab("has_field_descriptors", [x for x in un if x not in ("owncust", "agg", "int", "std::string")], ST, un, "it %s declaring fields")
    tab("has_base_classes", [x for x in un if x not in ("agg", "int", "std::string", "onlyfields", "owncust")], ST, un, "it %s declaring bases")
    tab("has_custom_serialization", cust, ST, un, "it %s itself declaring custom serialization")
    tab("can_be_serialized", [x for x in un if x not in ("agg", "int", "std::string")], ST, un, "it %s a class with serialization of its own")
    for T, v in (("cust", 3), ("cust2", 4), ("owncust", 5), ("custcust", 9), ("plain", 0), ("dercust", 0), ("agg", 0), ("int", 0)):
        out.append(("custom_version<%s>" % T, "t::get_custom_serialization_version<%s>::value == %d" % (T, v), "its custom serialization version is %d" % v, ST))
        out.append(("custom_version_v<%s>" % T, "(t::get_custom_serialization_version_v<%s> != 0) == %s" % (T, str(v != 0).lower()), "it has a custom version or not", ST))
    for T, fs, bs in (("plain", "&plain::p", ""), ("der", "&der::q", "plain"), ("dercust2", "&dercust2::z", "cust, plain, cust2"), ("cust", "", ""), ("agg", "", ""), ("dyn", "&dyn::v", "arpc::dynamic_base_class"), ("dyn2", "&dyn2::w", "dyn, plain")):
        out.append(("fields<%s>" % T, "same<t::get_field_descriptors_t<%s>, arpc::mpt::pack<%s>>" % (T, "arpc::field_descriptor<%s>" % fs if fs else ""), "its fields, in order", ST))
        out.append(("bases<%s>" % T, "same<t::get_base_classes_t<%s>, arpc::mpt::pack<%s>>" % (T, bs), "its bases, in order", ST))
    out += [("dynamic:plain", "!arpc::is_dynamic<plain>::value && !arpc::is_dynamic<der>::value && !arpc::is_dynamic<polyser>::value && !arpc::is_dynamic<poly>::value && !arpc::is_dynamic<agg>::value && !arpc::is_dynamic<int>::value", "classes without a dynamic base are not dynamic", SB),
            ("dynamic:dyn", "arpc::is_dynamic<dyn>::value && arpc::is_dynamic<dyn2>::value && arpc::is_dynamic<arpc::dynamic_base_class>::value", "classes with a dynamic base are dynamic", SB),
            ("dynamic:single", "std::is_convertible_v<dyn2*, arpc::dynamic_base_class*>", "a class with a dynamic base gets no second dynamic_base_class", SB),
            ("dynamic:bases", "same<dyn2::dynamic_base_classes, arpc::mpt::pack<dyn>> && same<plain::dynamic_base_classes, arpc::mpt::pack<>>", "dynamic_base_classes lists exactly the dynamic bases", SB),
            ("version:zero", "!@struct z { ARPC_CUSTOM_SERIALIZATION_VERSION(0); };", "a custom serialization version of zero must be rejected", SB),
            ("version:max", "@struct z { ARPC_CUSTOM_SERIALIZATION_VERSION(0xffffffffu); }; static_assert(t::get_custom_serialization_version<z>::value == 0xffffffffu);", "every other version is kept as given", SB)]
    # The factories.
    out += [("factory:" + n, e, w, TF) for n, e, w in (
        ("method", "has_go_v<G, int(int)> && !has_go_v<G, void(int)> && !has_go_v<G, int(agg)> && !has_go_v<G, int()> && !has_go_v<agg, int(int)> && !has_go_v<const G, int(int)>", "the method checker looks at result, arguments and constness"),
        ("method-private", "!has_go_v<GP, int(int)>", "a method that cannot be called is not there"),
        ("method-inherited", "has_go_v<GD, int(int)>", "inherited methods count"),
        ("const-method", "has_cgo_v<G, char(int, int)> && !has_ncgo_v<G, int(int)> && !has_cgo_v<agg, char(int, int)>", "the const method checker finds only methods callable on const objects"),
        ("type", "has_ty_v<G> && !has_ty_v<agg> && !has_ty_v<int> && !has_ty_v<GP>", "the nested type checker finds accessible types only"),
        ("constant", "has_k_v<G, int> && !has_k_v<G, long> && !has_k_v<agg, int> && !has_k_v<GN, int>", "the nested constant checker looks at the exact type and at constness"))]
    return out


FPRE = PRE + '''
#include "arpc/traits/trait_factories.h"
struct G { int go(int); char cgo(int, int) const; using ty = int; static constexpr int k = 1; };
struct GP { private: int go(int); using ty = int; };
struct GD : G {};
struct GN { static int k; };
ARPC_MAKE_METHOD_CHECKER(has_go, go);
ARPC_MAKE_CONST_METHOD_CHECKER(has_cgo, cgo);
ARPC_MAKE_CONST_METHOD_CHECKER(has_ncgo, go);
ARPC_MAKE_NESTED_TYPE_CHECKER(has_ty, ty);
ARPC_MAKE_NESTED_CONSTANT_CHECKER(has_k, k);
'''


def c12(rep, tier):
    witness.decide(rep, "codec-matrix", PRE, codec_claims(tier), BH)
    witness.decide(rep, "traits", FPRE, trait_claims(tier), CT)
    rep.require(40, "serializable categories", len(GOOD))
    rep.note("types", "%d types that must be accepted by both codecs, %d that must be rejected by both; overload resolution must find exactly one candidate for each" % (len(GOOD), len(BAD)))
