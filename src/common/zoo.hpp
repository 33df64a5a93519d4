// The type zoo: every kind of type the README declares serializable.
#pragma once
#include "ref.hpp"

namespace zoo
{
using namespace ref;

enum class E8 : std::uint8_t { a, b };
enum class E16 : std::int16_t { a, b };
enum class E32 : std::uint32_t { a, b };
enum class E64 : std::int64_t { a, b };
enum EU : unsigned short { eu_a, eu_b };

#define TIE(...)                                                                \
    static auto tie(auto & self)                                                \
    {                                                                           \
        return [&](auto &... m) { return std::tie(m...); }(__VA_ARGS__);        \
    }
#define M(x) self.x

struct Pod // contiguous, memcpy-able
{
    std::int32_t a;
    std::uint32_t b;
    TIE(M(a), M(b))
};
struct Pod8 // one byte members only
{
    std::uint8_t a;
    std::int8_t b;
    char c;
    std::byte d;
    TIE(M(a), M(b), M(c), M(d))
};
struct PodMix
{
    std::uint16_t a;
    std::uint8_t b;
    std::int8_t c;
    std::int32_t d;
    double e;
    TIE(M(a), M(b), M(c), M(d), M(e))
};
struct Padded // padding between and after the members
{
    char a;
    std::int64_t b;
    std::uint16_t c;
    TIE(M(a), M(b), M(c))
};
struct TailPadded
{
    std::uint32_t a;
    std::uint8_t b;
    TIE(M(a), M(b))
};
struct NestedPod
{
    Pod p;
    PodMix q;
    TIE(M(p), M(q))
};
struct NestedPadded
{
    TailPadded p;
    std::uint8_t q;
    Padded r;
    TIE(M(p), M(q), M(r))
};
struct Person
{
    std::string name;
    std::int32_t age;
    std::vector<std::string> tags;
    TIE(M(name), M(age), M(tags))
};
struct Empty
{
    static auto tie(auto &) { return std::tuple<>{}; }
};
struct WithEmpty
{
    std::int32_t a;
    [[no_unique_address]] Empty e;
    std::uint16_t b;
    TIE(M(a), M(e), M(b))
};
struct ArrayOfEmpty
{
    std::array<Empty, 2> e;
    std::uint8_t b;
    TIE(M(e), M(b))
};
struct OnlyOne
{
    std::uint64_t x;
    TIE(M(x))
};
struct Enums
{
    E8 a;
    E16 b;
    E32 c;
    E64 d;
    EU e;
    TIE(M(a), M(b), M(c), M(d), M(e))
};
struct CArrays
{
    using serialize = zb::members<3>;
    std::int16_t a[3];
    std::string b[2];
    Pod c[2];
    TIE(M(a), M(b), M(c))
};
struct Big12
{
    using serialize = zb::members<12>; // std::optional of a scalar defeats the counting
    std::uint8_t a;
    std::string b;
    std::int64_t c;
    std::array<std::uint16_t, 3> d;
    std::optional<std::int32_t> e;
    float f;
    std::pair<std::uint8_t, std::uint32_t> g;
    std::vector<Pod> h;
    E16 i;
    std::bitset<11> j;
    std::map<std::uint8_t, std::string> k;
    std::variant<std::uint16_t, std::string> l;
    TIE(M(a), M(b), M(c), M(d), M(e), M(f), M(g), M(h), M(i), M(j), M(k), M(l))
};
class Private
{
    friend zpp::bits::access;
    using serialize = zb::members<3>;
    std::string name;
    std::int32_t age{};
    std::uint8_t flag{};

public:
    Private() {}
    TIE(M(name), M(age), M(flag))
};
class PrivatePod
{
    friend zpp::bits::access;
    using serialize = zb::members<2>;
    std::uint32_t a{};
    std::uint32_t b{};

public:
    PrivatePod() = default;
    TIE(M(a), M(b))
};
struct Explicit
{
    constexpr static auto serialize(auto & archive, auto & self)
    {
        return archive(self.b, self.a);
    }
    std::uint32_t a;
    std::string b;
    static auto tie(auto & self) { return std::tie(self.b, self.a); }
};
struct ExplicitPod // trivially copyable but explicitly serialized in another order
{
    constexpr static auto serialize(auto & archive, auto & self)
    {
        return archive(self.b, self.a);
    }
    std::uint32_t a;
    std::uint32_t b;
    static auto tie(auto & self) { return std::tie(self.b, self.a); }
};
struct AsBytes
{
    constexpr static auto serialize(auto & archive, auto & self)
    {
        return archive(zb::as_bytes(self));
    }
    std::uint8_t a;
    std::uint8_t b;
    std::uint8_t c;
    TIE(M(a), M(b), M(c))
};
struct Outside
{
    Outside() {}
    std::uint16_t a{};
    std::vector<std::uint8_t> b;
    TIE(M(a), M(b))
};
auto serialize(const Outside &) -> zb::members<2>;
struct OutsideExplicit
{
    std::string a;
    std::uint64_t b{};
    TIE(M(a), M(b))
};
constexpr auto serialize(auto & archive, OutsideExplicit & s)
{
    return archive(s.a, s.b);
}
constexpr auto serialize(auto & archive, const OutsideExplicit & s)
{
    return archive(s.a, s.b);
}
struct WithVarints
{
    zb::vint32_t a;
    zb::vuint64_t b;
    zb::vsint32_t c;
    zb::vsint64_t d;
    std::uint16_t e;
    zb::vint64_t f;
    zb::vuint32_t g;
    TIE(M(a), M(b), M(c), M(d), M(e), M(f), M(g))
};
struct WithBe
{
    zb::numbers::big_endian<std::uint16_t> a;
    std::uint16_t b;
    zb::numbers::big_endian<std::int32_t> c;
    zb::numbers::big_endian<std::uint64_t> d;
    std::uint8_t e;
    TIE(M(a), M(b), M(c), M(d), M(e))
};
struct Tree
{
    std::int32_t value;
    std::vector<Tree> nodes;
    TIE(M(value), M(nodes))
};
inline void gen(Rng & r, Tree & v, G g)
{
    ref::gen(r, v.value, g);
    v.nodes.clear();
    if (g.depth < 4) {
        v.nodes.resize(r.below(3));
        for (auto & n : v.nodes) gen(r, n, g.deeper());
    }
}
struct Node
{
    zb::optional_ptr<Node> left;
    std::uint32_t value{};
    zb::optional_ptr<Node> right;
    TIE(M(left), M(value), M(right))
};
struct ListNode
{
    using serialize = zb::members<2>;
    std::uint8_t value{};
    std::optional<std::unique_ptr<ListNode>> next;
    TIE(M(value), M(next))
};
} // namespace zoo
namespace ref
{
template <> struct dynamic<zoo::Node> : std::false_type {};
template <> struct dynamic<zoo::ListNode> : std::false_type {};
template <> struct dynamic<zoo::Tree> : std::true_type {};
} // namespace ref
namespace zoo
{
// variants with declared identifiers
inline WireId lit_id(std::string_view s)
{
    WireId w{};
    w.n = s.size();
    std::memcpy(w.bytes, s.data(), s.size());
    return w;
}
using namespace zpp::bits::literals;
struct IdA4
{
    using serialize_id = zb::id<"id-A"_s>;
    static WireId wire_id() { return lit_id("id-A"); }
    std::uint32_t x;
    TIE(M(x))
};
struct IdB4
{
    using serialize_id = zb::id<"id-B"_s>;
    static WireId wire_id() { return lit_id("id-B"); }
    std::string s;
    TIE(M(s))
};
struct IdA1
{
    using serialize_id = zb::id<std::uint8_t(7)>;
    static WireId wire_id() { return lit_id("\x07"); }
    std::uint16_t x;
    TIE(M(x))
};
struct IdB1
{
    using serialize_id = zb::id<std::uint8_t(200)>;
    static WireId wire_id() { return lit_id("\xc8"); }
    std::vector<std::uint8_t> s;
    TIE(M(s))
};
struct IdA2
{
    using serialize_id = zb::id<std::uint16_t(0x1234)>;
    static WireId wire_id() { return lit_id("\x34\x12"); }
    Pod x;
    TIE(M(x))
};
struct IdB2
{
    using serialize_id = zb::id<std::uint16_t(0x3412)>;
    static WireId wire_id() { return lit_id("\x12\x34"); }
    std::string s;
    TIE(M(s))
};
struct IdA8
{
    using serialize_id = zb::id<"person_1"_s>;
    static WireId wire_id() { return lit_id("person_1"); }
    std::uint8_t x;
    TIE(M(x))
};
struct IdB8
{
    using serialize_id = zb::id<"person_2"_s>;
    static WireId wire_id() { return lit_id("person_2"); }
    std::string s;
    TIE(M(s))
};
struct IdA5
{
    using serialize_id = zb::id<"v1::p"_s>;
    static WireId wire_id() { return lit_id("v1::p"); }
    std::uint32_t x;
    TIE(M(x))
};
struct IdB5
{
    using serialize_id = zb::id<"v2::p"_s>;
    static WireId wire_id() { return lit_id("v2::p"); }
    Padded s;
    TIE(M(s))
};
struct IdC5
{
    using serialize_id = zb::id<"v1::q"_s>;
    static WireId wire_id() { return lit_id("v1::q"); }
    std::uint8_t s;
    TIE(M(s))
};

template <typename... Ts>
struct list
{
    static constexpr std::size_t size = sizeof...(Ts);
};
using U8V = std::vector<std::uint8_t>;

// X(TYPE): the zoo. Types whose object representation admits every bit pattern
// come first (used for hostile bytes as well), the ones containing bool after.
using Zoo = list<
    // scalars
    std::int8_t, std::uint8_t, char, std::byte, std::int16_t, std::uint16_t, std::int32_t, std::uint32_t,
    std::int64_t, std::uint64_t, float, double, char16_t, char32_t, wchar_t, E8, E16, E32, E64, EU,
    // fixed arrays
    std::array<std::uint16_t, 3>, std::array<std::uint8_t, 7>, std::array<std::string, 2>, std::array<Pod, 2>,
    std::array<Padded, 2>, std::array<std::array<std::int32_t, 2>, 2>, std::array<E16, 3>, std::array<Empty, 3>, std::vector<ArrayOfEmpty>,
    // sequences
    std::string, std::u16string, std::vector<std::byte>, U8V, std::vector<std::uint32_t>, std::vector<double>,
    std::vector<E16>, std::vector<Pod>, std::vector<Pod8>, std::vector<Padded>, std::vector<TailPadded>, std::vector<NestedPod>,
    std::vector<NestedPadded>, std::vector<std::string>, std::vector<std::vector<std::uint16_t>>, std::vector<Person>,
    std::vector<std::pair<std::uint8_t, std::uint32_t>>, std::vector<std::tuple<std::uint16_t, std::string>>,
    std::vector<std::optional<std::uint16_t>>, std::vector<std::unique_ptr<std::uint32_t>>, std::vector<std::array<std::uint16_t, 3>>,
    std::vector<std::variant<std::uint8_t, std::string>>, std::vector<std::bitset<10>>, std::vector<zb::vint32_t>,
    std::vector<zb::vsint64_t>, std::vector<ExplicitPod>, std::vector<PrivatePod>, std::vector<WithEmpty>, std::vector<Private>,
    std::vector<zb::numbers::big_endian<std::uint32_t>>, std::vector<zb::sized_t<U8V, std::uint16_t>>,
    std::deque<std::uint16_t>, std::deque<std::string>, std::list<std::uint32_t>, std::list<Person>,
    // associative
    std::set<std::uint32_t>, std::set<std::string>, std::multiset<std::int16_t>, std::unordered_set<std::uint64_t>,
    std::map<std::uint32_t, std::string>, std::map<std::string, std::vector<std::uint16_t>>, std::map<E8, Pod>,
    std::map<std::uint8_t, std::map<std::uint16_t, std::string>>, std::multimap<std::uint8_t, std::uint32_t>,
    std::unordered_map<std::string, std::int32_t>, std::map<std::pair<std::uint8_t, std::uint16_t>, Padded>,
    // tuples
    std::pair<std::int32_t, std::string>, std::pair<std::uint8_t, std::uint64_t>, std::tuple<>, std::tuple<std::uint8_t, std::uint32_t>,
    std::tuple<std::int32_t, double, std::string, Pod>, std::tuple<std::tuple<std::uint8_t>, std::pair<std::uint16_t, std::string>>,
    // optionals and pointers
    std::optional<std::int32_t>, std::optional<std::string>, std::optional<std::optional<std::uint16_t>>, std::optional<Pod>,
    std::optional<std::vector<std::string>>, zb::optional_ptr<std::uint32_t>, zb::optional_ptr<Person>,
    std::unique_ptr<std::uint16_t>, std::unique_ptr<Person>, std::shared_ptr<std::string>, std::optional<std::unique_ptr<std::uint8_t>>,
    // variants
    std::variant<std::int32_t, std::string, double>, std::variant<Pod, Padded, U8V>, std::variant<IdA1, IdB1>, std::variant<IdA2, IdB2>,
    std::variant<IdA4, IdB4>, std::variant<IdA8, IdB8>, std::variant<IdA5, IdB5, IdC5>, std::variant<std::monostate, std::uint32_t>,
    // bitsets, varints, numbers
    std::bitset<1>, std::bitset<7>, std::bitset<8>, std::bitset<9>, std::bitset<31>, std::bitset<64>, std::bitset<65>, std::bitset<200>,
    zb::vint32_t, zb::vuint32_t, zb::vint64_t, zb::vuint64_t, zb::vsint32_t, zb::vsint64_t, WithVarints,
    zb::numbers::big_endian<std::uint16_t>, zb::numbers::big_endian<std::int64_t>, WithBe,
    // user types
    Pod, Pod8, PodMix, Padded, TailPadded, NestedPod, NestedPadded, Person, Empty, WithEmpty, OnlyOne, Enums, CArrays, Big12, Private,
    PrivatePod, Explicit, ExplicitPod, Outside, OutsideExplicit, Tree, Node, ListNode,
    // sized items
    zb::vector1b<std::uint16_t>, zb::vector2b<std::string>, zb::vector8b<Pod>, zb::string1b, zb::string2b,
    zb::sized_t<std::vector<std::uint32_t>, zb::vsize_t>, zb::sized_t<std::map<std::uint8_t, std::string>, std::uint16_t>,
    zb::native_vector<std::uint8_t>, zb::sized_t<std::list<std::uint16_t>, std::uint8_t>, zb::sized_t<std::vector<std::vector<std::uint8_t>>, std::uint8_t>,
    // containing bool
    bool, std::vector<std::pair<bool, std::uint8_t>>, std::optional<bool>, std::array<bool, 3>, std::tuple<bool, std::uint32_t>>;
inline constexpr std::size_t n_bool = 5;
static_assert(std::endian::native == std::endian::little);
#undef M
#undef TIE

template <typename T>
std::string type_name()
{
    std::string s = __PRETTY_FUNCTION__;
    auto b = s.find("T = ");
    auto e = s.rfind(']');
    s = s.substr(b + 4, e - b - 4);
    auto cut = [&](std::string_view w) {
        for (std::size_t p; (p = s.find(w)) != s.npos;) s.erase(p, w.size());
    };
    for (auto w : {"std::__1::", "std::__cxx11::", "std::", "zpp::bits::", "zoo::", "> [with T", ", std::allocator<"}) cut(w);
    if (s.size() > 90) s = s.substr(0, 70) + "#" + std::to_string(mon::hash_str(s) % 1000000);
    return s;
}

// Calls f.template operator()<T, Index>() for the types of this part.
template <std::size_t Part, std::size_t Parts, typename F, typename... Ts>
void each(list<Ts...>, F && f)
{
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        (
            [&] {
                if constexpr (I % Parts == Part) f.template operator()<Ts, I>();
            }(),
            ...);
    }(std::make_index_sequence<sizeof...(Ts)>{});
}
} // namespace zoo
