// More types: messages of protocols (protobuf and the user's own), serialize
// functions that use sized, unsized, bytes and known_id, views, and nestings
// that the first zoo lacks.
#pragma once
#include "pbref.hpp"
#include "zoo.hpp"

namespace pbz
{
template <typename T>
concept tied_message = ref::tied<T> && message<T>;
} // namespace pbz

namespace zoo2
{
using namespace ref;
using namespace zpp::bits::literals;
// Set by the encoder when a message is longer than its prefix can say: such a
// write is refused, so the case is not used here.
inline bool oversized = false;
inline void put_message(Bytes & o, const Bytes & b, Cfg c)
{
    if (put_size(o, b.size(), c) != b.size()) oversized = true;
    o.insert(o.end(), b.begin(), b.end());
}
template <typename T>
Bytes encode(const T & v, Cfg c)
{
    oversized = false;
    return ref::encode(v, c);
}

// Lengths around the edges of every prefix size.
inline std::size_t length(Rng & r, G g)
{
    static constexpr std::size_t edge[] = {100, 111, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 240, 247, 250, 251, 252, 253, 254, 255, 256, 257};
    if (g.depth < 2 && g.max_items > 300 && r.chance(1, 200)) return 16370 + r.below(20);
    if (g.depth < 3 && r.chance(1, 4)) return std::min(g.max_items, edge[r.below(std::size(edge))]);
    return r.below(std::min<std::size_t>(g.max_items, 12));
}
inline std::string text(Rng & r, std::size_t n)
{
    std::string s(n, 0);
    for (auto & c : s) c = char(r.next());
    return s;
}

// The user's own protocol: members in the opposite order.
struct reversed
{
    constexpr zb::errc operator()(auto & archive, auto & item) const { return archive(item.b, item.a); }
    constexpr zb::errc operator()(auto & archive, auto & item, auto) const { return archive(item.b, item.a); }
};
struct Proto
{
    using serialize = zb::protocol<reversed{}, 2>;
    std::uint32_t a;
    std::string b;
    static auto tie(auto & x) { return std::tie(x.b, x.a); }
};
struct ProtoPod // trivially copyable, and still not memcpy-able
{
    using serialize = zb::protocol<reversed{}, 2>;
    std::uint32_t a;
    std::uint32_t b;
    static auto tie(auto & x) { return std::tie(x.b, x.a); }
};
struct ProtoHold
{
    using serialize = zb::protocol<reversed{}, 2>;
    std::vector<Proto> a;
    Proto b;
    static auto tie(auto & x) { return std::tie(x.b, x.a); }
};
template <typename T>
concept proto = ref::tied<T> && (std::same_as<T, Proto> || std::same_as<T, ProtoPod> || std::same_as<T, ProtoHold>);
template <proto T>
void enc(Bytes & o, const T & v, Cfg c)
{
    Bytes b;
    std::apply([&](auto &... m) { (enc(b, m, c), ...); }, T::tie(v));
    put_message(o, b, c);
}
inline void gen(Rng & r, Proto & v, G g)
{
    ref::gen(r, v.a, g);
    v.b = text(r, length(r, g));
}

// serialize functions with wrappers
struct Counted
{
    std::vector<std::uint16_t> v;
    std::list<std::uint8_t> w;
    constexpr static zb::errc serialize(auto & archive, auto & self)
    {
        zb::vuint32_t n{std::uint32_t(self.v.size())};
        std::uint8_t k = std::uint8_t(self.w.size());
        if (zb::errc e = archive(n, k); zb::failure(e)) return e;
        if constexpr (std::remove_cvref_t<decltype(archive)>::kind() == zb::kind::in) {
            if (n > 5000) return std::errc::message_size;
            self.v.resize(n);
            self.w.resize(k);
        }
        return archive(zb::unsized(self.v), zb::unsized(self.w));
    }
    static auto tie(auto & x) { return std::tie(x.v, x.w); }
};
inline void gen(Rng & r, Counted & v, G g)
{
    v.v.resize(length(r, g) % 400);
    v.w.resize(r.below(20));
    for (auto & x : v.v) ref::gen(r, x, g);
    for (auto & x : v.w) ref::gen(r, x, g);
}
inline void enc(Bytes & o, const Counted & v, Cfg c)
{
    put_varint(o, v.v.size());
    o.push_back((unsigned char)v.w.size());
    for (auto & x : v.v) ref::enc(o, x, c);
    for (auto & x : v.w) ref::enc(o, x, c);
}
struct Raw
{
    std::vector<char> v;
    std::array<std::uint8_t, 5> a;
    constexpr static zb::errc serialize(auto & archive, auto & self)
    {
        std::uint16_t n = std::uint16_t(self.v.size());
        if (zb::errc e = archive(n); zb::failure(e)) return e;
        if constexpr (std::remove_cvref_t<decltype(archive)>::kind() == zb::kind::in) {
            if (n > 5000) return std::errc::message_size;
            self.v.resize(n);
        }
        return archive(zb::bytes(self.v), zb::bytes(self.a), zb::bytes(self.a, 3));
    }
    static auto tie(auto & x) { return std::tie(x.v, x.a); }
};
inline void enc(Bytes & o, const Raw & v, Cfg c)
{
    ref::enc(o, std::uint16_t(v.v.size()), c);
    for (auto & x : v.v) ref::enc(o, x, c);
    for (auto & x : v.a) o.push_back(x);
    for (int i = 0; i < 3; ++i) o.push_back(v.a[std::size_t(i)]);
}
struct SizedIn
{
    std::vector<std::uint32_t> a;
    std::string b;
    std::map<std::uint8_t, std::string> c;
    std::vector<std::string> d;
    std::vector<std::uint8_t> e;
    constexpr static zb::errc serialize(auto & archive, auto & self)
    {
        return archive(zb::sized<std::uint16_t>(self.a), zb::sized<zb::vsize_t>(self.b), zb::sized<std::uint8_t>(self.c), zb::sized<std::uint64_t>(self.d), zb::sized<std::uint32_t>(self.e));
    }
    static auto tie(auto & x) { return std::tie(x.a, x.b, x.c, x.d, x.e); }
};
inline void gen(Rng & r, SizedIn & v, G g)
{
    g = g.deeper();
    ref::gen(r, v.a, g), ref::gen(r, v.c, g), ref::gen(r, v.d, g), ref::gen(r, v.e, g);
    v.b = text(r, length(r, g));
}
inline void enc(Bytes & o, const SizedIn & v, Cfg c)
{
    auto own = [&](SizeKind k, auto & x) {
        put_size(o, x.size(), {c.big, k});
        for (auto & e : x) ref::enc(o, e, c);
    };
    own(SizeKind::s2, v.a), own(SizeKind::varint, v.b), own(SizeKind::s1, v.c), own(SizeKind::s8, v.d), own(SizeKind::s4, v.e);
}
struct Known
{
    std::variant<zoo::IdA1, zoo::IdB1> v;
    constexpr static zb::errc serialize(auto & archive, auto & self)
    {
        std::byte id{(unsigned char)(self.v.index() ? 200 : 7)};
        if (zb::errc e = archive(id); zb::failure(e)) return e;
        if constexpr (std::remove_cvref_t<decltype(archive)>::kind() == zb::kind::in) return archive(zb::known_id(id, self.v));
        else if (id == std::byte{7}) return archive(zb::known_id<std::uint8_t(7)>(self.v));
        else return archive(zb::known_id<std::uint8_t(200)>(self.v));
    }
    static auto tie(auto & x) { return std::tie(x.v); }
};
inline void enc(Bytes & o, const Known & v, Cfg c)
{
    o.push_back(v.v.index() ? 200 : 7);
    std::visit([&](auto & x) { ref::enc(o, x, c); }, v.v);
}
// A name that says which alternative follows.
struct KnownText
{
    std::variant<zoo::IdA4, zoo::IdB4> v;
    constexpr static zb::errc serialize(auto & archive, auto & self)
    {
        std::array<char, 4> id{'i', 'd', '-', self.v.index() ? 'B' : 'A'};
        if (zb::errc e = archive(id); zb::failure(e)) return e;
        if (id[3] == 'A') return archive(zb::known_id<"id-A"_s>(self.v));
        if (id[3] == 'B') return archive(zb::known_id<"id-B"_s>(self.v));
        return std::errc::bad_message;
    }
    static auto tie(auto & x) { return std::tie(x.v); }
};
inline void enc(Bytes & o, const KnownText & v, Cfg c)
{
    for (auto x : std::array<char, 4>{'i', 'd', '-', v.v.index() ? 'B' : 'A'}) o.push_back((unsigned char)x);
    std::visit([&](auto & x) { ref::enc(o, x, c); }, v.v);
}

// Views of the input (byte archives only).
using View = std::span<const std::byte>;
struct Views
{
    View a, b, c, d, e;
    std::uint16_t f;
    constexpr static zb::errc serialize(auto & archive, auto & self)
    {
        return archive(self.a, zb::sized<std::uint8_t>(self.b), zb::sized<std::uint64_t>(self.c), zb::sized<zb::vsize_t>(self.d), self.f, zb::sized<std::uint32_t>(self.e));
    }
    static auto tie(auto & x) { return std::tie(x.a, x.b, x.c, x.d, x.e, x.f); }
    std::array<View *, 5> all() { return {&a, &b, &c, &d, &e}; }
};
struct OneView
{
    using serialize = zb::members<2>;
    std::uint8_t f;
    View a;
    static auto tie(auto & x) { return std::tie(x.a, x.f); }
    std::array<View *, 1> all() { return {&a}; }
};
struct View8
{
    zb::sized_t<View, std::uint64_t> a;
    static auto tie(auto & x) { return std::tie(x.a); }
    std::array<View *, 1> all() { return {&a}; }
};
struct PairOfViews
{
    std::pair<View, std::vector<View>> p;
    static auto tie(auto & x) { return std::tie(x.p.first); }
    std::vector<View *> all()
    {
        std::vector<View *> r{&p.first};
        for (auto & x : p.second) r.push_back(&x);
        return r;
    }
};
inline const std::vector<std::byte> & pool()
{
    static auto p = [] {
        std::vector<std::byte> v(20000);
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = std::byte(i * 31 + i / 256);
        return v;
    }();
    return p;
}
inline bool same_view(const View & a, const View & b) { return a.size() == b.size() && same_bytes(a.data(), b.data(), a.size()); }
inline void put_view(Bytes & o, const View & v)
{
    for (auto x : v) o.push_back((unsigned char)x);
}
inline View view(Rng & r, G g)
{
    auto n = length(r, g);
    return View{pool()}.subspan(r.below(100), n);
}
template <typename T>
concept views = ref::tied<T> && requires(T & t) { t.all(); };
template <views T>
void gen(Rng & r, T & v, G g)
{
    if constexpr (requires { v.p; }) v.p.second.resize(r.below(4));
    for (auto x : v.all()) *x = view(r, g);
    if constexpr (requires { v.b; })
        if (v.b.size() > 255) v.b = {};
    if constexpr (requires { v.e; })
        if (v.e.size() > 20) v.e = v.e.first(20);
    if constexpr (requires { v.f; }) ref::gen(r, v.f, g);
}
template <views T>
bool eq(const T & a, const T & b)
{
    auto x = const_cast<T &>(a).all(), y = const_cast<T &>(b).all();
    if (x.size() != y.size()) return false;
    for (std::size_t i = 0; i < x.size(); ++i)
        if (!same_view(*x[i], *y[i])) return false;
    if constexpr (requires { a.f; }) return a.f == b.f;
    return true;
}
template <views T>
void enc(Bytes & o, const T & v, Cfg c)
{
    auto own = [&](const View & x, SizeKind k) {
        if (put_size(o, x.size(), {c.big, k}) != x.size()) oversized = true;
        put_view(o, x);
    };
    if constexpr (std::same_as<T, Views>) {
        own(v.a, c.size), own(v.b, SizeKind::s1), own(v.c, SizeKind::s8), own(v.d, SizeKind::varint);
        ref::enc(o, v.f, c);
        own(v.e, SizeKind::s4);
    } else if constexpr (std::same_as<T, OneView>) {
        ref::enc(o, v.f, c);
        own(v.a, c.size);
    } else if constexpr (std::same_as<T, View8>) own(v.a, SizeKind::s8);
    else {
        own(v.p.first, c.size);
        put_size(o, v.p.second.size(), c);
        for (auto & x : v.p.second) own(x, c.size);
    }
}

struct Chars // the same in every byte order
{
    char a;
    std::byte b;
    unsigned char c;
    static auto tie(auto & x) { return std::tie(x.a, x.b, x.c); }
};
struct Mixed // messages among plain members
{
    std::uint8_t a;
    pbz::PInner b;
    std::uint16_t c;
    std::vector<Proto> d;
    pbz::PInts e;
    std::string f;
    static auto tie(auto & x) { return std::tie(x.a, x.b, x.c, x.d, x.e, x.f); }
};

struct LargePadded // 88 bytes, 7 of them padding
{
    std::uint8_t a;
    std::array<std::uint64_t, 9> b;
    std::uint64_t c;
    static auto tie(auto & x) { return std::tie(x.a, x.b, x.c); }
};
struct LargePod
{
    std::array<std::uint32_t, 40> a;
    std::array<zoo::Pod, 7> b;
    static auto tie(auto & x) { return std::tie(x.a, x.b); }
};
struct LargeNested // the padding is two levels below
{
    std::array<LargePadded, 2> a;
    zoo::PodMix b;
    static auto tie(auto & x) { return std::tie(x.a, x.b); }
};
struct alignas(16) Aligned // padding behind the members only because of the alignment
{
    std::uint32_t a;
    std::uint32_t b;
    static auto tie(auto & x) { return std::tie(x.a, x.b); }
};
struct AlignedMember
{
    std::uint64_t a;
    std::uint64_t b;
    alignas(8) std::uint8_t c;
    alignas(4) std::uint16_t d;
    static auto tie(auto & x) { return std::tie(x.a, x.b, x.c, x.d); }
};
struct Thirty
{
    std::uint8_t a0; std::uint16_t a1; std::uint8_t a2; std::uint32_t a3; std::uint8_t a4; std::uint64_t a5; std::uint8_t a6; float a7; std::uint8_t a8; double a9;
    std::uint8_t b0; std::int16_t b1; std::uint8_t b2; std::int32_t b3; std::uint8_t b4; std::int64_t b5; std::uint8_t b6; zoo::E16 b7; std::uint8_t b8; zoo::E64 b9;
    std::uint8_t c0; std::uint16_t c1; std::string c2; std::uint32_t c3; std::uint8_t c4; std::vector<std::uint16_t> c5; std::uint8_t c6; zoo::Pod c7; std::uint8_t c8; std::uint16_t c9;
    static auto tie(auto & x) { return std::tie(x.a0, x.a1, x.a2, x.a3, x.a4, x.a5, x.a6, x.a7, x.a8, x.a9, x.b0, x.b1, x.b2, x.b3, x.b4, x.b5, x.b6, x.b7, x.b8, x.b9, x.c0, x.c1, x.c2, x.c3, x.c4, x.c5, x.c6, x.c7, x.c8, x.c9); }
};
struct CArrays2
{
    using serialize = zb::members<4>;
    std::int16_t a[2][3];
    zoo::Padded b[2];
    std::uint8_t c[5];
    std::vector<std::uint8_t> d[2];
    static auto tie(auto & x) { return std::tie(x.a, x.b, x.c, x.d); }
};
struct CPod // C arrays of bytes and scalars only
{
    using serialize = zb::members<3>;
    std::uint8_t a[3];
    std::uint8_t b;
    std::uint32_t c[2];
    static auto tie(auto & x) { return std::tie(x.a, x.b, x.c); }
};
// A container of the user's own: contiguous and resizable, allocator of its own.
template <typename T>
struct Alloc
{
    using value_type = T;
    Alloc() = default;
    template <typename U>
    Alloc(const Alloc<U> &) {}
    T * allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
    void deallocate(T * p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
    bool operator==(const Alloc &) const = default;
};

using U8V = std::vector<std::uint8_t>;
using Messages = zoo::list<
    Proto, ProtoPod, ProtoHold, std::vector<Proto>, std::array<ProtoPod, 2>, std::vector<ProtoPod>, std::optional<Proto>, std::map<std::uint8_t, Proto>,
    std::variant<std::uint16_t, Proto, pbz::PInts>, std::unique_ptr<ProtoPod>, zb::sized_t<std::vector<Proto>, std::uint8_t>,
    pbz::PInner, pbz::PInts, pbz::PNested, pbz::PMaps, pbz::PStrings, pbz::PFixed, pbz::PTree, pbz::PEmpty, pbz::PPrivate, pbz::POutside, pbz::PSets,
    std::vector<pbz::PInner>, std::vector<pbz::PInts>, std::array<pbz::PInts, 2>, std::pair<pbz::PInts, std::string>, std::optional<pbz::PStrings>,
    std::map<std::uint16_t, pbz::PInner>, std::list<pbz::PInts>, Mixed, std::vector<Mixed>>;
using Wrapped = zoo::list<Counted, Raw, SizedIn, Known, KnownText, std::vector<Counted>, std::optional<SizedIn>, std::vector<Known>, std::pair<Raw, KnownText>>;
using More = zoo::list<
    std::vector<zoo::Empty>, std::vector<std::tuple<>>, std::vector<std::monostate>, std::u8string, std::u32string, std::wstring, std::vector<std::array<std::byte, 4>>, std::vector<Chars>, std::array<Chars, 3>,
    std::vector<std::array<Chars, 2>>, std::deque<Chars>,
    std::vector<std::vector<U8V>>, std::array<zoo::Pod8, 4>, std::multiset<std::string>, std::map<std::uint8_t, std::unique_ptr<std::string>>,
    std::vector<zb::optional_ptr<std::uint16_t>>, std::tuple<U8V, std::optional<std::uint8_t>, std::string>, std::deque<zoo::Padded>, std::list<U8V>,
    std::set<std::pair<std::uint8_t, std::string>>, std::set<zoo::E16>, std::array<zb::vint32_t, 3>, std::array<std::bitset<9>, 2>,
    std::optional<std::tuple<std::uint8_t, std::string>>, std::shared_ptr<zoo::Person>, std::vector<std::shared_ptr<zoo::Padded>>,
    std::variant<std::variant<std::uint8_t, std::string>, std::vector<std::uint32_t>>, std::map<std::string, std::map<std::string, zoo::Person>>,
    std::unordered_map<std::uint32_t, std::vector<zoo::PodMix>>, std::unordered_set<std::string>, std::map<zoo::E16, std::optional<std::string>>,
    std::array<std::optional<std::uint32_t>, 3>, std::pair<std::array<std::string, 2>, std::bitset<17>>, std::tuple<zoo::Node, zoo::Tree, zoo::ListNode>,
    std::vector<std::map<std::uint8_t, std::uint16_t>>, std::unique_ptr<std::vector<std::unique_ptr<std::string>>>, std::vector<zb::string2b>,
    zb::sized_t<std::set<std::uint16_t>, zb::vsize_t>, zb::sized_t<std::deque<std::string>, std::uint16_t>, zb::sized_t<std::unordered_map<std::uint8_t, std::uint32_t>, std::uint32_t>,
    LargePadded, LargePod, LargeNested, std::vector<LargePadded>, std::vector<LargePod>, std::array<LargeNested, 2>, Aligned, std::vector<Aligned>, AlignedMember, std::vector<AlignedMember>, Thirty, std::vector<Thirty>,
    CArrays2, std::vector<CArrays2>, CPod, std::vector<CPod>, std::array<CPod, 2>, std::array<std::uint32_t, 1>, std::array<std::string, 1>, std::array<std::uint64_t, 40>,
    std::vector<std::uint32_t, Alloc<std::uint32_t>>, std::vector<std::string, Alloc<std::string>>, std::basic_string<char, std::char_traits<char>, Alloc<char>>,
    std::set<std::uint32_t, std::greater<>>, std::map<std::string, std::uint16_t, std::greater<>>, std::multimap<std::string, std::string, std::less<>>, std::unordered_multiset<std::uint16_t>, std::unordered_multimap<std::uint8_t, std::string>,
    std::vector<float>, std::vector<std::array<float, 2>>, std::vector<std::int64_t>, std::vector<char32_t>, std::deque<zoo::E64>, std::list<double>, std::optional<zoo::Padded>, std::unique_ptr<zoo::Padded>, std::variant<zoo::Padded, LargePadded>,
    zb::sized_t<U8V, zb::varint<std::uint8_t>>, zb::sized_t<std::string, zb::vsint32_t>, zb::sized_t<std::list<std::string>, zb::varint<std::uint16_t>>, zb::sized_t<std::vector<zoo::Pod8>, zb::varint<std::int16_t, zb::varint_encoding::zig_zag>>,
    zb::sized_t<std::map<std::uint16_t, std::string>, zb::vsint32_t>, std::vector<zb::sized_t<std::string, zb::varint<std::uint8_t>>>, zb::sized_t<std::vector<std::uint32_t>, zb::vuint32_t>>;
using ViewTypes = zoo::list<Views, OneView, View8, PairOfViews>;
template <typename T>
constexpr bool in_list(auto l)
{
    return []<typename... Ts>(zoo::list<Ts...>) { return (std::same_as<T, Ts> || ...); }(l);
}
// Types with long content even when generation is limited.
template <typename T>
constexpr bool long_ones = in_list<T>(Messages{}) || in_list<T>(ViewTypes{}) || in_list<T>(Wrapped{});
// Calls f for the types of every list: more shapes, messages, wrappers, views.
template <std::size_t Part, std::size_t Parts, typename F>
void each(F && f)
{
    zoo::each<Part, Parts>(More{}, f);
    zoo::each<(Part + 3) % Parts, Parts>(Messages{}, f);
    zoo::each<(Part + 5) % Parts, Parts>(Wrapped{}, f);
}
} // namespace zoo2
namespace pbz
{
template <tied_message T>
void gen(Rng & r, T & v, G g)
{
    pgen(r, v, g);
    if constexpr (std::same_as<T, PInner>) v.s = zoo2::text(r, zoo2::length(r, g));
}
template <tied_message T>
bool eq(const T & a, const T & b)
{
    return meq(a, b);
}
template <tied_message T>
void enc(Bytes & o, const T & v, Cfg c)
{
    zoo2::put_message(o, penc(v), c);
}
} // namespace pbz
namespace ref
{
template <pbz::tied_message T> struct dynamic<T> : std::true_type {};
template <zoo2::proto T> struct dynamic<T> : std::true_type {};
template <zoo2::views T> struct dynamic<T> : std::true_type {};
template <> struct dynamic<zoo2::Counted> : std::false_type {};
template <> struct dynamic<zoo2::Raw> : std::false_type {};
template <> struct dynamic<zoo2::SizedIn> : std::true_type {};
} // namespace ref
