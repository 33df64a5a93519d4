// Protobuf reference model: a zoo of messages, and for each of them an encoder,
// an encoder that uses the freedom the format gives, and a decoder, written from
// the protobuf encoding specification and the library's README.
#pragma once
#include "ref.hpp"

namespace pbz
{
using namespace ref;

enum class PE : std::uint32_t { zero, one, two, big = 300, all = 0xffffffff };
enum PEs : int { pe_a, pe_b = 5, pe_neg = -3 };
enum class PE8 : std::uint8_t { a, b = 200 };

#define PTIE(...)                                                               \
    static auto tie(auto & self)                                                \
    {                                                                           \
        return [&](auto &... m) { return std::tie(m...); }(__VA_ARGS__);        \
    }
#define PNUM(...) static constexpr unsigned numbers[] = {__VA_ARGS__};
#define M(x) self.x

struct PScalars
{
    using serialize = zb::protocol<zb::pb{}, 9>;
    zb::vint32_t a;
    zb::vint64_t b;
    zb::vuint32_t c;
    zb::vuint64_t d;
    zb::vsint32_t e;
    zb::vsint64_t f;
    bool g;
    PE h;
    PEs i;
    PTIE(M(a), M(b), M(c), M(d), M(e), M(f), M(g), M(h), M(i))
    PNUM(1, 2, 3, 4, 5, 6, 7, 8, 9)
};
struct PFixed
{
    using serialize = zb::pb_protocol;
    std::uint32_t a;
    std::int32_t b;
    std::uint64_t c;
    std::int64_t d;
    float e;
    double f;
    PTIE(M(a), M(b), M(c), M(d), M(e), M(f))
    PNUM(1, 2, 3, 4, 5, 6)
};
struct PStrings
{
    using serialize = zb::pb_protocol;
    std::string a;
    std::vector<std::byte> b;
    std::vector<unsigned char> c;
    std::vector<std::string> d;
    PTIE(M(a), M(b), M(c), M(d))
    PNUM(1, 2, 3, 4)
};
struct PRepeated
{
    using serialize = zb::protocol<zb::pb{}, 10>;
    std::vector<zb::vint32_t> a;
    std::vector<zb::vuint64_t> b;
    std::vector<zb::vsint32_t> c;
    std::vector<std::uint32_t> d;
    std::vector<double> e;
    std::vector<PE> f;
    std::list<std::int64_t> g;
    std::deque<bool> h;
    std::vector<zb::vsint64_t> i;
    std::vector<PE8> j;
    PTIE(M(a), M(b), M(c), M(d), M(e), M(f), M(g), M(h), M(i), M(j))
    PNUM(1, 2, 3, 4, 5, 6, 7, 8, 9, 10)
};
struct PInner
{
    using serialize = zb::pb_protocol;
    std::string s;
    zb::vint32_t n;
    PTIE(M(s), M(n))
    PNUM(1, 2)
};
struct PInts // trivially copyable
{
    using serialize = zb::pb_protocol;
    zb::vuint32_t x;
    std::uint32_t y;
    PTIE(M(x), M(y))
    PNUM(1, 2)
};
struct PNested
{
    using serialize = zb::pb_protocol;
    zb::vint32_t a;
    PInner b;
    std::vector<PInner> c;
    PInts d;
    std::vector<PInts> e;
    PTIE(M(a), M(b), M(c), M(d), M(e))
    PNUM(1, 2, 3, 4, 5)
};
struct PMaps
{
    using serialize = zb::protocol<zb::pb{}, 7>;
    std::map<zb::vint32_t, std::string> a;
    std::map<std::string, std::uint64_t> b;
    std::map<std::uint32_t, PInner> c;
    std::map<std::string, PE> d;
    std::map<PE, zb::vsint32_t> e;
    std::unordered_map<std::string, std::string> f;
    std::map<std::uint64_t, PInts> g;
    PTIE(M(a), M(b), M(c), M(d), M(e), M(f), M(g))
    PNUM(1, 2, 3, 4, 5, 6, 7)
};
struct PSets
{
    using serialize = zb::pb_protocol;
    std::set<std::uint32_t> a;
    std::set<std::string> b;
    std::set<zb::vuint32_t> c;
    zb::vint32_t d;
    PTIE(M(a), M(b), M(c), M(d))
    PNUM(1, 2, 3, 4)
};
struct PMapped
{
    using serialize = zb::protocol<zb::pb{zb::pb_map<1, 10>{}, zb::pb_map<2, 20>{}, zb::pb_map<4, 300>{}}, 4>;
    zb::vint32_t a;
    std::string b;
    zb::vint32_t c;
    std::vector<std::uint32_t> d;
    PTIE(M(a), M(b), M(c), M(d))
    PNUM(10, 20, 3, 300)
};
struct PFielded
{
    using serialize = zb::pb_protocol;
    zb::pb_field<zb::vint32_t, 7> a;
    zb::pb_field<std::string, 15> b;
    zb::pb_field<std::uint64_t, 16> c;
    zb::pb_field<PInner, 2047> d;
    zb::pb_field<std::vector<zb::vint32_t>, 2048> e;
    zb::pb_field<PE, 536870911> f;
    zb::pb_field<std::map<std::uint32_t, std::string>, 18999> g;
    zb::pb_field<bool, 3> h;
    PTIE(M(a), M(b), M(c), M(d), M(e), M(f), M(g), M(h))
    PNUM(7, 15, 16, 2047, 2048, 536870911, 18999, 3)
};
struct PReserved
{
    using serialize = zb::protocol<zb::pb{}, 5>;
    zb::vint32_t a;
    [[no_unique_address]] zb::pb_reserved r1;
    std::string b;
    [[no_unique_address]] zb::pb_reserved r2;
    double c;
    PTIE(M(a), M(b), M(c))
    PNUM(1, 3, 5)
};
struct PTree
{
    using serialize = zb::protocol<zb::pb{}, 3>;
    zb::vuint32_t id;
    std::vector<PTree> kids;
    std::string name;
    PTIE(M(id), M(kids), M(name))
    PNUM(1, 2, 3)
};
struct PEmpty
{
    using serialize = zb::protocol<zb::pb{}, 0>;
    static auto tie(auto &) { return std::tuple<>{}; }
    static constexpr unsigned numbers[] = {0};
};
class PPrivate
{
    friend zpp::bits::access;
    zb::vint32_t a{};
    std::string b;

public:
    using serialize = zb::protocol<zb::pb{}, 2>;
    PPrivate() {}
    PTIE(M(a), M(b))
    PNUM(1, 2)
};
struct POutside
{
    zb::vint32_t a;
    std::vector<PInner> b;
    double c;
    PTIE(M(a), M(b), M(c))
    PNUM(1, 2, 3)
};
auto serialize(const POutside &) -> zb::pb_members<3>;
enum class PE64 : std::int64_t { a, b = -1, c = std::int64_t(1) << 40 };
enum class PE16 : std::int16_t { a, b = -5 };
enum class PE8s : signed char { a, b = -7 };
enum class PEu64 : std::uint64_t { a, b = ~std::uint64_t{} };
struct PEnums
{
    using serialize = zb::protocol<zb::pb{}, 9>;
    PEs a;
    std::vector<PEs> b;
    PE64 c;
    std::vector<PE64> d;
    std::vector<PE8s> e;
    std::list<PE16> f;
    std::set<PEs> g;
    std::map<PEs, PE64> h;
    PEu64 i;
    PTIE(M(a), M(b), M(c), M(d), M(e), M(f), M(g), M(h), M(i))
    PNUM(1, 2, 3, 4, 5, 6, 7, 8, 9)
};
struct PMoreRepeated
{
    using serialize = zb::protocol<zb::pb{}, 11>;
    std::vector<zb::vint64_t> a;
    std::list<zb::vsint64_t> b;
    std::vector<float> c;
    std::vector<std::int64_t> d;
    std::deque<std::uint64_t> e;
    std::vector<std::int32_t> f;
    std::set<zb::vsint32_t> g;
    std::list<std::string> h;
    std::vector<std::vector<std::byte>> i;
    std::vector<PEmpty> j;
    std::list<float> k;
    PTIE(M(a), M(b), M(c), M(d), M(e), M(f), M(g), M(h), M(i), M(j), M(k))
    PNUM(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)
};
struct PMoreMaps
{
    using serialize = zb::protocol<zb::pb{}, 7>;
    std::map<zb::vsint64_t, double> a;
    std::map<std::int64_t, std::vector<std::byte>> b;
    std::map<std::string, bool> c;
    std::unordered_map<std::uint32_t, PInner> d;
    std::map<zb::vuint64_t, PE> e;
    std::map<bool, zb::vint64_t> f;
    std::map<std::int32_t, PNested> g;
    PTIE(M(a), M(b), M(c), M(d), M(e), M(f), M(g))
    PNUM(1, 2, 3, 4, 5, 6, 7)
};
struct PMany // numbers beyond 15 take two bytes
{
    using serialize = zb::protocol<zb::pb{}, 20>;
    zb::vint32_t a, b, c, d, e, f, g, h, i, j, k, l, m, n;
    std::string o, p;
    std::vector<zb::vint32_t> q;
    PInts r;
    std::uint32_t s;
    double t;
    PTIE(M(a), M(b), M(c), M(d), M(e), M(f), M(g), M(h), M(i), M(j), M(k), M(l), M(m), M(n), M(o), M(p), M(q), M(r), M(s), M(t))
    PNUM(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20)
};
struct PDeep
{
    using serialize = zb::protocol<zb::pb{}, 5>;
    PNested a;
    std::vector<PMaps> b;
    PFielded c;
    POutside d;
    PReserved e;
    PTIE(M(a), M(b), M(c), M(d), M(e))
    PNUM(1, 2, 3, 4, 5)
};
#undef M

template <typename T>
concept message = requires { T::numbers; };
template <typename T> struct fielded : std::false_type {};
template <typename T, auto N> struct fielded<zb::pb_field_fundamental<T, N>> : std::true_type {};
template <typename T, auto N> struct fielded<zb::pb_field_struct<T, N>> : std::true_type {};
// The plain member behind a pb_field.
template <typename T>
auto & plain(T & m)
{
    if constexpr (fielded<std::remove_const_t<T>>::value) {
        if constexpr (requires { m.value; typename T::value_type; } && std::is_fundamental_v<typename T::pb_field_type> ) return m.value;
        else if constexpr (std::is_enum_v<typename T::pb_field_type>) return m.value;
        else return static_cast<std::conditional_t<std::is_const_v<T>, const typename T::pb_field_type, typename T::pb_field_type> &>(m);
    } else return m;
}
template <typename T> struct vint : std::false_type {};
template <typename T, zb::varint_encoding E>
struct vint<zb::varint<T, E>> : std::true_type
{
    using type = T;
    static constexpr bool zig = E == zb::varint_encoding::zig_zag;
};
template <typename T>
concept wire_varint = vint<T>::value || std::is_enum_v<T> && !std::same_as<T, std::byte> || std::same_as<T, bool>;
template <typename T>
concept wire_fixed = std::is_arithmetic_v<T> && !std::same_as<T, bool> && (sizeof(T) == 4 || sizeof(T) == 8);
template <typename T>
concept mapping = requires { typename T::mapped_type; };
template <typename T>
concept repeated = requires(T & t) { typename T::value_type; t.begin(); t.clear(); } && !mapping<T>;
template <typename T>
concept bytelike = repeated<T> && sizeof(typename T::value_type) == 1 && (std::same_as<typename T::value_type, char> || std::same_as<typename T::value_type, unsigned char> || std::same_as<typename T::value_type, std::byte>);

// ---- generation
template <message T> void pgen(Rng & r, T & v, G g);
template <typename T>
void mgen(Rng & r, T & m, G g)
{
    if constexpr (message<T>) pgen(r, m, g.deeper());
    else if constexpr (mapping<T>) {
        m.clear();
        for (auto n = r.below(g.depth > 1 ? 2 : 5); n--;) {
            typename T::key_type k{};
            typename T::mapped_type x{};
            mgen(r, k, g.deeper());
            mgen(r, x, g.deeper());
            m.emplace(std::move(k), std::move(x));
        }
    } else if constexpr (bytelike<T>) gen(r, m, g);
    else if constexpr (requires { typename T::key_type; }) {
        m.clear();
        for (auto n = g.pick(r); n--;) {
            typename T::value_type k{};
            mgen(r, k, g.deeper());
            m.insert(std::move(k));
        }
    } else if constexpr (repeated<T>) {
        m.clear();
        auto n = message<typename T::value_type> ? r.below(g.depth > 1 ? 2 : 4) : g.pick(r);
        m.resize(n);
        for (auto & x : m) mgen(r, x, g.deeper());
    } else gen(r, m, g);
}
template <message T>
void pgen(Rng & r, T & v, G g)
{
    std::apply([&](auto &... m) { (mgen(r, plain(m), g), ...); }, T::tie(v));
}
inline void mgen_tree(Rng & r, PTree & v, int depth)
{
    gen(r, v.id, G{});
    gen(r, v.name, G{20, 1});
    v.kids.clear();
    if (depth < 4) {
        v.kids.resize(r.below(3));
        for (auto & k : v.kids) mgen_tree(r, k, depth + 1);
    }
}
template <>
inline void pgen<PTree>(Rng & r, PTree & v, G)
{
    mgen_tree(r, v, 0);
}

// ---- equality
template <typename T>
bool meq(const T & a, const T & b)
{
    if constexpr (message<T>) {
        auto x = T::tie(a), y = T::tie(b);
        return [&]<std::size_t... I>(std::index_sequence<I...>) {
            return (true && ... && meq(plain(std::get<I>(x)), plain(std::get<I>(y))));
        }(std::make_index_sequence<std::tuple_size_v<decltype(x)>>{});
    } else if constexpr (mapping<T>) {
        if (a.size() != b.size()) return false;
        for (auto & [k, m] : a) {
            auto i = b.find(k);
            if (i == b.end() || !meq(m, i->second)) return false;
        }
        return true;
    } else if constexpr (repeated<T>) {
        if (a.size() != b.size()) return false;
        auto i = a.begin();
        auto j = b.begin();
        for (; i != a.end(); ++i, ++j)
            if (!meq<typename T::value_type>(*i, *j)) return false;
        return true;
    } else return eq(a, b);
}

// ---- the canonical encoding
inline void tag(Bytes & o, unsigned number, unsigned wt) { put_varint(o, (unsigned long long)number * 8 + wt); }
template <typename T>
unsigned long long wire_value(const T & m)
{
    if constexpr (vint<T>::value) return varint_wire<typename vint<T>::type, vint<T>::zig>(m.value);
    else if constexpr (std::same_as<T, bool>) return m ? 1 : 0;
    else return std::make_unsigned_t<std::underlying_type_t<T>>(std::underlying_type_t<T>(m));
}
inline void put_block(Bytes & o, const Bytes & b)
{
    put_varint(o, b.size());
    o.insert(o.end(), b.begin(), b.end());
}
template <typename T>
Bytes raw_bytes(const T & m)
{
    Bytes b;
    for (auto x : m) b.push_back((unsigned char)x);
    return b;
}
template <message T> Bytes penc(const T & v);
template <typename T>
void menc(Bytes & o, const T & m, unsigned number)
{
    if constexpr (wire_varint<T>) {
        tag(o, number, 0);
        put_varint(o, wire_value(m));
    } else if constexpr (wire_fixed<T>) {
        tag(o, number, sizeof(T) == 4 ? 5 : 1);
        put_int(o, raw(m), sizeof m, false);
    } else if constexpr (message<T>) {
        tag(o, number, 2);
        put_block(o, penc(m));
    } else if constexpr (bytelike<T>) {
        if (m.empty()) return;
        tag(o, number, 2);
        put_block(o, raw_bytes(m));
    } else if constexpr (mapping<T>) {
        for (auto & [k, x] : m) {
            Bytes e;
            menc(e, k, 1);
            menc(e, x, 2);
            tag(o, number, 2);
            put_block(o, e);
        }
    } else {
        using V = typename T::value_type;
        if (m.empty()) return;
        if constexpr (wire_varint<V> || wire_fixed<V>) {
            Bytes e;
            for (auto & x : m) {
                if constexpr (wire_varint<V>) put_varint(e, wire_value<V>(x));
                else put_int(e, raw(x), sizeof x, false);
            }
            tag(o, number, 2);
            put_block(o, e);
        } else {
            for (auto & x : m) {
                tag(o, number, 2);
                if constexpr (message<V>) put_block(o, penc(x));
                else put_block(o, raw_bytes(x));
            }
        }
    }
}
template <message T>
Bytes penc(const T & v)
{
    Bytes o;
    std::size_t i = 0;
    std::apply([&](auto &... m) { (menc(o, plain(m), T::numbers[i++]), ...); }, T::tie(v));
    return o;
}
template <message T>
Bytes with_prefix(const T & v, Cfg c)
{
    Bytes o, b = penc(v);
    put_size(o, b.size(), c);
    o.insert(o.end(), b.begin(), b.end());
    return o;
}

// ---- a reference decoder. Error sets: where two faults coincide either counts.
enum : unsigned { ok = 0, range = 1, proto = 2, large = 4, msgsize = 8 };
struct View
{
    const unsigned char * p;
    std::size_t n;
};
struct Dec
{
    std::size_t limit = ~std::size_t(0);
    // Faults met besides the decisive one, when their order is not specified.
    unsigned varint(View & in, std::size_t max, unsigned long long & v)
    {
        v = 0;
        for (std::size_t i = 0; i < max; ++i) {
            if (i == in.n) return range;
            auto b = in.p[i];
            if (i < 10) v |= i * 7 < 64 ? (unsigned long long)(b & 127) << (i * 7) : 0;
            if (!(b & 128)) {
                in.p += i + 1;
                in.n -= i + 1;
                return ok;
            }
        }
        return large;
    }
    unsigned skip(View & in, unsigned wt)
    {
        unsigned long long n = 0;
        switch (wt) {
        case 0: return varint(in, 10, n);
        case 1: n = 8; break;
        case 5: n = 4; break;
        case 2:
            if (auto e = varint(in, 10, n)) return e;
            break;
        default: return proto;
        }
        if (n > in.n) return range;
        in.p += n;
        in.n -= n;
        return ok;
    }
    unsigned block(View & in, View & out, unsigned extra_if_limit = 0)
    {
        unsigned long long n;
        if (auto e = varint(in, 10, n)) return e;
        unsigned e = 0;
        if (extra_if_limit && n > limit) e |= msgsize;
        if (n > in.n) e |= range;
        if (e) return e;
        out = {in.p, std::size_t(n)};
        in.p += n;
        in.n -= n;
        return ok;
    }
    template <typename T>
    unsigned scalar(View & in, T & m)
    {
        if constexpr (wire_varint<T>) {
            unsigned long long v;
            if (auto e = varint(in, 10, v)) return e;
            if constexpr (std::same_as<T, bool>) m = v != 0;
            else if constexpr (vint<T>::value) {
                using U = std::make_unsigned_t<typename vint<T>::type>;
                auto u = U(v);
                if (vint<T>::zig) u = U(u / 2) ^ U(u % 2 ? ~0ull : 0);
                m.value = typename vint<T>::type(u);
            } else m = T(std::underlying_type_t<T>(v));
            return ok;
        } else {
            if (in.n < sizeof m) return range;
            std::memcpy(&m, in.p, sizeof m);
            in.p += sizeof m;
            in.n -= sizeof m;
            return ok;
        }
    }
    template <typename C, typename V>
    static void add(C & c, V && v)
    {
        if constexpr (requires { c.push_back(std::forward<V>(v)); }) c.push_back(std::forward<V>(v));
        else c.insert(std::forward<V>(v));
    }
    template <typename T>
    unsigned field(View & in, T & m, unsigned wt)
    {
        if constexpr (wire_varint<T>) return wt == 0 ? scalar(in, m) : skip(in, wt);
        else if constexpr (wire_fixed<T>) return wt == (sizeof(T) == 4 ? 5 : 1) ? scalar(in, m) : skip(in, wt);
        else if constexpr (message<T>) {
            if (wt != 2) return skip(in, wt);
            View b;
            if (auto e = block(in, b)) return e;
            return decode(b, m);
        } else if constexpr (bytelike<T>) {
            if (wt != 2) return skip(in, wt);
            View b;
            if (auto e = block(in, b, 1)) return e;
            m.clear();
            for (std::size_t i = 0; i < b.n; ++i) m.push_back(typename T::value_type(b.p[i]));
            return ok;
        } else if constexpr (mapping<T>) {
            if (wt != 2) return skip(in, wt);
            View b;
            if (auto e = block(in, b)) return e;
            typename T::key_type k{};
            typename T::mapped_type v{};
            while (b.n) {
                unsigned long long t;
                if (auto e = varint(b, 5, t)) return e;
                t &= 0xffffffff;
                unsigned e;
                if (t / 8 == 1) e = field(b, k, t % 8);
                else if (t / 8 == 2) e = field(b, v, t % 8);
                else if (t / 8 == 0) e = proto;
                else e = skip(b, t % 8);
                if (e) return e;
            }
            m.insert_or_assign(std::move(k), std::move(v));
            return ok;
        } else {
            using V = typename T::value_type;
            if constexpr (wire_varint<V> || wire_fixed<V>) {
                constexpr unsigned own = wire_varint<V> ? 0 : sizeof(V) == 4 ? 5 : 1;
                if (wt == own) {
                    V v{};
                    if (auto e = scalar(in, v)) return e;
                    add(m, std::move(v));
                    return ok;
                }
                if (wt != 2) return skip(in, wt);
                View b;
                if (auto e = block(in, b, 1)) return e;
                if constexpr (wire_fixed<V>) {
                    if (b.n % sizeof(V)) {
                        // whole elements beyond the block's end may run out first
                        return proto | range;
                    }
                }
                View rest = {b.p, b.n + in.n}; // a varint running over the block
                while (b.n) {
                    V v{};
                    auto before = rest.n;
                    if (auto e = scalar(b, v)) {
                        if (wire_varint<V> && e == range) {
                            // not divisible into elements: an element crosses the end
                            unsigned long long x;
                            auto e2 = varint(rest, 10, x);
                            return e2 ? e2 | proto : proto;
                        }
                        return e;
                    }
                    rest.p = b.p;
                    rest.n = b.n + in.n;
                    (void)before;
                    add(m, std::move(v));
                }
                return ok;
            } else {
                if (wt != 2) return skip(in, wt);
                V v{};
                View b;
                if (auto e = block(in, b, message<V> ? 0 : 1)) return e;
                if constexpr (message<V>) {
                    if (auto e = decode(b, v)) return e;
                } else {
                    for (std::size_t i = 0; i < b.n; ++i) v.push_back(typename V::value_type(b.p[i]));
                }
                add(m, std::move(v));
                return ok;
            }
        }
    }
    template <message T>
    unsigned decode(View in, T & v)
    {
        std::apply([&](auto &... m) {
            (
                [&](auto & x) {
                    if constexpr (mapping<std::remove_cvref_t<decltype(x)>> || repeated<std::remove_cvref_t<decltype(x)>>) x.clear();
                }(plain(m)),
                ...);
        },
                   T::tie(v));
        while (in.n) {
            unsigned long long t;
            if (auto e = varint(in, 5, t)) return e;
            t &= 0xffffffff;
            auto number = unsigned(t / 8);
            unsigned e = 0;
            bool found = false;
            std::size_t i = 0;
            std::apply([&](auto &... m) { ((T::numbers[i++] == number && !found ? (void)(found = true, e = field(in, plain(m), t % 8)) : (void)0), ...); }, T::tie(v));
            if (!found) e = number ? skip(in, t % 8) : unsigned(proto);
            if (e) return e;
        }
        return ok;
    }
};
inline unsigned code_bit(std::errc c)
{
    switch (c) {
    case std::errc{}: return ok;
    case std::errc::result_out_of_range: return range;
    case std::errc::protocol_error: return proto;
    case std::errc::value_too_large: return large;
    case std::errc::message_size: return msgsize;
    default: return 0x80000000u;
    }
}

// ---- an encoder that uses the freedom of the format. `v` is turned into the
// value a reader whose target held `old` must end up with.
struct Free
{
    Rng & r;
    std::map<std::string, std::uint64_t> used;
    void use(const char * what) { ++used[what]; }

    void put_any_varint(Bytes & o, unsigned long long v, std::size_t max = 10)
    {
        auto at = o.size();
        put_varint(o, v);
        if (r.chance(1, 8)) { // non-minimal
            auto n = o.size() - at;
            auto pad = r.below(max - n + 1);
            if (pad) {
                o.back() |= 0x80;
                for (std::size_t i = 0; i + 1 < pad; ++i) o.push_back(0x80);
                o.push_back(0);
                use("non-minimal varint");
            }
        }
    }
    void put_tag(Bytes & o, unsigned number, unsigned wt) { put_any_varint(o, (unsigned long long)number * 8 + wt, 5); }
    void put_any_block(Bytes & o, const Bytes & b)
    {
        put_any_varint(o, b.size());
        o.insert(o.end(), b.begin(), b.end());
    }
    template <typename T>
    void put_scalar(Bytes & o, const T & m)
    {
        if constexpr (wire_varint<T>) {
            auto w = wire_value(m);
            if constexpr (std::same_as<T, bool>) {
                if (m && r.chance(1, 3)) {
                    w = 1 + (r.next() >> r.below(64));
                    use("bool of another value");
                    if (!w) w = 1;
                }
            } else if constexpr (vint<T>::value) {
                using I = typename vint<T>::type;
                if (!vint<T>::zig && std::is_signed_v<I> && m.value < 0) {
                    if (r.chance(2, 3)) {
                        w = (unsigned long long)(long long)m.value;
                        use("negative in ten bytes");
                    }
                }
            } else if constexpr (std::is_signed_v<std::underlying_type_t<T>>) {
                if (std::underlying_type_t<T>(m) < 0 && r.chance(2, 3)) {
                    w = (unsigned long long)(long long)std::underlying_type_t<T>(m);
                    use("negative enum in ten bytes");
                }
            }
            put_any_varint(o, w);
        } else put_int(o, raw(m), sizeof m, false);
    }
    void junk(Bytes & o, unsigned wt)
    {
        switch (wt) {
        case 0: put_any_varint(o, r.next() >> r.below(64)); break;
        case 1: put_int(o, r.next(), 8, false); break;
        case 5: put_int(o, r.next(), 4, false); break;
        default: {
            Bytes b(r.chance(1, 8) ? 100 + r.below(200) : r.below(12));
            for (auto & x : b) x = (unsigned char)r.next();
            put_any_block(o, b);
        }
        }
    }
    using Records = std::vector<Bytes>;
    template <typename T>
    Records records(T & m, const T & old, unsigned number)
    {
        Records out;
        auto rec = [&](unsigned wt) -> Bytes & {
            out.emplace_back();
            put_tag(out.back(), number, wt);
            return out.back();
        };
        if constexpr (wire_varint<T> || wire_fixed<T>) {
            constexpr unsigned wt = wire_varint<T> ? 0 : sizeof(T) == 4 ? 5 : 1;
            if (r.chance(1, 6)) {
                m = old;
                use("absent scalar");
                return out;
            }
            for (auto n = r.chance(1, 5) ? 1 + r.below(3) : 0; n--;) {
                T x{};
                gen(r, x, G{});
                put_scalar(rec(wt), x);
                use("earlier scalar overridden");
            }
            put_scalar(rec(wt), m);
        } else if constexpr (message<T>) {
            if (r.chance(1, 8)) {
                m = old;
                use("absent message");
                return out;
            }
            put_any_block(rec(2), message_bytes(m, old));
        } else if constexpr (bytelike<T>) {
            if (r.chance(1, 6)) {
                m.clear();
                use("absent bytes");
                return out;
            }
            if (r.chance(1, 6)) {
                T x{};
                gen(r, x, G{20, 1});
                put_any_block(rec(2), raw_bytes(x));
                use("earlier bytes overridden");
            }
            put_any_block(rec(2), raw_bytes(m));
        } else if constexpr (mapping<T>) {
            for (auto & [k, v] : m) {
                auto entry = [&](const typename T::key_type & key, typename T::mapped_type & val, bool real) {
                    Bytes a, b, e;
                    auto kk = key;
                    // fields of an entry may be in any order or, at their default, absent
                    put_tag(a, 1, field_wt<typename T::key_type>());
                    put_value(a, kk);
                    put_tag(b, 2, field_wt<typename T::mapped_type>());
                    put_value(b, val);
                    bool swap = r.chance(1, 3);
                    bool unknown = r.chance(1, 6);
                    typename T::key_type k0{};
                    bool no_key = real && meq(k0, kk) && r.chance(1, 2);
                    typename T::mapped_type v0{};
                    bool no_val = real && meq(v0, val) && r.chance(1, 2);
                    if (swap && !no_val) e.insert(e.end(), b.begin(), b.end());
                    if (!no_key) e.insert(e.end(), a.begin(), a.end());
                    if (unknown) {
                        auto wt = any_wt();
                        put_tag(e, 3 + unsigned(r.below(100)), wt);
                        junk(e, wt);
                        use("unknown field in a map entry");
                    }
                    if (!swap && !no_val) e.insert(e.end(), b.begin(), b.end());
                    if (swap) use("map value before key");
                    if (no_key || no_val) use("map entry with an absent default");
                    put_any_block(rec(2), e);
                };
                if (r.chance(1, 5)) {
                    typename T::mapped_type x{};
                    mgen(r, x, G{10, 2});
                    entry(k, x, false);
                    use("earlier map entry overridden");
                }
                entry(k, v, true);
            }
        } else {
            using V = typename T::value_type;
            if constexpr (wire_varint<V> || wire_fixed<V>) {
                constexpr unsigned wt = wire_varint<V> ? 0 : sizeof(V) == 4 ? 5 : 1;
                auto i = m.begin();
                if (m.empty() && r.chance(1, 2)) {
                    put_any_block(rec(2), {});
                    use("empty packed");
                }
                while (i != m.end()) {
                    if (r.chance(1, 3)) {
                        put_scalar<V>(rec(wt), *i++);
                        use("unpacked element");
                    } else {
                        Bytes e;
                        for (auto n = r.chance(1, 2) ? 1 + r.below(4) : 100000; n-- && i != m.end();) put_scalar<V>(e, *i++);
                        put_any_block(rec(2), e);
                        use("packed chunk");
                    }
                }
            } else if constexpr (requires { typename T::key_type; }) { // set of strings
                for (auto & x : m) put_any_block(rec(2), raw_bytes(x));
            } else {
                for (auto & x : m) {
                    if constexpr (message<V>) put_any_block(rec(2), message_bytes(x, V{}));
                    else put_any_block(rec(2), raw_bytes(x));
                }
            }
        }
        // The same number with a wire type the field does not have: skipped.
        if (r.chance(1, 8)) {
            auto wt = any_wt();
            if (!accepts<T>(wt)) {
                Bytes b;
                put_tag(b, number, wt);
                junk(b, wt);
                out.insert(out.begin() + long(r.below(out.size() + 1)), b);
                use("known field of another wire type");
            }
        }
        return out;
    }
    unsigned any_wt()
    {
        static constexpr unsigned w[] = {0, 1, 2, 5};
        return w[r.below(4)];
    }
    template <typename T>
    static constexpr unsigned field_wt()
    {
        if constexpr (wire_varint<T>) return 0;
        else if constexpr (wire_fixed<T>) return sizeof(T) == 4 ? 5 : 1;
        else return 2;
    }
    template <typename T>
    static bool accepts(unsigned wt)
    {
        if constexpr (wire_varint<T> || wire_fixed<T>) return wt == field_wt<T>();
        else if constexpr (message<T> || mapping<T> || bytelike<T>) return wt == 2;
        else return wt == 2 || wt == field_wt<typename T::value_type>();
    }
    template <typename T>
    void put_value(Bytes & o, T & m)
    {
        if constexpr (wire_varint<T> || wire_fixed<T>) put_scalar(o, m);
        else if constexpr (message<T>) put_any_block(o, message_bytes(m, T{}));
        else put_any_block(o, raw_bytes(m));
    }
    template <message T>
    Bytes message_bytes(T & v, const T & old)
    {
        std::vector<Records> lists;
        auto mine = T::tie(v);
        auto theirs = T::tie(old);
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (lists.push_back(records(plain(std::get<I>(mine)), plain(std::get<I>(theirs)), T::numbers[I])), ...);
        }(std::make_index_sequence<std::tuple_size_v<decltype(mine)>>{});
        // unknown fields
        Records unknown;
        for (auto n = r.chance(1, 3) ? 1 + r.below(3) : 0; n--;) {
            unsigned number;
            do {
                number = r.chance(1, 2) ? unsigned(1 + r.below(40)) : unsigned(1 + r.below(536870911));
            } while (known<T>(number));
            auto wt = any_wt();
            Bytes b;
            put_tag(b, number, wt);
            junk(b, wt);
            unknown.push_back(b);
            use("unknown field");
        }
        lists.push_back(unknown);
        // Any interleaving that keeps the order within a field.
        Bytes o;
        bool shuffle = r.chance(3, 4);
        if (shuffle) use("fields out of order");
        std::vector<std::size_t> at(lists.size());
        for (;;) {
            std::vector<std::size_t> open;
            for (std::size_t i = 0; i < lists.size(); ++i)
                if (at[i] < lists[i].size()) open.push_back(i);
            if (open.empty()) break;
            auto i = shuffle ? open[r.below(open.size())] : open[0];
            auto & b = lists[i][at[i]++];
            o.insert(o.end(), b.begin(), b.end());
        }
        return o;
    }
    template <typename T>
    static bool known(unsigned n)
    {
        for (auto k : T::numbers)
            if (k == n) return true;
        return false;
    }
};

#undef PTIE
#undef PNUM
template <typename... Ts>
struct plist
{
};
using PZoo = plist<PScalars, PFixed, PStrings, PRepeated, PInner, PInts, PNested, PMaps, PSets, PMapped, PFielded, PReserved, PTree, PEmpty, PPrivate, POutside, PDeep, PEnums, PMoreRepeated, PMoreMaps, PMany>;
inline constexpr std::size_t n_messages = 21;
template <std::size_t Part, std::size_t Parts, typename F, typename... Ts>
void each(plist<Ts...>, F && f)
{
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        (
            [&] {
                if constexpr (I % Parts == Part) f.template operator()<Ts, I>();
            }(),
            ...);
    }(std::make_index_sequence<sizeof...(Ts)>{});
}
template <typename T>
std::string name()
{
    std::string s = __PRETTY_FUNCTION__;
    auto b = s.find("pbz::P", s.find("T ="));
    return s.substr(b + 5, s.find_first_of("];", b) - b - 5);
}
} // namespace pbz
