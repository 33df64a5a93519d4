// Reference model written from the README, independent of the library's own
// traits: for every zoo type T
//   gen(R&, T&, G)        generate a value
//   eq(a, b)              deep (bitwise for floats) equality
//   enc(bytes&, v, Cfg)   the documented encoding
//   show(v)               a printable form
#pragma once
#include "mon.hpp"
#include "zpp_bits.h"
#include <array>
#include <bitset>
#include <cmath>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

namespace zb = zpp::bits;

namespace ref
{
using mon::Rng;
using Bytes = std::vector<unsigned char>;

enum class SizeKind { none, s1, s2, s4, s8, varint, v8, v16, z16, z32 };
struct Cfg
{
    bool big = false;
    SizeKind size = SizeKind::s4;
};

struct G // generation limits
{
    std::size_t max_items = 40;
    int depth = 0;
    std::size_t pick(Rng & r) const
    {
        static constexpr std::size_t edge[] = {0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 300};
        std::size_t n;
        if (depth == 0 && r.chance(1, 12)) n = edge[r.below(std::size(edge))];
        else if (depth == 0 && r.chance(1, 4)) n = r.below(40);
        else n = r.below(depth > 1 ? 3 : 6);
        return n < max_items ? n : max_items;
    }
    G deeper() const { return {max_items, depth + 1}; }
};

// ---- customisation for user structs: `static auto tie(auto & self)`
template <typename T>
concept tied = requires(T & t) { T::tie(t); };
template <typename T>
concept scalar = std::is_arithmetic_v<T> || std::is_enum_v<T>;

// ---- emit
inline void put_int(Bytes & o, unsigned long long v, std::size_t n, bool big)
{
    for (std::size_t i = 0; i < n; ++i) {
        auto shift = 8 * (big ? n - 1 - i : i);
        o.push_back((unsigned char)(v >> shift));
    }
}
template <scalar T>
unsigned long long raw(T v)
{
    unsigned long long r = 0;
    std::memcpy(&r, &v, sizeof v); // little-endian machine (checked at start-up)
    return r;
}
inline void put_varint(Bytes & o, unsigned long long v)
{
    do {
        unsigned char b = v % 128;
        v /= 128;
        o.push_back((unsigned char)(b + (v ? 128 : 0)));
    } while (v);
}
inline std::size_t put_size(Bytes & o, std::size_t n, Cfg c)
{
    switch (c.size) {
    case SizeKind::none: return n;
    case SizeKind::s1: put_int(o, n & 0xff, 1, c.big); return n & 0xff;
    case SizeKind::s2: put_int(o, n & 0xffff, 2, c.big); return n & 0xffff;
    case SizeKind::s4: put_int(o, n & 0xffffffff, 4, c.big); return n;
    case SizeKind::s8: put_int(o, n, 8, c.big); return n;
    case SizeKind::varint: put_varint(o, n); return n;
    case SizeKind::v8: put_varint(o, n & 0xff); return n & 0xff;
    case SizeKind::v16: put_varint(o, n & 0xffff); return n & 0xffff;
    // signed sizes are used up to their largest value only
    case SizeKind::z16: put_varint(o, 2 * n); return n;
    case SizeKind::z32: put_varint(o, 2 * n); return n;
    }
    return n;
}

// all overloads declared first so that nesting resolves in any order
#define REF_DECL(TPL, ...)                                                      \
    template <TPL> void gen(Rng & r, __VA_ARGS__ & v, G g);                     \
    template <TPL> bool eq(const __VA_ARGS__ & a, const __VA_ARGS__ & b);       \
    template <TPL> void enc(Bytes & o, const __VA_ARGS__ & v, Cfg c);
#define REF_T1 typename T
#define REF_A , typename A
REF_DECL(scalar T, T)
REF_DECL(tied T, T)
template <typename T, std::size_t N> void gen(Rng & r, T (&v)[N], G g);
template <typename T, std::size_t N> bool eq(const T (&a)[N], const T (&b)[N]);
template <typename T, std::size_t N> void enc(Bytes & o, const T (&v)[N], Cfg c);
#define REF_LIST(X)                                                             \
    X(REF_P(typename T, std::size_t N), std::array<T, N>)                       \
    X(REF_P(typename T, typename A), std::vector<T, A>)                         \
    X(REF_P(typename T, typename A), std::deque<T, A>)                          \
    X(REF_P(typename T, typename A), std::list<T, A>)                           \
    X(REF_P(typename T, typename Tr, typename A), std::basic_string<T, Tr, A>)  \
    X(REF_P(typename T, typename C, typename A), std::set<T, C, A>)             \
    X(REF_P(typename T, typename C, typename A), std::multiset<T, C, A>)        \
    X(REF_P(typename T, typename H, typename E, typename A), std::unordered_set<T, H, E, A>) \
    X(REF_P(typename T, typename H, typename E, typename A), std::unordered_multiset<T, H, E, A>) \
    X(REF_P(typename K, typename V, typename H, typename E, typename A), std::unordered_multimap<K, V, H, E, A>) \
    X(REF_P(typename K, typename V, typename C, typename A), std::map<K, V, C, A>)           \
    X(REF_P(typename K, typename V, typename C, typename A), std::multimap<K, V, C, A>)      \
    X(REF_P(typename K, typename V, typename H, typename E, typename A), std::unordered_map<K, V, H, E, A>) \
    X(REF_P(typename K, typename V), std::pair<K, V>)                           \
    X(REF_P(typename... Ts), std::tuple<Ts...>)                                 \
    X(REF_P(typename T), std::optional<T>)                                      \
    X(REF_P(typename T), zb::optional_ptr<T>)                                   \
    X(REF_P(typename T, typename D), std::unique_ptr<T, D>)                     \
    X(REF_P(typename T), std::shared_ptr<T>)                                    \
    X(REF_P(typename... Ts), std::variant<Ts...>)                               \
    X(REF_P(std::size_t N), std::bitset<N>)                                     \
    X(REF_P(typename T, zb::varint_encoding E), zb::varint<T, E>)               \
    X(REF_P(typename T), zb::numbers::big_endian<T>)                            \
    X(REF_P(typename T, typename S), zb::sized_item<T, S>)
#define REF_P(...) __VA_ARGS__
#define REF_X(TPL, ...)                                                         \
    template <TPL> void gen(Rng & r, __VA_ARGS__ & v, G g);                     \
    template <TPL> bool eq(const __VA_ARGS__ & a, const __VA_ARGS__ & b);       \
    template <TPL> void enc(Bytes & o, const __VA_ARGS__ & v, Cfg c);
REF_LIST(REF_X)
#undef REF_X

inline void gen(Rng &, std::monostate &, G) {}
inline bool eq(const std::monostate &, const std::monostate &) { return true; }
inline void enc(Bytes &, const std::monostate &, Cfg) {}

// ---- scalars
template <scalar T>
void gen(Rng & r, T & v, G)
{
    if constexpr (std::same_as<T, bool>) v = r.chance(1, 2);
    else if constexpr (std::is_floating_point_v<T>) {
        switch (r.below(8)) {
        case 0: v = T(0); break;
        case 1: v = -T(0); break;
        case 2: v = std::numeric_limits<T>::infinity(); break;
        case 3: v = std::numeric_limits<T>::quiet_NaN(); break;
        case 4: v = std::numeric_limits<T>::denorm_min(); break;
        case 5: v = T(r.below(1000)) / 7; break;
        default: {
            auto x = r.next();
            std::memcpy(&v, &x, sizeof v);
        }
        }
    } else {
        auto put = [&](unsigned long long x) { std::memcpy(&v, &x, sizeof v); };
        switch (r.below(8)) {
        case 0: put(0); break;
        case 1: put(r.below(128)); break;
        case 2: put(~0ull - r.below(3)); break;
        case 3: put(1ull << (8 * sizeof(T) - 1)); break;
        case 4: put((1ull << (8 * sizeof(T) - 1)) - 1); break;
        case 5: put(1ull << r.below(8 * sizeof(T))); break;
        case 6: put(0x0102030405060708ull); break;
        default: put(r.next()); break;
        }
    }
}
template <scalar T>
bool eq(const T & a, const T & b)
{
    return std::memcmp(&a, &b, sizeof a) == 0;
}
template <scalar T>
void enc(Bytes & o, const T & v, Cfg c)
{
    put_int(o, raw(v), sizeof v, c.big);
}

// ---- tied structs
template <tied T>
void gen(Rng & r, T & v, G g)
{
    std::apply([&](auto &... m) { (gen(r, m, g.deeper()), ...); }, T::tie(v));
}
template <tied T>
bool eq(const T & a, const T & b)
{
    auto x = T::tie(a), y = T::tie(b);
    return [&]<std::size_t... I>(std::index_sequence<I...>) {
        return (true && ... && eq(std::get<I>(x), std::get<I>(y)));
    }(std::make_index_sequence<std::tuple_size_v<decltype(x)>>{});
}
template <tied T>
void enc(Bytes & o, const T & v, Cfg c)
{
    std::apply([&](auto &... m) { (enc(o, m, c), ...); }, T::tie(v));
}

// ---- fixed arrays
template <typename T, std::size_t N>
void gen(Rng & r, T (&v)[N], G g)
{
    for (auto & x : v) gen(r, x, g.deeper());
}
template <typename T, std::size_t N>
bool eq(const T (&a)[N], const T (&b)[N])
{
    for (std::size_t i = 0; i < N; ++i)
        if (!eq(a[i], b[i])) return false;
    return true;
}
template <typename T, std::size_t N>
void enc(Bytes & o, const T (&v)[N], Cfg c)
{
    for (auto & x : v) enc(o, x, c);
}
template <typename T, std::size_t N>
void gen(Rng & r, std::array<T, N> & v, G g)
{
    for (auto & x : v) gen(r, x, g.deeper());
}
template <typename T, std::size_t N>
bool eq(const std::array<T, N> & a, const std::array<T, N> & b)
{
    for (std::size_t i = 0; i < N; ++i)
        if (!eq(a[i], b[i])) return false;
    return true;
}
template <typename T, std::size_t N>
void enc(Bytes & o, const std::array<T, N> & v, Cfg c)
{
    for (auto & x : v) enc(o, x, c);
}

// ---- sequences
template <typename C>
void gen_seq(Rng & r, C & v, G g)
{
    v.clear();
    auto n = g.pick(r);
    v.resize(n);
    for (auto & x : v) gen(r, x, g.deeper());
}
template <typename C>
bool eq_seq(const C & a, const C & b)
{
    if (a.size() != b.size()) return false;
    auto i = a.begin();
    auto j = b.begin();
    for (; i != a.end(); ++i, ++j)
        if (!eq(*i, *j)) return false;
    return true;
}
template <typename C>
void enc_seq(Bytes & o, const C & v, Cfg c)
{
    auto left = put_size(o, v.size(), c);
    for (auto & x : v) {
        if (!left--) break;
        enc(o, x, c);
    }
}
#define REF_SEQ(TPL, ...)                                                       \
    template <TPL> void gen(Rng & r, __VA_ARGS__ & v, G g) { gen_seq(r, v, g); } \
    template <TPL> bool eq(const __VA_ARGS__ & a, const __VA_ARGS__ & b) { return eq_seq(a, b); } \
    template <TPL> void enc(Bytes & o, const __VA_ARGS__ & v, Cfg c) { enc_seq(o, v, c); }
REF_SEQ(REF_P(typename T, typename A), std::vector<T, A>)
REF_SEQ(REF_P(typename T, typename A), std::deque<T, A>)
REF_SEQ(REF_P(typename T, typename A), std::list<T, A>)
REF_SEQ(REF_P(typename T, typename Tr, typename A), std::basic_string<T, Tr, A>)

// ---- sets and maps
template <typename T>
void gen_key(Rng & r, T & k, G g)
{
    gen(r, k, g.deeper());
}
#define REF_SET(TPL, KEYEQ, ...)                                                \
    template <TPL> void gen(Rng & r, __VA_ARGS__ & v, G g)                      \
    {                                                                           \
        v.clear();                                                              \
        for (auto n = g.pick(r); n--;) {                                        \
            T k{};                                                              \
            gen_key(r, k, g);                                                   \
            v.insert(std::move(k));                                             \
        }                                                                       \
    }                                                                           \
    template <TPL> bool eq(const __VA_ARGS__ & a, const __VA_ARGS__ & b) { KEYEQ } \
    template <TPL> void enc(Bytes & o, const __VA_ARGS__ & v, Cfg c) { enc_seq(o, v, c); }
REF_SET(REF_P(typename T, typename C, typename A), return eq_seq(a, b);, std::set<T, C, A>)
REF_SET(REF_P(typename T, typename C, typename A), return eq_seq(a, b);, std::multiset<T, C, A>)
REF_SET(REF_P(typename T, typename H, typename E, typename A), return a == b;, std::unordered_set<T, H, E, A>)
REF_SET(REF_P(typename T, typename H, typename E, typename A), return a == b;, std::unordered_multiset<T, H, E, A>)
template <typename M>
void gen_map(Rng & r, M & v, G g)
{
    v.clear();
    for (auto n = g.pick(r); n--;) {
        typename M::key_type k{};
        typename M::mapped_type m{};
        gen_key(r, k, g);
        gen(r, m, g.deeper());
        v.emplace(std::move(k), std::move(m));
    }
}
template <typename M>
bool eq_unordered_map(const M & a, const M & b)
{
    if (a.size() != b.size()) return false;
    for (auto & [k, m] : a) {
        auto i = b.find(k);
        if (i == b.end() || !eq(m, i->second)) return false;
    }
    return true;
}
#define REF_MAP(TPL, KEYEQ, ...)                                                \
    template <TPL> void gen(Rng & r, __VA_ARGS__ & v, G g) { gen_map(r, v, g); } \
    template <TPL> bool eq(const __VA_ARGS__ & a, const __VA_ARGS__ & b) { KEYEQ } \
    template <TPL> void enc(Bytes & o, const __VA_ARGS__ & v, Cfg c) { enc_seq(o, v, c); }
REF_MAP(REF_P(typename K, typename V, typename C, typename A), return eq_seq(a, b);, std::map<K, V, C, A>)
REF_MAP(REF_P(typename K, typename V, typename C, typename A), return eq_seq(a, b);, std::multimap<K, V, C, A>)
REF_MAP(REF_P(typename K, typename V, typename H, typename E, typename A), return eq_unordered_map(a, b);, std::unordered_map<K, V, H, E, A>)
REF_MAP(REF_P(typename K, typename V, typename H, typename E, typename A), return a == b;, std::unordered_multimap<K, V, H, E, A>)

// ---- pairs and tuples
template <typename K, typename V>
void gen(Rng & r, std::pair<K, V> & v, G g)
{
    gen(r, const_cast<std::remove_const_t<K> &>(v.first), g.deeper());
    gen(r, v.second, g.deeper());
}
template <typename K, typename V>
bool eq(const std::pair<K, V> & a, const std::pair<K, V> & b)
{
    return eq(a.first, b.first) && eq(a.second, b.second);
}
template <typename K, typename V>
void enc(Bytes & o, const std::pair<K, V> & v, Cfg c)
{
    enc(o, v.first, c);
    enc(o, v.second, c);
}
template <typename... Ts>
void gen(Rng & r, std::tuple<Ts...> & v, G g)
{
    std::apply([&](auto &... m) { (gen(r, m, g.deeper()), ...); }, v);
}
template <typename... Ts>
bool eq(const std::tuple<Ts...> & a, const std::tuple<Ts...> & b)
{
    return [&]<std::size_t... I>(std::index_sequence<I...>) {
        return (true && ... && eq(std::get<I>(a), std::get<I>(b)));
    }(std::make_index_sequence<sizeof...(Ts)>{});
}
template <typename... Ts>
void enc(Bytes & o, const std::tuple<Ts...> & v, Cfg c)
{
    std::apply([&](auto &... m) { (enc(o, m, c), ...); }, v);
}

// ---- optionals and pointers
template <typename O, typename Make>
void gen_opt(Rng & r, O & v, G g, Make make)
{
    v.reset();
    if (g.depth < 6 && r.chance(3, 5)) {
        make(v);
        gen(r, *v, g.deeper());
    }
}
template <typename O>
bool eq_opt(const O & a, const O & b)
{
    return bool(a) == bool(b) && (!a || eq(*a, *b));
}
template <typename O>
void enc_opt(Bytes & o, const O & v, Cfg c)
{
    o.push_back(v ? 1 : 0);
    if (v) enc(o, *v, c);
}
template <typename T>
void gen(Rng & r, std::optional<T> & v, G g)
{
    gen_opt(r, v, g, [](auto & x) { x.emplace(); });
}
template <typename T>
bool eq(const std::optional<T> & a, const std::optional<T> & b)
{
    return eq_opt(a, b);
}
template <typename T>
void enc(Bytes & o, const std::optional<T> & v, Cfg c)
{
    enc_opt(o, v, c);
}
template <typename T>
void gen(Rng & r, zb::optional_ptr<T> & v, G g)
{
    gen_opt(r, v, g, [](auto & x) { x.reset(new T{}); });
}
template <typename T>
bool eq(const zb::optional_ptr<T> & a, const zb::optional_ptr<T> & b)
{
    return eq_opt(a, b);
}
template <typename T>
void enc(Bytes & o, const zb::optional_ptr<T> & v, Cfg c)
{
    enc_opt(o, v, c);
}
template <typename T, typename D>
void gen(Rng & r, std::unique_ptr<T, D> & v, G g)
{
    v.reset(new T{});
    gen(r, *v, g.deeper());
}
template <typename T, typename D>
bool eq(const std::unique_ptr<T, D> & a, const std::unique_ptr<T, D> & b)
{
    return eq_opt(a, b);
}
template <typename T, typename D>
void enc(Bytes & o, const std::unique_ptr<T, D> & v, Cfg c)
{
    enc(o, *v, c);
}
template <typename T>
void gen(Rng & r, std::shared_ptr<T> & v, G g)
{
    v.reset(new T{});
    gen(r, *v, g.deeper());
}
template <typename T>
bool eq(const std::shared_ptr<T> & a, const std::shared_ptr<T> & b)
{
    return eq_opt(a, b);
}
template <typename T>
void enc(Bytes & o, const std::shared_ptr<T> & v, Cfg c)
{
    enc(o, *v, c);
}

// ---- variants. Declared ids are given by a static member `wire_id` of the
// alternative: bytes in little-endian order plus a flag whether it is an integer.
struct WireId
{
    unsigned char bytes[32];
    std::size_t n;
};
template <typename T>
concept has_wire_id = requires { T::wire_id(); };
template <typename... Ts>
void gen(Rng & r, std::variant<Ts...> & v, G g)
{
    auto n = r.below(sizeof...(Ts));
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((I == n ? (void)(v.template emplace<I>(), gen(r, *std::get_if<I>(&v), g.deeper())) : (void)0), ...);
    }(std::make_index_sequence<sizeof...(Ts)>{});
}
template <typename... Ts>
bool eq(const std::variant<Ts...> & a, const std::variant<Ts...> & b)
{
    if (a.index() != b.index()) return false;
    bool r = false;
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((I == a.index() ? (void)(r = eq(*std::get_if<I>(&a), *std::get_if<I>(&b))) : (void)0), ...);
    }(std::make_index_sequence<sizeof...(Ts)>{});
    return r;
}
template <typename... Ts>
void enc(Bytes & o, const std::variant<Ts...> & v, Cfg c)
{
    std::visit(
        [&]<typename X>(const X & x) {
            if constexpr (has_wire_id<X>) {
                auto id = X::wire_id();
                bool integer = id.n == 1 || id.n == 2 || id.n == 4 || id.n == 8;
                for (std::size_t i = 0; i < id.n; ++i) o.push_back(id.bytes[integer && c.big ? id.n - 1 - i : i]);
            } else o.push_back((unsigned char)(v.index()));
            enc(o, x, c);
        },
        v);
}

// ---- bitsets, varints, big_endian numbers, sized items
template <std::size_t N>
void gen(Rng & r, std::bitset<N> & v, G)
{
    switch (r.below(4)) {
    case 0: v.reset(); break;
    case 1: v.set(); break;
    default:
        for (std::size_t i = 0; i < N; ++i) v[i] = r.chance(1, 2);
    }
}
template <std::size_t N>
bool eq(const std::bitset<N> & a, const std::bitset<N> & b)
{
    return a == b;
}
template <std::size_t N>
void enc(Bytes & o, const std::bitset<N> & v, Cfg)
{
    for (std::size_t i = 0; i < N; i += 8) {
        unsigned b = 0;
        for (std::size_t j = 0; j < 8 && i + j < N; ++j) b += unsigned(v[i + j]) << j;
        o.push_back((unsigned char)b);
    }
}
template <typename T, zb::varint_encoding E>
void gen(Rng & r, zb::varint<T, E> & v, G)
{
    using U = std::make_unsigned_t<T>;
    U x;
    switch (r.below(4)) {
    case 0: x = U(r.next() >> r.below(64)); break;
    case 1: x = U((1ull << (r.below(sizeof(T) * 8))) - r.below(2)); break;
    case 2: x = U(0 - (r.next() >> r.below(64))); break;
    default: {
        gen(r, x, G{});
    }
    }
    v.value = T(x);
}
template <typename T, zb::varint_encoding E>
bool eq(const zb::varint<T, E> & a, const zb::varint<T, E> & b)
{
    return a.value == b.value;
}
template <typename T, bool Zig>
unsigned long long varint_wire(T value)
{
    using U = std::make_unsigned_t<T>;
    if constexpr (Zig) {
        // zigzag: 0,-1,1,-2,... -> 0,1,2,3,...
        long long s = 0;
        std::make_signed_t<T> sv;
        std::memcpy(&sv, &value, sizeof value);
        s = sv;
        auto m = s >= 0 ? 2 * (unsigned long long)s : 2 * (unsigned long long)(-(s + 1)) + 1;
        return U(m);
    } else return U(value);
}
template <typename T, zb::varint_encoding E>
void enc(Bytes & o, const zb::varint<T, E> & v, Cfg)
{
    put_varint(o, varint_wire<T, E == zb::varint_encoding::zig_zag>(v.value));
}
template <typename T>
void gen(Rng & r, zb::numbers::big_endian<T> & v, G g)
{
    T x;
    gen(r, x, g);
    v = zb::numbers::big_endian<T>{x};
}
template <typename T>
bool eq(const zb::numbers::big_endian<T> & a, const zb::numbers::big_endian<T> & b)
{
    return eq(a.value, b.value);
}
template <typename T>
void enc(Bytes & o, const zb::numbers::big_endian<T> & v, Cfg c)
{
    enc(o, v.value, c); // one member, held byte-reversed
}
template <typename S>
constexpr SizeKind size_kind()
{
    if constexpr (std::is_void_v<S>) return SizeKind::none;
    else if constexpr (std::is_integral_v<S>)
        return sizeof(S) == 1 ? SizeKind::s1 : sizeof(S) == 2 ? SizeKind::s2 : sizeof(S) == 4 ? SizeKind::s4 : SizeKind::s8;
    else if constexpr (S::encoding == zb::varint_encoding::zig_zag)
        return sizeof(typename S::value_type) == 2 ? SizeKind::z16 : SizeKind::z32;
    else
        return sizeof(typename S::value_type) == 1 ? SizeKind::v8 : sizeof(typename S::value_type) == 2 ? SizeKind::v16 : SizeKind::varint;
}
template <typename T, typename S>
void gen(Rng & r, zb::sized_item<T, S> & v, G g)
{
    if ((size_kind<S>() == SizeKind::s1 || size_kind<S>() == SizeKind::v8) && g.max_items > 255) g.max_items = 255;
    gen(r, static_cast<T &>(v), g);
}
template <typename T, typename S>
bool eq(const zb::sized_item<T, S> & a, const zb::sized_item<T, S> & b)
{
    return eq(static_cast<const T &>(a), static_cast<const T &>(b));
}
template <typename T, typename S>
void enc(Bytes & o, const zb::sized_item<T, S> & v, Cfg c)
{
    // The size type applies to this item only; nested containers use the archive's.
    auto & t = static_cast<const T &>(v);
    Cfg own = c;
    own.size = size_kind<S>();
    auto left = put_size(o, t.size(), own);
    for (auto & x : t) {
        if (!left--) break;
        enc(o, x, c);
    }
}

template <typename T>
Bytes encode(const T & v, Cfg c)
{
    Bytes o;
    enc(o, v, c);
    return o;
}

// ---- type facts used to select option sets
template <typename T>
struct dynamic : std::false_type {};
template <tied T>
struct dynamic<T>
{
    template <typename... Ms>
    static constexpr bool f(std::tuple<Ms &...> *) { return (dynamic<std::remove_cv_t<Ms>>::value || ...); }
    static constexpr bool value = f((decltype(T::tie(std::declval<T &>())) *)nullptr);
};
template <typename T> struct dynamic<const T> : dynamic<T> {};
template <typename T, std::size_t N> struct dynamic<T[N]> : dynamic<T> {};
template <typename T, std::size_t N> struct dynamic<std::array<T, N>> : dynamic<T> {};
template <typename T, typename A> struct dynamic<std::vector<T, A>> : std::true_type {};
template <typename T, typename A> struct dynamic<std::deque<T, A>> : std::true_type {};
template <typename T, typename A> struct dynamic<std::list<T, A>> : std::true_type {};
template <typename T, typename Tr, typename A> struct dynamic<std::basic_string<T, Tr, A>> : std::true_type {};
template <typename T, typename C, typename A> struct dynamic<std::set<T, C, A>> : std::true_type {};
template <typename T, typename C, typename A> struct dynamic<std::multiset<T, C, A>> : std::true_type {};
template <typename T, typename H, typename E, typename A> struct dynamic<std::unordered_set<T, H, E, A>> : std::true_type {};
template <typename T, typename H, typename E, typename A> struct dynamic<std::unordered_multiset<T, H, E, A>> : std::true_type {};
template <typename K, typename T, typename H, typename E, typename A> struct dynamic<std::unordered_multimap<K, T, H, E, A>> : std::true_type {};
template <typename K, typename V, typename C, typename A> struct dynamic<std::map<K, V, C, A>> : std::true_type {};
template <typename K, typename V, typename C, typename A> struct dynamic<std::multimap<K, V, C, A>> : std::true_type {};
template <typename K, typename V, typename H, typename E, typename A> struct dynamic<std::unordered_map<K, V, H, E, A>> : std::true_type {};
template <typename K, typename V> struct dynamic<std::pair<K, V>> : std::bool_constant<dynamic<K>::value || dynamic<V>::value> {};
template <typename... Ts> struct dynamic<std::tuple<Ts...>> : std::bool_constant<(dynamic<Ts>::value || ...)> {};
template <typename... Ts> struct dynamic<std::variant<Ts...>> : std::bool_constant<(dynamic<Ts>::value || ...)> {};
template <typename T> struct dynamic<std::optional<T>> : dynamic<T> {};
template <typename T> struct dynamic<zb::optional_ptr<T>> : dynamic<T> {};
template <typename T, typename D> struct dynamic<std::unique_ptr<T, D>> : dynamic<T> {};
template <typename T> struct dynamic<std::shared_ptr<T>> : dynamic<T> {};
template <typename T, typename S> struct dynamic<zb::sized_item<T, S>> : std::true_type {};

// A container whose elements need no size prefix of their own: reading it
// unsized reads as many elements as the target holds.
template <typename T>
concept unsized_readable = requires(T & t) { t.size(); t.begin(); typename T::value_type; requires !dynamic<typename T::value_type>::value; } && dynamic<T>::value;

inline bool same_bytes(const void * a, const void * b, std::size_t n)
{
    return n == 0 || std::memcmp(a, b, n) == 0;
}

// ---- option packs
template <typename Endian, typename Size, bool Big, SizeKind K>
struct Pack
{
    using endian = Endian;
    using size = Size;
    static constexpr Cfg cfg{Big, K};
    static constexpr bool sizeless = K == SizeKind::none;
    static constexpr std::size_t max_items = K == SizeKind::s1 ? 255 : 400;
    static std::string name()
    {
        static const char * k[] = {"none", "1b", "2b", "4b", "8b", "varint", "varint8", "varint16", "zigzag16", "zigzag32"};
        return std::string(Big ? "big/" : "little/") + k[int(K)];
    }
};
using PNative4 = Pack<zb::endian::native, zb::size4b, false, SizeKind::s4>;
using PLittle1 = Pack<zb::endian::little, zb::size1b, false, SizeKind::s1>;
using PBig2 = Pack<zb::endian::big, zb::size2b, true, SizeKind::s2>;
using PBig4 = Pack<zb::endian::network, zb::size4b, true, SizeKind::s4>;
using PBig8 = Pack<zb::endian::big, zb::size8b, true, SizeKind::s8>;
using PNative8 = Pack<zb::endian::native, zb::size_native, false, SizeKind::s8>;
using PNativeV = Pack<zb::endian::native, zb::size_varint, false, SizeKind::varint>;
using PSwapV = Pack<zb::endian::swapped, zb::size_varint, true, SizeKind::varint>;
using PSwap0 = Pack<zb::endian::swapped, zb::no_size, true, SizeKind::none>;
using PNative0 = Pack<zb::endian::native, zb::no_size, false, SizeKind::none>;
} // namespace ref
