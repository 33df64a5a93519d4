// C22: constant evaluation versus run time. Every program below is one constexpr
// function of a seed that drives real archives and logs everything it observes (bytes,
// codes, positions, sizes, values read back). It is evaluated by the compiler and again at
// run time, and the two logs are compared entry by entry. to_bytes and from_bytes are
// compared with archives at run time.
#include "common/mon.hpp"
#include "zpp_bits.h"
#include <deque>
#ifndef PART
#define PART 0
#define PARTS 1
#endif
#ifndef SEED
#define SEED 1
#endif
namespace zb = zpp::bits;
using namespace std::literals;
using namespace zpp::bits::literals;

namespace c22
{
constexpr std::uint64_t mix(std::uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
struct Rng
{
    std::uint64_t s;
    constexpr std::uint64_t next() { return mix(s += 0x9e3779b97f4a7c15ull); }
    constexpr std::uint64_t below(std::uint64_t n) { return next() % n; }
};

struct Entry
{
    const char * what;
    std::uint64_t value;
    std::uint32_t extra;
};
struct Log
{
    static constexpr std::size_t capacity = 400;
    std::array<Entry, capacity> e{};
    std::size_t n = 0;
    std::uint64_t bytes_seen = 0, failures = 0, successes = 0;
    constexpr void put(const char * what, std::uint64_t value, std::uint32_t extra = 0)
    {
        if (n < capacity) e[n] = {what, value, extra};
        ++n;
    }
    constexpr void code(const char * what, auto result)
    {
        put(what, std::uint64_t(int(result.code)), (zb::success(result) ? 1 : 0) | (zb::failure(result) ? 2 : 0));
        if (zb::success(result)) ++successes;
        else ++failures;
    }
    constexpr void bytes(const char * what, const auto & view, std::size_t len)
    {
        std::uint64_t h = 0xcbf29ce484222325ull;
        for (std::size_t i = 0; i < len; ++i) h = (h ^ std::uint8_t(view[i])) * 0x100000001b3ull;
        put(what, h, std::uint32_t(len));
        bytes_seen += len;
    }
};

// -- values
enum class E8 : std::uint8_t { a, b };
enum class E16 : std::int16_t { a, b };
enum class E32 : std::uint32_t {};
enum class E64 : std::int64_t {};
#define TIE(...)                                                                \
    static constexpr auto tie(auto & self) { return [](auto &... m) { return std::tie(m...); }(__VA_ARGS__); }
struct Pod { std::int32_t a; std::uint32_t b; TIE(self.a, self.b) };
struct Padded { char a; std::int64_t b; std::uint16_t c; TIE(self.a, self.b, self.c) };
struct Bytes4 { std::uint8_t a; std::int8_t b; char c; std::byte d; TIE(self.a, self.b, self.c, self.d) };
struct Nested { Padded p; Pod q; E16 e; TIE(self.p, self.q, self.e) };
struct Empty { static constexpr auto tie(auto &) { return std::tuple<>{}; } };
struct WithEmpty { std::uint16_t a; Empty e; std::uint8_t b; TIE(self.a, self.e, self.b) };
struct CArr
{
    using serialize = zb::members<2>;
    std::uint16_t a[3];
    Padded b[2];
    TIE(self.a, self.b)
};
struct Explicit
{
    std::uint32_t a;
    std::uint16_t b{};
    constexpr static auto serialize(auto & archive, auto & self) { return archive(self.b, self.a); }
    TIE(self.a, self.b)
};
class Private
{
    friend zb::access;
    using serialize = zb::members<2>;
    std::uint32_t a{};
    std::uint8_t b{};

public:
    TIE(self.a, self.b)
};
struct Person
{
    std::string name;
    std::int32_t age{};
    std::vector<std::uint16_t> v;
    TIE(self.name, self.age, self.v)
};
struct Varints
{
    zb::vint32_t a;
    zb::vuint64_t b;
    zb::vsint32_t c;
    zb::vsint64_t d;
    TIE(self.a, self.b, self.c, self.d)
};
struct Numbers
{
    zb::numbers::big_endian<std::uint32_t> a;
    std::uint16_t b{};
    zb::numbers::big_endian<std::int64_t> c;
    TIE(self.a, self.b, self.c)
};
struct Sub
{
    using serialize = zb::pb_protocol;
    zb::vint32_t x;
    std::string s;
    TIE(self.x, self.s)
};
struct Message
{
    using serialize = zb::pb_protocol;
    zb::vint32_t a;
    std::string text;
    std::vector<zb::vuint64_t> packed;
    Sub sub;
    double d{};
    std::vector<std::uint32_t> fixed;
    bool flag{};
    zb::vsint64_t z;
    TIE(self.a, self.text, self.packed, self.sub, self.d, self.fixed, self.flag, self.z)
};
struct PlainMessage // no containers
{
    using serialize = zb::pb_protocol;
    zb::vuint32_t a;
    float f{};
    zb::vsint32_t b;
    zb::pb_field<std::uint64_t, 77> c;
    static constexpr auto tie(auto & self) { return std::tie(self.a, self.f, self.b); }
};

template <typename T> constexpr void gen(Rng & r, T & v);
template <typename T> constexpr bool eq(const T & a, const T & b);
template <typename T> constexpr bool is_container = requires(T & t) { t.resize(3); t.begin(); };
template <typename T> constexpr bool is_varint = false;
template <typename T, zb::varint_encoding E> constexpr bool is_varint<zb::varint<T, E>> = true;
template <typename T> constexpr bool is_be = false;
template <typename T> constexpr bool is_be<zb::numbers::big_endian<T>> = true;
template <typename T> constexpr bool is_optional = false;
template <typename T> constexpr bool is_optional<std::optional<T>> = true;
template <typename T> constexpr bool is_variant = false;
template <typename... T> constexpr bool is_variant<std::variant<T...>> = true;

template <typename T>
constexpr T bits(Rng & r)
{
    auto x = r.next();
    switch (r.below(6)) {
    case 0: x = 0; break;
    case 1: x = ~std::uint64_t{}; break;
    case 2: x = std::uint64_t(1) << r.below(64); break;
    case 3: x = r.below(300); break;
    }
    if constexpr (std::same_as<T, bool>) return x & 1;
    else if constexpr (std::is_floating_point_v<T>) return T(std::int64_t(x >> 20)) / T(1024);
    else return T(x);
}
template <typename T>
constexpr void gen(Rng & r, T & v)
{
    if constexpr (requires { T::tie(v); }) std::apply([&](auto &... m) { (gen(r, m), ...); }, T::tie(v));
    else if constexpr (is_varint<T>) {
        auto x = r.next() >> r.below(64);
        if (r.below(2)) x = ~x;
        v.value = decltype(v.value)(x);
    } else if constexpr (is_be<T>) v.value = bits<decltype(v.value)>(r);
    else if constexpr (std::is_array_v<T>) for (auto & x : v) gen(r, x);
    else if constexpr (is_optional<T>) {
        v.reset();
        if (r.below(3)) gen(r, v.emplace());
    } else if constexpr (is_variant<T>) {
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            auto k = r.below(sizeof...(I));
            ((I == k ? gen(r, v.template emplace<I>()) : void()), ...);
        }(std::make_index_sequence<std::variant_size_v<T>>{});
    } else if constexpr (is_container<T>) {
        v.clear();
        v.resize(r.below(5));
        for (auto & x : v) gen(r, x);
    } else if constexpr (requires { v.begin(); v.size(); }) for (auto & x : v) gen(r, x);
    else if constexpr (requires { std::tuple_size<T>::value; }) std::apply([&](auto &... m) { (gen(r, m), ...); }, v);
    else v = bits<T>(r);
}
template <typename T>
constexpr bool eq(const T & a, const T & b)
{
    if constexpr (requires { T::tie(a); }) {
        auto x = T::tie(a);
        auto y = T::tie(b);
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return (eq(std::get<I>(x), std::get<I>(y)) && ... && true); }(std::make_index_sequence<std::tuple_size_v<decltype(x)>>{});
    } else if constexpr (is_varint<T>) return a.value == b.value;
    else if constexpr (is_be<T>) return a.value == b.value;
    else if constexpr (is_optional<T>) return a.has_value() == b.has_value() && (!a || eq(*a, *b));
    else if constexpr (is_variant<T>) {
        if (a.index() != b.index()) return false;
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return ((a.index() != I || eq(*std::get_if<I>(&a), *std::get_if<I>(&b))) && ...); }(std::make_index_sequence<std::variant_size_v<T>>{});
    } else if constexpr (std::is_array_v<T> || requires { a.begin(); a.size(); }) {
        if (std::size(a) != std::size(b)) return false;
        for (std::size_t i = 0; i < std::size(a); ++i) {
            if (!eq(a[i], b[i])) return false;
        }
        return true;
    } else if constexpr (requires { std::tuple_size<T>::value; }) {
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return (eq(std::get<I>(a), std::get<I>(b)) && ... && true); }(std::make_index_sequence<std::tuple_size_v<T>>{});
    } else return a == b;
}
// What was read, told by what it is when written again.
template <typename T>
constexpr void tell(Log & log, const char * what, const T & v)
{
    std::array<std::byte, 700> again{};
    zb::out o{again};
    auto res = o(v);
    log.code(what, res);
    log.bytes(what, again, o.position());
}

template <typename... O>
struct Opts
{};
template <std::size_t Room, typename T, typename Byte, typename... O>
constexpr void fixed_room(Log & log, const T & v)
{
    std::array<Byte, Room> small{};
    zb::out o(small, O{}...);
    log.code("small write", o(v));
    log.put("small position", o.position());
    log.bytes("small bytes", small, Room);
}

// One value: fixed buffers, growing buffers, reads, cuts, corruption.
template <typename T, typename Byte, typename... O>
constexpr Log value_program(std::uint64_t seed)
{
    Log log;
    Rng r{seed};
    for (int round = 0; round < 2; ++round) {
        T v{};
        gen(r, v);
        std::array<Byte, 700> buffer{};
        for (auto & b : buffer) b = Byte(r.next());
        zb::out out(buffer, O{}...);
        log.code("write", out(v));
        auto len = out.position();
        log.put("position", len, std::uint32_t(out.remaining_data().size()));
        log.bytes("bytes", buffer, len + 8);
        log.bytes("processed", out.processed_data(), out.processed_data().size());
        {
            T w{};
            if (r.below(2)) gen(r, w);
            zb::in in(buffer, O{}...);
            log.code("read", in(w));
            log.put("read position", in.position(), std::uint32_t(in.remaining_data().size()));
            log.put("equal", eq(v, w));
            tell(log, "read value", w);
            in.reset();
            log.put("reset", in.position());
            log.code("read again", in(w));
        }
        // two more items behind it
        {
            T w{};
            gen(r, w);
            std::uint16_t x = std::uint16_t(r.next()), y{};
            log.code("more", out(w, x));
            log.put("more position", out.position());
            log.bytes("more bytes", buffer, out.position());
            T w2{};
            zb::in in(buffer, O{}...);
            in.reset(len);
            log.code("read more", in(w2, y));
            log.put("read more", eq(w, w2) + 2 * (x == y), std::uint32_t(in.position()));
        }
        // cut inputs
        for (int c = 0; c < 4 && len; ++c) {
            auto cut = c == 0 ? len - 1 : r.below(len);
            T w{};
            std::span<const Byte> view{buffer.data(), cut};
            zb::in in(view, O{}..., zb::alloc_limit<4096>{});
            log.code("cut", in(w));
            log.put("cut position", in.position());
            tell(log, "cut value", w);
        }
        // changed inputs
        for (int c = 0; c < 4 && len; ++c) {
            auto changed = buffer;
            auto at = r.below(len);
            changed[at] = Byte(r.below(2) ? r.next() : (std::uint8_t(changed[at]) ^ (1u << r.below(8))));
            if constexpr (!requires { T::no_mutation; }) {
                T w{};
                std::span<const Byte> view{changed.data(), len + r.below(20)};
                zb::in in(view, O{}..., zb::alloc_limit<1024>{});
                log.code("changed", in(w));
                log.put("changed position", in.position());
                tell(log, "changed value", w);
            }
        }
        fixed_room<0, T, Byte, O...>(log, v);
        fixed_room<1, T, Byte, O...>(log, v);
        fixed_room<3, T, Byte, O...>(log, v);
        fixed_room<6, T, Byte, O...>(log, v);
        fixed_room<9, T, Byte, O...>(log, v);
        fixed_room<14, T, Byte, O...>(log, v);
        fixed_room<23, T, Byte, O...>(log, v);
        // growing
        {
            std::vector<Byte> data(r.below(12), Byte(0x5a));
            zb::out o(data, O{}..., zb::append{});
            log.code("grow", o(v));
            log.code("grow", o(std::uint8_t(7), v));
            log.put("grown", data.size(), std::uint32_t(o.position()));
            log.bytes("grown bytes", data, data.size());
        }
        {
            std::vector<Byte> data;
            zb::out o(data, O{}..., zb::enlarger<3, 2>{}, zb::no_fit_size{});
            log.code("grow", o(v));
            log.put("grown", data.size(), std::uint32_t(o.position()));
        }
        {
            std::vector<Byte> data;
            zb::out o(data, O{}..., zb::alloc_limit<12>{});
            log.code("limited", o(v));
            log.put("limited", data.size(), std::uint32_t(o.position()));
            log.bytes("limited bytes", data, o.position());
        }
    }
    return log;
}

// Long messages: length prefixes that need more room than was reserved for them.
template <typename... O>
constexpr Log message_program(std::uint64_t seed)
{
    Log log;
    Rng r{seed};
    constexpr std::size_t lengths[] = {0, 1, 100, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 200, 255, 256, 300};
    for (auto n : lengths) {
        Sub s{std::int32_t(r.below(100)), {}};
        s.s.resize(n);
        for (auto & c : s.s) c = char(r.next());
        std::vector<std::byte> data;
        auto [in, out] = zb::in_out(data, O{}...);
        log.code("write", out(s, std::uint8_t(9)));
        log.put("size", data.size(), std::uint32_t(out.position()));
        log.bytes("bytes", data, data.size());
        Sub t{};
        std::uint8_t nine{};
        log.code("read", in(t, nine));
        log.put("equal", eq(s, t) && nine == 9, std::uint32_t(in.position()));
        if (n % 3 == 0) {
            std::array<std::byte, 126> small{};
            zb::out o(small, O{}...);
            log.code("small", o(s));
            log.put("small position", o.position());
        }
    }
    return log;
}

// Views, bytes, sized and unsized items.
template <typename... O>
constexpr Log view_program(std::uint64_t seed)
{
    Log log;
    Rng r{seed};
    std::array<char, 64> text{};
    for (auto & c : text) c = char('a' + r.below(26));
    std::array<std::uint8_t, 20> octets{};
    for (auto & c : octets) c = std::uint8_t(r.next());
    std::array<std::uint32_t, 5> words{};
    for (auto & c : words) c = std::uint32_t(r.next());
    std::array<char, 500> buffer{};
    for (int i = 0; i < 4; ++i) {
        auto n = r.below(64), m = r.below(20), k = r.below(5);
        zb::out out(buffer, O{}...);
        log.code("views", out(std::string_view{text.data(), n}, std::span{octets.data(), m}, zb::sized<std::uint8_t>(std::string_view{text.data(), m}), zb::unsized(std::span<const std::uint8_t>{octets.data(), m}), std::span<const std::uint32_t>{words.data(), k}));
        log.put("position", out.position());
        log.bytes("bytes", buffer, out.position());
        zb::in in(buffer, O{}...);
        std::string_view a, c;
        log.code("view", in(a));
        log.put("view at", a.data() - buffer.data(), std::uint32_t(a.size()));
        std::array<std::uint8_t, 20> got{};
        std::span<std::uint8_t> into{got};
        log.code("span", in(into));
        log.put("span size", into.size());
        log.bytes("span bytes", got, got.size());
        auto s1 = zb::sized<std::uint8_t>(c);
        log.code("sized", in(s1));
        log.put("sized at", c.data() - buffer.data(), std::uint32_t(c.size()));
        std::array<std::uint8_t, 20> rest{};
        std::span<std::uint8_t> u{rest.data(), m};
        log.code("unsized", in(zb::unsized(u)));
        log.bytes("unsized bytes", rest, m);
        std::array<std::uint32_t, 3> few{};
        std::span<std::uint32_t> w{few};
        log.code("words", in(w));
        log.put("words", w.size(), std::uint32_t(in.position()));
        for (auto x : few) log.put("word", x);
        // the rest, as a view
        std::string_view tail;
        log.code("tail", in(zb::unsized(tail)));
        log.put("tail", tail.size(), std::uint32_t(in.position()));
    }
    return log;
}

// Function application, calls with identifiers.
constexpr std::uint32_t fold(std::uint16_t a, std::array<std::uint8_t, 3> b, Pod c)
{
    return a * 31u + b[0] * 7u + b[1] * 5u + b[2] + std::uint32_t(c.a) + c.b * 3u;
}
constexpr void nothing(std::uint32_t) {}
constexpr std::uint16_t twice(std::uint16_t x) { return std::uint16_t(2 * x); }
constexpr int zero() { return 42; }
template <typename... O>
constexpr Log call_program(std::uint64_t seed)
{
    Log log;
    Rng r{seed};
    for (int i = 0; i < 4; ++i) {
        std::array<std::byte, 64> buffer{};
        zb::out out(buffer, O{}...);
        std::uint16_t a = std::uint16_t(r.next());
        std::array<std::uint8_t, 3> b{};
        gen(r, b);
        Pod c{};
        gen(r, c);
        log.code("arguments", out(a, b, c, std::uint32_t(i)));
        auto len = out.position();
        {
            zb::in in(buffer, O{}...);
            auto got = zb::apply(fold, in);
            log.put("apply", got.success() ? got.value() : 0, got.success());
            log.put("apply position", in.position());
            log.code("apply void", zb::apply(nothing, in));
            log.put("apply position", in.position());
            log.put("apply zero", zb::apply(zero, in));
        }
        for (std::size_t cut = 0; cut < len; cut += 3) {
            zb::in in(std::span<const std::byte>{buffer.data(), cut}, O{}...);
            auto got = zb::apply(fold, in);
            log.put("cut apply", got.success() ? got.value() : std::uint64_t(int(got.error().code)), got.success());
            log.put("cut position", in.position());
        }
    }
    return log;
}
using calls = zb::rpc<zb::bind<fold, "fold"_sha256_int>, zb::bind<twice, "twice"_sha256_int>, zb::bind<nothing, "nothing"_sha256_int>, zb::bind<zero, "zero"_sha256_int>>;
template <typename... O>
constexpr Log rpc_program(std::uint64_t seed)
{
    Log log;
    Rng r{seed};
    std::array<std::byte, 300> requests{}, responses{};
    auto [qi, qo] = zb::in_out(requests, O{}...);
    auto [pi, po] = zb::in_out(responses, O{}...);
    typename calls::template client<decltype(pi) &, decltype(qo) &> client{pi, qo};
    typename calls::template server<decltype(qi) &, decltype(po) &> server{qi, po};
    for (int i = 0; i < 6; ++i) {
        auto which = r.below(5);
        std::uint16_t a = std::uint16_t(r.next());
        std::array<std::uint8_t, 3> b{};
        gen(r, b);
        Pod c{};
        gen(r, c);
        if (which == 0) log.code("request", client.template request<"fold"_sha256_int>(a, b, c));
        else if (which == 1) log.code("request", client.template request<"twice"_sha256_int>(a));
        else if (which == 2) log.code("request", client.template request<"nothing"_sha256_int>(std::uint32_t(a)));
        else if (which == 3) log.code("request", client.template request<"zero"_sha256_int>());
        else log.code("unknown", qo(std::uint32_t(12345 + a)));
        log.put("requested", qo.position());
        log.bytes("request bytes", requests, qo.position());
        log.code("serve", server.serve());
        log.put("served", qi.position(), std::uint32_t(po.position()));
        log.bytes("response bytes", responses, po.position());
        if (which == 0) {
            auto got = client.template response<"fold"_sha256_int>();
            log.put("response", got.success() ? got.value() : 0, got.success());
        } else if (which == 1) {
            auto got = client.template response<"twice"_sha256_int>();
            log.put("response", got.success() ? got.value() : 0, got.success());
        } else if (which == 2) log.put("response", 1);
        else if (which == 3) {
            auto got = client.template response<"zero"_sha256_int>();
            log.put("response", std::uint64_t(got.success() ? got.value() : 0), got.success());
        }
        log.put("answered", pi.position());
    }
    return log;
}
// Every varint type at every length, minimal and not.
template <typename V, typename Byte>
constexpr Log varint_program(std::uint64_t seed)
{
    Log log;
    Rng r{seed};
    for (int i = 0; i < 20; ++i) {
        V v{};
        gen(r, v);
        std::array<Byte, 14> buffer{};
        zb::out out(buffer);
        log.code("write", out(v));
        auto len = out.position();
        log.bytes("bytes", buffer, len);
        for (auto room : {len, len + 1, std::size_t(14)}) {
            V w{};
            zb::in in(std::span<const Byte>{buffer.data(), room});
            log.code("read", in(w));
            log.put("value", std::uint64_t(w.value), std::uint32_t(in.position()));
        }
        // anything
        for (auto & b : buffer) b = Byte(r.next() | (r.below(4) ? 0x80 : 0));
        V w{};
        zb::in in(std::span<const Byte>{buffer.data(), r.below(15)});
        log.code("any", in(w));
        log.put("value", std::uint64_t(w.value), std::uint32_t(in.position()));
    }
    return log;
}

// -- comparing
inline volatile std::uint64_t hidden = 0;
template <auto Program, std::uint64_t Seed>
void compare(const std::string & name)
{
    auto label = name + "|seed=" + std::to_string(Seed);
    static constexpr Log ct = Program(Seed);
    if (!mon::begin(label)) return;
    Log rt = Program(Seed + hidden);
    mon::check(ct.n <= Log::capacity, "log-too-small", [&] { return std::to_string(ct.n); });
    mon::check(ct.n == rt.n, "steps-differ", [&] { return std::to_string(ct.n) + " in constant evaluation, " + std::to_string(rt.n) + " at run time"; });
    for (std::size_t i = 0; i < std::min({ct.n, rt.n, Log::capacity}); ++i) {
        const Entry &a = ct.e[i], &b = rt.e[i];
        if (!mon::check(std::string_view(a.what) == b.what && a.value == b.value && a.extra == b.extra, "constant-evaluation-differs", [&] {
                return "step " + std::to_string(i) + ": " + a.what + " " + std::to_string(a.value) + "/" + std::to_string(a.extra) + " in constant evaluation, " + b.what + " " + std::to_string(b.value) + "/" + std::to_string(b.extra) + " at run time";
            })) break;
    }
    mon::count("programs");
    mon::count("steps", ct.n);
    mon::count("bytes", ct.bytes_seen);
    mon::count("failures", ct.failures);
    mon::count("successes", ct.successes);
    mon::nontrivial(mon::hash_bytes(&ct.n, sizeof ct.n, ct.bytes_seen));
    mon::sample([&] { return std::to_string(ct.n) + " steps, " + std::to_string(ct.failures) + " failures"; });
}
// -- to_bytes and from_bytes
template <auto... Values>
struct values
{};
template <std::size_t N>
constexpr auto shorter(const auto & from)
{
    std::array<std::byte, N> c{};
    for (std::size_t i = 0; i < N; ++i) c[i] = from[i];
    return c;
}
inline int serial = 0;
template <typename Values, typename... Types>
void constants(std::string_view want)
{
    auto label = "constants|" + std::to_string(serial++);
    if (!mon::begin(label)) return;
    [&]<auto... V>(values<V...>) {
        constexpr auto made = zb::to_bytes<V...>();
        static_assert(std::same_as<std::remove_const_t<decltype(made)>, std::array<std::byte, made.size()>>);
        auto run_time = zb::to_bytes<V...>();
        auto text = [](auto & b) { return std::string(reinterpret_cast<const char *>(b.data()), b.size()); };
        std::vector<std::byte> data;
        zb::out out(data);
        mon::check(zb::success(out(Types(V)...)), "archive-write-fails");
        mon::check(made.size() == want.size(), "to-bytes-size", [&] { return std::to_string(made.size()) + " expected " + std::to_string(want.size()); });
        mon::check(text(made) == want, "to-bytes", [&] { return mon::hex(made) + " expected " + mon::hex(want); });
        mon::check(text(run_time) == text(made), "to-bytes-at-run-time", [&] { return mon::hex(run_time); });
        mon::check(text(data) == text(made), "to-bytes-archive", [&] { return mon::hex(data) + " in an archive, " + mon::hex(made); });
        // and back
        constexpr auto back = zb::from_bytes<made, Types...>();
        auto back2 = zb::from_bytes<made, Types...>();
        auto judge = [&](const auto & got, const char * what) {
            std::vector<std::byte> again;
            zb::out o(again);
            (void)o(got);
            mon::check(text(again) == want, what, [&] { return mon::hex(again) + " expected " + mon::hex(want); });
            std::tuple<Types...> all{};
            zb::in in(made);
            mon::check(zb::success(in(all)), "archive-read-fails");
            mon::check(in.position() == want.size(), "archive-read-position");
            if constexpr (sizeof...(Types) == 1) mon::check(eq(got, std::get<0>(all)), "from-bytes-archive", [&] { return what; });
            else mon::check(eq(got, all), "from-bytes-archive", [&] { return what; });
        };
        judge(back, "from-bytes");
        judge(back2, "from-bytes-at-run-time");
        // one byte less: reported at run time
        if constexpr (made.size() > 0 && made.size() < 200) {
            constexpr auto cut = shorter<made.size() - 1>(made);
            if constexpr (cut.size() > 0) {
                int code = 0;
                try {
                    (void)zb::from_bytes<cut, Types...>();
                } catch (const std::system_error & e) {
                    code = e.code().value();
                }
                mon::check(code == int(std::errc::result_out_of_range), "from-bytes-of-cut-data", [&] { return "code " + std::to_string(code); });
                mon::count("cut-constants");
            }
        }
        mon::count("constants");
        mon::nontrivial(mon::hash_bytes(want.data(), want.size()));
    }(Values{});
}
} // namespace c22

using namespace c22;
template <typename T, typename B, typename... O>
constexpr auto VP = value_program<T, B, O...>;
int main(int argc, char ** argv)
{
    mon::init(argc, argv);
#include PROGRAMS
    return mon::finish();
}
