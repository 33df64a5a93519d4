// C11: variants. Every pair (written alternative, previous alternative of the
// target), every kind of identifier, all one-byte ids and near misses of the
// wider ones, valueless variants, and known ids.
#include "common/heap.hpp"
#include "common/zoo.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;
using namespace zpp::bits::literals;

template <std::size_t N>
struct Alt
{
    std::uint8_t x;
    static auto tie(auto & s) { return std::tie(s.x); }
};
template <std::size_t N>
struct AltS
{
    std::string x;
    static auto tie(auto & s) { return std::tie(s.x); }
};
// mixed: declared ids and indices in one variant
struct Mixed7
{
    using serialize_id = zb::id<std::uint8_t(7)>;
    static WireId wire_id() { return zoo::lit_id("\x07"); }
    std::string s;
    static auto tie(auto & x) { return std::tie(x.s); }
};
struct Mixed255
{
    using serialize_id = zb::id<std::uint8_t(255)>;
    static WireId wire_id() { return zoo::lit_id("\xff"); }
    std::uint16_t s;
    static auto tie(auto & x) { return std::tie(x.s); }
};
// found by argument dependent lookup
struct AdlA
{
    std::uint32_t s;
    static auto tie(auto & x) { return std::tie(x.s); }
    static WireId wire_id() { return zoo::lit_id("adlA"); }
};
auto serialize_id(const AdlA &) -> zb::id<"adlA"_s>;
struct AdlB
{
    std::vector<std::uint16_t> s;
    static auto tie(auto & x) { return std::tie(x.s); }
    static WireId wire_id() { return zoo::lit_id("adlB"); }
};
auto serialize_id(const AdlB &) -> zb::id<"adlB"_s>;
// truncated hashes and whole ones
struct HashA
{
    using serialize_id = zb::id<"v1::hash"_sha256, 8>;
    static WireId wire_id()
    {
        WireId w{};
        constexpr auto h = "v1::hash"_sha256;
        w.n = 8;
        std::memcpy(w.bytes, h.data(), 8);
        return w;
    }
    std::uint8_t s;
    static auto tie(auto & x) { return std::tie(x.s); }
};
struct HashB
{
    using serialize_id = zb::id<"v2::hash"_sha256, 8>;
    static WireId wire_id()
    {
        WireId w{};
        constexpr auto h = "v2::hash"_sha256;
        w.n = 8;
        std::memcpy(w.bytes, h.data(), 8);
        return w;
    }
    std::string s;
    static auto tie(auto & x) { return std::tie(x.s); }
};
struct LongA
{
    using serialize_id = zb::id<"v1::hash"_sha1>;
    static WireId wire_id()
    {
        WireId w{};
        constexpr auto h = "v1::hash"_sha1;
        w.n = 20;
        std::memcpy(w.bytes, h.data(), 20);
        return w;
    }
    std::uint8_t s;
    static auto tie(auto & x) { return std::tie(x.s); }
};
struct LongB
{
    using serialize_id = zb::id<"v2::hash"_sha1>;
    static WireId wire_id()
    {
        WireId w{};
        constexpr auto h = "v2::hash"_sha1;
        w.n = 20;
        std::memcpy(w.bytes, h.data(), 20);
        return w;
    }
    std::uint32_t s;
    static auto tie(auto & x) { return std::tie(x.s); }
};
struct ThreeA // an odd width close to an integer's
{
    using serialize_id = zb::id<"abc"_s>;
    static WireId wire_id() { return zoo::lit_id("abc"); }
    std::uint8_t s;
    static auto tie(auto & x) { return std::tie(x.s); }
};
struct ThreeB
{
    using serialize_id = zb::id<"abd"_s>;
    static WireId wire_id() { return zoo::lit_id("abd"); }
    std::string s;
    static auto tie(auto & x) { return std::tie(x.s); }
};
// not default constructible but for the library
class Hidden
{
    friend zpp::bits::access;
    friend struct ref_access;
    Hidden() = default;
    using serialize = zb::members<2>;
    std::uint32_t a{};
    std::string b;

public:
    Hidden(std::uint32_t a, std::string b) : a(a), b(b) {}
    static auto tie(auto & x) { return std::tie(x.a, x.b); }
};
class HiddenId
{
    friend zpp::bits::access;
    HiddenId() = default;
    using serialize = zb::members<1>;
    std::vector<std::uint16_t> a{};

public:
    using serialize_id = zb::id<"hide"_s>;
    static WireId wire_id() { return zoo::lit_id("hide"); }
    HiddenId(std::vector<std::uint16_t> a) : a(a) {}
    static auto tie(auto & x) { return std::tie(x.a); }
};

struct Boom
{
    operator std::uint32_t() const { throw 1; }
};
struct ThrowOnMove
{
    std::uint32_t x = 0;
    ThrowOnMove() = default;
    ThrowOnMove(std::uint32_t x) : x(x) {}
    ThrowOnMove(Boom) { throw 1; }
    ThrowOnMove(const ThrowOnMove & o) = default;
    ThrowOnMove & operator=(const ThrowOnMove &) = default;
    using serialize = zb::members<1>;
    static auto tie(auto & s) { return std::tie(s.x); }
};

// The identifier of alternative I as it stands on the wire.
template <typename V, std::size_t I>
Bytes wire_id(Cfg c)
{
    using X = std::variant_alternative_t<I, V>;
    Bytes b;
    if constexpr (has_wire_id<X>) {
        auto id = X::wire_id();
        bool integer = id.n == 1 || id.n == 2 || id.n == 4 || id.n == 8;
        for (std::size_t i = 0; i < id.n; ++i) b.push_back(id.bytes[integer && c.big ? id.n - 1 - i : i]);
    } else b.push_back((unsigned char)I);
    return b;
}
template <typename V, std::size_t I>
constexpr auto id_value()
{
    using X = std::variant_alternative_t<I, V>;
    if constexpr (requires { X::serialize_id::value; }) return X::serialize_id::value;
    else if constexpr (has_wire_id<X>) return decltype(serialize_id(std::declval<X>()))::value;
    else return std::byte{I};
}
template <typename X>
X make(Rng & r)
{
    auto value = [&] {
        if constexpr (std::same_as<X, Hidden>) return Hidden(0, "");
        else if constexpr (std::same_as<X, HiddenId>) return HiddenId(std::vector<std::uint16_t>{});
        else return X{};
    }();
    gen(r, value, G{20, 1});
    return value;
}
template <typename V>
V make_variant(Rng & r, std::size_t at)
{
    V v = [&]<std::size_t... I>(std::index_sequence<I...>) {
        std::optional<V> o;
        ((I == at ? (void)o.emplace(std::in_place_index<I>, make<std::variant_alternative_t<I, V>>(r)) : (void)0), ...);
        return *std::move(o);
    }(std::make_index_sequence<std::variant_size_v<V>>{});
    return v;
}

template <typename V, typename P>
void suite(const char * name, unsigned repeat)
{
    constexpr auto N = std::variant_size_v<V>;
    std::vector<Bytes> ids;
    [&]<std::size_t... I>(std::index_sequence<I...>) { (ids.push_back(wire_id<V, I>(P::cfg)), ...); }(std::make_index_sequence<N>{});
    auto in_bytes = [](const Bytes & b, V & w) {
        auto block = heap::Exact<const std::byte>::copy(b, b.size());
        auto span = block.span();
        zb::in in{span, typename P::endian{}, typename P::size{}};
        zb::errc res = in(w);
        return std::pair{res, in.position()};
    };
    auto base = std::string("variant=") + name + "|P=" + P::name();
    for (std::size_t at = 0; at < N; ++at)
        for (std::size_t old = 0; old < N; ++old) {
            if (N > 20 && !mon::st().thorough && (at * 31 + old) % 23) continue;
            auto label = base + "|at=" + std::to_string(at) + "|old=" + std::to_string(old);
            if (!mon::begin(label)) continue;
            auto r = mon::rng(label);
            for (unsigned k = 0; k < repeat; ++k) {
                auto v = make_variant<V>(r, at);
                auto w = make_variant<V>(r, old);
                auto want = ids[at];
                std::visit([&](auto & x) { enc(want, x, P::cfg); }, v);
                std::vector<std::byte> data;
                zb::out out{data, typename P::endian{}, typename P::size{}};
                zb::errc res = out(v);
                auto say = [&] { return "errc " + std::to_string(int(res.code)) + " " + mon::hex(data) + " expected " + mon::hex(want); };
                mon::check(zb::success(res) && data.size() == want.size() && same_bytes(data.data(), want.data(), want.size()), "written-id-or-value", say);
                auto [code, position] = in_bytes(want, w);
                res = code;
                mon::check(zb::success(code) && w.index() == at && eq(v, w) && position == want.size(), "read-alternative", [&] { return say() + " index " + std::to_string(w.index()); });
                mon::count("pairs");
                mon::nontrivial(mon::hash_bytes(want.data(), want.size()) + old);
                // truncated identifiers leave the target alone
                for (std::size_t cut = 0; cut < ids[at].size(); ++cut) {
                    auto x = make_variant<V>(r, old);
                    auto y = x;
                    auto [code, position] = in_bytes(Bytes(want.begin(), want.begin() + long(cut)), x);
                    mon::check(code.code == std::errc::result_out_of_range && eq(x, y), "truncated-id", [&] { return std::to_string(int(code.code)); });
                    mon::count("truncated-ids");
                }
            }
        }
    // unknown identifiers
    auto bad = [&](Bytes id, std::size_t old, Rng & r) {
        if (std::find(ids.begin(), ids.end(), id) != ids.end()) return;
        auto w = make_variant<V>(r, old);
        auto before = w;
        auto b = id;
        for (int k = 0; k < 40; ++k) b.push_back((unsigned char)r.below(3));
        auto [code, position] = in_bytes(b, w);
        mon::check(code.code == std::errc::bad_message, "bad-id-not-reported", [&] { return mon::hex(id) + " errc " + std::to_string(int(code.code)); });
        mon::check(w.index() == before.index() && eq(w, before), "bad-id-changes-target", [&] { return mon::hex(id); });
        mon::count("bad-ids");
        mon::nontrivial(mon::hash_bytes(id.data(), id.size()));
    };
    if (mon::begin(base + "|bad")) {
        auto r = mon::rng(base + "bad");
        if (ids[0].size() == 1) {
            for (unsigned x = 0; x < 256; ++x) bad({(unsigned char)x}, x % N, r);
        }
        for (auto & id : ids)
            for (std::size_t bit = 0; bit < id.size() * 8; ++bit) {
                auto b = id;
                b[bit / 8] ^= (unsigned char)(1u << bit % 8);
                bad(b, bit % N, r);
            }
        for (auto & id : ids) {
            auto b = id;
            std::reverse(b.begin(), b.end());
            bad(b, 0, r);
            std::fill(b.begin(), b.end(), 0);
            bad(b, N - 1, r);
            std::fill(b.begin(), b.end(), 0xff);
            bad(b, N - 1, r);
            for (std::size_t k = 0; k < 30; ++k) {
                for (auto & x : b) x = (unsigned char)r.next();
                bad(b, k % N, r);
            }
            // halves of two valid ids
            for (auto & other : ids) {
                auto c = id;
                for (std::size_t k = c.size() / 2; k < c.size(); ++k) c[k] = other[k];
                bad(c, 0, r);
            }
        }
    }
    // known identifiers: only the value is on the wire
    if (mon::begin(base + "|known")) {
        auto r = mon::rng(base + "known");
        auto known = [&]<std::size_t I>() {
            for (std::size_t old = 0; old < std::min<std::size_t>(N, 6); ++old) {
                auto v = make_variant<V>(r, I);
                Bytes want;
                enc(want, std::get<I>(v), P::cfg);
                std::vector<std::byte> data;
                zb::out out{data, typename P::endian{}, typename P::size{}};
                auto res = out(zb::known_id<id_value<V, I>()>(v));
                mon::check(zb::success(res) && data.size() == want.size() && same_bytes(data.data(), want.data(), want.size()), "known-id-written", [&] { return mon::hex(data) + " expected " + mon::hex(want); });
                auto block = heap::Exact<const std::byte>::copy(want, want.size());
                auto span = block.span();
                auto w = make_variant<V>(r, old);
                zb::in in{span, typename P::endian{}, typename P::size{}};
                res = in(zb::known_id<id_value<V, I>()>(w));
                mon::check(zb::success(res) && w.index() == I && eq(v, w) && in.position() == want.size(), "known-id-read", [&] { return "index " + std::to_string(w.index()) + " instead of " + std::to_string(I); });
                auto x = make_variant<V>(r, old);
                zb::in in2{span, typename P::endian{}, typename P::size{}};
                auto id = id_value<V, I>();
                res = in2(zb::known_id(id, x));
                mon::check(zb::success(res) && x.index() == I && eq(v, x) && in2.position() == want.size(), "dynamic-known-id-read", [&] { return "index " + std::to_string(x.index()) + " instead of " + std::to_string(I); });
                zb::in in3{span, typename P::endian{}, typename P::size{}};
                auto y = make_variant<V>(r, old);
                res = in3(zb::known_id(zb::id_v<id_value<V, I>()>, y));
                mon::check(zb::success(res) && eq(v, y), "dynamic-known-id-constant-read");
                mon::count("known-ids");
            }
        };
        [&]<std::size_t... I>(std::index_sequence<I...>) { (known.template operator()<I>(), ...); }(std::make_index_sequence < N<20 ? N : 20>{});
        // unknown ones
        using Id = std::remove_const_t<decltype(id_value<V, 0>())>;
        for (unsigned k = 0; k < 400; ++k) {
            Id id;
            Bytes raw(sizeof(Id));
            if (k < 256 && sizeof(Id) == 1) raw[0] = (unsigned char)k;
            else if (k % 3 == 0) { // a neighbour of a valid one
                raw = ids[k % N];
                if (P::cfg.big && (sizeof(Id) == 2 || sizeof(Id) == 4 || sizeof(Id) == 8)) std::reverse(raw.begin(), raw.end());
                raw[k / 3 % raw.size()] ^= (unsigned char)(1u << r.below(8));
            } else
                for (auto & x : raw) x = (unsigned char)r.next();
            std::memcpy(&id, raw.data(), sizeof id);
            auto onwire = raw;
            if (P::cfg.big && (sizeof(Id) == 2 || sizeof(Id) == 4 || sizeof(Id) == 8)) std::reverse(onwire.begin(), onwire.end());
            if (std::find(ids.begin(), ids.end(), onwire) != ids.end()) continue;
            Bytes input(40, 1);
            auto w = make_variant<V>(r, k % N);
            auto before = w;
            zb::in in{input, typename P::endian{}, typename P::size{}};
            auto res = in(zb::known_id(id, w));
            mon::check(res.code == std::errc::bad_message && in.position() == 0 && eq(w, before), "unknown-dynamic-id", [&] { return mon::hex(raw) + " errc " + std::to_string(int(res.code)); });
            mon::count("unknown-dynamic-ids");
        }
    }
    mon::count("variants");
}

template <typename P>
void valueless(const char * name)
{
    if (!mon::begin(std::string("valueless=") + name)) return;
    using V = std::variant<std::string, ThrowOnMove, std::uint8_t>;
    V v{"x"};
    try {
        v.emplace<1>(Boom{});
    } catch (int) {
    }
    mon::check(v.valueless_by_exception(), "harness-valueless");
    std::vector<std::byte> data(3, std::byte(0x77));
    auto old = data;
    zb::out out{data, typename P::endian{}, typename P::size{}, zb::append{}};
    zb::errc res = out(v);
    mon::check(res.code == std::errc::invalid_argument, "valueless-written", [&] { return std::to_string(int(res.code)); });
    mon::check(out.position() == 3 && data == old, "valueless-writes-bytes");
    res = out(std::uint8_t(1), v, std::uint8_t(2));
    mon::check(res.code == std::errc::invalid_argument && out.position() == 4, "valueless-inside-call");
    std::vector<V> many;
    many.emplace_back("a");
    many.push_back(v);
    res = out(many);
    mon::check(res.code == std::errc::invalid_argument, "valueless-in-vector");
    // and it can be read into
    for (std::size_t at = 0; at < 3; ++at) {
        auto r = mon::rng(name + std::to_string(at));
        auto u = make_variant<V>(r, at);
        auto want = encode(u, P::cfg);
        V w{"x"};
        try {
            w.emplace<1>(Boom{});
        } catch (int) {
        }
        zb::in in{want, typename P::endian{}, typename P::size{}};
        res = in(w);
        mon::check(zb::success(res) && w.index() == at && eq(u, w), "read-into-valueless");
        mon::count("valueless");
    }
}

template <typename V>
void all(const char * name, unsigned repeat = 6)
{
    suite<V, PNative4>(name, repeat);
    suite<V, PBig2>(name, repeat);
    suite<V, PSwapV>(name, repeat);
}
template <typename S>
struct many_impl;
template <std::size_t... I>
struct many_impl<std::index_sequence<I...>>
{
    using type = std::variant<std::conditional_t<I % 3 == 1, AltS<I>, Alt<I>>...>;
};
template <std::size_t N>
using many = typename many_impl<std::make_index_sequence<N>>::type;

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    using namespace zoo;
#if PART == 0
    all<std::variant<std::int32_t, std::string, double>>("index", 20);
    all<std::variant<std::monostate, std::uint32_t>>("monostate", 20);
    all<std::variant<std::string>>("one");
    all<std::variant<Pod, Padded, U8V, std::optional<std::uint16_t>, std::map<std::uint8_t, std::string>>>("classes");
    valueless<PNative4>("native");
    valueless<PSwapV>("swapped");
#elif PART == 1
    suite<many<40>, PNative4>("40 alternatives", 1);
#elif PART == 2
    all<std::variant<IdA1, IdB1>>("1 byte", 20);
    all<std::variant<IdA2, IdB2>>("2 bytes", 20);
    all<std::variant<IdA4, IdB4>>("4 bytes", 20);
#elif PART == 3
    all<std::variant<IdA8, IdB8>>("8 bytes", 20);
    all<std::variant<IdA5, IdB5, IdC5>>("5 bytes", 20);
    all<std::variant<ThreeA, ThreeB>>("3 bytes", 20);
#elif PART == 4
    all<std::variant<Mixed7, std::uint32_t, Mixed255, std::string>>("mixed", 20);
    all<std::variant<AdlA, AdlB>>("adl", 20);
#elif PART == 5
    all<std::variant<HashA, HashB>>("sha256 of 8", 20);
    all<std::variant<LongA, LongB>>("sha1", 20);
#elif PART == 6
    all<std::variant<Hidden, std::uint32_t, std::string>>("not default constructible", 20);
    all<std::variant<std::uint8_t, Hidden>>("not default constructible second", 20);
    all<std::variant<HiddenId, IdA4>>("not default constructible with id", 20);
#elif PART == 7
    using Inner = std::variant<std::uint8_t, std::string>;
    all<std::variant<Inner, std::vector<Inner>, std::variant<IdA4, IdB4>>>("nested", 20);
    all<std::variant<Alt<0>, AltS<1>, Alt<2>, AltS<3>, Alt<4>, Alt<5>, Alt<6>, Alt<7>, AltS<8>>>("nine");
#endif
    return mon::finish();
}
