// C10: byte order. The same value through archives that differ in the order
// alone; oracle: the reference encoder, which lays out every scalar bytewise.
#include "common/zoo2.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

template <typename Endian, typename Size, typename T>
Bytes write(const T & v)
{
    std::vector<unsigned char> data;
    zb::out out{data, Endian{}, Size{}};
    auto res = out(v);
    if (!mon::check(zb::success(res), "write-fails", [&] { return std::to_string(int(res.code)); })) return {};
    return data;
}
template <typename Endian, typename Size, typename T>
void read(const T & v, const Bytes & b, T & w, const char * key)
{
    zb::in in{b, Endian{}, Size{}};
    auto res = in(w);
    mon::check(zb::success(res) && in.position() == b.size() && eq(v, w), key, [&] { return "errc " + std::to_string(int(res.code)) + " " + mon::hex(b); });
}

template <typename T, typename Size, SizeKind K>
void one(const std::string & tname, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "T=" + tname + "|S=" + std::to_string(int(K)) + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        T v{}, w{};
        gen(r, v, G{});
        if (r.chance(1, 2)) gen(r, w, G{});
        auto be = zoo2::encode(v, Cfg{true, K}), le = zoo2::encode(v, Cfg{false, K});
        if (zoo2::oversized) continue;
        auto same = [&](const char * key, const Bytes & got, const Bytes & want) {
            mon::check(got == want, key, [&] { return "expected " + mon::hex(want) + " got " + mon::hex(got); });
        };
        auto b = write<zb::endian::big, Size>(v), l = write<zb::endian::little, Size>(v);
        same("big-bytes", b, be);
        same("little-bytes", l, le);
        read<zb::endian::big, Size>(v, be, w, "big-read");
        read<zb::endian::little, Size>(v, le, w, "little-read");
        if (be != le) {
            mon::count("order-matters");
            mon::nontrivial(mon::hash_bytes(be.data(), be.size()));
        } else mon::count("order-does-not-matter");
        mon::sample([&] { return mon::hex(be, 40) + " / " + mon::hex(le, 40); });
    }
}

// What a byte order option may not touch.
template <typename T, typename S>
void neutral(const char * key, const T & v)
{
    auto b = write<zb::endian::big, S>(v), l = write<zb::endian::little, S>(v);
    mon::check(b == l, key, [&] { return mon::hex(b) + " / " + mon::hex(l); });
    mon::count("neutral");
}
struct Msg
{
    using serialize = zb::protocol<zb::pb{}, 4>;
    zb::vint32_t a;
    std::string b;
    double c;
    std::vector<std::uint32_t> d;
};
struct MsgDefault
{
    using serialize = zb::pb_protocol;
    zb::vint32_t a;
    float b;
    std::vector<double> c;
};
struct FixMsg
{
    using serialize = zb::pb_protocol;
    zb::vuint64_t a;
    std::uint32_t b;
    std::int64_t c;
};

template <typename E>
constexpr bool is_swapped_alias = std::same_as<E, zb::endian::big>;
static_assert(std::same_as<zb::endian::network, zb::endian::big> && std::same_as<zb::endian::native, zb::endian::little> && std::same_as<zb::endian::swapped, zb::endian::big>);

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto all = []<typename T, std::size_t I>() {
        auto name = zoo::type_name<T>();
        auto n = mon::iters(250, 4000);
        mon::count("types");
        if constexpr (I % 3 == 0) one<T, zb::size2b, SizeKind::s2>(name, n);
        else if constexpr (I % 3 == 1) one<T, zb::size8b, SizeKind::s8>(name, n);
        else one<T, zb::size_varint, SizeKind::varint>(name, n);
        if constexpr (I % 3 == 1 || !ref::dynamic<T>::value) one<T, zb::size4b, SizeKind::s4>(name, n);
    };
    zoo::each<PART, PARTS>(zoo::Zoo{}, all);
    zoo2::each<PART, PARTS>(all);
    for (std::uint64_t i = 0, n = mon::iters(2000, 100000); i < n; ++i) {
        auto label = "neutral|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        Bytes raw(r.below(20));
        for (auto & x : raw) x = (unsigned char)r.next();
        neutral<std::bitset<77>, zb::size1b>("bitset-depends-on-order", [&] { std::bitset<77> v; gen(r, v, G{}); return v; }());
        neutral<Bytes, zb::size_varint>("bytes-depend-on-order", raw);
        neutral<std::string, zb::size1b>("string-depends-on-order", std::string(raw.begin(), raw.end()));
        neutral<zb::vuint64_t, zb::size4b>("varint-depends-on-order", zb::vuint64_t{r.next() >> r.below(64)});
        neutral<zb::vsint32_t, zb::size4b>("varint-depends-on-order", zb::vsint32_t{std::int32_t(r.next())});
        neutral<zoo::Pod8, zb::size4b>("byte-members-depend-on-order", [&] { zoo::Pod8 v{}; gen(r, v, G{}); return v; }());
        neutral<Msg, zb::size_varint>("message-depends-on-order", Msg{std::int32_t(r.next()), std::string(raw.begin(), raw.end()), 1.5 * double(r.below(100)), {1, std::uint32_t(r.next())}});
        neutral<MsgDefault, zb::size_varint>("message-depends-on-order", MsgDefault{std::int32_t(r.next()), float(r.below(1000)), {0.5, double(r.next())}});
        neutral<FixMsg, zb::no_size>("message-depends-on-order", FixMsg{r.next() >> r.below(64), std::uint32_t(r.next()), std::int64_t(r.next())});
        neutral<FixMsg, zb::size1b>("message-depends-on-order", FixMsg{r.next() >> r.below(64), std::uint32_t(r.next()), std::int64_t(r.next())});
        mon::nontrivial(i);
    }
    return mon::finish();
}
