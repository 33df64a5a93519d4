// C02: wire format. Oracle: an independent encoder written from the README;
// compared byte for byte, with the position and the buffer size.
#include "common/zoo2.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

template <typename T>
concept has_count = requires(const T & t) { t.size(); t.begin(); } && !requires { std::tuple_size<T>::value; } && !requires(const T & t) { t.value; };
template <typename T> struct is_bitset : std::false_type {};
template <std::size_t N> struct is_bitset<std::bitset<N>> : std::true_type {};
template <typename T> struct is_sized : std::false_type {};
template <typename T, typename S> struct is_sized<zb::sized_item<T, S>> : std::true_type {};

template <typename Data>
void compare(const char * key, zb::errc res, const Bytes & want, const Data & data, std::size_t position, std::size_t start = 0)
{
    if (!mon::check(zb::success(res), "write-fails", [&] { return std::string(key) + " errc " + std::to_string(int(res.code)); })) return;
    bool same = position - start == want.size() && data.size() >= position && same_bytes(data.data() + start, want.data(), want.size());
    mon::check(same, key, [&] { return "expected " + mon::hex(want) + " got " + mon::hex(std::span{data.data() + std::min(start, data.size()), data.size() - std::min(start, data.size())}) + " position " + std::to_string(position); });
    mon::check(data.size() == position, "size-after-write", [&] { return std::to_string(data.size()) + " position " + std::to_string(position); });
    mon::count("bytes", want.size());
}

template <typename S, typename T, typename P>
void one_sized(const T & v, P)
{
    Cfg own = P::cfg;
    own.size = size_kind<S>();
    Bytes want;
    auto left = put_size(want, v.size(), own);
    if (left != v.size()) mon::count("truncated-counts");
    for (auto & x : v) {
        if (!left--) break;
        enc(want, x, P::cfg);
    }
    std::vector<std::byte> data;
    zb::out out{data, typename P::endian{}, typename P::size{}};
    if constexpr (std::is_void_v<S>) compare("unsized-bytes-differ", out(zb::unsized(v)), want, data, out.position());
    else compare("sized-bytes-differ", out(zb::sized<S>(v)), want, data, out.position());
}

template <typename T, typename P, std::size_t I = 0>
void one_pack(const std::string & tname, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "T=" + tname + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        // Counts above the range of a one-byte size on purpose.
        G g{std::size_t(P::cfg.size == SizeKind::s1 ? 300 : 400), 0};
        T v{};
        gen(r, v, g);
        auto want = zoo2::encode(v, P::cfg);
        if (zoo2::oversized) continue;
        std::vector<std::byte> data;
        zb::out out{data, typename P::endian{}, typename P::size{}};
        switch (r.below(3)) {
        case 0: compare("bytes-differ", out(v), want, data, out.position()); break;
        case 1: compare("const-bytes-differ", out(std::as_const(v)), want, data, out.position()); break;
        default: {
            // behind other data
            (void)out(std::uint8_t(1), std::uint16_t(2));
            compare("bytes-differ-behind-others", out(v), want, data, out.position(), 3);
        }
        }
        if constexpr (I < 1000 && has_count<T> && !is_bitset<T>::value && !is_sized<T>::value) {
            if constexpr (I % 2) {
                one_sized<std::uint8_t>(v, P{});
                one_sized<zb::vsize_t>(v, P{});
            } else {
                one_sized<std::uint16_t>(v, P{});
                one_sized<std::uint64_t>(v, P{});
            }
            one_sized<void>(v, P{});
        }
        mon::nontrivial(mon::hash_bytes(want.data(), want.size()));
        mon::max_of("encoding", want.size());
        mon::sample([&] { return mon::hex(want, 48); });
    }
}

// Counts around the boundaries of every size type.
template <typename T, typename P>
void large(const char * name, auto make)
{
    for (std::size_t n : {0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 16382, 16383, 16384, 16385, 65534, 65535, 65536, 65537, 70000, 131072}) {
        bool slow = !requires(T & t) { t.data(); } || !std::is_arithmetic_v<typename T::value_type>;
        if (!mon::st().thorough && slow && n > 300 && n != 16384 && n != 65535 && n != 65537) continue;
        if (!mon::st().thorough && slow && n > 300 && P::cfg.size != SizeKind::s2 && P::cfg.size != SizeKind::varint) continue;
        auto label = std::string("large=") + name + "|P=" + P::name() + "|n=" + std::to_string(n);
        if (!mon::begin(label)) continue;
        T v{};
        make(v, n);
        auto want = encode(v, P::cfg);
        std::vector<std::byte> data;
        zb::out out{data, typename P::endian{}, typename P::size{}};
        compare("large-bytes-differ", out(v), want, data, out.position());
        if (!P::sizeless) {
            // What was announced is what is there: it reads back as the first items.
            T w{};
            zb::in in{data, typename P::endian{}, typename P::size{}};
            mon::check(zb::success(in(w)), "large-read-fails");
            mon::check(in.position() == data.size(), "large-read-position");
            mon::check(encode(w, P::cfg) == want, "large-read-differs");
        }
        mon::count("large-counts");
        mon::nontrivial(n);
    }
}
// The same for the item's own size type, narrow and zigzag varints included.
template <typename T, typename S, typename P>
void large_own(const char * name, auto make)
{
    constexpr Cfg own{P::cfg.big, size_kind<S>()};
    for (std::size_t n : {0, 1, 63, 64, 65, 127, 128, 129, 255, 256, 257, 383, 384, 400, 8191, 8192, 16383, 16384, 16385, 65535, 65536, 65537, 65600, 70000}) {
        bool slow = !requires(T & t) { t.data(); } || !std::is_arithmetic_v<typename T::value_type>;
        if (!mon::st().thorough && slow && n > 400 && n != 16384 && n != 65536) continue;
        if (own.size == SizeKind::z16 && n > 32767) continue;
        auto label = std::string("own=") + name + "|S=" + std::to_string(int(own.size)) + "|P=" + P::name() + "|n=" + std::to_string(n);
        if (!mon::begin(label)) continue;
        T v{};
        make(v, n);
        Bytes want;
        auto left = put_size(want, n, own);
        for (auto & x : v) {
            if (!left--) break;
            enc(want, x, P::cfg);
        }
        std::vector<std::byte> data;
        zb::out out{data, typename P::endian{}, typename P::size{}};
        compare("own-size-bytes-differ", out(zb::sized<S>(v)), want, data, out.position());
        T w{};
        zb::in in{data, typename P::endian{}, typename P::size{}};
        mon::check(zb::success(in(zb::sized<S>(w))), "own-size-read-fails");
        mon::check(in.position() == data.size(), "own-size-read-position");
        Bytes again;
        auto count = put_size(again, w.size(), own);
        for (auto & x : w) enc(again, x, P::cfg);
        mon::check(count == w.size() && again == want, "own-size-read-differs");
        mon::count("own-size-counts");
        mon::nontrivial(n);
    }
}
template <typename T>
void large_all(const char * name, auto make)
{
    large_own<T, std::uint8_t, PNative4>(name, make);
    large_own<T, std::uint16_t, PBig8>(name, make);
    large_own<T, zb::varint<std::uint8_t>, PNative4>(name, make);
    large_own<T, zb::varint<std::uint16_t>, PNativeV>(name, make);
    large_own<T, zb::varint<std::int16_t, zb::varint_encoding::zig_zag>, PNative4>(name, make);
    large_own<T, zb::vsint32_t, PBig2>(name, make);
    large_own<T, zb::vuint32_t, PLittle1>(name, make);
    large_own<T, zb::vsize_t, PBig8>(name, make);
    large<T, PNative4>(name, make);
    large<T, PLittle1>(name, make);
    large<T, PBig2>(name, make);
    large<T, PBig8>(name, make);
    large<T, PNativeV>(name, make);
    large<T, PSwapV>(name, make);
    large<T, PNative0>(name, make);
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto all = []<typename T, std::size_t I>() {
        auto name = zoo::type_name<T>();
        auto n = mon::iters(60, 2500);
        mon::count("types");
        one_pack<T, PNative4, I>(name, n);
        one_pack<T, PBig2, I + 1>(name, n);
        one_pack<T, PSwap0, 1000>(name, n);
        if constexpr (I % 2) {
            one_pack<T, PLittle1, 1000>(name, n);
            one_pack<T, PSwapV, 1000>(name, n);
        } else {
            one_pack<T, PNativeV, 1000>(name, n);
            one_pack<T, PBig8, 1000>(name, n);
        }
    };
    zoo::each<PART, PARTS>(zoo::Zoo{}, all);
    zoo2::each<PART, PARTS>(all);
    zoo::each<(PART + 4) % PARTS, PARTS>(zoo2::ViewTypes{}, all);
    auto seq = [](auto & v, std::size_t n) {
        v.resize(n);
        std::size_t k = 0;
        for (auto & x : v) x = std::remove_cvref_t<decltype(x)>(k++ * 7 + 1);
    };
    auto ins = [](auto & v, std::size_t n) {
        for (std::size_t k = 0; k < n; ++k) v.emplace(std::uint32_t(k * 3), std::uint8_t(k));
    };
    if (PART == 0) large_all<std::vector<std::uint8_t>>("vector<u8>", seq);
    if (PART == 1 % PARTS) large_all<std::vector<std::uint16_t>>("vector<u16>", seq);
    if (PART == 2 % PARTS) large_all<std::string>("string", seq);
    if (PART == 3 % PARTS) large_all<std::deque<std::uint16_t>>("deque<u16>", seq);
    if (PART == 4 % PARTS) large_all<std::list<std::uint8_t>>("list<u8>", seq);
    if (PART == 5 % PARTS) large_all<std::map<std::uint32_t, std::uint8_t>>("map", ins);
    if (PART == 6 % PARTS) large_all<std::vector<std::string>>("vector<string>", [](auto & v, std::size_t n) { v.assign(n, "ab"); });
    if (PART == 7 % PARTS) large_all<std::set<std::uint32_t>>("set", [](auto & v, std::size_t n) {
        for (std::size_t k = 0; k < n; ++k) v.insert(std::uint32_t(k * 5));
    });
    return mon::finish();
}
