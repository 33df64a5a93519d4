// C05: output into fixed-size buffers of every size around the encoded length.
// The buffer is a heap block of its exact size (ASan red zones on both sides);
// the monitor holds the bytes before the position and after the end.
#include "common/heap.hpp"
#include "common/zoo2.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

template <typename Byte, typename P, typename T>
void one_size(const T & v, const Bytes & want, std::size_t size, std::size_t start, Rng & r)
{
    auto block = heap::Exact<Byte>(size, r.below(3));
    Bytes old(size);
    for (std::size_t i = 0; i < size; ++i) {
        old[i] = (unsigned char)(0xa0 + i * 7);
        block.data()[i] = Byte(old[i]);
    }
    zb::out out{block.span(), typename P::endian{}, typename P::size{}};
    out.reset(start);
    auto res = out(v);
    bool fits = want.size() <= size - start;
    auto where = [&] { return "size " + std::to_string(size) + " start " + std::to_string(start) + " errc " + std::to_string(int(res.code)) + " position " + std::to_string(out.position()) + " expected " + mon::hex(want) + " got " + mon::hex(block.span()); };
    mon::check(zb::success(res) == fits, fits ? "fitting-write-rejected" : "overflowing-write-accepted", where);
    if (!fits) mon::check(res.code == std::errc::result_out_of_range, "error-code", where);
    mon::check(out.position() <= size, "position-beyond-buffer", where);
    mon::check(same_bytes(block.data(), old.data(), start), "bytes-before-position-changed", where);
    if (fits && zb::success(res)) {
        mon::check(out.position() == start + want.size(), "position", where);
        mon::check(same_bytes(block.data() + start, want.data(), want.size()), "bytes-differ", where);
        mon::check(same_bytes(block.data() + start + want.size(), old.data() + start + want.size(), size - start - want.size()), "bytes-behind-encoding-changed", where);
    }
    mon::count(fits ? "fits" : "overflows");
    if (want.size() == size - start) mon::count("exact-fits");
    if (want.size() == size - start + 1) mon::count("one-short");
}

template <typename T, typename P>
void one_pack(const std::string & tname, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "T=" + tname + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        G g{std::size_t(zoo2::long_ones<T> ? i % 64 ? 200 : 301 : i % 16 ? 6 : 140), 0};
        T v{};
        gen(r, v, g);
        auto want = zoo2::encode(v, P::cfg);
        if (zoo2::oversized) continue;
        for (std::size_t room = 0; room <= want.size() + 16; ++room) {
            bool edge = room < 12 || room + 12 > want.size();
            if (want.size() > 48 && !edge && !r.chance(24, unsigned(want.size()))) continue;
            std::size_t start = r.chance(1, 2) ? 0 : r.below(9);
            switch (r.below(3)) {
            case 0: one_size<std::byte, P>(v, want, room + start, start, r); break;
            case 1: one_size<char, P>(v, want, room + start, start, r); break;
            default: one_size<unsigned char, P>(v, want, room + start, start, r);
            }
            mon::nontrivial(mon::hash_bytes(want.data(), want.size()) ^ room);
        }
        mon::max_of("encoding", want.size());
        mon::sample([&] { return mon::hex(want, 48); });
    }
}

// The same through the other fixed buffer kinds, whose size is in their type.
template <std::size_t N, typename P, typename T>
void one_array(const T & v, const Bytes & want)
{
    struct
    {
        unsigned char before[16];
        unsigned char a[N];
        unsigned char after[16];
    } s;
    struct
    {
        unsigned char before[16];
        std::array<std::byte, N> a;
        unsigned char after[16];
    } t;
    struct
    {
        unsigned char before[16];
        char a[N];
        unsigned char after[16];
    } u;
    auto run = [&](auto & x, auto && make) {
        std::memset(&x, 0x5a, sizeof x);
        auto out = make(x);
        auto res = out(v);
        bool fits = want.size() <= N;
        auto where = [&] { return "N " + std::to_string(N) + " errc " + std::to_string(int(res.code)) + " expected " + mon::hex(want); };
        mon::check(zb::success(res) == fits, fits ? "array-fitting-write-rejected" : "array-overflowing-write-accepted", where);
        if (!fits) mon::check(res.code == std::errc::result_out_of_range, "array-error-code", where);
        for (auto c : x.before) mon::check(c == 0x5a, "array-underrun", where);
        for (auto c : x.after) mon::check(c == 0x5a, "array-overrun", where);
        if (fits) mon::check(same_bytes(&x.a, want.data(), want.size()) && out.position() == want.size(), "array-bytes-differ", where);
        mon::count("array-writes");
    };
    run(s, [](auto & x) { return zb::out{x.a, typename P::endian{}, typename P::size{}}; });
    run(t, [](auto & x) { return zb::out{x.a, typename P::endian{}, typename P::size{}}; });
    run(u, [](auto & x) { return zb::out{std::span<char, N>{x.a}, typename P::endian{}, typename P::size{}}; });
}
template <typename T, typename P>
void arrays(std::uint64_t n)
{
    auto tname = zoo::type_name<T>();
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "array|T=" + tname + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        T v{};
        gen(r, v, G{5, 0});
        auto want = encode(v, P::cfg);
        [&]<std::size_t... N>(std::index_sequence<N...>) { (one_array<N + 1, P>(v, want), ...); }(std::make_index_sequence<18>{});
        mon::nontrivial(mon::hash_bytes(want.data(), want.size()));
    }
}

// Sequences of writes: a model of the position and the room left.
void sequences(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "sequence|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        std::size_t size = 1 + r.below(64), pos = 0;
        auto block = heap::Exact<std::byte>(size);
        Bytes model(size);
        for (std::size_t k = 0; k < size; ++k) block.data()[k] = std::byte(model[k] = (unsigned char)r.next());
        zb::out out{block.span()};
        auto apply = [&](auto && v) {
            auto want = encode(v, Cfg{});
            auto res = out(v);
            auto at = pos;
            bool fits = want.size() <= size - pos;
            mon::check(zb::success(res) == fits, "sequence-verdict");
            if (fits) {
                std::copy(want.begin(), want.end(), model.begin() + long(pos));
                pos += want.size();
                mon::check(out.position() == pos, "sequence-position");
                mon::check(same_bytes(block.data(), model.data(), size), "sequence-content", [&] { return mon::hex(model) + " got " + mon::hex(block.span()); });
            } else {
                mon::check(res.code == std::errc::result_out_of_range, "sequence-error-code");
                mon::check(out.position() <= size, "sequence-position-beyond");
                mon::check(same_bytes(block.data(), model.data(), at), "sequence-earlier-bytes-changed");
                // a failed write may leave part of the value: go on from a known state
                std::memcpy(model.data(), block.data(), size);
                out.reset(pos);
            }
        };
        for (auto steps = 3 + r.below(25); steps--;) {
            switch (r.below(10)) {
            case 0: apply(std::uint8_t(r.next())); break;
            case 1: apply(std::uint64_t(r.next())); break;
            case 2: apply(zb::vuint64_t{r.next() >> r.below(64)}); break;
            case 3: apply(zb::vsint32_t{std::int32_t(r.next() >> r.below(64))}); break;
            case 4: apply(std::string(r.below(12), 'x')); break;
            case 5: apply(std::vector<std::uint16_t>(r.below(6), 0x1234)); break;
            case 6: apply(std::bitset<19>(r.next())); break;
            case 7: apply(std::pair<std::uint8_t, std::uint32_t>{1, 2}); break;
            case 8: apply(zoo::PodMix{1, 2, 3, 4, 5.0}); break;
            default: {
                pos = r.below(size + 1);
                out.reset(pos);
                mon::count("repositionings");
            }
            }
            mon::count("writes");
        }
        mon::nontrivial(mon::hash_bytes(model.data(), size));
    }
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto all = []<typename T, std::size_t I>() {
        auto name = zoo::type_name<T>();
        auto n = mon::iters(60, 2000);
        mon::count("types");
        if constexpr (I % 2) {
            one_pack<T, PNative4>(name, n);
            one_pack<T, PSwapV>(name, n);
        } else {
            one_pack<T, PBig2>(name, n);
            one_pack<T, PNativeV>(name, n);
        }
    };
    zoo::each<PART, PARTS>(zoo::Zoo{}, all);
    zoo2::each<PART, PARTS>(all);
    zoo::each<(PART + 4) % PARTS, PARTS>(zoo2::ViewTypes{}, all);
    auto n = mon::iters(200, 4000);
    if (PART == 0) {
        arrays<std::string, PNativeV>(n);
        arrays<zb::vuint64_t, PNative4>(n);
    }
    if (PART == 1 % PARTS) arrays<std::vector<std::uint16_t>, PLittle1>(n);
    if (PART == 2 % PARTS) arrays<std::optional<std::uint64_t>, PSwapV>(n);
    if (PART == 3 % PARTS) arrays<std::bitset<31>, PNative4>(n);
    if (PART == 4 % PARTS) arrays<zoo::Enums, PBig4>(n);
    if (PART == 5 % PARTS) arrays<zoo::Pod, PNative4>(n);
    sequences(mon::iters(1500, 100000));
    return mon::finish();
}
