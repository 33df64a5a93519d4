// C09: varints. Every 8 and 16 bit value, edges and samples of the wider ones,
// in every position relative to the end of the buffer; every short byte string
// decoded against a reference decoder.
#include "common/heap.hpp"
#include "common/zoo.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

template <typename T>
struct num
{
    using type = T;
};
template <typename T>
    requires std::is_enum_v<T>
struct num<T>
{
    using type = std::underlying_type_t<T>;
};

template <typename T, bool Zig>
struct Varint
{
    using N = typename num<T>::type;
    using U = std::make_unsigned_t<N>;
    using V = zb::varint<T, Zig ? zb::varint_encoding::zig_zag : zb::varint_encoding::normal>;
    static constexpr std::size_t max = (sizeof(T) * 8 + 6) / 7;
    std::string name;
    std::uint64_t n = 0;

    // The three buffer byte types in turn.
    template <typename F>
    void with_byte(F && f)
    {
        switch (n++ % 3) {
        case 0: f(std::byte{}); break;
        case 1: f(char{}); break;
        default: f((unsigned char)0);
        }
    }

    void read_one(const Bytes & enc, std::size_t trailing, unsigned char fill, N expect)
    {
        with_byte([&]<typename B>(B) {
            auto all = enc;
            all.resize(enc.size() + trailing, fill);
            auto block = heap::Exact<const B>::copy(all, all.size());
            auto span = block.span();
            zb::in in{span};
            V v;
            v.value = T(0x55);
            auto res = in(v);
            mon::check(zb::success(res) && N(v.value) == expect && in.position() == enc.size(), "decode-differs", [&] { return mon::hex(all) + " expected " + std::to_string(expect) + " got " + std::to_string(N(v.value)) + " position " + std::to_string(in.position()) + " errc " + std::to_string(int(res.code)); });
        });
    }

    void value(N x)
    {
        Bytes want;
        put_varint(want, varint_wire<N, Zig>(x));
        auto say = [&] { return std::to_string(x); };
        V v{T(x)};
        with_byte([&]<typename B>(B) {
            std::vector<B> data;
            zb::out out{data};
            auto res = out(v);
            mon::check(zb::success(res) && out.position() == want.size() && data.size() == want.size() && same_bytes(data.data(), want.data(), want.size()), "encode-differs", [&] { return say() + " " + mon::hex(data) + " expected " + mon::hex(want); });
            auto block = heap::Exact<B>(want.size());
            zb::out fixed{block.span()};
            res = fixed(std::as_const(v));
            mon::check(zb::success(res) && fixed.position() == want.size() && same_bytes(block.data(), want.data(), want.size()), "tight-encode-differs", [&] { return say() + " " + mon::hex(block.span()) + " expected " + mon::hex(want); });
            auto short_block = heap::Exact<B>(want.size() - 1);
            zb::out too_small{short_block.span()};
            res = too_small(v);
            mon::check(res.code == std::errc::result_out_of_range && too_small.position() == 0, "short-encode", say);
        });
        mon::check(zb::varint_size<Zig ? zb::varint_encoding::zig_zag : zb::varint_encoding::normal>(x) == want.size(), "varint-size", say);
        read_one(want, 0, 0, x);
        read_one(want, 1 + n % 12, n % 2 ? 0xff : 0x80, x);
        read_one(want, max, 0, x);
        if (want.size() < max) { // padded
            auto padded = want;
            padded.back() |= 0x80;
            auto zeros = 1 + n % (max - want.size());
            padded.resize(padded.size() + zeros - 1, 0x80);
            padded.push_back(0);
            read_one(padded, n % 3 ? 0 : n % 14, 0xff, x);
            mon::count("padded");
        }
        mon::count("values");
        mon::nontrivial(varint_wire<N, Zig>(x));
    }

    // Any bytes at all.
    void bytes(const Bytes & b)
    {
        with_byte([&]<typename B>(B) {
            auto block = heap::Exact<const B>::copy(b, b.size());
            auto span = block.span();
            zb::in in{span};
            V v;
            auto res = in(v);
            std::size_t len = 0;
            while (len < b.size() && len < max && b[len] >= 0x80) ++len;
            auto say = [&] { return mon::hex(b) + " errc " + std::to_string(int(res.code)) + " position " + std::to_string(in.position()) + " value " + std::to_string(N(v.value)); };
            if (len == max) {
                mon::check(res.code == std::errc::value_too_large && in.position() == 0, "too-long-accepted", say);
                mon::count("too-long");
            } else if (len == b.size()) {
                mon::check(res.code == std::errc::result_out_of_range && in.position() == 0, "unfinished-accepted", say);
                mon::count("unfinished");
            } else {
                unsigned __int128 w = 0;
                for (std::size_t i = 0; i <= len; ++i) w |= (unsigned __int128)(b[i] & 0x7f) << (7 * i);
                mon::check(zb::success(res) && in.position() == len + 1, "valid-rejected", say);
                if (w <= U(~U(0))) { // more bits than the type has are dropped
                    auto u = U(w);
                    N x = Zig ? N(U(u / 2) ^ U(u % 2 ? ~0ull : 0)) : N(u);
                    mon::check(N(v.value) == x, "decode-differs", say);
                    mon::count("decoded");
                } else mon::count("overlong");
            }
        });
        mon::nontrivial(mon::hash_bytes(b.data(), b.size()));
    }

    void run(std::string nm)
    {
        name = nm;
        values();
        strings();
    }
    void values()
    {
        if (!mon::begin("varint=" + name + "|values")) return;
        auto r = mon::rng(name);
        if constexpr (sizeof(T) == 1) {
            for (unsigned x = 0; x < 256; ++x) value(N(x));
        } else if constexpr (sizeof(T) == 2) {
            for (unsigned x = 0; x < 65536; ++x) value(N(x));
        } else {
            for (unsigned s = 0; s < sizeof(T) * 8; ++s)
                for (int d = -2; d <= 2; ++d) {
                    value(N((U(1) << s) + d));
                    value(N(U(0) - (U(1) << s) + d));
                }
            for (unsigned x = 0; x < 300; ++x) value(N(x)), value(N(0 - U(x)));
            for (auto k = mon::iters(8000, 400000); k--;) {
                auto u = U(r.next() >> (64 - sizeof(T) * 8));
                u >>= r.below(sizeof(T) * 8);
                value(N(r.chance(1, 4) ? U(0 - u) : u));
            }
        }
    }
    void strings()
    {
        auto r = mon::rng(name + "bytes");
        if (!mon::begin("varint=" + name + "|bytes")) return;
        bytes({});
        for (unsigned a = 0; a < 256; ++a) bytes({(unsigned char)a});
        if (sizeof(T) < 4 || mon::st().thorough)
            for (unsigned a = 0; a < 65536; ++a) bytes({(unsigned char)a, (unsigned char)(a >> 8)});
        for (std::size_t len = 1; len < 14; ++len) { // runs of continuation bytes of every length
            for (unsigned char c : {0x80, 0xff, 0x81, 0xfe})
                for (int end = 0; end < 4; ++end) {
                    Bytes b(len, c);
                    if (end == 1) b.push_back(0);
                    if (end == 2) b.push_back(1);
                    if (end == 3) b.push_back(0x7f), b.push_back(0x42);
                    bytes(b);
                }
        }
        for (auto k = mon::iters(20000, 1000000); k--;) {
            Bytes b(r.below(14));
            auto stop = r.below(14);
            for (std::size_t i = 0; i < b.size(); ++i) {
                b[i] = (unsigned char)(r.chance(1, 3) ? r.below(3) * 0x3f : r.next());
                if (i < stop) b[i] |= 0x80;
                else if (i == stop) b[i] &= 0x7f;
            }
            bytes(b);
        }
        mon::count("types");
        mon::sample([&] { return std::string("max length ") + std::to_string(max); });
    }
};

// Sequences of varints back to back: no byte is read twice or skipped.
void sequences(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "sequence|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        std::vector<zb::vsint64_t> a, a2;
        std::vector<zb::vuint32_t> b, b2;
        gen(r, a, G{});
        gen(r, b, G{});
        auto want = encode(a, {false, SizeKind::varint});
        enc(want, b, {false, SizeKind::varint});
        Bytes data;
        zb::out out{data, zb::size_varint{}};
        auto res = out(a, b);
        mon::check(zb::success(res) && data == want, "sequence-encode", [&] { return mon::hex(data) + " expected " + mon::hex(want); });
        auto block = heap::Exact<const char>::copy(want, want.size());
        auto span = block.span();
        zb::in in{span, zb::size_varint{}};
        res = in(a2, b2);
        mon::check(zb::success(res) && eq(a, a2) && eq(b, b2) && in.position() == want.size(), "sequence-decode");
        mon::count("sequences");
        mon::nontrivial(mon::hash_bytes(want.data(), want.size()));
    }
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
#if PART == 0
    Varint<std::int8_t, false>{}.run("int8");
    Varint<std::uint8_t, false>{}.run("uint8");
    Varint<std::int8_t, true>{}.run("sint8");
    Varint<zoo::E8, false>{}.run("enum8");
    Varint<char, false>{}.run("char");
    sequences(mon::iters(3000, 100000));
#elif PART == 1
    Varint<std::int16_t, false>{}.run("int16");
#elif PART == 2
    Varint<std::uint16_t, false>{}.run("uint16");
#elif PART == 3
    Varint<std::int16_t, true>{}.run("sint16");
#elif PART == 4
    Varint<zoo::E16, false>{}.run("enum16");
    Varint<std::int32_t, false>{}.run("int32");
#elif PART == 5
    Varint<std::uint32_t, false>{}.run("uint32");
    Varint<std::int32_t, true>{}.run("sint32");
    Varint<zoo::E32, false>{}.run("enum32");
    Varint<std::size_t, false>{}.run("size");
#elif PART == 6
    Varint<std::int64_t, false>{}.run("int64");
    Varint<std::uint64_t, false>{}.run("uint64");
#elif PART == 7
    Varint<std::int64_t, true>{}.run("sint64");
    Varint<zoo::E64, false>{}.run("enum64");
    Varint<long long, true>{}.run("slonglong");
    Varint<zoo::E64, true>{}.run("senum64");
#endif
    return mon::finish();
}
