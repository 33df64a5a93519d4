// C19: protobuf output. Oracle: an independent encoder (bytes), and an
// independent decoder reading the output back (meaning).
#include "common/pbref.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace pbz;

template <typename T, typename P>
void one_pack(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "T=" + name<T>() + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        T v{};
        pgen(r, v, G{400, r.chance(1, 2) ? 0 : 1});
        auto want = with_prefix(v, P::cfg);
        auto content = penc(v);
        auto judge = [&](zb::errc res, const auto & data, std::size_t start, std::size_t position, const char * what) {
            // a one- or two-byte prefix may be too small for the message
            bool too_long = (P::cfg.size == SizeKind::s1 && content.size() > 255) || (P::cfg.size == SizeKind::s2 && content.size() > 65535);
            if (too_long) {
                mon::check(res.code == std::errc::message_size, "too-long-message-not-reported", [&] { return std::to_string(content.size()); });
                mon::count("too-long");
                return;
            }
            if (!mon::check(zb::success(res), "write-fails", [&] { return std::string(what) + " errc " + std::to_string(int(res.code)); })) return;
            auto p = reinterpret_cast<const unsigned char *>(data.data()) + start;
            bool same = position - start == want.size() && same_bytes(p, want.data(), want.size());
            mon::check(same, "bytes-differ", [&] { return std::string(what) + " expected " + mon::hex(want, 200) + " got " + mon::hex(std::span{p, position - start}, 200); });
            T back{};
            Dec d;
            auto skip = want.size() - content.size();
            if (position - start >= skip) {
                auto e = d.decode({p + skip, position - start - skip}, back);
                mon::check(e == ok && meq(v, back), "meaning-differs", [&] { return std::string(what) + " decoder error set " + std::to_string(e) + " " + mon::hex(std::span{p, position - start}, 200); });
            }
            mon::count(what);
        };
        {
            std::vector<std::byte> data;
            zb::out out{data, typename P::endian{}, typename P::size{}};
            auto res = out(v);
            judge(res, data, 0, out.position(), "fresh vector");
            if (zb::success(res)) mon::check(data.size() == out.position(), "size-after-write");
        }
        { // behind other data, stale bytes after it
            std::vector<unsigned char> data(r.below(2 * want.size() + 20), (unsigned char)r.next());
            auto at = std::min<std::size_t>(data.size(), r.below(12));
            zb::out out{data, typename P::endian{}, typename P::size{}};
            out.position() = at;
            judge(out(std::as_const(v)), data, at, out.position(), "offset in stale vector");
        }
        { // fixed memory with no byte to spare beyond the encoding
            std::vector<char> data(want.size() + r.below(2));
            zb::out out{std::span<char>{data}, typename P::endian{}, typename P::size{}};
            judge(out(v), data, 0, out.position(), "tight fixed memory");
        }
        mon::nontrivial(mon::hash_bytes(want.data(), want.size()));
        mon::max_of("message", want.size());
        mon::sample([&] { return mon::hex(want, 64); });
    }
}

// Lengths around the boundaries of the length prefix, nested.
void lengths()
{
    for (std::size_t n : {0, 1, 57, 58, 59, 60, 61, 62, 63, 64, 65, 100, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 245, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 8180, 8184, 8185, 8186, 8187, 8188, 8189, 8190, 8191, 8192, 16370, 16375, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 16390, 32760, 32761, 32762, 32763, 32764, 32767, 32768, 65524, 65526, 65527, 65528, 65529, 65530, 65531, 65535, 65536, 70000}) {
        for (int kind = 0; kind < 4; ++kind) {
            auto label = "length|kind=" + std::to_string(kind) + "|n=" + std::to_string(n);
            if (!mon::begin(label)) continue;
            auto run = [&]<typename T, typename P>(const T & v, P) {
                auto want = with_prefix(v, P::cfg);
                std::vector<unsigned char> data;
                zb::out out{data, typename P::endian{}, typename P::size{}};
                auto res = out(v);
                if (P::cfg.size == SizeKind::s2 && penc(v).size() > 65535) {
                    mon::check(res.code == std::errc::message_size, "too-long-message-not-reported");
                    mon::count("too-long");
                    return;
                }
                mon::check(zb::success(res) && data == want, "length-bytes-differ", [&] { return "errc " + std::to_string(int(res.code)) + " expected " + mon::hex(want, 40) + " (" + std::to_string(want.size()) + ") got " + mon::hex(data, 40) + " (" + std::to_string(data.size()) + ")"; });
                mon::count("boundary-lengths");
            };
            auto all = [&](const auto & v) {
                run(v, PNative4{});
                run(v, PNativeV{});
                run(v, PSwapV{});
                run(v, PBig2{});
                run(v, PNative0{});
                run(v, PSwap0{});
            };
            // the item's own size type: narrow, signed and zigzag ones too
            auto own = [&]<typename T, typename S, typename P>(const T & v, S, P) {
                auto content = penc(v);
                constexpr Cfg c{P::cfg.big, size_kind<S>()};
                Bytes want;
                constexpr bool sig = c.size == SizeKind::z16 || std::is_same_v<S, std::int16_t>;
                bool too_long = sig ? content.size() > 32767 : put_size(want, content.size(), c) != content.size();
                want.clear();
                put_size(want, content.size(), c);
                want.insert(want.end(), content.begin(), content.end());
                for (int fixed = 0; fixed < 3; ++fixed) {
                    std::vector<unsigned char> data(fixed == 0 ? 0 : fixed == 1 ? want.size() : want.size() - 1);
                    zb::errc res;
                    std::size_t position;
                    if (!fixed) {
                        zb::out out{data, typename P::endian{}, typename P::size{}};
                        res = out(zb::sized<S>(v));
                        position = out.position();
                    } else {
                        zb::out out{std::span{data}, typename P::endian{}, typename P::size{}};
                        res = out(zb::sized<S>(v));
                        position = out.position();
                    }
                    if (too_long) {
                        mon::check(zb::failure(res), "own-size-too-long-message-not-reported", [&] { return std::to_string(content.size()) + " S " + std::to_string(int(c.size)); });
                        if (!fixed) mon::check(res.code == std::errc::message_size, "own-size-too-long-message-code", [&] { return std::to_string(int(res.code)); });
                        mon::count("too-long");
                    } else if (fixed == 2) {
                        mon::check(res.code == std::errc::result_out_of_range, "own-size-tight", [&] { return std::to_string(int(res.code)); });
                    } else {
                        mon::check(zb::success(res) && data == want && position == want.size(), "own-size-bytes-differ", [&] { return "S " + std::to_string(int(c.size)) + " errc " + std::to_string(int(res.code)) + " expected " + mon::hex(want, 40) + " (" + std::to_string(want.size()) + ") got " + mon::hex(data, 40) + " (" + std::to_string(data.size()) + ")"; });
                        T back{};
                        zb::in in{data, typename P::endian{}, typename P::size{}};
                        mon::check(zb::success(in(zb::sized<S>(back))) && in.position() == data.size() && meq(v, back), "own-size-read-differs");
                        mon::count("own-size-lengths");
                    }
                }
            };
            auto owns = [&](const auto & v) {
                own(v, std::uint8_t{}, PNative4{});
                own(v, std::uint16_t{}, PBig2{});
                own(v, std::int16_t{}, PNativeV{});
                own(v, std::uint64_t{}, PNative4{});
                own(v, zb::vsize_t{}, PBig2{});
                own(v, zb::vuint32_t{}, PNative4{});
                own(v, zb::varint<std::uint8_t>{}, PNative4{});
                own(v, zb::varint<std::uint16_t>{}, PBig2{});
                own(v, zb::varint<std::int16_t, zb::varint_encoding::zig_zag>{}, PNativeV{});
                own(v, zb::vsint32_t{}, PBig2{});
            };
            if (kind == 0) owns(PInner{std::string(n, 'q'), 5});
            if (kind == 3) {
                PStrings v{};
                v.a.assign(n, 'a');
                owns(v);
            }
            if (kind == 0) all(PInner{std::string(n, 'q'), 5});
            if (kind == 1) {
                PNested v{};
                v.b.s.assign(n, 'w');
                v.c.push_back({std::string(n, 'z'), -1});
                all(v);
            }
            if (kind == 2) {
                PTree v{};
                auto * t = &v;
                for (int d = 0; d < 4; ++d) {
                    t->name.assign(d == 3 ? n : 1, 'n');
                    t->kids.resize(1);
                    t = &t->kids[0];
                }
                all(v);
            }
            if (kind == 3) {
                PMaps v{};
                v.a[7] = std::string(n, 'm');
                v.c[9] = PInner{std::string(n, 'c'), 1};
                all(v);
            }
            mon::nontrivial(n * 4 + kind);
        }
    }
}

// Messages as members of ordinary types and containers.
struct Holder
{
    using serialize = zb::members<5>;
    std::uint16_t a;
    PInts b;
    std::vector<PInts> c;
    std::array<PInts, 2> d;
    std::optional<PInner> e;
};
void holders(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "holder|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        Holder h{};
        gen(r, h.a, G{});
        pgen(r, h.b, G{});
        h.c.resize(r.below(4));
        for (auto & x : h.c) pgen(r, x, G{});
        for (auto & x : h.d) pgen(r, x, G{});
        if (r.chance(1, 2)) pgen(r, h.e.emplace(), G{});
        auto run = [&]<typename P>(P) {
            Bytes want;
            auto c = P::cfg;
            auto put = [&](const auto & m) {
                auto b = with_prefix(m, c);
                want.insert(want.end(), b.begin(), b.end());
            };
            put_int(want, h.a, 2, c.big);
            put(h.b);
            put_size(want, h.c.size(), c);
            for (auto & x : h.c) put(x);
            for (auto & x : h.d) put(x);
            want.push_back(h.e ? 1 : 0);
            if (h.e) {
                if (c.size == SizeKind::s1 && penc(*h.e).size() > 255) return;
                put(*h.e);
            }
            Bytes data;
            zb::out out{data, typename P::endian{}, typename P::size{}};
            auto res = out(h);
            mon::check(zb::success(res) && data == want, "held-message-bytes-differ", [&] { return "errc " + std::to_string(int(res.code)) + " expected " + mon::hex(want) + " got " + mon::hex(data); });
            mon::count("held-messages");
            mon::nontrivial(mon::hash_bytes(want.data(), want.size()));
        };
        run(PNative4{});
        run(PBig2{});
        run(PSwapV{});
    }
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    each<PART, PARTS>(PZoo{}, []<typename T, std::size_t I>() {
        auto n = mon::iters(300, 8000);
        mon::count("messages");
        one_pack<T, PNative4>(n);
        one_pack<T, PSwapV>(n);
        if constexpr (I % 2) {
            one_pack<T, PBig2>(n);
            one_pack<T, PNative0>(n);
        } else {
            one_pack<T, PLittle1>(n);
            one_pack<T, PNativeV>(n);
        }
    });
#if PART == 1
    lengths();
#elif PART == 2
    holders(mon::iters(500, 20000));
#elif PART == 3
    {
        auto n = mon::iters(300, 8000);
        one_pack<PFixed, PBig8>(n);
        one_pack<PInts, PSwap0>(n);
    }
#endif
    return mon::finish();
}
