// C20: valid protobuf input. A writer using the freedom of the format produces
// an encoding of a message and the value its reader must end up with.
#include "common/heap.hpp"
#include "common/pbref.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace pbz;

std::size_t most(Cfg c)
{
    return c.size == SizeKind::s1 ? 255 : c.size == SizeKind::s2 ? 65535 : ~std::size_t(0);
}

template <typename Byte, bool Limited, typename T, typename P>
void read_one(Rng & r, const T & old, const T & want, const Bytes & message, P, const char * what)
{
    Bytes in_bytes(r.below(5), 0x99);
    auto start = in_bytes.size();
    if (P::cfg.size != SizeKind::none) put_size(in_bytes, message.size(), P::cfg);
    in_bytes.insert(in_bytes.end(), message.begin(), message.end());
    auto end = in_bytes.size();
    Bytes after;
    if (P::cfg.size != SizeKind::none) {
        after.resize(r.chance(1, 2) ? 0 : 4 + r.below(30));
        for (auto & x : after) x = (unsigned char)(r.chance(1, 3) ? 0x08 : r.next()); // looks like more fields
        in_bytes.insert(in_bytes.end(), after.begin(), after.end());
    }
    auto block = heap::Exact<Byte>::copy(in_bytes, in_bytes.size(), r.below(8));
    auto go = [&](auto &&... options) {
        zb::in in{block.span(), typename P::endian{}, typename P::size{}, std::remove_cvref_t<decltype(options)>{}...};
        in.position() = start;
        auto target = old;
        auto res = in(target);
        auto detail = [&] { return std::string(what) + " errc " + std::to_string(int(res.code)) + " position " + std::to_string(in.position() - start) + " of " + std::to_string(end - start) + " " + mon::hex(message, 400); };
        if (!mon::check(zb::success(res), "valid-message-refused", detail)) return;
        mon::check(meq(target, want), "value-differs", detail);
        mon::check(in.position() == end, "position-differs", detail);
        mon::count("messages-read");
        if (after.size() >= 4) {
            std::uint32_t x = 0, y = 0;
            auto res2 = in(x);
            std::memcpy(&y, after.data(), 4);
            if (P::cfg.big) y = __builtin_bswap32(y);
            mon::check(zb::success(res2) && x == y, "data-after-message-lost", detail);
            mon::count("data-after");
        }
        mon::check(in.remaining_data().size() + in.position() == in_bytes.size(), "remaining", detail);
    };
    if constexpr (Limited) go(zb::alloc_limit<(1 << 20)>{});
    else go();
}

template <typename T, typename P>
void one_pack(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "T=" + name<T>() + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        T v{}, old{};
        pgen(r, v, G{r.chance(1, 10) ? std::size_t(300) : std::size_t(30), 1});
        if (r.chance(2, 3)) pgen(r, old, G{20, 1});
        Free free{r};
        auto message = free.message_bytes(v, old);
        if (message.size() > most(P::cfg)) continue;
        { // the harness' own reader agrees with its writer
            T mine = old;
            Dec d;
            auto e = d.decode({message.data(), message.size()}, mine);
            mon::check(e == ok && meq(mine, v), "harness-self-check", [&] { return mon::hex(message, 400); });
        }
        for (auto & [k, c] : free.used) mon::count("used: " + k, c);
        using Byte = std::conditional_t<P::cfg.big, char, std::conditional_t<P::cfg.size == SizeKind::s4, const unsigned char, std::byte>>;
        read_one<Byte, P::cfg.size == SizeKind::varint || P::cfg.size == SizeKind::s2>(r, old, v, message, P{}, P::name().c_str());
        mon::nontrivial(mon::hash_bytes(message.data(), message.size()));
        mon::max_of("message", message.size());
        mon::sample([&] { return mon::hex(message, 64); });
        // Two messages of different contents one after the other, in one call and in two
        if (P::cfg.size != SizeKind::none && r.chance(1, 4)) {
            T v2{}, old2{};
            pgen(r, v2, G{20, 1});
            if (r.chance(1, 2)) pgen(r, old2, G{20, 1});
            auto m2 = free.message_bytes(v2, old2);
            if (m2.size() > most(P::cfg)) continue;
            Bytes both;
            put_size(both, message.size(), P::cfg);
            both.insert(both.end(), message.begin(), message.end());
            put_size(both, m2.size(), P::cfg);
            both.insert(both.end(), m2.begin(), m2.end());
            for (bool one_call : {false, true}) {
                zb::in in{both, typename P::endian{}, typename P::size{}};
                T a = old, b = old2;
                zb::errc res;
                if (one_call) res = in(a, b);
                else if (res = in(a); zb::success(res)) res = in(b);
                mon::check(zb::success(res) && meq(a, v) && meq(b, v2) && in.position() == both.size(), "back-to-back", [&] { return mon::hex(both, 400); });
                mon::count("back-to-back");
            }
        }
        // As an element of an ordinary container
        if (P::cfg.size != SizeKind::none && r.chance(1, 6)) {
            Bytes all;
            auto k = r.below(4);
            put_size(all, k, P::cfg);
            std::vector<T> want;
            for (std::size_t j = 0; j < k; ++j) {
                T x{};
                pgen(r, x, G{10, 1});
                auto m = free.message_bytes(x, T{});
                if (m.size() > most(P::cfg)) {
                    k = 99;
                    break;
                }
                put_size(all, m.size(), P::cfg);
                all.insert(all.end(), m.begin(), m.end());
                want.push_back(x);
            }
            if (k == 99) continue;
            std::vector<T> got;
            zb::in in{all, typename P::endian{}, typename P::size{}};
            auto res = in(got);
            bool same = zb::success(res) && got.size() == want.size();
            for (std::size_t j = 0; same && j < k; ++j) same = meq(got[j], want[j]);
            mon::check(same && in.position() == all.size(), "in-a-container", [&] { return mon::hex(all, 400); });
            mon::count("in-containers");
        }
    }
}

template <typename T>
void all_packs(std::uint64_t n)
{
    one_pack<T, PNative4>(n);
    one_pack<T, PNative0>(n);
    one_pack<T, PSwapV>(n);
    one_pack<T, PLittle1>(n / 2);
    one_pack<T, PBig2>(n / 2);
    one_pack<T, PSwap0>(n / 2);
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto n = mon::iters(700, 20000);
    each<PART, PARTS>(PZoo{}, [&]<typename T, std::size_t I>() {
        all_packs<T>(n);
        mon::count("messages");
    });
    return mon::finish();
}
