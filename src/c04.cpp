// C04: every strict prefix of an encoding is rejected with result_out_of_range.
// The prefix lies in a heap block of its exact size.
#define HEAP_IMPL
#include "common/heap.hpp"
#include "common/zoo2.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

template <typename T, typename P>
void one_pack(const std::string & tname, std::uint64_t n)
{
    if constexpr (P::sizeless && ref::dynamic<T>::value && !unsized_readable<T>) return;
    else for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "T=" + tname + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        G g{std::size_t(i % 16 ? zoo2::long_ones<T> ? 140 : 6 : 140), 0};
        T v{};
        gen(r, v, g);
        auto full = zoo2::encode(v, P::cfg);
        if (zoo2::oversized) continue;
        T w{};
        bool dirty = r.chance(1, 2);
        if (dirty) gen(r, w, g);
        // Every cut of short encodings; of long ones both ends and a sample.
        for (std::size_t cut = 0; cut < full.size(); ++cut) {
            if (full.size() > 160 && cut > 60 && full.size() - cut > 40 && !r.chance(60, unsigned(full.size()))) continue;
            if constexpr (P::sizeless && ref::dynamic<T>::value) {
                // without a size the target's own size says how much is read
                auto again = mon::rng(label);
                gen(again, w, g);
            }
            auto block = heap::Exact<const std::byte>::copy(full, cut);
            zb::in in{block.span(), typename P::endian{}, typename P::size{}};
            auto res = in(w);
            mon::check(zb::failure(res), "truncated-accepted", [&] { return "cut " + std::to_string(cut) + " of " + mon::hex(full); });
            mon::check(res.code == std::errc::result_out_of_range || res.code == std::errc{}, "truncated-error-code", [&] { return "errc " + std::to_string(int(res.code)) + " cut " + std::to_string(cut) + " of " + mon::hex(full); });
            mon::check(in.position() <= cut, "position-beyond-input", [&] { return std::to_string(in.position()) + " > " + std::to_string(cut); });
            mon::count("cuts");
            mon::nontrivial(mon::hash_bytes(full.data(), cut) ^ full.size());
        }
        if (full.empty()) mon::count("empty-encodings");
        // The whole encoding is accepted: the cuts are cuts of something valid.
        if constexpr (!(P::sizeless && ref::dynamic<T>::value)) {
            auto block = heap::Exact<const std::byte>::copy(full, full.size());
            zb::in in{block.span(), typename P::endian{}, typename P::size{}};
            auto res = in(w);
            mon::check(zb::success(res) && in.position() == full.size() && eq(v, w), "whole-rejected", [&] { return "errc " + std::to_string(int(res.code)) + " " + mon::hex(full); });
        }
        mon::sample([&] { return mon::hex(full, 48); });
    }
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto all = []<typename T, std::size_t I>() {
        auto name = zoo::type_name<T>();
        auto n = mon::iters(60, 1500);
        mon::count("types");
        one_pack<T, PNative4>(name, n);
        if constexpr (I % 3 == 0) one_pack<T, PBig2>(name, n);
        else if constexpr (I % 3 == 1) one_pack<T, PBig8>(name, n);
        else one_pack<T, PLittle1>(name, n);
        if constexpr (I % 2) one_pack<T, PNativeV>(name, n);
        else one_pack<T, PSwapV>(name, n);
        if constexpr (I % 2) one_pack<T, PNative0>(name, n);
        else one_pack<T, PSwap0>(name, n);
    };
    zoo::each<PART, PARTS>(zoo::Zoo{}, all);
    zoo2::each<PART, PARTS>(all);
    zoo::each<(PART + 4) % PARTS, PARTS>(zoo2::ViewTypes{}, all);
    return mon::finish();
}
