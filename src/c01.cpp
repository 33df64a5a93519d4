// C01: round trip. Oracle: deep equality with the generated value, success of
// both calls, and equal positions; the target is dirtied with another value.
#include "common/zoo2.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

template <typename T, typename P>
void one_pack(const std::string & tname, std::uint64_t n)
{
    if constexpr (P::sizeless && ref::dynamic<T>::value) return;
    else {
        for (std::uint64_t i = 0; i < n; ++i) {
            auto label = "T=" + tname + "|P=" + P::name() + "|i=" + std::to_string(i);
            if (!mon::begin(label)) continue;
            auto r = mon::rng(label);
            G g{P::max_items, 0};
            T v{}, w{};
            gen(r, v, g);
            bool dirty = r.chance(2, 3);
            if (dirty) gen(r, w, g);
            if (zoo2::encode(v, P::cfg); zoo2::oversized) continue;
            auto [data, in, out] = zb::data_in_out(typename P::endian{}, typename P::size{});
            auto res = out(v);
            if (!mon::check(zb::success(res), "write-fails", [&] { return "errc " + std::to_string(int(res.code)); })) continue;
            mon::check(out.position() == data.size(), "position-size", [&] { return std::to_string(out.position()) + " vs " + std::to_string(data.size()); });
            // Half of the cases have more data behind the value.
            auto len = out.position();
            if (r.chance(1, 2)) data.resize(len + r.below(20), std::byte(r.next()));
            auto rin = in(w);
            if (!mon::check(zb::success(rin), "read-fails", [&] { return "errc " + std::to_string(int(rin.code)) + " bytes " + mon::hex(data); })) continue;
            mon::check(eq(v, w), "value-differs", [&] { return std::string(dirty ? "dirty" : "fresh") + " target, bytes " + mon::hex(data); });
            mon::check(in.position() == len, "consumed", [&] { return "wrote " + std::to_string(len) + " read " + std::to_string(in.position()); });
            mon::count("bytes", len);
            mon::count(dirty ? "dirty-targets" : "fresh-targets");
            mon::max_of("encoding", len);
            mon::nontrivial(mon::hash_bytes(data.data(), len));
            mon::sample([&] { return mon::hex(std::span{data.data(), len}, 48); });
        }
    }
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto all = []<typename T, std::size_t I>() {
        auto name = zoo::type_name<T>();
        auto n = mon::iters(40, 2000);
        mon::count("types");
        one_pack<T, PNative4>(name, n);
        one_pack<T, PBig4>(name, n);
        one_pack<T, PSwapV>(name, n);
        if constexpr (I % 2) {
            one_pack<T, PLittle1>(name, n);
            one_pack<T, PBig8>(name, n);
        } else {
            one_pack<T, PNativeV>(name, n);
            one_pack<T, PBig2>(name, n);
        }
        one_pack<T, PNative0>(name, n);
        one_pack<T, PSwap0>(name, n);
    };
    zoo::each<PART, PARTS>(zoo::Zoo{}, all);
    zoo2::each<PART, PARTS>(all);
    zoo::each<PART, PARTS>(zoo2::ViewTypes{}, all);
    return mon::finish();
}
