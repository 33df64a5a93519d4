// C03: hostile bytes. The sanitizers decide memory safety; the monitor decides
// that the call returns, the position stays inside the input, the error code is
// one the library documents, and that an accepted value encodes and reads back.
#define HEAP_IMPL
#include "common/heap.hpp"
#include "common/zoo2.hpp"
#include <exception>
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

inline void mutate(Rng & r, Bytes & b)
{
    static constexpr unsigned char edge[] = {0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x10, 0x40};
    for (auto n = 1 + r.below(4); n--;) {
        switch (r.below(9)) {
        case 0:
            if (b.size()) b[r.below(b.size())] ^= (unsigned char)(1u << r.below(8));
            break;
        case 1:
        case 2:
            if (b.size()) b[r.below(b.size())] = edge[r.below(std::size(edge))];
            break;
        case 3: b.resize(r.below(b.size() + 1)); break;
        case 4:
            for (auto k = r.below(12); k--;) b.push_back((unsigned char)r.next());
            break;
        case 5: { // a run of 0xff or 0x80: huge counts, endless varints
            auto at = r.below(b.size() + 1);
            b.insert(b.begin() + long(at), 1 + r.below(11), r.chance(1, 2) ? 0xff : 0x80);
            break;
        }
        case 6:
            if (b.size()) b.erase(b.begin() + long(r.below(b.size())));
            break;
        case 7: { // a little- or big-endian integer over what is there
            unsigned long long v = r.chance(1, 2) ? r.next() >> r.below(64) : ~0ull >> r.below(64);
            Bytes t;
            put_int(t, v, 1ull << r.below(4), r.chance(1, 2));
            auto at = r.below(b.size() + 1);
            for (auto x : t) {
                if (at < b.size()) b[at++] = x;
            }
            break;
        }
        default:
            if (b.size() > 1) std::swap(b[r.below(b.size())], b[r.below(b.size())]);
        }
    }
}

inline bool known_code(std::errc c)
{
    for (auto k : {std::errc{}, std::errc::result_out_of_range, std::errc::message_size, std::errc::bad_message, std::errc::value_too_large, std::errc::invalid_argument, std::errc::protocol_error, std::errc::not_supported, std::errc::no_buffer_space})
        if (k == c) return true;
    return false;
}

template <typename T, typename P, typename... Opt>
void one_pack(const std::string & tname, const char * oname, std::uint64_t n)
{
    // libc++'s own deque overflows its arithmetic when resized beyond memory.
    if (!sizeof...(Opt) && tname.find("deque") != tname.npos) return;
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "T=" + tname + "|P=" + P::name() + oname + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        G g{std::size_t(i % 8 ? 5 : 60), 0};
        Bytes b;
        if (r.chance(1, 6)) {
            for (auto k = r.below(40); k--;) b.push_back((unsigned char)(r.chance(1, 3) ? r.below(4) : r.next()));
        } else {
            T v{};
            gen(r, v, g);
            b = zoo2::encode(v, P::cfg);
            if (zoo2::oversized) b.clear();
            if (!r.chance(1, 10)) mutate(r, b);
        }
        T w{};
        if (r.chance(1, 2)) gen(r, w, g);
        auto block = heap::Exact<const std::byte>::copy(b, b.size(), r.below(8));
        auto span = block.span();
        zb::in in{span, typename P::endian{}, typename P::size{}, Opt{}...};
        zb::errc res{};
        try {
            heap::Arm arm;
            res = in(w);
        } catch (const std::bad_alloc &) {
            mon::check(sizeof...(Opt) == 0, "allocation-failure-despite-limit", [&] { return mon::hex(b); });
            mon::count("allocation-refused");
            continue;
        } catch (const std::length_error &) {
            mon::check(sizeof...(Opt) == 0, "length-error-despite-limit", [&] { return mon::hex(b); });
            mon::count("length-error");
            continue;
        }
        mon::check(in.position() <= b.size(), "position-beyond-input", [&] { return std::to_string(in.position()) + " of " + mon::hex(b); });
        mon::check(known_code(res.code), "undocumented-error", [&] { return std::to_string(int(res.code)) + " " + mon::hex(b); });
        mon::count(zb::success(res) ? "accepted" : "rejected-" + std::to_string(int(res.code)));
        if constexpr (zoo2::views<T>) {
            if (zb::success(res)) {
                for (auto x : w.all()) {
                    mon::check(x->empty() || x->data() >= span.data() && x->data() <= span.data() + b.size() && x->size() <= std::size_t(span.data() + b.size() - x->data()), "view-outside-input",
                               [&] { return std::to_string(x->size()) + " of " + mon::hex(b); });
                    mon::count("views");
                }
            }
        }
        if (zb::success(res)) {
            // What was accepted is a real value: it can be encoded and read back.
            auto again = zoo2::encode(w, P::cfg);
            if (zoo2::oversized) continue;
            if constexpr (!(P::sizeless && ref::dynamic<T>::value)) {
                T x{};
                auto bytes2 = std::as_bytes(std::span{again});
                zb::in in2{bytes2, typename P::endian{}, typename P::size{}};
                mon::check(zb::success(in2(x)) && eq(w, x), "accepted-value-does-not-round-trip", [&] { return mon::hex(b) + " -> " + mon::hex(again); });
            } else mon::max_of("unsized", again.size());
        }
        mon::nontrivial(mon::hash_bytes(b.data(), b.size()));
        mon::sample([&] { return mon::hex(b, 48) + " -> " + std::to_string(int(res.code)); });
    }
}

// Announced counts from small to huge, in front of fewer bytes: views of the
// input, and memory of the caller that is filled.
template <typename Byte, typename P, typename S>
void announced(const char * sname, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "announced|B=" + zoo::type_name<Byte>() + "|P=" + P::name() + "|S=" + sname + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        Bytes b;
        auto before = r.below(6);
        b.resize(before);
        std::size_t rest = r.below(24);
        unsigned long long announce;
        switch (r.below(6)) {
        case 0: announce = rest; break;
        case 1: announce = rest + 1 - r.below(3); break;
        case 2: announce = ~0ull - r.below(64); break;
        case 3: announce = (1ull << r.below(64)) - r.below(2); break;
        case 4: announce = 0 - (before + r.below(16)); break;
        default: announce = r.next() >> r.below(64);
        }
        Cfg own = P::cfg;
        constexpr bool archive_size = std::is_same_v<S, char>;
        if (!archive_size) own.size = size_kind<std::conditional_t<archive_size, int, S>>();
        put_size(b, announce, own);
        auto head = b.size();
        for (std::size_t k = 0; k < rest; ++k) b.push_back((unsigned char)(k + 1));
        auto block = heap::Exact<Byte>::copy(b, b.size(), r.below(8));
        std::span<const Byte> span = block.span();
        auto call = [&](auto & in, auto & item) -> zb::errc {
            (void)0;
            in.position() = before;
            if constexpr (archive_size) return in(item);
            else return in(zb::sized<S>(item));
        };
        auto verdict = [&](const char * what, zb::errc res, auto & in) {
            mon::check(in.position() <= b.size(), "position-beyond-input", [&] { return std::string(what) + " " + mon::hex(b); });
            mon::check(known_code(res.code), "undocumented-error", [&] { return std::string(what) + " " + std::to_string(int(res.code)); });
            mon::count(std::string(what) + (zb::success(res) ? " accepted" : " rejected"));
        };
        auto inside = [&](const char * what, const auto & v) {
            auto a = reinterpret_cast<const char *>(v.data());
            auto x = reinterpret_cast<const char *>(span.data());
            mon::check(v.empty() || a >= x + head && a <= x + b.size() && v.size() <= std::size_t(x + b.size() - a) / sizeof(*v.data()), "view-outside-input", [&] { return std::string(what) + " of " + std::to_string(v.size()) + " in " + mon::hex(b); });
            unsigned sum = 0;
            for (auto & e : v) sum += (unsigned)e; // ASan looks on
            mon::max_of("view-sum", sum);
        };
        {
            std::span<const Byte> v;
            zb::in in{span, typename P::endian{}, typename P::size{}};
            auto res = call(in, v);
            verdict("view", res, in);
            if (zb::success(res)) inside("view", v);
        }
        if constexpr (std::same_as<Byte, char>) {
            std::string_view v;
            zb::in in{span, typename P::endian{}, typename P::size{}};
            auto res = call(in, v);
            verdict("string_view", res, in);
            if (zb::success(res)) inside("string_view", v);
        }
        { // memory of the caller: exact heap blocks
            auto room = r.below(12);
            auto mem = heap::Exact<std::uint16_t>(room * 2);
            std::memset(mem.data(), 0x77, room * 2);
            std::span<std::uint16_t> v{mem.data(), room};
            zb::in in{span, typename P::endian{}, typename P::size{}};
            auto res = call(in, v);
            verdict("memory", res, in);
            mon::check(v.data() == mem.data() && v.size() <= room, "memory-beyond-its-size", [&] { return std::to_string(v.size()) + " of " + std::to_string(room); });
        }
        {
            std::string_view text;
            auto room = r.below(20);
            auto mem = heap::Exact<Byte>(room);
            std::span<Byte> v{mem.data(), room};
            zb::in in{span, typename P::endian{}, typename P::size{}};
            zb::errc res = call(in, v);
            verdict("byte memory", res, in);
            if (zb::success(res) && v.data() != mem.data()) inside("byte memory", v);
            else mon::check(v.size() <= room, "memory-beyond-its-size", [&] { return std::to_string(v.size()) + " of " + std::to_string(room); });
        }
        { // the rest as a view
            std::span<const Byte> v;
            zb::in in{span, typename P::endian{}, typename P::size{}};
            in.position() = before;
            zb::errc res = in(zb::unsized(v));
            verdict("unsized view", res, in);
        }
        mon::nontrivial(mon::hash_bytes(b.data(), b.size()));
    }
}
template <typename Byte>
void announced_all(std::uint64_t n)
{
    announced<Byte, PNative4, char>("archive", n);
    announced<Byte, PBig8, char>("archive", n);
    announced<Byte, PNativeV, char>("archive", n);
    announced<Byte, PSwapV, std::uint64_t>("u64", n);
    announced<Byte, PLittle1, std::uint32_t>("u32", n);
    announced<Byte, PBig2, zb::vsize_t>("varint", n);
    announced<Byte, PNative4, std::uint16_t>("u16", n);
    announced<Byte, PNative0, std::uint8_t>("u8", n);
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    heap::limit = 1 << 20;
    heap::live_limit = 1 << 20;
    using L1 = zb::alloc_limit<100>;
    using L2 = zb::alloc_limit<65536>;
    using L3 = zb::alloc_limit<4096>;
    auto all = []<typename T, std::size_t I>() {
        if constexpr (I + zoo::n_bool < zoo::Zoo::size) {
            auto name = zoo::type_name<T>();
            auto n = mon::iters(800, 40000);
            mon::count("types");
            one_pack<T, PNative4, L2>(name, "/limit65536", n);
            if constexpr (I % 2) one_pack<T, PBig2, L1>(name, "/limit100", n);
            else one_pack<T, PLittle1>(name, "", n);
            if constexpr (I % 2) one_pack<T, PNativeV, L2>(name, "/limit65536", n);
            else one_pack<T, PSwapV, L3>(name, "/limit4096", n);
            if constexpr (I % 3 == 0) one_pack<T, PBig8, L3>(name, "/limit4096", n);
            else if constexpr (I % 3 == 1) one_pack<T, PNative8>(name, "", n);
            else one_pack<T, PSwap0>(name, "", n);
        }
    };
    zoo::each<PART, PARTS>(zoo::Zoo{}, all);
    zoo2::each<PART, PARTS>(all);
    zoo::each<(PART + 4) % PARTS, PARTS>(zoo2::ViewTypes{}, all);
    auto n = mon::iters(1500, 60000);
    if (PART == 0) announced_all<char>(n);
    if (PART == 1 % PARTS) announced_all<unsigned char>(n);
    if (PART == 2 % PARTS) announced_all<std::byte>(n);
    return mon::finish();
}
