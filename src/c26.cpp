// C26: the bytes depend on the value only. Every value is built several times
// from the same choices in memory with different previous content (so that
// padding differs), and written into buffers that differ in kind, previous
// content, offset, capacity and alignment; all results are compared.
#include "common/heap.hpp"
#include "common/zoo2.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

// T constructed over memory filled with `fill`: the padding keeps the filling
// wherever construction does not touch it.
template <typename T>
struct Filled
{
    void * mem;
    T * v;
    Filled(int fill, Rng r, G g)
    {
        mem = std::aligned_alloc(64, (sizeof(T) + 63) / 64 * 64);
        std::memset(mem, fill, sizeof(T));
        v = ::new (mem) T;
        gen(r, *v, g);
    }
    Filled(const Filled &) = delete;
    ~Filled()
    {
        v->~T();
        std::free(mem);
    }
};

template <typename P>
auto opts(auto && view)
{
    return zb::out{view, typename P::endian{}, typename P::size{}};
}

template <typename T, typename P>
void one_pack(const std::string & tname, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "T=" + tname + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        G g{std::size_t(i % 16 ? 8 : 200), 0};
        Rng choices = r;
        {
            Filled<T> probe(0, choices, g);
            if (zoo2::encode(*probe.v, P::cfg); zoo2::oversized) continue;
        }
        Filled<T> a(0x00, choices, g), b(0xff, choices, g), c(0xa5, choices, g);
        r = Rng(r.next());
        Bytes base;
        unsigned which = 0;
        auto same = [&](zb::errc res, const void * data, std::size_t len, const char * what) {
            if (!mon::check(zb::success(res), "write-fails", [&] { return std::string(what) + " errc " + std::to_string(int(res.code)); })) return;
            auto p = static_cast<const unsigned char *>(data);
            if (!which++) base.assign(p, p + len);
            else mon::check(base.size() == len && same_bytes(base.data(), p, len), "bytes-depend-on-more-than-the-value", [&] { return std::string(what) + ": " + mon::hex(base) + " / " + mon::hex(std::span{p, len}); });
            mon::count(what);
        };
        { // fresh vectors of each byte type
            std::vector<std::byte> d;
            auto out = opts<P>(d);
            auto res = out(*a.v);
            same(res, d.data(), out.position(), "fresh vector<byte>");
        }
        {
            std::vector<unsigned char> d;
            auto out = opts<P>(d);
            auto res = out(*b.v);
            same(res, d.data(), out.position(), "padding of 0xff, vector<unsigned char>");
        }
        {
            std::string d;
            auto out = opts<P>(d);
            auto res = out(*c.v);
            same(res, d.data(), out.position(), "padding of 0xa5, string");
        }
        { // stale content, larger capacity, random offset
            auto at = r.below(17);
            std::vector<std::byte> d(at + r.below(base.size() + 40) + (r.chance(1, 2) ? base.size() : 0), std::byte(r.next()));
            if (d.size() < at) d.resize(at);
            d.reserve(r.below(4096));
            auto out = opts<P>(d);
            out.position() = at;
            auto res = out(*b.v);
            same(res, d.data() + at, out.position() - at, "stale content at an offset");
        }
        { // fixed memory of exact size at every alignment
            for (std::size_t shift : {0, 1, 3, 5}) {
                heap::Exact<char> e(base.size(), shift);
                for (auto & x : e.span()) x = char(0xff);
                auto out = opts<P>(e.span());
                auto res = out(*a.v);
                same(res, e.data(), out.position(), "fixed memory");
            }
        }
        // Reading: alignment and trailing bytes make no difference.
        if constexpr (!(P::sizeless && ref::dynamic<T>::value)) {
            for (std::size_t shift : {0, 1, 2, 3, 4, 7}) {
                Bytes in_bytes = base;
                in_bytes.resize(base.size() + (shift % 2 ? r.below(24) : 0), (unsigned char)r.next());
                auto e = heap::Exact<const std::byte>::copy(in_bytes, in_bytes.size(), shift);
                Filled<T> w(0xee, Rng(r.next()), g);
                zb::in in{e.span(), typename P::endian{}, typename P::size{}};
                auto res = in(*w.v);
                mon::check(zb::success(res) && eq(*a.v, *w.v) && in.position() == base.size(), "reading-depends-on-alignment-or-trailing-bytes", [&] { return "shift " + std::to_string(shift) + " trailing " + std::to_string(in_bytes.size() - base.size()) + " of " + mon::hex(in_bytes); });
                mon::count("reads");
            }
        }
        mon::nontrivial(mon::hash_bytes(base.data(), base.size()));
        mon::sample([&] { return mon::hex(base, 48); });
    }
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto all = []<typename T, std::size_t I>() {
        auto name = zoo::type_name<T>();
        auto n = mon::iters(250, 4000);
        mon::count("types");
        if constexpr (I % 2) one_pack<T, PNative4>(name, n);
        else one_pack<T, PNativeV>(name, n);
        if constexpr (I % 3 == 0) one_pack<T, PBig2>(name, n);
        if constexpr (I % 3 == 1) one_pack<T, PSwapV>(name, n);
    };
    zoo::each<PART, PARTS>(zoo::Zoo{}, all);
    zoo2::each<PART, PARTS>(all);
    zoo::each<(PART + 4) % PARTS, PARTS>(zoo2::ViewTypes{}, all);
    return mon::finish();
}
