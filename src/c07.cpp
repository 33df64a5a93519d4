// C07: output allocation limit. The buffer records every size it is asked for;
// the monitor bounds the requests and decides which writes must fail or succeed.
#include "common/pbref.hpp"
#include "common/zoo.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

template <typename Byte>
struct Recorder // a resizable byte container that remembers requests
{
    using value_type = Byte;
    std::vector<Byte> v;
    std::size_t asked = 0, times = 0;
    Byte * data() { return v.data(); }
    const Byte * data() const { return v.data(); }
    std::size_t size() const { return v.size(); }
    auto begin() { return v.begin(); }
    auto end() { return v.end(); }
    Byte & operator[](std::size_t i) { return v[i]; }
    void resize(std::size_t n)
    {
        asked = std::max(asked, n);
        ++times;
        if (n > (1u << 24)) throw std::bad_alloc{}; // a wrapped or unlimited request
        v.resize(n);
        v.shrink_to_fit();
    }
};

// Pretends to hold as many bytes as it is told to.
struct Fake
{
    using value_type = unsigned char;
    unsigned char storage[64]{};
    std::size_t n = 0, asked = 0, times = 0;
    unsigned char * data() { return storage; }
    unsigned char & operator[](std::size_t i) { return storage[i]; }
    std::size_t size() const { return n; }
    auto begin() { return storage; }
    auto end() { return storage + n; }
    void resize(std::size_t m)
    {
        asked = std::max(asked, m);
        ++times;
        n = m;
    }
};

template <std::size_t Limit, std::size_t Mul, std::size_t Div, bool Fit, typename P, typename Byte, typename... Options>
struct Config
{
    const char * name;
    // items: room() is the most the archive may ask for
    template <typename... Ts>
    void write(Rng & r, const char * kind, std::size_t varints, bool single, const Ts &... items)
    {
        Bytes want;
        auto put = [&]<typename T>(const T & v) {
            if constexpr (requires { T::numbers; }) {
                auto b = pbz::with_prefix(v, P::cfg);
                want.insert(want.end(), b.begin(), b.end());
            } else enc(want, v, P::cfg);
        };
        (put(items), ...);
        // sizes near every interesting edge
        std::size_t len = want.size(), room = len + 9 * varints;
        std::size_t size;
        switch (r.below(6)) {
        case 0: size = 0; break;
        case 1: size = Limit > len ? Limit - len + r.below(3) : r.below(3); break;
        case 2: size = Limit > room ? Limit - room + r.below(3) : r.below(3); break;
        case 3: {
            auto s = Limit * Div / Mul;
            size = s > room ? s - room + r.below(3) : 0;
            break;
        }
        case 4: size = Limit + r.below(30); break;
        default: size = r.below(Limit + 2);
        }
        if (size && r.chance(1, 8)) --size;
        std::size_t pos;
        switch (r.below(4)) {
        case 0: pos = size; break;
        case 1: pos = size > len ? size - len + r.below(3) : 0; break;
        case 2: pos = r.below(size + 1); break;
        default: pos = 0;
        }
        if (pos > size) pos = size;
        Recorder<Byte> data;
        data.v.resize(size);
        for (auto & b : data.v) b = Byte(r.next());
        auto old = data.v;
        zb::out out{data, typename P::endian{}, typename P::size{}, zb::alloc_limit<Limit>{}, Options{}...};
        out.position() = pos;
        zb::errc res;
        bool thrown = false;
        try {
            res = out(items...);
        } catch (const std::bad_alloc &) {
            thrown = true;
        }
        auto end = pos + len;
        auto what = [&] { return std::string(kind) + " limit " + std::to_string(Limit) + " size " + std::to_string(size) + " position " + std::to_string(pos) + " encoding of " + std::to_string(len) + " asked for " + std::to_string(data.asked) + " now " + std::to_string(data.size()) + " errc " + std::to_string(int(res.code)); };
        mon::check(!thrown, "huge-request", what);
        mon::check(data.asked <= std::max(Limit, size), "request-above-limit", what);
        mon::check(data.size() <= std::max(Limit, size), "buffer-above-limit", what);
        mon::check(data.size() >= pos && same_bytes(data.v.data(), old.data(), pos), "earlier-bytes-lost", what);
        if (zb::success(res)) {
            mon::check(out.position() == end && data.size() >= end && same_bytes(data.v.data() + pos, want.data(), len), "content-differs", what);
            if (Fit) mon::check(data.size() == std::max(end, size), "not-fitted", what);
            if (data.size() > size) mon::count("grown-within-limit");
        } else mon::check(res.code == std::errc::no_buffer_space, "error-code", what);
        if (end > std::max(Limit, size)) {
            mon::check(!zb::success(res), "write-above-limit-succeeds", what);
            mon::count("must-fail");
            if (end == std::max(Limit, size) + 1) mon::count("one-byte-too-many");
        }
        bool fits_in_place = pos + room <= size && (single || varints == 0);
        bool grows = (single && (size + room) * Mul / Div <= Limit) || (Mul == 1 && Div == 1 && size + room <= Limit);
        if (fits_in_place || grows) {
            mon::check(zb::success(res), "write-within-limit-fails", what);
            mon::count("must-succeed");
            if (single && (size + room + 1) * Mul / Div > Limit && !fits_in_place) mon::count("last-size-that-fits");
        }
        mon::count("writes");
        mon::nontrivial(mix(size, pos, len));
    }
    static std::uint64_t mix(std::size_t a, std::size_t b, std::size_t c) { return a * 1000003 + b * 1009 + c; }

    void run(std::uint64_t n)
    {
        for (std::uint64_t i = 0; i < n; ++i) {
            auto label = std::string("config=") + name + "|L=" + std::to_string(Limit) + "|P=" + P::name() + "|i=" + std::to_string(i);
            if (!mon::begin(label)) continue;
            auto r = mon::rng(label);
            constexpr bool vs = P::cfg.size == SizeKind::varint, ns = P::sizeless;
            auto text = std::string(r.below(Limit < 200 ? Limit + 4 : 200), 'x');
            if (P::cfg.size == SizeKind::s1) text.resize(text.size() % 250);
            switch (r.below(16)) {
            case 0: write(r, "u8", 0, true, std::uint8_t(1)); break;
            case 1: write(r, "u16", 0, true, std::uint16_t(0x1234)); break;
            case 2: write(r, "u64", 0, true, std::uint64_t(0x123456789abcdef)); break;
            case 3: write(r, "double", 0, true, 1.5); break;
            case 4: write(r, "array", 0, true, std::array<std::uint8_t, 7>{1, 2, 3, 4, 5, 6, 7}); break;
            case 5: write(r, "pod", 0, P::cfg.big == false, zoo::Pod{1, 2}); break;
            case 6: write(r, "vint64", 1, true, zb::vint64_t{(long long)(r.next() >> r.below(64))}); break;
            case 7: write(r, "vsint32", 1, true, zb::vsint32_t{int(r.next())}); break;
            case 8: write(r, "string", vs, ns, text); break;
            case 9: write(r, "vector<u32>", vs, ns && !P::cfg.big, std::vector<std::uint32_t>(r.below(20), 7)); break;
            case 10: write(r, "vector<string>", vs * 4, false, std::vector<std::string>{"a", text, "bcd"}); break;
            case 11: write(r, "map", vs * 3, false, std::map<std::uint32_t, std::string>{{1, text}, {2, ""}}); break;
            case 12: write(r, "bitset", 0, true, std::bitset<65>(5)); break;
            case 13: write(r, "optional", vs, false, std::optional<std::string>(text)); break;
            case 14: write(r, "several", 1 + vs, false, std::uint32_t(1), text, zb::vuint32_t{300}, std::uint16_t(3)); break;
            default: {
                pbz::PInner m{text, 5};
                // tags, the string's length and the number, and the prefix
                write(r, "message", 5 + vs, false, m);
            }
            }
        }
    }
};

template <std::size_t Limit>
void limits(std::uint64_t n)
{
    Config<Limit, 3, 2, true, PNative4, std::byte>{"default"}.run(n);
    Config<Limit, 1, 1, true, PBig2, char, zb::exact_enlarger>{"exact"}.run(n);
    Config<Limit, 2, 1, false, PNativeV, unsigned char, zb::no_fit_size, zb::enlarger<2>>{"2,no_fit"}.run(n);
    Config<Limit, 1, 1, true, PSwapV, std::byte, zb::enlarger<1>, zb::no_enlarge_overflow>{"1,no_overflow"}.run(n);
    Config<Limit, 5, 4, true, PNative0, std::byte, zb::enlarger<5, 4>>{"5/4"}.run(n);
}

// Arithmetic that would wrap around: reported, and nothing is resized or written.
template <typename... Options>
void overflow(const char * name, std::vector<std::size_t> sizes)
{
    for (auto size : sizes)
        for (int kind = 0; kind < 5; ++kind) {
            auto label = std::string("overflow=") + name + "|size=" + std::to_string(size) + "|kind=" + std::to_string(kind);
            if (!mon::begin(label)) continue;
            Fake data;
            data.n = size;
            zb::out out{data, Options{}...};
            out.position() = size;
            zb::errc res;
            switch (kind) {
            case 0: res = out(std::uint64_t(1)); break;
            case 1: res = out(zb::vint64_t{1}); break;
            case 2: res = out(std::array<std::uint8_t, 40>{}); break;
            case 3: res = out(std::bitset<200>{}); break;
            default: res = out(zb::unsized(std::string_view{"0123456789012345678901234567890123456789"}));
            }
            mon::check(res.code == std::errc::no_buffer_space, "wrapped-size-accepted", [&] { return "errc " + std::to_string(int(res.code)) + " asked " + std::to_string(data.asked); });
            mon::check(data.asked <= size && data.n == size, "resized-on-overflow", [&] { return std::to_string(data.asked); });
            mon::count("overflows");
            mon::nontrivial(size * 8 + kind);
        }
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto n = mon::iters(10000, 400000);
#if PART == 0
    limits<0>(n / 4);
#elif PART == 1
    limits<1>(n / 4);
#elif PART == 2
    limits<8>(n);
#elif PART == 3
    limits<16>(n);
#elif PART == 4
    limits<33>(n);
#elif PART == 5
    limits<64>(n);
#elif PART == 6
    limits<100>(n);
#elif PART == 7
    limits<1000>(n);
    constexpr auto max = ~std::size_t(0);
    overflow<>("default", {max, max - 1, max - 6, max / 3, max / 3 * 2, max / 2, max / 2 + 1, max / 3 + 1, max - 7});
    overflow<zb::exact_enlarger>("exact", {max, max - 1, max - 6, max - 7});
    overflow<zb::enlarger<2>>("2", {max, max / 2, max / 2 + 1, max / 2 - 3, max / 2 - 6, max / 4 * 3});
    overflow<zb::alloc_limit<1000>>("limit", {max, max - 6, max / 3, max / 2, 1000, 1001, 999, 5000, 1ull << 32, 1ull << 63});
    overflow<zb::alloc_limit<1000>, zb::no_fit_size>("limit,no_fit", {max, max - 6, max / 3, max / 2, 1000, 1001, 999, 5000, 1ull << 32, 1ull << 63});
#endif
    return mon::finish();
}
