// C08: input allocation limit. Every container allocates through a metering
// allocator; counts around the limit and hostile counts are put on the wire.
#include "common/heap.hpp"
#include "common/pbref.hpp"
#include "common/zoo.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

struct Meter
{
    static inline std::size_t largest = 0, total = 0, times = 0;
    static void clear() { largest = total = times = 0; }
};
template <typename T>
struct Metered
{
    using value_type = T;
    Metered() = default;
    template <typename U>
    Metered(const Metered<U> &)
    {
    }
    T * allocate(std::size_t n)
    {
        auto bytes = n * sizeof(T);
        Meter::largest = std::max(Meter::largest, bytes);
        Meter::total += bytes;
        ++Meter::times;
        if (bytes > (1u << 24)) throw std::bad_alloc{};
        return std::allocator<T>{}.allocate(n);
    }
    void deallocate(T * p, std::size_t n) { std::allocator<T>{}.deallocate(p, n); }
    bool operator==(const Metered &) const = default;
};
template <typename T> using V = std::vector<T, Metered<T>>;
template <typename T> using D = std::deque<T, Metered<T>>;
template <typename T> using L = std::list<T, Metered<T>>;
template <typename C> using S = std::basic_string<C, std::char_traits<C>, Metered<C>>;
template <typename K, typename T> using M = std::map<K, T, std::less<K>, Metered<std::pair<const K, T>>>;

template <typename T>
concept nested = requires(T & t) { t.resize(1); typename T::value_type; };

inline unsigned long long top(SizeKind k)
{
    switch (k) {
    case SizeKind::s1: return 0xff;
    case SizeKind::s2: return 0xffff;
    case SizeKind::s4: return 0xffffffff;
    default: return ~0ull;
    }
}
inline void put_count(Bytes & o, unsigned long long n, Cfg c) { put_size(o, n, c); }

// Reads a container C (possibly wrapped as W) announced with `count` elements
// of which `present` are there.
template <std::size_t Limit, typename P, typename C, typename W = C>
void announce(const char * what, SizeKind kind, std::size_t constant, Rng & r, unsigned long long count, std::size_t present)
{
    using T = typename C::value_type;
    Cfg own = P::cfg;
    own.size = kind;
    Bytes b;
    if constexpr (requires(W w) { w.has_value(); }) b.push_back(1);
    put_count(b, count, own);
    for (std::size_t i = 0; i < present; ++i) {
        T x{};
        if constexpr (nested<T>) { // a nested container: of one element
            put_count(b, 1, P::cfg);
            typename T::value_type y{};
            enc(b, y, P::cfg);
        } else {
            gen(r, x, G{3, 3});
            enc(b, x, P::cfg);
        }
    }
    auto block = heap::Exact<const unsigned char>::copy(b, b.size());
    auto span = block.span();
    zb::in in{span, typename P::endian{}, typename P::size{}, zb::alloc_limit<Limit>{}};
    Meter::clear();
    W w{};
    zb::errc res{};
    bool threw = false;
    auto setup = Meter::largest;
    try {
        res = in(w);
    } catch (const std::exception &) {
        threw = true;
    }
    auto most = Limit / sizeof(T);
    auto say = [&] { return std::string(what) + " count " + std::to_string(count) + " of " + std::to_string(sizeof(T)) + " bytes, " + std::to_string(present) + " present: errc " + std::to_string(int(res.code)) + " largest allocation " + std::to_string(Meter::largest) + (threw ? " threw" : ""); };
    mon::check(!threw, "throws-despite-limit", say);
    if (count > most) {
        mon::check(res.code == std::errc::message_size, "count-above-limit-accepted", say);
        mon::check(Meter::largest <= setup + constant, "allocates-before-refusing", say);
        mon::count("above-limit");
    } else {
        bool nested_refused = false;
        if constexpr (nested<T>) nested_refused = sizeof(typename T::value_type) > Limit && present;
        if (nested_refused) mon::check(res.code == std::errc::message_size, "nested-count-above-limit-accepted", say);
        else if (present >= count) {
            mon::check(zb::success(res) && in.position() == b.size(), "count-within-limit-refused", say);
            mon::count("within-limit");
        } else {
            mon::check(res.code == std::errc::result_out_of_range, "truncated-within-limit", say);
            mon::count("truncated-within-limit");
        }
        if (count == most) mon::count("exactly-the-limit");
    }
    mon::check(Meter::largest <= Limit + constant, "allocation-above-limit", say);
    mon::max_of("allocation", Meter::largest);
    mon::nontrivial(count * 64 + present);
}

template <std::size_t Limit, typename P, typename C, typename W = C>
void edges(const char * what, SizeKind kind = P::cfg.size, std::size_t constant = 64)
{
    auto label = std::string("announce=") + what + "|L=" + std::to_string(Limit) + "|P=" + P::name();
    if (!mon::begin(label)) return;
    auto r = mon::rng(label);
    constexpr unsigned long long most = Limit / sizeof(typename C::value_type);
    std::set<unsigned long long> counts{0, 1, 2, most, most + 1, most + 2, most / 2, Limit, Limit + 1, 255, 256, 65535, 65536};
    if (most) counts.insert(most - 1);
    for (int s = 7; s < 64; ++s)
        for (int d = -1; d < 2; ++d) counts.insert((1ull << s) + d);
    counts.insert({~0ull, ~0ull - 1, ~0ull / sizeof(typename C::value_type), ~0ull / sizeof(typename C::value_type) + 1, ~0ull / sizeof(typename C::value_type) + 2});
    for (auto c : counts) {
        if (c > top(kind)) continue;
        // everything announced is there, unless that would take too much time
        std::size_t full = std::min<unsigned long long>(c, c <= most + 2 && (most < 5000 || c + 2 > most) ? most + 2 : 8);
        announce<Limit, P, C, W>(what, kind, constant, r, c, full);
        announce<Limit, P, C, W>(what, kind, constant, r, c, 0);
        if (c > 1) announce<Limit, P, C, W>(what, kind, constant, r, c, std::min<std::size_t>(full, 1 + r.below(full)) - 1);
    }
}

template <std::size_t Limit, typename P>
void containers()
{
    edges<Limit, P, V<std::uint8_t>>("vector<u8>");
    edges<Limit, P, V<std::uint16_t>>("vector<u16>");
    edges<Limit, P, V<std::uint64_t>>("vector<u64>");
    edges<Limit, P, V<zoo::Pod>>("vector<Pod>");
    edges<Limit, P, V<zoo::Padded>>("vector<Padded>");
    edges<Limit, P, V<std::pair<std::uint8_t, std::uint32_t>>>("vector<pair>");
    edges<Limit, P, V<std::array<std::uint32_t, 4>>>("vector<array>");
    edges<Limit, P, L<std::array<std::uint16_t, 3>>>("list<array>");
    edges<Limit, P, V<std::tuple<std::uint8_t, std::uint16_t, std::uint64_t>>>("vector<tuple>");
    edges<Limit, P, V<std::optional<std::uint32_t>>>("vector<optional>");
    edges<Limit, P, V<std::variant<std::uint8_t, std::uint64_t>>>("vector<variant>");
    edges<Limit, P, V<std::bitset<100>>>("vector<bitset>");
    edges<Limit, P, V<zb::vint64_t>>("vector<varint>");
    edges<Limit, P, V<zoo::E16>>("vector<enum>");
    edges<Limit, P, V<V<std::uint16_t>>>("vector<vector<u16>>");
    edges<Limit, P, V<S<char>>>("vector<string>");
    edges<Limit, P, S<char>>("string");
    edges<Limit, P, S<char16_t>>("u16string");
    // libc++ deques hold blocks of 4096 bytes and a table of pointers to them
    edges<Limit, P, D<std::uint32_t>>("deque<u32>", P::cfg.size, 8192);
    edges<Limit, P, L<std::uint16_t>>("list<u16>");
    edges<Limit, P, V<std::uint32_t>, std::optional<V<std::uint32_t>>>("present optional", P::cfg.size);
    edges<Limit, P, V<std::uint16_t>, zb::sized_item<V<std::uint16_t>, std::uint16_t>>("sized 2b", SizeKind::s2);
    edges<Limit, P, V<std::uint8_t>, zb::sized_item<V<std::uint8_t>, std::uint8_t>>("sized 1b", SizeKind::s1);
    edges<Limit, P, S<char>, zb::sized_item<S<char>, zb::vsize_t>>("sized varint", SizeKind::varint);
    edges<Limit, P, V<std::uint32_t>, zb::sized_item<V<std::uint32_t>, std::uint64_t>>("sized 8b", SizeKind::s8);
}
// Random deep inputs: whatever they say, no allocation beyond the limit.
struct Deep
{
    using serialize = zb::members<6>;
    std::uint8_t a;
    V<V<std::uint32_t>> b;
    M<std::uint8_t, S<char>> c;
    std::optional<V<S<char>>> d;
    std::variant<V<std::uint64_t>, S<char>> e;
    L<V<std::uint8_t>> f;
    static auto tie(auto & s) { return std::tie(s.a, s.b, s.c, s.d, s.e, s.f); }
};
template <std::size_t Limit, typename P>
void deep(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "deep|L=" + std::to_string(Limit) + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        Deep v{};
        gen(r, v, G{30, 0});
        auto b = encode(v, P::cfg);
        for (auto k = r.below(4); k--;) {
            auto at = r.below(b.size());
            if (r.chance(1, 2)) b[at] = (unsigned char)r.next();
            else
                for (auto run = r.below(9); run-- && at < b.size();) b[at++] = r.chance(1, 4) ? 0x7f : 0xff;
        }
        auto block = heap::Exact<const unsigned char>::copy(b, b.size());
        auto span = block.span();
        zb::in in{span, typename P::endian{}, typename P::size{}, zb::alloc_limit<Limit>{}};
        Deep w{};
        Meter::clear();
        zb::errc res{};
        bool threw = false;
        try {
            res = in(w);
        } catch (const std::exception &) {
            threw = true;
        }
        mon::check(!threw && Meter::largest <= Limit + 128, "allocation-above-limit", [&] { return "largest " + std::to_string(Meter::largest) + " input " + mon::hex(b); });
        mon::count("deep-" + std::to_string(int(res.code)));
        mon::nontrivial(mon::hash_bytes(b.data(), b.size()));
    }
}

// Protobuf: the limit bounds the announced length of packed fields, strings
// and bytes; the reference decoder knows it too.
struct PBlob
{
    using serialize = zb::protocol<zb::pb{}, 6>;
    std::string s;
    std::vector<std::byte> b;
    std::vector<std::uint32_t> f;
    std::vector<zb::vint64_t> v;
    std::vector<std::string> names;
    std::map<zb::vint32_t, std::string> m;
    static auto tie(auto & x) { return std::tie(x.s, x.b, x.f, x.v, x.names, x.m); }
    static constexpr unsigned numbers[] = {1, 2, 3, 4, 5, 6};
};
template <std::size_t Limit>
void messages()
{
    using namespace pbz;
    for (int kind = 0; kind < 7; ++kind)
        for (std::size_t len = Limit > 12 ? Limit - 12 : 0; len < Limit + 12; ++len)
            for (int cut = 0; cut < 3; ++cut) {
                auto label = "message|L=" + std::to_string(Limit) + "|kind=" + std::to_string(kind) + "|len=" + std::to_string(len) + "|cut=" + std::to_string(cut);
                if (!mon::begin(label)) continue;
                Bytes b;
                auto block = [&](Bytes & o, unsigned number, std::size_t n, unsigned char fill) {
                    put_varint(o, number * 8 + 2);
                    put_varint(o, n);
                    o.insert(o.end(), n, fill);
                };
                bool too_long = len > Limit, odd = false;
                switch (kind) {
                case 0: block(b, 1, len, 'a'); break;
                case 1: block(b, 2, len, 0xfe); break;
                case 2: block(b, 3, len, 7); odd = len % 4; break;
                case 3: block(b, 4, len, 9); break;
                case 4: block(b, 5, len, 'n'); break;
                case 5: {
                    Bytes entry;
                    block(entry, 2, len, 'v');
                    put_varint(b, 6 * 8 + 2);
                    put_varint(b, entry.size());
                    b.insert(b.end(), entry.begin(), entry.end());
                    break;
                }
                default: // skipped fields allocate nothing
                    block(b, 77, len, 3);
                    too_long = false;
                }
                if (cut && len) b.resize(b.size() - 1);
                if (cut == 2 && b.size() > 4) b.resize(b.size() / 2);
                auto heap = heap::Exact<const unsigned char>::copy(b, b.size());
                auto span = heap.span();
                zb::in in{span, zb::no_size{}, zb::alloc_limit<Limit>{}};
                PBlob w{}, want{};
                auto res = in(w);
                Dec d{Limit};
                auto e = d.decode({b.data(), b.size()}, want);
                auto say = [&] { return "errc " + std::to_string(int(res.code)) + " reference " + std::to_string(e) + " " + mon::hex(b, 40); };
                if (e == ok) mon::check(zb::success(res) && meq(w, want), "message-within-limit", say);
                else mon::check(!zb::success(res) && (code_bit(res.code) & e), "message-error", say);
                if (!cut && !odd) mon::check((res.code == std::errc::message_size) == too_long, "message-limit", say);
                mon::count(too_long ? "fields-above-limit" : "fields-within-limit");
                mon::nontrivial(len * 32 + kind * 4 + cut);
            }
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto n = mon::iters(10000, 200000);
#if PART == 0
    containers<0, PNative4>();
    containers<1, PNativeV>();
    messages<0>();
    messages<1>();
#elif PART == 1
    containers<7, PBig2>();
    containers<8, PNative8>();
    deep<8, PBig2>(n);
    messages<7>();
#elif PART == 2
    containers<64, PLittle1>();
    containers<64, PSwapV>();
    deep<64, PLittle1>(n);
    messages<64>();
#elif PART == 3
    containers<100, PNative4>();
    containers<127, PBig8>();
    deep<100, PSwapV>(n);
    messages<100>();
#elif PART == 4
    containers<1000, PNativeV>();
    containers<1001, PBig4>();
    deep<40, PNative4>(n);
    messages<127>();
    messages<128>();
#elif PART == 5
    containers<4096, PBig2>();
    deep<4096, PNativeV>(n);
    messages<300>();
#elif PART == 6
    containers<65536, PNative4>();
    deep<1000, PNative4>(n);
    messages<1000>();
#elif PART == 7
    containers<24, PNative4>();
    containers<48, PBig8>();
    deep<24, PBig8>(n);
    messages<24>();
    messages<16>();
#endif
    return mon::finish();
}
