// C14: views. Reading views of const bytes must alias the input exactly; reading
// through mutable views must stay inside them. Inputs live in exact-size heap blocks,
// view targets in guarded arrays; allocations are counted.
#define HEAP_IMPL
#include "common/heap.hpp"
#include "common/zoo.hpp"
#include <array>
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

template <typename T>
auto code(T r) { return r.code; }

inline Bytes random_bytes(Rng & r, std::size_t n)
{
    Bytes b(n);
    for (auto & x : b) x = (unsigned char)r.next();
    return b;
}

enum class How { archive, item1, item2, item4, item8, itemv, itemnative, unsized, typed1, typed2, typed4, typed8 };
inline const char * how_names[] = {"archive", "item1", "item2", "item4", "item8", "itemv", "itemnative", "unsized", "typed1", "typed2", "typed4", "typed8"};

inline void le(Bytes & b, std::uint64_t v, unsigned n, bool big)
{
    for (unsigned i = 0; i < n; ++i) b.push_back((unsigned char)(v >> 8 * (big ? n - 1 - i : i)));
}
inline void leb(Bytes & b, std::uint64_t v)
{
    while (v >= 0x80) {
        b.push_back((unsigned char)(v | 0x80));
        v >>= 7;
    }
    b.push_back((unsigned char)v);
}
template <typename P>
unsigned how_width(How h)
{
    switch (h) {
    case How::item1: case How::typed1: return 1;
    case How::item2: case How::typed2: return 2;
    case How::item4: case How::typed4: return 4;
    case How::item8: case How::itemnative: case How::typed8: return 8;
    case How::itemv: return 99;
    case How::unsized: return 0;
    default:
        switch (P::cfg.size) {
        case SizeKind::s1: return 1;
        case SizeKind::s2: return 2;
        case SizeKind::s4: return 4;
        case SizeKind::s8: return 8;
        case SizeKind::varint: return 99;
        default: return 0;
        }
    }
}
template <typename P>
void how_prefix(Bytes & b, How h, std::uint64_t n)
{
    auto w = how_width<P>(h);
    if (w == 99) leb(b, n);
    else le(b, n, w, P::cfg.big);
}
template <typename P>
std::uint64_t how_max(How h)
{
    auto w = how_width<P>(h);
    if (w == 99 || w == 8) return ~std::uint64_t(0);
    if (!w) return 0;
    return (std::uint64_t(1) << 8 * w) - 1;
}

template <typename View, typename Arch>
auto read_how(Arch & in, View & v, How h)
{
    using B = std::remove_const_t<typename View::value_type>;
    constexpr bool sv = requires { typename View::traits_type; };
    auto typed = [&]<typename Sized>() {
        Sized s{};
        auto res = in(s);
        v = View{s.data(), s.size()};
        return res;
    };
    switch (h) {
    case How::item1: { auto && s = zb::sized<std::uint8_t>(v); return in(s); }
    case How::item2: { auto && s = zb::sized<std::uint16_t>(v); return in(s); }
    case How::item4: { auto && s = zb::sized<std::uint32_t>(v); return in(s); }
    case How::item8: { auto && s = zb::sized<std::uint64_t>(v); return in(s); }
    case How::itemv: { auto && s = zb::sized<zb::vsize_t>(v); return in(s); }
    case How::itemnative: { auto && s = zb::sized<std::size_t>(v); return in(s); }
    case How::unsized: { auto && s = zb::unsized(v); return in(s); }
    case How::typed1: if constexpr (sv) return typed.template operator()<zb::string_view1b>(); else return typed.template operator()<zb::span1b<const B>>();
    case How::typed2: if constexpr (sv) return typed.template operator()<zb::string_view2b>(); else return typed.template operator()<zb::span2b<const B>>();
    case How::typed4: if constexpr (sv) return typed.template operator()<zb::string_view4b>(); else return typed.template operator()<zb::span4b<const B>>();
    case How::typed8: if constexpr (sv) return typed.template operator()<zb::string_view8b>(); else return typed.template operator()<zb::span8b<const B>>();
    default: return in(v);
    }
}

// One view of const bytes at a random position of the input.
template <typename View, typename P, typename Data>
void const_views(const std::string & tname, std::uint64_t n)
{
    using B = std::remove_const_t<typename View::value_type>;
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "const|T=" + tname + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        for (unsigned hi = 0; hi < 12; ++hi) {
            auto h = How(hi);
            std::size_t before = r.below(4), rest = r.chance(1, 3) ? r.below(4) : r.below(400);
            std::uint64_t lens[] = {0, 1, r.below(rest + 1), rest ? rest - 1 : 0, rest, rest + 1, rest + 1 + r.below(300), std::uint64_t(1) << r.below(64), ~std::uint64_t(0) - r.below(3), r.next()};
            for (auto len : lens) {
                if (h == How::unsized) len = rest;
                if (h != How::unsized && len > how_max<P>(h)) continue;
                Bytes b = random_bytes(r, before);
                how_prefix<P>(b, h, len);
                auto pre = b.size();
                auto tail = random_bytes(r, rest);
                b.insert(b.end(), tail.begin(), tail.end());
                auto block = heap::Exact<B>::copy(b, b.size(), r.below(4));
                std::conditional_t<std::is_same_v<Data, std::span<B>>, std::span<B>, std::span<const B>> data{block.data(), block.n};
                B stale_target[3]{};
                View v{stale_target, r.below(4)};
                zb::in in{data, typename P::endian{}, typename P::size{}};
                in.position() = before;
                auto refs = heap::refused;
                heap::limit = 0; // "copies nothing": no allocation at all
                std::errc c{};
                bool threw = false;
                {
                    heap::Arm a;
                    try {
                        c = code(read_how(in, v, h));
                    } catch (const std::bad_alloc &) {
                        threw = true;
                    }
                }
                heap::limit = std::size_t(1) << 28;
                auto where = [&] { return std::string(how_names[hi]) + " before " + std::to_string(before) + " rest " + std::to_string(rest) + " len " + std::to_string(len) + " errc " + std::to_string(int(c)) + " pos " + std::to_string(in.position()) + " view +" + std::to_string((const char *)v.data() - (const char *)block.data()) + "/" + std::to_string(v.size()); };
                if (!mon::check(!threw && heap::refused == refs, "view-read-allocates", where)) continue;
                bool ok = len <= rest;
                mon::check((c == std::errc{}) == ok, ok ? "view-rejected" : "view-beyond-input-accepted", where);
                if (!ok) {
                    mon::check(c == std::errc::result_out_of_range, "error-code", where);
                    mon::check(in.position() <= b.size(), "position-beyond-input", where);
                    mon::count("too-long-views");
                } else if (c == std::errc{}) {
                    mon::check(v.size() == len, "view-length", where);
                    mon::check(len == 0 || (const void *)v.data() == (const void *)(block.data() + pre), "view-does-not-alias", where);
                    mon::check(in.position() == pre + len, "position", where);
                    if (len == 0) mon::check(v.data() == nullptr || ((const char *)v.data() >= (const char *)block.data() && (const char *)v.data() <= (const char *)block.data() + block.n) , "empty-view-elsewhere", where);
                    mon::count(h == How::unsized ? "unsized-views" : "sized-views");
                    if (len == rest) mon::count("views-to-the-end");
                }
                mon::check(same_bytes(block.data(), b.data(), b.size()), "input-modified", where);
                mon::nontrivial(mon::hash_bytes(b.data(), b.size(), hi) + len);
                if (h == How::unsized) break;
            }
        }
        mon::sample([&] { return "const view"; });
    }
}

// ---- views nested in other types: written from owning twins, offsets recomputed
// from the documented layout.
struct OwnA
{
    std::uint16_t a;
    std::string s;
    std::uint32_t b;
    std::vector<std::byte> t;
    static auto tie(auto & x) { return std::tie(x.a, x.s, x.b, x.t); }
};
struct ViewA
{
    std::uint16_t a;
    std::string_view s;
    std::uint32_t b;
    std::span<const std::byte> t;
    static auto tie(auto & x) { return std::tie(x.a, x.s, x.b, x.t); }
};

// Walks an owning value and its view twin together. `cursor` is where the next
// encoded byte lies in the input.
template <typename P>
struct Walk
{
    const char * cursor;
    bool ok = true;
    std::string why;
    void bad(const std::string & w)
    {
        if (ok) why = w;
        ok = false;
    }
    std::size_t prefix(std::uint64_t n)
    {
        Bytes b;
        how_prefix<P>(b, How::archive, n);
        return b.size();
    }
    template <typename T>
        requires std::is_fundamental_v<T>
    void go(const T & o, const T & v)
    {
        if (o != v) bad("scalar differs");
        cursor += sizeof(T);
    }
    template <typename O, typename V>
        requires requires(V v) { v.data(); } && (sizeof(typename V::value_type) == 1) && (!requires(V v) { v.resize(1); })
    void go(const O & o, const V & v)
    {
        cursor += prefix(o.size());
        if (v.size() != o.size()) return bad("view length " + std::to_string(v.size()) + " not " + std::to_string(o.size()));
        if (v.size() && (const char *)v.data() != cursor) bad("view does not alias");
        cursor += o.size();
    }
    template <typename O, typename V>
        requires requires(V v) { v.resize(1); }
    void go(const std::vector<O> & o, const V & v)
    {
        cursor += prefix(o.size());
        if (v.size() != o.size()) return bad("count");
        auto j = v.begin();
        for (auto & x : o) go(x, *j++);
    }
    template <typename O, typename V>
    void go(const std::optional<O> & o, const std::optional<V> & v)
    {
        cursor += 1;
        if (o.has_value() != v.has_value()) return bad("presence");
        if (o) go(*o, *v);
    }
    template <typename A, typename B, typename C, typename D>
    void go(const std::pair<A, B> & o, const std::pair<C, D> & v)
    {
        go(o.first, v.first);
        go(o.second, v.second);
    }
    template <typename... O, typename... V>
    void go(const std::tuple<O...> & o, const std::tuple<V...> & v)
    {
        [&]<std::size_t... I>(std::index_sequence<I...>) { (go(std::get<I>(o), std::get<I>(v)), ...); }(std::make_index_sequence<sizeof...(O)>{});
    }
    template <typename O, typename V, std::size_t N>
    void go(const std::array<O, N> & o, const std::array<V, N> & v)
    {
        for (std::size_t i = 0; i < N; ++i) go(o[i], v[i]);
    }
    template <typename... O, typename... V>
    void go(const std::variant<O...> & o, const std::variant<V...> & v)
    {
        cursor += 1;
        if (o.index() != v.index()) return bad("alternative");
        [&]<std::size_t... I>(std::index_sequence<I...>) { ((o.index() == I ? go(std::get<I>(o), std::get<I>(v)) : void()), ...); }(std::make_index_sequence<sizeof...(O)>{});
    }
    template <typename K, typename O, typename L, typename V>
    void go(const std::map<K, O> & o, const std::map<L, V> & v)
    {
        cursor += prefix(o.size());
        if (v.size() != o.size()) return bad("count");
        auto j = v.begin();
        for (auto & [k, x] : o) {
            go(k, j->first);
            go(x, j->second);
            ++j;
        }
    }
    void go(const OwnA & o, const ViewA & v)
    {
        go(o.a, v.a);
        go(o.s, v.s);
        go(o.b, v.b);
        go(o.t, v.t);
    }
};

template <typename Own, typename View, typename P, typename B>
void nested(const std::string & tname, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "nested|T=" + tname + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        Own o{};
        gen(r, o, G{std::size_t(i % 8 ? 5 : 40), 0});
        auto want = encode(o, P::cfg);
        Bytes b = random_bytes(r, r.below(5));
        auto start = b.size();
        b.insert(b.end(), want.begin(), want.end());
        auto end = b.size();
        auto extra = random_bytes(r, r.below(6));
        b.insert(b.end(), extra.begin(), extra.end());
        auto block = heap::Exact<const B>::copy(b, b.size(), r.below(3));
        View v{};
        zb::in in{block.span(), typename P::endian{}, typename P::size{}};
        in.reset(start);
        auto res = in(v);
        auto where = [&] { return "errc " + std::to_string(int(res.code)) + " pos " + std::to_string(in.position()) + " input " + mon::hex(b); };
        if (!mon::check(zb::success(res), "nested-view-rejected", where)) continue;
        mon::check(in.position() == end, "nested-position", where);
        Walk<P> w{(const char *)block.data() + start};
        w.go(o, v);
        mon::check(w.ok, "nested-view", [&] { return w.why + " " + where(); });
        mon::check(w.cursor == (const char *)block.data() + end, "nested-layout", where);
        // the views stay inside every prefix of the input as well
        for (std::size_t cut = start; cut < end; ++cut) {
            if (end - start > 60 && !r.chance(60, unsigned(end - start))) continue;
            auto shorter = heap::Exact<const B>::copy(b, cut);
            View u{};
            zb::in in2{shorter.span(), typename P::endian{}, typename P::size{}};
            in2.reset(start);
            auto c = code(in2(u));
            mon::check(c == std::errc::result_out_of_range, "nested-truncated", where);
            mon::check(in2.position() <= cut, "position-beyond-input", where);
            mon::count("nested-cuts");
        }
        // and writing the views gives the same bytes again
        std::vector<std::byte> data;
        zb::out out{data, typename P::endian{}, typename P::size{}};
        auto wr = out(v);
        mon::check(zb::success(wr) && same_bytes(data.data(), want.data(), want.size()) && data.size() == want.size(), "nested-rewrite", where);
        mon::count("nested-views");
        mon::nontrivial(mon::hash_bytes(want.data(), want.size()));
        mon::sample([&] { return mon::hex(want, 40); });
    }
}

// ---- mutable views
template <typename T, typename P, typename B>
void mutable_views(const std::string & tname, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "mutable|T=" + tname + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        constexpr How hows[] = {How::archive, How::item1, How::item2, How::itemv, How::unsized};
        for (auto h : hows) {
            std::size_t total = 3 + r.below(8), first = r.below(3), room = r.below(total - first + 1);
            std::vector<T> backing(total), old(total), items(total + 6);
            for (auto & x : backing) gen(r, x, G{4, 1});
            old = backing;
            for (auto & x : items) gen(r, x, G{4, 1});
            std::uint64_t counts[] = {0, room, room + 1, room ? room - 1 : 0, r.below(room + 1), room + 1 + r.below(5), ~std::uint64_t(0), std::uint64_t(1) << r.below(64), (std::uint64_t(1) << 32) + room, (std::uint64_t(1) << 61) + room};
            for (auto count : counts) {
                if (h == How::unsized) count = room;
                if (count > how_max<P>(h) && h != How::unsized) continue;
                backing = old;
                Bytes b;
                how_prefix<P>(b, h, count);
                auto present = std::min<std::uint64_t>(count, items.size());
                Bytes body;
                for (std::size_t k = 0; k < present; ++k) {
                    auto e = encode(items[k], P::cfg);
                    body.insert(body.end(), e.begin(), e.end());
                }
                bool cut = r.chance(1, 3) && !body.empty();
                std::size_t keep = cut ? r.below(body.size()) : body.size();
                b.insert(b.end(), body.begin(), body.begin() + long(keep));
                auto block = heap::Exact<const B>::copy(b, b.size(), r.below(3));
                // the elements around the view are in the same array: checked by value;
                // for trivial types also through an exact heap block under ASan
                std::span<T> v{backing.data() + first, room};
                zb::in in{block.span(), typename P::endian{}, typename P::size{}};
                std::errc c{};
                switch (h) {
                case How::item1: { auto && s = zb::sized<std::uint8_t>(v); c = code(in(s)); break; }
                case How::item2: { auto && s = zb::sized<std::uint16_t>(v); c = code(in(s)); break; }
                case How::itemv: { auto && s = zb::sized<zb::vsize_t>(v); c = code(in(s)); break; }
                case How::unsized: { auto && s = zb::unsized(v); c = code(in(s)); break; }
                default: c = code(in(v));
                }
                auto where = [&] { return std::string(how_names[int(h)]) + " count " + std::to_string(count) + " view " + std::to_string(room) + (cut ? " cut" : "") + " errc " + std::to_string(int(c)) + " pos " + std::to_string(in.position()) + " input " + mon::hex(b); };
                bool ok = count <= room && !cut;
                mon::check((c == std::errc{}) == ok, ok ? "mutable-view-rejected" : count > room ? "count-beyond-view-accepted" : "truncated-view-accepted", where);
                if (!ok) mon::check(c == std::errc::result_out_of_range, "mutable-error-code", where);
                mon::check(in.position() <= b.size(), "position-beyond-input", where);
                mon::check(v.data() == backing.data() + first || v.empty(), "view-moved", where);
                mon::check(v.size() <= room, "view-grew", where);
                std::size_t touched = count > room ? 0 : count;
                for (std::size_t k = 0; k < total; ++k) {
                    if (k >= first && k < first + touched) {
                        if (ok) mon::check(eq(backing[k], items[k - first]), "view-item-differs", where);
                    } else mon::check(eq(backing[k], old[k]), "written-outside-view", where);
                }
                if (ok) {
                    mon::check(v.size() == count, "view-not-shrunk", where);
                    mon::check(in.position() == b.size(), "mutable-position", where);
                }
                mon::count(ok ? "mutable-views" : count > room ? "counts-beyond-view" : "truncated-mutable-views");
                if (ok && count < room) mon::count("shrunk-views");
                mon::nontrivial(mon::hash_bytes(b.data(), b.size(), room * 16 + int(h)));
                // the same with the view's memory ending at a red zone
                if constexpr (std::is_trivially_copyable_v<T>) {
                    heap::Exact<T> tight(room * sizeof(T));
                    if (room) std::memcpy((void *)tight.data(), old.data() + first, room * sizeof(T));
                    std::span<T> w{tight.data(), room};
                    zb::in in2{block.span(), typename P::endian{}, typename P::size{}};
                    auto c2 = h == How::unsized ? code(in2(zb::unsized(w))) : h == How::item1 ? code(in2(zb::sized<std::uint8_t>(w))) : h == How::item2 ? code(in2(zb::sized<std::uint16_t>(w))) : h == How::itemv ? code(in2(zb::sized<zb::vsize_t>(w))) : code(in2(w));
                    mon::check(c2 == c, "placement-dependent", where);
                }
                if (h == How::unsized) break;
            }
        }
    }
}

// Fixed-extent mutable spans: exactly N items, no prefix.
template <typename T, std::size_t N, typename P>
void fixed_spans(const std::string & tname, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "fixed|T=" + tname + "|N=" + std::to_string(N) + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        std::vector<T> items(N);
        Bytes b;
        for (auto & x : items) {
            gen(r, x, G{4, 1});
            auto e = encode(x, P::cfg);
            b.insert(b.end(), e.begin(), e.end());
        }
        for (std::size_t keep = 0; keep <= b.size(); ++keep) {
            auto block = heap::Exact<const std::byte>::copy(b, keep);
            heap::Exact<T> tight(N * sizeof(T));
            std::memset((void *)tight.data(), 0x11, N * sizeof(T));
            std::span<T, N> v{tight.data(), N};
            zb::in in{block.span(), typename P::endian{}, typename P::size{}};
            auto c = code(in(v));
            auto where = [&] { return "kept " + std::to_string(keep) + " of " + mon::hex(b) + " errc " + std::to_string(int(c)); };
            mon::check((c == std::errc{}) == (keep == b.size()), "fixed-span-result", where);
            if (c != std::errc{}) mon::check(c == std::errc::result_out_of_range, "fixed-span-error-code", where);
            else {
                for (std::size_t k = 0; k < N; ++k) mon::check(eq(v[k], items[k]), "fixed-span-item", where);
                mon::check(in.position() == b.size(), "fixed-span-position", where);
            }
            mon::count("fixed-spans");
        }
        mon::nontrivial(mon::hash_bytes(b.data(), b.size()));
    }
}

// Several views in one input partition it.
template <typename P>
void partitions(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = std::string("partition|P=") + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        std::vector<Bytes> pieces(r.below(12));
        Bytes b;
        for (auto & p : pieces) {
            p = random_bytes(r, r.below(30));
            how_prefix<P>(b, How::archive, p.size());
            b.insert(b.end(), p.begin(), p.end());
        }
        auto rest = random_bytes(r, r.below(20));
        auto body = b.size();
        b.insert(b.end(), rest.begin(), rest.end());
        auto block = heap::Exact<const std::byte>::copy(b, b.size());
        zb::in in{block.span(), typename P::endian{}, typename P::size{}};
        const std::byte * last = block.data();
        bool good = true;
        for (auto & p : pieces) {
            std::span<const std::byte> v;
            auto c = code(in(v));
            good = good && c == std::errc{} && v.size() == p.size() && same_bytes(v.data(), p.data(), p.size()) && v.data() >= last;
            last = v.data() + v.size();
            mon::count("partition-views");
        }
        mon::check(good, "partition", [&] { return mon::hex(b); });
        mon::check(in.position() == body, "partition-position", [&] { return mon::hex(b); });
        std::span<const std::byte> v;
        auto c = code(in(zb::unsized(v)));
        mon::check(c == std::errc{} && v.size() == rest.size() && v.data() == block.data() + body, "partition-rest", [&] { return mon::hex(b); });
        mon::check(in.position() == b.size() && in.remaining_data().empty(), "partition-end", [&] { return mon::hex(b); });
        // an unsized view of nothing, and a sized one beyond the end
        c = code(in(zb::unsized(v)));
        mon::check(c == std::errc{} && v.empty(), "unsized-at-end", [&] { return mon::hex(b); });
        c = code(in(v));
        mon::check(c == std::errc::result_out_of_range, "sized-at-end", [&] { return mon::hex(b); });
        mon::nontrivial(mon::hash_bytes(b.data(), b.size()));
    }
}

template <typename Own, typename View, typename B>
void nested_all(const char * t, std::uint64_t n)
{
    nested<Own, View, PNative4, B>(t, n);
    nested<Own, View, PBig2, B>(t, n);
    nested<Own, View, PNativeV, B>(t, n);
}
template <typename T>
void mutable_all(const char * t, std::uint64_t n)
{
    mutable_views<T, PNative4, std::byte>(t, n);
    mutable_views<T, PBig2, char>(t, n);
    mutable_views<T, PNativeV, unsigned char>(t, n);
    mutable_views<T, PNative8, std::byte>(t, n);
}
template <typename View, bool Mutable = false>
void const_all(const char * t, std::uint64_t n)
{
    using B = std::remove_const_t<typename View::value_type>;
    using Data = std::conditional_t<Mutable, std::span<B>, std::span<const B>>;
    const_views<View, PNative4, Data>(t, n);
    const_views<View, PLittle1, Data>(t, n);
    const_views<View, PBig2, Data>(t, n);
    const_views<View, PBig8, Data>(t, n);
    const_views<View, PNativeV, Data>(t, n);
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto n = mon::iters(40, 1200), m = mon::iters(60, 2000);
#if PART == 0
    const_all<std::span<const std::byte>>("span<const byte>", n);
    const_all<std::span<const std::byte>, true>("span<const byte> of mutable", n);
    partitions<PNative4>(m * 5);
    partitions<PLittle1>(m * 5);
    partitions<PNativeV>(m * 5);
#elif PART == 1
    const_all<std::span<const unsigned char>>("span<const uchar>", n);
    const_all<std::span<const char>>("span<const char>", n);
#elif PART == 2
    const_all<std::string_view>("string_view", n);
    const_all<std::string_view, true>("string_view of mutable", n);
#elif PART == 3
    nested_all<std::vector<std::string>, std::vector<std::string_view>, char>("vector<string_view>", n);
    nested_all<std::optional<std::string>, std::optional<std::string_view>, char>("optional<string_view>", n);
    nested_all<std::pair<std::string, std::string>, std::pair<std::string_view, std::string_view>, char>("pair", n);
    nested_all<std::tuple<std::uint8_t, std::string, std::uint64_t, std::string>, std::tuple<std::uint8_t, std::string_view, std::uint64_t, std::string_view>, char>("tuple", n);
    nested_all<std::map<std::string, std::string>, std::map<std::string_view, std::string_view>, char>("map", n);
#elif PART == 4
    nested_all<std::variant<std::uint32_t, std::string>, std::variant<std::uint32_t, std::string_view>, char>("variant", n);
    nested_all<std::vector<std::pair<std::uint16_t, std::vector<std::byte>>>, std::vector<std::pair<std::uint16_t, std::span<const std::byte>>>, std::byte>("vector<pair<span>>", n);
    nested_all<std::array<std::vector<unsigned char>, 3>, std::array<std::span<const unsigned char>, 3>, unsigned char>("array<span>", n);
    nested_all<std::vector<std::vector<std::vector<std::byte>>>, std::vector<std::vector<std::span<const std::byte>>>, std::byte>("vector<vector<span>>", n);
#elif PART == 5
    mutable_all<std::uint8_t>("u8", m);
    mutable_all<char>("char", m);
    mutable_all<std::byte>("byte", m);
    mutable_all<std::uint32_t>("u32", m);
    mutable_all<double>("double", m);
    mutable_all<zoo::E16>("E16", m);
#elif PART == 6
    mutable_all<zoo::Pod>("Pod", m);
    mutable_all<zoo::Padded>("Padded", m);
    mutable_all<zb::vint32_t>("vint32", m);
    mutable_all<std::array<std::uint16_t, 3>>("array", m);
#elif PART == 7
    mutable_all<std::string>("string", m);
    mutable_all<std::vector<std::uint16_t>>("vector", m);
    mutable_all<std::optional<std::uint32_t>>("optional", m);
    fixed_spans<std::uint8_t, 5, PNative4>("u8", m);
    fixed_spans<std::uint32_t, 4, PNative4>("u32", m);
    fixed_spans<std::uint32_t, 4, PBig4>("u32", m);
    fixed_spans<std::uint64_t, 1, PBig2>("u64", m);
    fixed_spans<zoo::Pod, 3, PNativeV>("Pod", m);
    fixed_spans<zoo::Padded, 3, PNativeV>("Padded", m);
#endif
    return mon::finish();
}
