// C12: optionals and owning pointers: presence, replacement of what was there,
// identity of the pointee, and the shape of trees.
#include "common/heap.hpp"
#include "common/zoo.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

struct Counted // instances are counted and never copied by the library
{
    static inline long alive = 0;
    std::uint32_t x = 0;
    std::string s;
    Counted() { ++alive; }
    Counted(Counted && o) : x(o.x), s(std::move(o.s)) { ++alive; }
    Counted & operator=(Counted &&) = default;
    ~Counted() { --alive; }
    using serialize = zb::members<2>;
    static auto tie(auto & a) { return std::tie(a.x, a.s); }
};
class Hidden
{
    friend zpp::bits::access;
    Hidden() = default;
    using serialize = zb::members<2>;
    std::uint16_t a{};
    std::string b;

public:
    Hidden(int) {}
    static auto tie(auto & x) { return std::tie(x.a, x.b); }
};

struct Ends // nodes with every kind of pointer
{
    using serialize = zb::members<6>;
    std::uint8_t v{};
    zb::optional_ptr<Ends> a;
    std::vector<std::unique_ptr<Ends>> b;
    std::optional<std::unique_ptr<Ends>> c;
    std::map<std::uint8_t, std::shared_ptr<Ends>> d;
    std::vector<zb::optional_ptr<Ends>> e;
    static auto tie(auto & x) { return std::tie(x.v, x.a, x.b, x.c, x.d, x.e); }
};
namespace ref
{
template <> struct dynamic<Ends> : std::true_type {};
}
void grow(Rng & r, Ends & e, int depth)
{
    e.v = (std::uint8_t)r.next();
    if (depth > 5) return;
    auto node = [&] {
        auto p = std::make_unique<Ends>();
        grow(r, *p, depth + 1 + int(r.below(2)));
        return p;
    };
    if (r.chance(1, 2)) e.a = node();
    for (auto n = r.below(3); n--;) e.b.push_back(node());
    if (r.chance(1, 2)) e.c = node();
    for (auto n = r.below(2); n--;) e.d.emplace((std::uint8_t)r.next(), node());
    for (auto n = r.below(3); n--;) {
        e.e.emplace_back();
        if (r.chance(1, 2)) e.e.back() = node();
    }
}
std::size_t nodes(const Ends & e)
{
    std::size_t n = 1;
    if (e.a) n += nodes(*e.a);
    for (auto & x : e.b) n += nodes(*x);
    if (e.c) n += nodes(**e.c);
    for (auto & x : e.d) n += nodes(*x.second);
    for (auto & x : e.e)
        if (x) n += nodes(*x);
    return n;
}

template <typename O, typename P>
constexpr bool never_moves = false;

// O: an optional kind holding T. Every combination of presence.
template <typename O, typename P>
void presence(const char * name, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = std::string("optional=") + name + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        O v{}, w{};
        auto set = [&](O & o, bool present) {
            do {
                gen(r, o, G{20, 0});
            } while (bool(o) != present);
        };
        set(v, i & 1);
        set(w, i & 2);
        auto want = encode(v, P::cfg);
        Bytes data;
        zb::out out{data, typename P::endian{}, typename P::size{}};
        auto res = out(v);
        auto say = [&] { return std::string(i & 1 ? "present" : "empty") + " into " + (i & 2 ? "present" : "empty") + " errc " + std::to_string(int(res.code)) + " " + mon::hex(data) + " expected " + mon::hex(want); };
        mon::check(zb::success(res) && data == want, "written-presence", say);
        if (!data.empty()) mon::check(data[0] == (i & 1 ? 1 : 0) && (data[0] || data.size() == 1), "presence-byte", say);
        // any nonzero byte means present
        if ((i & 1) && (i & 4)) want[0] = (unsigned char)(2 + r.below(254));
        auto block = heap::Exact<const char>::copy(want, want.size());
        auto span = block.span();
        zb::in in{span, typename P::endian{}, typename P::size{}};
        res = in(w);
        mon::check(zb::success(res) && bool(w) == bool(i & 1) && eq(v, w) && in.position() == want.size(), "read-presence", say);
        mon::count(i & 1 ? (i & 2 ? "present into present" : "present into empty") : (i & 2 ? "empty into present" : "empty into empty"));
        mon::nontrivial(mon::hash_bytes(want.data(), want.size()) + (i & 3));
    }
}

// Owning pointers: a new pointee; other owners of the old one keep it.
template <typename T, typename P>
void pointers(const char * name, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = std::string("pointer=") + name + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        T v{}, old{};
        gen(r, v, G{20, 0});
        gen(r, old, G{20, 0});
        auto want = encode(v, P::cfg);
        auto old_bytes = encode(old, P::cfg);
        Bytes data;
        zb::out out{data, typename P::endian{}, typename P::size{}};
        std::unique_ptr<T> u(new T{}), u2;
        gen(r, *u, G{});
        auto both = [&](auto & p, auto & target, const char * what) {
            data.clear();
            out.reset();
            auto res = out(p);
            mon::check(zb::success(res) && data == want, "pointee-written", [&] { return std::string(what) + " " + mon::hex(data); });
            zb::in in{want, typename P::endian{}, typename P::size{}};
            auto before = target.get();
            res = in(target);
            mon::check(zb::success(res) && target && in.position() == want.size(), "pointer-read", [&] { return std::string(what) + " errc " + std::to_string(int(res.code)); });
            if (target) mon::check(encode(*target, P::cfg) == want, "pointee-differs", [&] { return what; });
            return before;
        };
        {
            std::unique_ptr<T> p(new T{}), empty, full(new T{});
            {
                zb::in in{want, typename P::endian{}, typename P::size{}};
                (void)in(*p);
            }
            zb::in in2{old_bytes, typename P::endian{}, typename P::size{}};
            (void)in2(*full);
            both(p, empty, "unique into null");
            both(p, full, "unique into another");
        }
        {
            std::shared_ptr<T> p(new T{}), empty, full(new T{});
            {
                zb::in in{want, typename P::endian{}, typename P::size{}};
                (void)in(*p);
            }
            zb::in in2{old_bytes, typename P::endian{}, typename P::size{}};
            (void)in2(*full);
            both(p, empty, "shared into null");
            auto other = full; // another owner
            auto before = both(p, full, "shared into shared");
            mon::check(other.get() == before && full.get() != before, "shared-pointee-reused");
            mon::check(encode(*other, P::cfg) == old_bytes && other.use_count() == 1, "other-owner-changed");
        }
        mon::count("pointers");
        mon::nontrivial(mon::hash_bytes(want.data(), want.size()));
    }
}

// A null pointer that is not optional, anywhere, is refused.
template <typename T>
void nulls(const char * name)
{
    auto refuse = [&](const auto & v, const char * where) {
        if (!mon::begin(std::string("null=") + name + "|in " + where)) return;
        std::vector<std::byte> data;
        zb::out out{data};
        (void)out(std::uint8_t(9));
        auto res = out(v);
        mon::check(res.code == std::errc::invalid_argument, "null-written", [&] { return std::string(where) + " errc " + std::to_string(int(res.code)) + " " + mon::hex(data); });
        mon::check(out.position() >= 1 && data[0] == std::byte(9), "null-damages-earlier");
        heap::Exact<unsigned char> block(64);
        std::memset(block.data(), 0, 64);
        zb::out fixed{block.span()};
        mon::check(fixed(v).code == std::errc::invalid_argument, "null-written-to-fixed");
        mon::count("nulls");
        mon::nontrivial(mon::hash_str(where));
    };
    using Ptr = T;
    refuse(Ptr{}, "itself");
    refuse(std::optional<Ptr>(Ptr{}), "optional");
    std::vector<Ptr> v;
    v.emplace_back();
    refuse(v, "vector");
    v.clear();
    for (int k = 0; k < 3; ++k) v.emplace_back(new typename Ptr::element_type{});
    v[1].reset();
    refuse(v, "the middle of a vector");
    std::array<Ptr, 2> a;
    a[0].reset(new typename Ptr::element_type{});
    refuse(a, "array");
    std::map<int, Ptr> m;
    m[1].reset(new typename Ptr::element_type{});
    m[2];
    refuse(m, "map");
    std::tuple<std::uint8_t, Ptr> t;
    refuse(t, "tuple");
    std::pair<Ptr, int> p;
    refuse(p, "pair");
    std::variant<int, Ptr> x;
    x.template emplace<1>();
    refuse(x, "variant");
    struct Agg
    {
        std::uint16_t a;
        Ptr p;
    } g{};
    refuse(g, "aggregate");
    std::unique_ptr<Ptr> pp(new Ptr{});
    refuse(pp, "pointer");
    zb::optional_ptr<Ptr> op(new Ptr{});
    refuse(op, "optional pointer");
}

template <typename P>
void trees(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "tree|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        Ends t, u;
        grow(r, t, 0);
        if (r.chance(1, 2)) grow(r, u, 2);
        auto want = encode(t, P::cfg);
        Bytes data;
        zb::out out{data, typename P::endian{}, typename P::size{}};
        auto res = out(t);
        mon::check(zb::success(res) && data == want, "tree-bytes", [&] { return mon::hex(data) + " expected " + mon::hex(want); });
        auto block = heap::Exact<const unsigned char>::copy(want, want.size());
        auto span = block.span();
        zb::in in{span, typename P::endian{}, typename P::size{}};
        res = in(u);
        mon::check(zb::success(res) && in.position() == want.size() && eq(t, u), "tree-shape", [&] { return std::to_string(nodes(t)) + " nodes became " + std::to_string(nodes(u)); });
        mon::count("trees");
        mon::count("nodes", nodes(t));
        mon::max_of("nodes in a tree", nodes(t));
        mon::nontrivial(mon::hash_bytes(want.data(), want.size()));
    }
}
// long chains
template <typename P>
void chains()
{
    for (std::size_t len : {0, 1, 2, 10, 100, 400}) {
        auto label = "chain|P=" + P::name() + "|n=" + std::to_string(len);
        if (!mon::begin(label)) continue;
        zoo::ListNode head, back;
        auto * p = &head;
        for (std::size_t k = 0; k < len; ++k) {
            p->next = std::make_unique<zoo::ListNode>();
            p = p->next->get();
            p->value = (std::uint8_t)(k + 1);
        }
        auto want = encode(head, P::cfg);
        Bytes data;
        zb::out out{data, typename P::endian{}, typename P::size{}};
        auto res = out(head);
        mon::check(zb::success(res) && data == want && data.size() == 2 * (len + 1), "chain-bytes");
        zb::in in{data, typename P::endian{}, typename P::size{}};
        res = in(back);
        mon::check(zb::success(res) && eq(head, back), "chain-read");
        zoo::Node root, back2;
        auto * q = &root;
        for (std::size_t k = 0; k < len; ++k) {
            auto & side = k % 2 ? q->left : q->right;
            side = std::make_unique<zoo::Node>();
            q = side.get();
            q->value = (std::uint32_t)k;
        }
        data.clear();
        out.reset();
        res = out(root);
        zb::in in2{data, typename P::endian{}, typename P::size{}};
        auto res2 = in2(back2);
        mon::check(zb::success(res) && data == encode(root, P::cfg) && zb::success(res2) && eq(root, back2), "two-way-chain");
        mon::count("chains");
        mon::nontrivial(len);
    }
}
// The objects behind pointers and optionals neither leak nor linger.
void lifetimes(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "lifetime|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        auto start = Counted::alive;
        {
            std::vector<std::unique_ptr<Counted>> v, w;
            std::vector<std::optional<Counted>> o, o2;
            zb::optional_ptr<Counted> p, p2;
            std::shared_ptr<Counted> s(new Counted), s2;
            for (auto k = r.below(5); k--;) v.push_back(std::make_unique<Counted>()), gen(r, *v.back(), G{});
            for (auto k = r.below(5); k--;) w.push_back(std::make_unique<Counted>());
            for (auto k = r.below(5); k--;) o.emplace_back(), r.chance(1, 2) ? (void)o.back().emplace() : (void)0;
            for (auto k = r.below(5); k--;) o2.emplace_back(), r.chance(1, 2) ? (void)o2.back().emplace() : (void)0;
            if (r.chance(1, 2)) p.reset(new Counted);
            if (r.chance(1, 2)) p2.reset(new Counted);
            Bytes data;
            zb::out out{data};
            auto inside = Counted::alive;
            auto res = out(v, o, p, s);
            mon::check(Counted::alive == inside, "writing-creates-objects");
            zb::in in{data};
            auto res2 = in(w, o2, p2, s2);
            mon::check(zb::success(res) && zb::success(res2) && eq(v, w) && eq(o, o2) && eq(p, p2) && eq(s, s2), "lifetime-values");
            long count = long(v.size() + w.size()) + bool(p) + bool(p2) + 2;
            for (auto & x : o) count += bool(x);
            for (auto & x : o2) count += bool(x);
            mon::check(Counted::alive == start + count, "objects-linger", [&] { return std::to_string(Counted::alive - start) + " instead of " + std::to_string(count); });
        }
        mon::check(Counted::alive == start, "objects-leak");
        mon::count("lifetimes");
    }
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto n = mon::iters(1200, 40000);
    using namespace zoo;
#if PART == 0
    presence<std::optional<std::uint8_t>, PNative4>("optional<u8>", n);
    presence<std::optional<std::int64_t>, PBig2>("optional<i64>", n);
    presence<std::optional<bool>, PNativeV>("optional<bool>", n);
    presence<std::optional<std::string>, PSwapV>("optional<string>", n);
    presence<std::optional<std::vector<std::uint16_t>>, PLittle1>("optional<vector>", n);
    presence<std::optional<std::map<std::uint8_t, std::string>>, PNative4>("optional<map>", n);
    nulls<std::unique_ptr<std::uint16_t>>("unique<u16>");
#elif PART == 1
    presence<std::optional<std::optional<std::uint16_t>>, PNative4>("optional<optional>", n);
    presence<std::optional<std::set<std::uint32_t>>, PBig2>("optional<set>", n);
    presence<std::optional<Person>, PNativeV>("optional<Person>", n);
    presence<std::optional<Padded>, PBig8>("optional<Padded>", n);
    presence<std::optional<std::variant<std::int32_t, std::string>>, PNative4>("optional<variant>", n);
    presence<std::optional<std::bitset<9>>, PNative4>("optional<bitset>", n);
    nulls<std::shared_ptr<std::string>>("shared<string>");
#elif PART == 2
    presence<zb::optional_ptr<std::uint32_t>, PNative4>("optional_ptr<u32>", n);
    presence<zb::optional_ptr<Person>, PBig2>("optional_ptr<Person>", n);
    presence<zb::optional_ptr<Node>, PNativeV>("optional_ptr<Node>", n);
    presence<zb::optional_ptr<std::string>, PSwapV>("optional_ptr<string>", n);
    presence<std::optional<std::unique_ptr<Person>>, PNative4>("optional<unique_ptr>", n);
    presence<std::optional<std::shared_ptr<std::uint16_t>>, PBig2>("optional<shared_ptr>", n);
    nulls<std::unique_ptr<Person>>("unique<Person>");
#elif PART == 3
    pointers<std::uint16_t, PNative4>("u16", n);
    pointers<std::string, PBig2>("string", n);
    pointers<Person, PNativeV>("Person", n);
    pointers<std::vector<std::string>, PSwapV>("vector", n);
#elif PART == 4
    pointers<Node, PNative4>("Node", n);
    pointers<std::map<std::uint8_t, std::string>, PBig8>("map", n);
    pointers<std::optional<std::uint32_t>, PNative4>("optional", n);
    pointers<Padded, PBig2>("Padded", n);
#elif PART == 5
    trees<PNative4>(n);
    chains<PNative4>();
#elif PART == 6
    trees<PSwapV>(n);
    chains<PBig2>();
    lifetimes(n);
#elif PART == 7
    trees<PBig2>(n);
    presence<std::optional<zb::vint64_t>, PNative4>("optional<vint64>", n);
    presence<std::optional<std::list<std::uint16_t>>, PNative4>("optional<list>", n);
    presence<std::optional<std::array<std::string, 2>>, PNative4>("optional<array>", n);
    presence<std::optional<std::tuple<std::uint8_t, std::string>>, PBig2>("optional<tuple>", n);
#endif
    return mon::finish();
}
