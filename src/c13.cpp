// C13: lifetimes. Every object registers its address; constructing over a live
// object, destroying a dead one, copying from a dead one or leaving one behind
// is seen at once. Reads succeed, fail at every byte, get corrupted input, or
// throw from the n-th construction, move, comparison or serialization.
#include "common/heap.hpp"
#include "common/pbref.hpp"
#include "common/zoo.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

struct Fault
{
};
struct Registry
{
    static inline std::unordered_set<const void *> * live;
    static inline std::uint64_t built = 0, destroyed = 0;
    static inline long fuse = -1; // events until a throw
    static inline bool watch = false;
    static void event()
    {
        if (watch && fuse > 0 && --fuse == 0) {
            fuse = -1;
            throw Fault{};
        }
    }
};
template <typename Tag>
struct Track
{
    static std::unordered_set<const void *> & live()
    {
        static auto * s = new std::unordered_set<const void *>;
        return *s;
    }
    static inline long & count()
    {
        static long n = 0;
        return n;
    }
    void enter(const char * how)
    {
        ++Registry::built;
        ++total;
        mon::check(live().insert(this).second, "constructed-over-live-object", [&] { return how; });
    }
    static inline long total = 0;
    Track()
    {
        Registry::event();
        enter("default");
    }
    Track(const Track & o)
    {
        o.use("copied");
        Registry::event();
        enter("copy");
    }
    Track(Track && o)
    {
        o.use("moved");
        Registry::event();
        enter("move");
    }
    Track & operator=(const Track & o)
    {
        o.use("assigned from");
        use("assigned to");
        Registry::event();
        return *this;
    }
    Track & operator=(Track && o)
    {
        o.use("assigned from");
        use("assigned to");
        Registry::event();
        return *this;
    }
    ~Track()
    {
        ++Registry::destroyed;
        --total;
        mon::check(live().erase(this) == 1, "destroyed-twice-or-never-built");
    }
    void use(const char * how) const
    {
        mon::check(live().contains(this), "dead-object-used", [&] { return how; });
    }
};
inline long alive();

struct Obj : Track<Obj>
{
    std::uint8_t a{};
    std::string s;
    static constexpr auto serialize(auto & archive, auto & self)
    {
        self.use("serialized");
        Registry::event();
        return archive(self.a, self.s);
    }
    static auto tie(auto & x) { return std::tie(x.a, x.s); }
    bool operator<(const Obj & o) const
    {
        use("compared"), o.use("compared");
        Registry::event();
        return std::tie(a, s) < std::tie(o.a, o.s);
    }
    bool operator==(const Obj & o) const
    {
        use("compared"), o.use("compared");
        return std::tie(a, s) == std::tie(o.a, o.s);
    }
};
// members<>: the automatic route
struct Auto : Track<Auto>
{
    using serialize = zb::members<2>;
    std::vector<std::uint8_t> a;
    std::uint16_t b{};
    static auto tie(auto & x) { return std::tie(x.a, x.b); }
};
class Hidden : public Track<Hidden>
{
    friend zpp::bits::access;
    Hidden() = default;
    using serialize = zb::members<2>;
    std::uint8_t a{};
    std::string s;

public:
    Hidden(int) {}
    static auto tie(auto & x) { return std::tie(x.a, x.s); }
    bool operator<(const Hidden & o) const
    {
        use("compared"), o.use("compared");
        return std::tie(a, s) < std::tie(o.a, o.s);
    }
    bool operator==(const Hidden & o) const { return std::tie(a, s) == std::tie(o.a, o.s); }
};
struct PObj : Track<PObj>
{
    using serialize = zb::protocol<zb::pb{}, 2>;
    zb::vint32_t a{};
    std::string s;
    static auto tie(auto & x) { return std::tie(x.a, x.s); }
    static constexpr unsigned numbers[] = {1, 2};
};
struct PHold : Track<PHold>
{
    using serialize = zb::protocol<zb::pb{}, 4>;
    PObj one;
    std::vector<PObj> many;
    std::map<std::uint32_t, PObj> map;
    std::vector<std::string> names;
    static auto tie(auto & x) { return std::tie(x.one, x.many, x.map, x.names); }
    static constexpr unsigned numbers[] = {1, 2, 3, 4};
};
struct PTree : Track<PTree>
{
    using serialize = zb::protocol<zb::pb{}, 2>;
    std::vector<PTree> kids;
    zb::vint32_t v{};
    static auto tie(auto & x) { return std::tie(x.kids, x.v); }
    static constexpr unsigned numbers[] = {1, 2};
};
// Says which alternative follows, then reads it as one of known id.
template <typename V>
struct KnownOf
{
    using known = V;
    V v;
    constexpr static zb::errc serialize(auto & archive, auto & self)
    {
        auto i = std::uint8_t(self.v.index());
        if (zb::errc e = archive(i); zb::failure(e)) return e;
        switch (i) {
        case 0: return archive(zb::known_id<std::byte{0}>(self.v));
        case 1: return archive(zb::known_id<std::byte{1}>(self.v));
        case 2: return archive(zb::known_id<std::byte{2}>(self.v));
        }
        return std::errc::bad_message;
    }
    static auto tie(auto & x) { return std::tie(x.v); }
};
using VarOf = std::variant<std::uint8_t, Hidden, Obj>;
void enc(Bytes & o, const KnownOf<VarOf> & k, Cfg c)
{
    o.push_back((unsigned char)k.v.index());
    std::visit([&](auto & x) { ref::enc(o, x, c); }, k.v);
}
template <>
struct std::hash<Obj>
{
    std::size_t operator()(const Obj & o) const
    {
        o.use("hashed");
        return o.a + 31 * std::hash<std::string>{}(o.s);
    }
};
inline long alive() { return Obj::total + Auto::total + Hidden::total + PObj::total + PHold::total + PTree::total; }

template <typename T>
constexpr bool is_pb = requires { T::numbers; };
template <typename T>
T blank()
{
    if constexpr (std::is_default_constructible_v<T>) return T{};
    else return T(0);
}
void make(Rng & r, PTree & t, int depth)
{
    t.v.value = int(r.next());
    t.kids.resize(depth < 4 ? r.below(3) : 0);
    for (auto & k : t.kids) make(r, k, depth + 1);
}
// generated without default constructing what cannot be
template <typename T>
void make(Rng & r, T & v)
{
    if constexpr (std::same_as<T, PTree>) make(r, v, 0);
    else if constexpr (requires { typename T::known; }) make(r, v.v);
    else if constexpr (requires { typename T::value_type::known; }) {
        v = T(r.below(4));
        for (auto & x : v) make(r, x);
    } else if constexpr (is_pb<T>) pbz::pgen(r, v, G{20, 1});
    else if constexpr (std::same_as<T, std::optional<Hidden>>) {
        v.reset();
        if (r.chance(2, 3)) gen(r, v.emplace(0), G{20, 1});
    } else if constexpr (std::same_as<T, std::variant<std::uint8_t, Hidden, Obj>>) {
        switch (r.below(3)) {
        case 0: v = std::uint8_t(7); break;
        case 1: gen(r, v.template emplace<1>(0), G{20, 1}); break;
        default: gen(r, v.template emplace<2>(), G{20, 1});
        }
    } else if constexpr (std::same_as<T, std::set<Hidden>>) {
        v.clear();
        for (auto n = r.below(5); n--;) {
            Hidden k(0);
            gen(r, k, G{20, 1});
            v.insert(std::move(k));
        }
    } else if constexpr (std::same_as<T, std::vector<std::unique_ptr<Hidden>>>) {
        v.clear();
        for (auto n = r.below(5); n--;) {
            v.emplace_back(new Hidden(0));
            gen(r, *v.back(), G{20, 1});
        }
    } else gen(r, v, G{20, 1});
}
template <typename T>
Bytes bytes_of(const T & v, Cfg c)
{
    if constexpr (is_pb<T>) return pbz::with_prefix(v, c);
    else return encode(v, c);
}
template <typename T>
bool same(const T & a, const T & b)
{
    if constexpr (is_pb<T>) return pbz::meq(a, b);
    else return eq(a, b);
}

template <typename T, typename P>
void scenario(const char * name, std::uint64_t n)
{
    using A = zb::alloc_limit<100000>;
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = std::string("T=") + name + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        auto start = alive();
        {
            auto v = blank<T>();
            make(r, v);
            auto want = bytes_of(v, P::cfg);
            mon::nontrivial(mon::hash_bytes(want.data(), want.size()));
            mon::max_of("encoding", want.size());
            auto read = [&](const Bytes & b, std::size_t len, T & w, long fuse) {
                auto block = heap::Exact<const std::byte>::copy(b, len);
                auto span = block.span();
                zb::in in{span, typename P::endian{}, typename P::size{}, A{}};
                Registry::fuse = fuse;
                Registry::watch = true;
                int outcome;
                try {
                    zb::errc res = in(w);
                    outcome = zb::success(res) ? 0 : 1;
                } catch (const Fault &) {
                    outcome = 2;
                }
                Registry::watch = false;
                return outcome;
            };
            auto after = [&](T & w, long before_w, const char * what) {
                // The target is a valid object: it can be read into again, or destroyed.
                if (r.chance(1, 2)) {
                    auto o = read(want, want.size(), w, -1);
                    mon::check(o == 0 && same(v, w), "target-not-reusable", [&] { return std::string(what) + " outcome " + std::to_string(o); });
                    mon::count("reused targets");
                }
            };
            auto attempt = [&](const Bytes & b, std::size_t len, long fuse, const char * what) {
                auto before = alive();
                int o;
                {
                    auto w = blank<T>();
                    if (r.chance(1, 2)) make(r, w);
                    o = read(b, len, w, fuse);
                    after(w, before, what);
                }
                mon::check(alive() == before, "objects-leak-or-die-twice", [&] { return std::string(what) + " outcome " + std::to_string(o) + ": " + std::to_string(alive() - before) + " too many, input " + mon::hex(b); });
                mon::count(o == 0 ? "successes" : o == 1 ? "failures" : "throws");
                return o;
            };
            mon::check(attempt(want, want.size(), -1, "read") == 0, "read-fails", [&] { return mon::hex(want); });
            for (std::size_t len = 0; len < want.size(); ++len)
                if (want.size() < 60 || r.chance(40, unsigned(want.size()))) attempt(want, len, -1, "truncated");
            for (int k = 0; k < 12; ++k) {
                auto b = want;
                if (b.empty()) break;
                for (auto m = 1 + r.below(3); m--;) b[r.below(b.size())] = (unsigned char)(r.chance(1, 2) ? r.below(4) : r.next());
                attempt(b, b.size(), -1, "corrupted");
            }
            // throw from the first event, the second, ... until none is left
            for (long fuse = 1; fuse < 400; fuse += fuse < 40 ? 1 : 1 + long(r.below(20)))
                if (attempt(want, want.size(), fuse, "throwing") != 2) break;
            // writing neither creates nor destroys
            auto before = alive();
            Bytes data;
            zb::out out{data, typename P::endian{}, typename P::size{}};
            auto built = Registry::built;
            zb::errc res = out(v);
            mon::check(zb::success(res) && alive() == before, "writing-changes-lifetimes");
        }
        mon::check(alive() == start, "objects-left", [&] { return std::to_string(alive() - start); });
    }
    mon::count("types");
}

// Arguments of applied functions and remote calls.
struct Callee
{
    static inline long calls = 0;
    static std::uint32_t f(Obj a, const Auto & b, std::vector<Obj> c, std::optional<Obj> d)
    {
        a.use("argument"), b.use("argument");
        for (auto & x : c) x.use("argument");
        if (d) d->use("argument");
        Registry::event();
        ++calls;
        return std::uint32_t(a.a + c.size());
    }
    static Obj g(Obj && a, std::uint8_t b)
    {
        a.use("argument");
        ++calls;
        Obj o;
        o.a = std::uint8_t(a.a + b);
        return o;
    }
};
using namespace zpp::bits::literals;
using Rpc = zb::rpc<zb::bind<Callee::f, "f"_sha256_int>, zb::bind<Callee::g, "g"_sha256_int>>;
void arguments(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "arguments|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        auto start = alive();
        {
            Obj a;
            Auto b;
            std::vector<Obj> c;
            std::optional<Obj> d;
            gen(r, a, G{20, 1});
            gen(r, b, G{20, 1});
            gen(r, c, G{20, 1});
            gen(r, d, G{20, 1});
            Bytes request;
            zb::out out{request};
            (void)out(a, b, c, d);
            auto inside = alive();
            auto run = [&](std::size_t len, long fuse, bool remote) {
                Bytes in_bytes(request.begin(), request.begin() + long(len)), reply;
                if (remote) {
                    Bytes id;
                    zb::out{id}("f"_sha256_int).or_throw();
                    in_bytes.insert(in_bytes.begin(), id.begin(), id.end());
                }
                auto block = heap::Exact<unsigned char>::copy(in_bytes, in_bytes.size());
                auto span = block.span();
                zb::in in{span};
                zb::out o{reply};
                Registry::fuse = fuse;
                Registry::watch = true;
                int outcome;
                auto calls = Callee::calls;
                try {
                    if (remote) {
                        Rpc::server server{in, o};
                        outcome = zb::success(server.serve()) ? 0 : 1;
                    } else {
                        auto result = zb::apply(Callee::f, in);
                        outcome = result.failure() ? 1 : 0;
                    }
                } catch (const Fault &) {
                    outcome = 2;
                }
                Registry::watch = false;
                mon::check(alive() == inside, "arguments-leak-or-die-twice", [&] { return std::to_string(alive() - inside) + " outcome " + std::to_string(outcome); });
                mon::check((outcome == 0) == (Callee::calls == calls + 1), "calls", [&] { return std::to_string(Callee::calls - calls); });
                mon::count(outcome == 0 ? "calls" : outcome == 1 ? "failed calls" : "throwing calls");
                return outcome;
            };
            for (int remote = 0; remote < 2; ++remote) {
                mon::check(run(request.size(), -1, remote) == 0, "call-fails");
                for (std::size_t len = 0; len < request.size(); ++len) run(len, -1, remote);
                for (long fuse = 1; fuse < 200; ++fuse)
                    if (run(request.size(), fuse, remote) != 2) break;
            }
            mon::nontrivial(mon::hash_bytes(request.data(), request.size()));
        }
        mon::check(alive() == start, "objects-left");
    }
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto n = mon::iters(300, 8000);
#if PART == 0
    scenario<Obj, PNative4>("Obj", n);
    scenario<std::vector<Obj>, PNative4>("vector", n);
    scenario<std::list<Obj>, PBig2>("list", n);
    scenario<std::optional<Obj>, PSwapV>("optional", n);
#elif PART == 1
    scenario<std::map<Obj, Auto>, PNative4>("map", n);
    scenario<std::set<Obj>, PNativeV>("set", n);
    scenario<std::multimap<std::uint8_t, Obj>, PBig2>("multimap", n);
#elif PART == 2
    scenario<std::unordered_map<Obj, std::string>, PNative4>("unordered_map", n);
    scenario<std::unordered_set<Obj>, PBig8>("unordered_set", n);
    scenario<std::multiset<Obj>, PNative4>("multiset", n);
#elif PART == 3
    scenario<std::variant<std::uint8_t, Obj, Auto>, PNative4>("variant", n * 2);
    scenario<std::variant<std::uint8_t, Hidden, Obj>, PNative4>("variant of hidden", n * 2);
    scenario<KnownOf<VarOf>, PNative4>("known alternative", n * 2);
    scenario<std::vector<KnownOf<VarOf>>, PSwapV>("known alternatives", n);
    scenario<std::optional<Hidden>, PNativeV>("optional of hidden", n * 2);
    scenario<std::set<Hidden>, PNative4>("set of hidden", n);
    scenario<std::vector<std::unique_ptr<Hidden>>, PNative4>("pointers to hidden", n);
#elif PART == 4
    scenario<std::vector<std::unique_ptr<Obj>>, PNative4>("unique_ptr", n);
    scenario<std::vector<std::shared_ptr<Auto>>, PBig2>("shared_ptr", n);
    scenario<std::vector<zb::optional_ptr<Obj>>, PNativeV>("optional_ptr", n);
    scenario<std::optional<std::unique_ptr<Obj>>, PNative4>("optional unique_ptr", n);
#elif PART == 5
    scenario<std::array<Obj, 3>, PNative4>("array", n);
    scenario<std::tuple<Obj, std::uint8_t, Auto>, PBig2>("tuple", n);
    scenario<std::vector<std::pair<Obj, Auto>>, PNative4>("vector of pair", n);
    scenario<std::map<std::uint8_t, std::vector<std::optional<Obj>>>, PSwapV>("nested", n);
    scenario<std::deque<Auto>, PNative4>("deque", n);
#elif PART == 6
    scenario<PHold, PNative4>("message", n);
    scenario<PHold, PBig2>("message, big", n / 2);
    scenario<PTree, PSwapV>("message tree", n);
#elif PART == 7
    scenario<PHold, PNative0>("unsized message", n);
    arguments(n);
#endif
    return mon::finish();
}
