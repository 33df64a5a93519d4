// C29: one deterministic workload over the whole library, built in several
// configurations; every observation is logged, the logs are compared (tools/specs.py).
#include "common/pbref.hpp"
#include "common/zoo.hpp"
#include "common/zoo2.hpp"
#include <list>
#include <memory>
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;
using namespace zpp::bits::literals;

#ifdef __cpp_exceptions
#define GUARDED(...)                                                            \
    try {                                                                       \
        __VA_ARGS__;                                                            \
    } catch (const std::exception &) {                                          \
        say("exception");                                                       \
    }
#else
#define GUARDED(...) { __VA_ARGS__; }
#endif

// One line per case: everything observed in it.
inline std::string line;
inline void say(std::string_view s)
{
    line += ' ';
    line += s;
    mon::count("observations");
}
inline void say(long long n) { say(std::string_view(std::to_string(n))); }
inline void say_hash(const void * p, std::size_t n)
{
    char b[20];
    std::snprintf(b, sizeof b, "#%llx", (unsigned long long)mon::hash_bytes(p, n));
    say(std::string_view(b));
}
template <typename C>
void say_bytes(const C & c)
{
    if (c.size() <= 24) say(std::string_view("x" + mon::hex(c)));
    else say_hash(c.data(), c.size());
}
template <typename F>
void one_case(const std::string & label, F && f)
{
    if (!mon::begin(label)) return;
    line = label + " :";
    auto r = mon::rng(label);
    f(r);
    mon::event(line);
    mon::nontrivial(mon::hash_str(line));
    mon::sample([&] { return line.substr(0, 300); });
}
inline void mutate(Rng & r, Bytes & b)
{
    for (auto k = 1 + r.below(3); k--;) {
        auto how = r.below(5);
        if (how == 0) b.resize(r.below(b.size() + 1));
        else if (b.empty()) continue;
        else if (how == 1) b[r.below(b.size())] = (unsigned char)r.next();
        else if (how == 2) b[r.below(b.size())] ^= (unsigned char)(1u << r.below(8));
        else if (how == 3) b[r.below(std::min<std::size_t>(b.size(), 8))] = (unsigned char)r.below(4);
        else b[r.below(b.size())] = 0xff;
    }
}

template <typename T>
constexpr bool hashed = requires { typename T::hasher; } || std::is_same_v<T, pbz::PMaps> || std::is_same_v<T, pbz::PMoreMaps>;
// Allocation limits count bytes of memory, and the size of classes of the standard
// library differs between its implementations: what hostile counts do to such types
// is logged apart ("~") and compared between builds with the same library only.
template <typename T>
constexpr bool portable_size = std::is_trivially_copyable_v<T>;
template <typename T>
    requires requires { typename T::value_type; }
constexpr bool portable_size<T> = std::is_trivially_copyable_v<typename T::value_type> && !requires { typename T::key_type; };

// Forced inlining of recursive types fails with some compilers (README).
template <typename T>
#ifdef NO_RECURSION
constexpr bool excluded = hashed<T> || std::is_same_v<T, zoo::Node> || std::is_same_v<T, zoo::ListNode> || std::is_same_v<T, zoo::Tree>;
#else
constexpr bool excluded = hashed<T>;
#endif

template <typename T, typename P, bool Hostile>
void values(std::size_t index, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i)
        if (auto tname = "type " + std::to_string(index) + " " + P::name() + "|i=" + std::to_string(i); true) one_case(tname, [&](Rng & r) {
            T v{};
            gen(r, v, G{std::size_t(i % 6 ? 6 : 260), 0});
            auto want = zoo2::encode(v, P::cfg);
            say("value");
            if (zoo2::oversized) return;
            say_bytes(want);
            // growing output of three byte types, behind other data
            auto grow = [&]<typename B>(B) {
                std::vector<B> data(r.below(4), B(0x55));
                zb::out out{data, typename P::endian{}, typename P::size{}};
                out.position() = std::min<std::size_t>(data.size(), r.below(3));
                auto res = out(v);
                say("write");
                say(int(res.code));
                say(out.position());
                say(data.size());
                say_bytes(data);
            };
            switch (i % 3) {
            case 0: grow(std::byte{}); break;
            case 1: grow(char{}); break;
            default: grow((unsigned char)0);
            }
            if (i % 2) { // fixed memory of some size
                Bytes mem(r.below(want.size() + 3), 0x77);
                std::span<unsigned char> s{mem};
                zb::out out{s, typename P::endian{}, typename P::size{}};
                auto res = out(v);
                say("fixed");
                say(int(res.code));
                say(out.position());
                if (zb::success(res)) say_bytes(mem);
            }
            auto read = [&](const Bytes & b, const char * what) {
                T w{};
                if (r.chance(1, 2)) gen(r, w, G{5, 0});
                zb::in in{b, typename P::endian{}, typename P::size{}, zb::alloc_limit<1 << 16>{}};
                zb::errc res{};
                GUARDED(res = in(w))
                say(what);
                say(int(res.code));
                say(in.position());
                if (zb::success(res)) say_bytes(zoo2::encode(w, P::cfg));
            };
            if constexpr (!(P::sizeless && ref::dynamic<T>::value)) read(want, "read");
            else if constexpr (!hashed<T>) read(want, "unsized");
            if constexpr (Hostile) {
                if (!portable_size<T>) line += "\n~" + tname;
                for (int k = 0; k < 3; ++k) {
                    auto b = want;
                    if (k == 0) b.resize(r.below(b.size() + 1));
                    else mutate(r, b);
                    read(b, "hostile");
                }
            }
            mon::count("values");
        });
}

template <typename T, typename P>
void messages(std::size_t index, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i)
        one_case(((std::is_same_v<T, pbz::PMaps> || std::is_same_v<T, pbz::PMoreMaps>) ? "~message " : "message ") + std::to_string(index) + " " + P::name() + "|i=" + std::to_string(i), [&](Rng & r) {
            T v{};
            pgen(r, v, G{std::size_t(i % 5 ? 5 : 150), 1});
            auto want = penc(v);
            say("value");
            say_bytes(want);
            std::vector<std::byte> data;
            zb::out out{data, typename P::endian{}, typename P::size{}};
            auto res = out(v);
            say("write");
            say(int(res.code));
            say(out.position());
            say_bytes(data);
            for (int k = 0; k < 4; ++k) {
                Bytes b(want);
                if (k) mutate(r, b);
                Bytes all;
                put_size(all, b.size() + (r.chance(1, 8) ? r.below(3) : 0), P::cfg);
                all.insert(all.end(), b.begin(), b.end());
                T w{};
                if (r.chance(1, 2)) pgen(r, w, G{4, 1});
                zb::in in{all, typename P::endian{}, typename P::size{}, zb::alloc_limit<1 << 16>{}};
                zb::errc rr{};
                GUARDED(rr = in(w))
                say("read");
                say(int(rr.code));
                say(in.position());
                if (zb::success(rr)) say_bytes(penc(w));
            }
            mon::count("messages");
        });
}

// The varint decoders see every kind of byte string at every distance to the end.
template <typename V, typename B>
void varints(const char * name, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i)
        one_case(std::string("varint ") + name + "|i=" + std::to_string(i), [&](Rng & r) {
            std::vector<B> b;
            auto k = r.below(12);
            bool whole = r.chance(2, 3);
            while (k--) b.push_back(B(r.next() | 0x80));
            if (whole) b.push_back(B(r.below(r.chance(1, 3) ? 2 : 128)));
            for (auto t = r.below(12); t--;) b.push_back(B(r.next()));
            zb::in in{b};
            for (int j = 0; j < 3; ++j) {
                V v{};
                auto res = in(v);
                say(int(res.code));
                say(in.position());
                if (zb::success(res)) {
                    say((long long)v.value);
                    std::vector<B> again;
                    zb::out out{again};
                    say(int(out(v).code));
                    say_bytes(again);
                } else break;
            }
            mon::count("varints");
        });
}

// functions, remote calls
struct Service
{
    std::uint32_t total = 0;
    std::uint32_t add(std::uint32_t a, std::string s)
    {
        return total += a + std::uint32_t(s.size());
    }
    std::vector<std::string> split(std::string s, zb::vuint32_t every)
    {
        std::vector<std::string> o;
        for (std::size_t i = 0; i < s.size(); i += every.value % 7 + 1) o.push_back(s.substr(i, every.value % 7 + 1));
        return o;
    }
    void clear() { total = 0; }
    zb::errc check(std::int32_t n) { return n % 3 ? zb::errc{} : zb::errc{std::errc::owner_dead}; }
    std::map<std::uint16_t, double> table(std::vector<std::uint16_t> k, double d)
    {
        std::map<std::uint16_t, double> m;
        for (auto x : k) m[x] = d * x;
        return m;
    }
};
using rpc = zb::rpc<zb::bind<&Service::add, "add"_sha256_int>, zb::bind<&Service::split, "split"_sha256_int>, zb::bind<&Service::clear, "clear"_sha256_int>, zb::bind<&Service::check, "check"_sha256_int>, zb::bind<&Service::table, "table"_sha256_int>>;
void calls(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i)
        one_case("calls|i=" + std::to_string(i), [&](Rng & r) {
            Bytes up, down;
            zb::out cout{up};
            zb::in cin{down, zb::alloc_limit<1000>{}};
            Service service;
            typename rpc::template client<decltype(cin) &, decltype(cout) &> client{cin, cout};
            std::vector<int> order;
            auto text = [&] {
                auto n = r.below(30);
                return std::string(n, char('a' + r.below(26)));
            };
            for (auto k = 1 + r.below(6); k--;) {
                int f = int(r.below(5));
                order.push_back(f);
                zb::errc c{};
                if (f == 0) {
                    auto a = std::uint32_t(r.next());
                    auto t = text();
                    c = client.template request<"add"_sha256_int>(a, t);
                }
                if (f == 1) {
                    auto t = text();
                    zb::vuint32_t every(std::uint32_t(r.next()));
                    c = client.template request<"split"_sha256_int>(t, every);
                }
                if (f == 2) c = client.template request<"clear"_sha256_int>();
                if (f == 3) c = client.template request<"check"_sha256_int>(std::int32_t(r.below(30)));
                if (f == 4) {
                    std::vector<std::uint16_t> v(r.below(5));
                    for (auto & x : v) x = std::uint16_t(r.next());
                    c = client.template request<"table"_sha256_int>(v, double(r.below(100)));
                }
                say(int(c.code));
            }
            say_bytes(up);
            if (r.chance(1, 2)) mutate(r, up);
            zb::in sin{up, zb::alloc_limit<1000>{}};
            zb::out sout{down};
            typename rpc::template server<decltype(sin) &, decltype(sout) &, Service &> server{sin, sout, service};
            std::size_t served = 0;
            GUARDED(for (std::size_t k = 0; k < order.size() + 1; ++k) {
                auto res = server.serve();
                say(int(res.code));
                say(sin.position());
                if (zb::failure(res)) break;
                ++served;
            })
            say(service.total);
            say_bytes(down);
            if (r.chance(1, 3)) mutate(r, down);
            for (std::size_t k = 0; k < std::min(served, order.size()); ++k) {
                auto log = [&](auto && res) {
                    say(res.success() ? 0 : int(res.error().code));
                    if (res.success()) {
                        Bytes b;
                        (void)zb::out{b}(res.value());
                        say_bytes(b);
                    }
                    return res.success();
                };
                bool good = true;
                GUARDED(
                    if (order[k] == 0) good = log(client.template response<"add"_sha256_int>());
                    if (order[k] == 1) good = log(client.template response<"split"_sha256_int>());
                    if (order[k] == 4) good = log(client.template response<"table"_sha256_int>());)
                say(cin.position());
                if (!good) break;
            }
            mon::count("calls");
        });
    for (std::uint64_t i = 0; i < n; ++i)
        one_case("apply|i=" + std::to_string(i), [&](Rng & r) {
            Bytes b;
            auto a0 = std::uint16_t(r.next());
            auto s0 = std::string(r.below(20), 's');
            zb::vsint64_t v0(std::int64_t(r.next()));
            (void)zb::out{b}(a0, s0, v0);
            if (r.chance(1, 2)) mutate(r, b);
            zb::in in{b, zb::alloc_limit<100>{}};
            auto res = zb::apply([&](std::uint16_t a, std::string s, zb::vsint64_t v) { return std::to_string(a) + s + std::to_string(v.value); }, in);
            say(res.success() ? 0 : int(res.error().code));
            if (res.success()) say_bytes(res.value());
            say(in.position());
        });
}

// what is computed without an archive
void constants()
{
    one_case("constants", [&](Rng &) {
        auto digest = [&](auto a) {
            Bytes b;
            (void)zb::out{b}(a);
            say_bytes(b);
        };
        digest("abc"_sha1);
        digest("abc"_sha256);
        digest(zb::sha1<"the quick brown fox jumps over the lazy dog, twice, and then once more"_s>());
        digest(zb::sha256<"the quick brown fox jumps over the lazy dog, twice, and then once more"_s>());
        digest("v1::person"_sha256_int);
        digest("0123456789abcdefABCDEF"_decode_hex);
        digest(zb::to_bytes<std::uint32_t(7), std::int64_t(-2)>());
        digest(zb::to_bytes<zb::vint32_t(-7)>());
        constexpr auto bytes = "01020304"_decode_hex;
        say(zb::from_bytes<bytes, std::uint32_t>());
        zoo::each<0, 1>(zoo::Zoo{}, [&]<typename T, std::size_t I> {
            if constexpr (requires { T::tie(std::declval<T &>()); } && !std::is_same_v<T, zoo::Explicit> && !std::is_same_v<T, zoo::ExplicitPod>) {
                constexpr auto n = std::integral_constant<int, zb::number_of_members<T>()>::value;
                say(n);
            }
        });
    });
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto n = mon::iters(60, 1500);
    auto some = [&]<typename T, std::size_t I, bool Hostile>() {
        if constexpr (!excluded<T>) { // their order belongs to the standard library
            values<T, PNative4, Hostile>(I, n);
            if constexpr (I % 2) values<T, PSwapV, Hostile>(I, n);
            else values<T, PBig2, Hostile>(I, n);
            if constexpr (I % 3 == 0) values<T, PNative0, Hostile>(I, n / 2);
            else if constexpr (I % 3 == 1) values<T, PNativeV, Hostile>(I, n / 2);
            else values<T, PBig8, Hostile>(I, n / 2);
            mon::count("types");
        }
    };
    zoo::each<PART, PARTS>(zoo::Zoo{}, [&]<typename T, std::size_t I>() { some.template operator()<T, I, (I + zoo::n_bool < zoo::Zoo::size)>(); });
    zoo::each<PART, PARTS>(zoo2::More{}, [&]<typename T, std::size_t I>() { some.template operator()<T, 1000 + I, true>(); });
    zoo::each<(PART + 3) % PARTS, PARTS>(zoo2::Messages{}, [&]<typename T, std::size_t I>() { some.template operator()<T, 2000 + I, true>(); });
    zoo::each<(PART + 5) % PARTS, PARTS>(zoo2::Wrapped{}, [&]<typename T, std::size_t I>() { some.template operator()<T, 3000 + I, true>(); });
    pbz::each<PART, PARTS>(pbz::PZoo{}, [&]<typename T, std::size_t I>() {
        messages<T, PNative4>(I, 2 * n);
        messages<T, PSwapV>(I, n);
        mon::count("message-types");
    });
    auto vn = mon::iters(1500, 60000);
    if (PART == 0) varints<zb::vuint32_t, std::byte>("vuint32", vn), varints<zb::varint<std::int16_t>, unsigned char>("vint16", vn);
    if (PART == 1 % PARTS) varints<zb::vsint64_t, unsigned char>("vsint64", vn), varints<zb::varint<std::uint8_t>, std::byte>("vuint8", vn);
    if (PART == 2 % PARTS) varints<zb::vint64_t, char>("vint64", vn), varints<zb::vint32_t, char>("vint32", vn);
    if (PART == 3 % PARTS) varints<zb::vuint64_t, std::byte>("vuint64", vn), varints<zb::vsint32_t, unsigned char>("vsint32", vn);
    if (PART == 1 % PARTS) calls(mon::iters(1500, 30000));
    if (PART == 2 % PARTS) constants();
    return mon::finish();
}
