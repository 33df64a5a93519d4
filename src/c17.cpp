// C17: RPC histories. Requests, serve calls and responses in random interleavings,
// judged by a sequential model of both byte streams and of the call log.
#include "common/heap.hpp"
#include "common/zoo.hpp"
#include <deque>
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;
using namespace zpp::bits::literals;

// ---- recording functions
struct Call
{
    int fn;
    Bytes args;
    const void * object;
    std::uint64_t nonce;
};
inline std::vector<Call> calls;
inline std::uint64_t nonce = 0;
inline std::errc errc_result{};
struct Boom
{
};
inline bool boom = false;

template <typename R>
R result(std::uint64_t h)
{
    if constexpr (std::is_void_v<R>) return;
    else if constexpr (std::is_same_v<R, std::uint64_t>) return h;
    else if constexpr (std::is_same_v<R, std::int16_t>) return std::int16_t(h);
    else if constexpr (std::is_same_v<R, std::string>) return std::string("result ") + std::to_string(h);
    else if constexpr (std::is_same_v<R, std::vector<std::uint32_t>>) return std::vector<std::uint32_t>(h % 7, std::uint32_t(h));
    else if constexpr (std::is_same_v<R, std::unique_ptr<std::uint64_t>>) return std::make_unique<std::uint64_t>(h);
    else if constexpr (std::is_same_v<R, std::optional<std::uint16_t>>) return h & 1 ? std::optional<std::uint16_t>(std::uint16_t(h >> 3)) : std::nullopt;
    else if constexpr (std::is_same_v<R, zoo::Padded>) {
        zoo::Padded p{};
        Rng r(h);
        gen(r, p, G{4, 0});
        return p;
    } else if constexpr (std::is_same_v<R, zb::errc>) return errc_result;
}
template <typename... T>
Bytes flat(const T &... a)
{
    Bytes b;
    (([&] {
        auto e = encode(a, PNative4::cfg);
        b.insert(b.end(), e.begin(), e.end());
    }()), ...);
    return b;
}
inline std::uint64_t digest(int fn, const Bytes & args, std::uint64_t nonce) { return mon::mix(mon::hash_bytes(args.data(), args.size(), nonce) + std::uint64_t(fn)); }
template <int K, typename R, typename... T>
R body(const void * object, const T &... a)
{
    auto n = nonce++;
    calls.push_back({K, flat(a...), object, n});
    if (boom) throw Boom{};
    return result<R>(digest(K, calls.back().args, n));
}
template <int K, typename R, typename... T>
R by_value(T... a) { return body<K, R>(nullptr, a...); }
template <int K, typename R, typename... T>
R by_cref(const T &... a) { return body<K, R>(nullptr, a...); }
template <int K, typename R, typename... T>
R by_rref(T &&... a) { return body<K, R>(nullptr, a...); }
template <int K, typename R, typename... T>
R quiet(T... a) noexcept { return body<K, R>(nullptr, a...); }
struct Service
{
    int tag = 0;
    template <int K, typename R, typename... T>
    R plain(T... a) { return body<K, R>(this, a...); }
    template <int K, typename R, typename... T>
    R fixed(const T &... a) const { return body<K, R>(this, a...); }
    template <int K, typename R, typename... T>
    R both(const T &... a) const noexcept { return body<K, R>(this, a...); }
};

// ---- definitions: function, identifier, its wire bytes, result and argument types
struct Expect
{
    int fn;
    Bytes wire, args;
};
template <typename X>
decltype(auto) loosen(const X & x, std::string & keep)
{
    if constexpr (std::is_same_v<X, std::string>) {
        keep = x;
        for (auto & c : keep)
            if (!c) c = '0';
        return keep.c_str();
    } else if constexpr (std::is_same_v<X, std::int32_t>) return (long long)(x);
    else if constexpr (std::is_same_v<X, std::uint32_t>) return std::uint64_t(x);
    else if constexpr (std::is_same_v<X, std::uint8_t>) return short(x);
    else if constexpr (std::is_same_v<X, std::uint64_t>) return (long long)(x);
    else if constexpr (std::is_same_v<X, double>) return double(x);
    else if constexpr (std::is_same_v<X, zoo::E16>) return x;
    else return (x); // a const reference
}

template <typename Id>
struct WireOf;
#define WIRE_ID(LITERAL, BYTES, INTEGER)                                          \
    template <>                                                                   \
    struct WireOf<zb::id<LITERAL>>                                                \
    {                                                                             \
        static Bytes bytes(bool big)                                              \
        {                                                                         \
            Bytes b(BYTES, BYTES + sizeof(BYTES) - 1);                            \
            if (INTEGER && big) std::reverse(b.begin(), b.end());                 \
            return b;                                                             \
        }                                                                         \
    };
WIRE_ID("add"_sha256_int, "\x7e\x9e\x5a\xc3", true)
WIRE_ID("text"_sha256_int, "\x98\x2d\x9e\x3e", true)
WIRE_ID("nothing"_sha256_int, "\x17\x85\xcf\xc3", true)
WIRE_ID("none"_sha256_int, "\x14\x0b\xed\xbf", true)
WIRE_ID("none_void"_sha256_int, "\x8f\x44\xa6\x46", true)
WIRE_ID("vec"_sha256_int, "\x38\xa4\xfd\xfc", true)
WIRE_ID("ptr"_sha256_int, "\x83\xdb\xef\x1f", true)
WIRE_ID("code"_sha256_int, "\x56\x94\xd0\x8a", true)
WIRE_ID("opt"_sha256_int, "\x5f\x44\x71\x2b", true)
WIRE_ID("deep"_sha256_int, "\x74\x61\x1c\x1d", true)
WIRE_ID("fn:alpha-1"_s, "fn:alpha-1", false)
WIRE_ID("fn:alpha-2"_s, "fn:alpha-2", false)
WIRE_ID("fn:bravo-1"_s, "fn:bravo-1", false)
WIRE_ID("gn:alpha-1"_s, "gn:alpha-1", false)
WIRE_ID(std::uint8_t(1), "\x01", true)
WIRE_ID(std::uint8_t(2), "\x02", true)
WIRE_ID(std::uint8_t(255), "\xff", true)
WIRE_ID(std::uint8_t(128), "\x80", true)
WIRE_ID("eight--a"_s, "eight--a", true)
WIRE_ID("eight--b"_s, "eight--b", true)
WIRE_ID("aight--b"_s, "aight--b", true)
WIRE_ID(std::uint16_t(0x0102), "\x02\x01", true)
WIRE_ID(std::uint16_t(0x0201), "\x01\x02", true)
WIRE_ID(std::uint16_t(0x0202), "\x02\x02", true)

template <auto Fn, auto Id, int K, typename R, typename... T>
struct Entry
{
    using binding = zb::bind<Fn, Id>;
    using R_ = R;
    static constexpr int k = K;
    static constexpr bool member = std::is_member_function_pointer_v<decltype(Fn)>;
    static constexpr bool responds = !std::is_void_v<R> && !std::is_same_v<R, zb::errc>;
    static Bytes id_bytes(bool big) { return WireOf<zb::id<Id>>::bytes(big); }

    // Sends one request; how: 0 exact types, 1 loose types, 2 body only
    template <typename P, typename Client>
    static Expect request(Client & client, Rng & r, int how)
    {
        std::tuple<T...> v{};
        std::apply([&](auto &... x) { (gen(r, x, G{std::size_t(r.chance(1, 10) ? 200 : 5), 0}), ...); }, v);
        std::string keep[sizeof...(T) + 1];
        std::errc c{};
        bool loose = how == 1 || (how == 2 && r.chance(1, 2));
        if (loose) {
            std::apply([&](auto &... x) {
                ([&] {
                    if constexpr (std::is_same_v<std::remove_cvref_t<decltype(x)>, std::string>)
                        for (auto & ch : x)
                            if (!ch) ch = '0';
                }(), ...);
            }, v);
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                if constexpr (sizeof...(T) == 0) {
                    if (how == 2) client.template request_body<Id>();
                    else c = client.template request<Id>().code;
                } else if (how == 2) c = client.template request_body<Id>(loosen(std::get<I>(v), keep[I])...).code;
                else c = client.template request<Id>(loosen(std::get<I>(v), keep[I])...).code;
            }(std::make_index_sequence<sizeof...(T)>{});
            mon::count("converted-requests");
        } else if (how == 2) {
            std::apply([&](auto &... x) {
                if constexpr (sizeof...(T) == 0) client.template request_body<Id>();
                else c = client.template request_body<Id>(x...).code;
            }, v);
        } else
            std::apply([&](auto &... x) { c = client.template request<Id>(x...).code; }, v);
        mon::check(c == std::errc{}, "request-fails", [&] { return std::to_string(K) + " errc " + std::to_string(int(c)); });
        Expect e{K, {}, {}};
        if (how != 2) e.wire = id_bytes(P::cfg.big);
        std::apply([&](auto &... x) {
            (([&] {
                auto w = encode(x, P::cfg);
                e.wire.insert(e.wire.end(), w.begin(), w.end());
            }()), ...);
            e.args = flat(x...);
        }, v);
        return e;
    }
    template <typename P>
    static Bytes response_bytes(std::uint64_t h)
    {
        if constexpr (responds) return encode(result<R>(h), P::cfg);
        else return {};
    }
    // Reads the response and compares it with the result of the call.
    template <typename Client>
    static void response(Client & client, std::uint64_t h)
    {
        if constexpr (responds) {
            auto res = client.template response<Id>();
            static_assert(std::is_same_v<decltype(res), zb::value_or_errc<R>>);
            if (!mon::check(zb::success(res), "response-fails", [&] { return std::to_string(K); })) return;
            auto expect = result<R>(h);
            mon::check(eq(res.value(), expect), "response-differs", [&] { return "function " + std::to_string(K); });
            mon::count("responses");
        }
    }
    template <typename Client>
    static std::errc response_code(Client & client)
    {
        if constexpr (responds) {
            auto res = client.template response<Id>();
            mon::check(zb::failure(res), "response-from-nothing");
            return zb::failure(res) ? res.error().code : std::errc{};
        } else return std::errc::result_out_of_range;
    }
    // The id as the server would get it out of band.
    static constexpr auto id_value() { return zb::id_v<Id>; }
};

template <typename... E>
struct Definition
{
    static_assert(sizeof...(E) > 0);
    using rpc = zb::rpc<typename E::binding...>;
    static constexpr std::size_t size = sizeof...(E);
    static constexpr bool member = (E::member || ...);
    template <typename F>
    static void pick(std::size_t k, F && f)
    {
        std::size_t i = 0;
        ((i++ == k ? f.template operator()<E>() : void()), ...);
    }
    static bool known(const Bytes & id, bool big) { return ((E::id_bytes(big) == id) || ...); }
    static std::size_t id_size() { return (std::get<0>(std::tuple<E...>{})).id_bytes(false).size(); }
};

template <typename D, typename P>
struct History
{
    template <typename B>
    using OutA = zb::out<B, typename P::endian, typename P::size>;
    template <typename B>
    using InA = zb::in<B, typename P::endian, typename P::size>;
    struct Pending
    {
        std::size_t entry;
        Expect e;
        bool bad = false;
    };
    struct Reply
    {
        std::size_t entry;
        std::uint64_t h;
    };

    static void judge_call(const Expect & e, std::size_t before, const void * object, bool is_member, const char * how)
    {
        auto where = [&] { return std::string(how) + " function " + std::to_string(e.fn) + " calls " + std::to_string(calls.size() - before) + " last " + (calls.empty() ? "" : std::to_string(calls.back().fn) + " " + mon::hex(calls.back().args)) + " expected " + mon::hex(e.args); };
        if (!mon::check(calls.size() == before + 1, "served-other-than-once", where)) return;
        mon::check(calls.back().fn == e.fn, "wrong-function", where);
        mon::check(calls.back().args == e.args, "arguments-differ", where);
        mon::check(calls.back().object == (is_member ? object : nullptr), "wrong-object", where);
    }

    template <typename Up, typename Down>
    static auto server_of(Up & in, Down & out, Service & s)
    {
        if constexpr (D::member) return typename D::rpc::template server<Up &, Down &, Service &>{in, out, s};
        else return typename D::rpc::template server<Up &, Down &>{in, out};
    }

    // Two channels, requests queue up while earlier ones are served.
    static void two_channels(const std::string & label, Rng & r)
    {
        std::vector<std::byte> up, down;
        OutA<decltype(up)> cout{up, {}, {}}, sout{down, {}, {}};
        InA<decltype(up)> sin{up, {}, {}}, cin{down, {}, {}};
        typename D::rpc::template client<decltype(cin) &, decltype(cout) &> client{cin, cout};
        Service service{int(r.below(1000))};
        auto server = server_of(sin, sout, service);
        std::deque<Pending> pending;
        std::deque<Reply> replies;
        Bytes up_model, down_model;
        std::size_t served_to = 0;
        calls.clear();
        auto steps = 10 + r.below(40);
        bool draining = false;
        for (unsigned step = 0; step < 400 && (step < steps || !pending.empty() || !replies.empty()); ++step) {
            draining = step >= steps;
            auto op = r.below(8);
            if (op < 3 && !draining) {
                auto k = r.below(D::size);
                if (r.chance(1, 12)) {
                    // an identifier nobody has
                    Bytes id(D::id_size());
                    do {
                        if (r.chance(1, 2)) D::pick(k, [&]<typename E> { id = E::id_bytes(P::cfg.big); });
                        id[r.below(id.size())] ^= (unsigned char)(1 << r.below(8));
                    } while (D::known(id, P::cfg.big));
                    for (auto b : id) (void)cout(std::byte(b));
                    up_model.insert(up_model.end(), id.begin(), id.end());
                    pending.push_back({k, {-1, id, {}}, true});
                    mon::count("unknown-ids");
                } else {
                    Expect e;
                    D::pick(k, [&]<typename E> { e = E::template request<P>(client, r, int(r.below(2))); });
                    up_model.insert(up_model.end(), e.wire.begin(), e.wire.end());
                    pending.push_back({k, e});
                    mon::count("requests");
                    mon::max_of("pending", pending.size());
                }
                mon::check(up.size() == up_model.size() && same_bytes(up.data(), up_model.data(), up.size()), "request-bytes", [&] { return "entry " + std::to_string(k) + " expected " + mon::hex(pending.back().e.wire) + " stream " + mon::hex(up); });
            } else if (op < 6) {
                if (pending.empty()) continue;
                auto p = pending.front();
                pending.pop_front();
                auto before = calls.size();
                errc_result = r.chance(1, 2) ? std::errc{} : std::errc::operation_canceled;
                boom = !p.bad && r.chance(1, 25);
                bool is_member = false, responds = false, is_errc = false, is_noexcept = false;
                D::pick(p.entry, [&]<typename E> {
                    is_member = E::member;
                    responds = E::responds;
                    is_errc = std::is_same_v<typename E::R_, zb::errc>;
                    is_noexcept = E::k % 10 == 9; // by convention below
                });
                if (is_noexcept) boom = false;
                std::errc c{};
                bool threw = false;
                try {
                    c = server.serve().code;
                } catch (const Boom &) {
                    threw = true;
                }
                served_to += p.e.wire.size();
                auto where = [&] { return "errc " + std::to_string(int(c)) + " position " + std::to_string(sin.position()) + " of " + std::to_string(served_to); };
                mon::check(sin.position() == served_to, "served-position", where);
                if (p.bad) {
                    mon::check(c == std::errc::not_supported, "unknown-id-result", where);
                    mon::check(calls.size() == before, "unknown-id-called", where);
                } else {
                    judge_call(p.e, before, &service, is_member, "serve");
                    mon::check(threw == boom, "exception-lost", where);
                    if (!boom) mon::check(c == (is_errc ? errc_result : std::errc{}), "serve-result", where);
                    if (!boom && responds && calls.size() == before + 1) {
                        auto h = digest(p.e.fn, p.e.args, calls.back().nonce);
                        D::pick(p.entry, [&]<typename E> {
                            auto b = E::template response_bytes<P>(h);
                            down_model.insert(down_model.end(), b.begin(), b.end());
                        });
                        replies.push_back({p.entry, h});
                    }
                    mon::count(boom ? "throwing-calls" : "served");
                }
                boom = false;
                mon::check(down.size() == down_model.size() && same_bytes(down.data(), down_model.data(), down.size()), "response-bytes", [&] { return "expected " + mon::hex(down_model) + " got " + mon::hex(down); });
            } else {
                if (replies.empty()) continue;
                auto x = replies.front();
                replies.pop_front();
                D::pick(x.entry, [&]<typename E> { E::response(client, x.h); });
            }
        }
        mon::check(pending.empty() && replies.empty() && sin.position() == up.size() && cin.position() == down.size(), "history-not-drained", [&] { return std::to_string(pending.size()) + " " + std::to_string(replies.size()); });
        mon::nontrivial(mon::hash_bytes(up_model.data(), up_model.size(), down_model.size()));
        mon::count("histories");
        // Nothing is left: one more serve calls nothing.
        auto before = calls.size();
        auto c = server.serve().code;
        mon::check(c == std::errc::result_out_of_range && calls.size() == before, "served-from-nothing");
        mon::sample([&] { return mon::hex(up_model, 60); });
    }

    // One archive pair for both directions, as in the documentation.
    static void one_channel(Rng & r)
    {
        auto [data, in, out] = zb::data_in_out(typename P::endian{}, typename P::size{});
        Service service;
        auto run = [&](auto & client, auto & server) {
            Bytes model;
            for (unsigned step = 0; step < 12; ++step) {
                auto k = r.below(D::size);
                calls.clear();
                errc_result = {};
                D::pick(k, [&]<typename E> {
                    auto e = E::template request<P>(client, r, int(r.below(2)));
                    model.insert(model.end(), e.wire.begin(), e.wire.end());
                    auto c = server.serve().code;
                    mon::check(c == std::errc{}, "one-channel-serve");
                    judge_call(e, 0, &service, E::member, "one channel");
                    if (calls.size() != 1) return;
                    auto h = digest(e.fn, e.args, calls.back().nonce);
                    auto b = E::template response_bytes<P>(h);
                    model.insert(model.end(), b.begin(), b.end());
                    E::response(client, h);
                });
                mon::check(data.size() == model.size() && same_bytes(data.data(), model.data(), model.size()), "one-channel-bytes", [&] { return mon::hex(model) + " got " + mon::hex(data); });
                mon::check(in.position() == data.size(), "one-channel-position");
                mon::count("one-channel-calls");
            }
        };
        if (r.chance(1, 2)) {
            if constexpr (D::member) {
                auto [client, server] = D::rpc::client_server(in, out, service);
                run(client, server);
            } else {
                auto [client, server] = D::rpc::client_server(in, out);
                run(client, server);
            }
        } else {
            typename D::rpc::client client{in, out};
            if constexpr (D::member) {
                typename D::rpc::server server{in, out, service};
                run(client, server);
            } else {
                typename D::rpc::server server{in, out};
                run(client, server);
            }
        }
    }

    // Identifiers passed out of band; truncated requests; too little room for the response.
    static void single(Rng & r)
    {
        for (std::size_t k = 0; k < D::size; ++k)
            D::pick(k, [&]<typename E> {
                Service service;
                errc_result = {};
                boom = false;
                std::vector<unsigned char> down0;
                InA<std::vector<unsigned char>> cin0{down0, {}, {}};
                for (int how : {0, 2}) {
                    std::vector<unsigned char> up;
                    OutA<std::vector<unsigned char>> cout{up, {}, {}};
                    typename D::rpc::template client<decltype(cin0) &, decltype(cout) &> client{cin0, cout};
                    auto e = E::template request<P>(client, r, how);
                    mon::check(up.size() == e.wire.size() && same_bytes(up.data(), e.wire.data(), up.size()), how ? "body-bytes" : "request-bytes", [&] { return mon::hex(e.wire) + " got " + mon::hex(up); });
                    auto serve = [&](auto & server) {
                        if (how == 2) return server.serve(E::id_value()).code;
                        return server.serve().code;
                    };
                    // every cut, then the whole with other data behind
                    for (std::size_t cut = 0; cut < e.wire.size(); ++cut) {
                        if (e.wire.size() > 50 && !r.chance(50, unsigned(e.wire.size()))) continue;
                        auto block = heap::Exact<const std::byte>::copy(e.wire, cut);
                        auto sp = block.span();
                        InA<std::span<const std::byte>> sin{sp, {}, {}};
                        std::vector<std::byte> down;
                        OutA<std::vector<std::byte>> sout{down, {}, {}};
                        auto server = server_of(sin, sout, service);
                        calls.clear();
                        auto c = serve(server);
                        auto where = [&] { return "cut " + std::to_string(cut) + " of " + mon::hex(e.wire) + " errc " + std::to_string(int(c)); };
                        mon::check(c == std::errc::result_out_of_range, "truncated-result", where);
                        mon::check(calls.empty(), "truncated-request-called", where);
                        mon::check(down.empty(), "truncated-request-answered", where);
                        mon::check(sin.position() <= cut, "position-beyond-input", where);
                        mon::count("truncated-requests");
                    }
                    Bytes b(r.below(4), 9);
                    auto start = b.size();
                    b.insert(b.end(), e.wire.begin(), e.wire.end());
                    for (auto n = r.below(6); n--;) b.push_back((unsigned char)r.next());
                    auto block = heap::Exact<const std::byte>::copy(b, b.size());
                    auto sp = block.span();
                    std::size_t need = ~std::size_t(0);
                    for (std::size_t room = 0; room <= need && room < 64; ++room) {
                        InA<std::span<const std::byte>> sin{sp, {}, {}};
                        sin.reset(start);
                        heap::Exact<std::byte> small(room);
                        auto ssp = small.span();
                        OutA<std::span<std::byte>> sout{ssp, {}, {}};
                        auto server = server_of(sin, sout, service);
                        calls.clear();
                        auto c = serve(server);
                        judge_call(e, 0, &service, E::member, how ? "out of band" : "single");
                        if (calls.size() != 1) break;
                        auto h = digest(e.fn, e.args, calls.back().nonce);
                        auto want = E::template response_bytes<P>(h);
                        need = want.size();
                        auto where = [&] { return "room " + std::to_string(room) + " response " + mon::hex(want) + " errc " + std::to_string(int(c)); };
                        mon::check(sin.position() == start + e.wire.size(), how ? "out-of-band-position" : "single-position", where);
                        mon::check((c == std::errc{}) == (room >= need), "response-room", where);
                        if (room < need) mon::check(c == std::errc::result_out_of_range, "response-room-code", where);
                        else mon::check(sout.position() == need && same_bytes(small.data(), want.data(), need), "response-bytes", where);
                        mon::count(room < need ? "responses-without-room" : "single-calls");
                        if (room < need) continue;
                        // the response cut at every byte
                        for (std::size_t cut = 0; cut < need; ++cut) {
                            auto rb = heap::Exact<const std::byte>::copy(want, cut);
                            auto rsp = rb.span();
                            InA<std::span<const std::byte>> cin{rsp, {}, {}};
                            typename D::rpc::template client<decltype(cin) &, decltype(cout) &> c2{cin, cout};
                            auto rc = E::response_code(c2);
                            mon::check(rc == std::errc::result_out_of_range, "truncated-response", where);
                            mon::count("truncated-responses");
                        }
                    }
                }
                // mutated requests: at most one call, of a function of the definition, and the
                // result agrees with it
                for (int m = 0; m < 12; ++m) {
                    if (P::cfg.size != SizeKind::s1 && P::cfg.size != SizeKind::s2) break;
                    std::vector<unsigned char> up;
                    OutA<std::vector<unsigned char>> cout{up, {}, {}};
                    typename D::rpc::template client<decltype(cin0) &, decltype(cout) &> client{cin0, cout};
                    auto e = E::template request<P>(client, r, 0);
                    Bytes b = e.wire;
                    for (auto n = 1 + r.below(3); n--;) b[r.below(b.size())] = (unsigned char)r.next();
                    if (r.chance(1, 3)) b.resize(r.below(b.size() + 1));
                    auto block = heap::Exact<const std::byte>::copy(b, b.size());
                    auto sp = block.span();
                    InA<std::span<const std::byte>> sin{sp, {}, {}};
                    std::vector<std::byte> down;
                    OutA<std::vector<std::byte>> sout{down, {}, {}};
                    auto server = server_of(sin, sout, service);
                    calls.clear();
                    auto c = server.serve().code;
                    auto where = [&] { return mon::hex(b) + " errc " + std::to_string(int(c)) + " calls " + std::to_string(calls.size()); };
                    mon::check(calls.size() == (c == std::errc{} ? 1u : 0u), "mutated-calls-and-result-disagree", where);
                    Bytes id(b.begin(), b.begin() + long(std::min(b.size(), D::id_size())));
                    if (calls.size() == 1) {
                        bool right = false;
                        for (std::size_t j = 0; j < D::size; ++j) D::pick(j, [&]<typename F> { right = right || (F::k == calls[0].fn && F::id_bytes(P::cfg.big) == id); });
                        mon::check(right, "mutated-wrong-function", where);
                    } else if (id.size() == D::id_size() && !D::known(id, P::cfg.big)) mon::check(c == std::errc::not_supported, "mutated-unknown-id", where);
                    mon::check(sin.position() <= b.size(), "position-beyond-input", where);
                    mon::count("mutated-requests");
                }
            });
    }
};

template <typename D, typename P>
void histories(const char * name, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto base = std::string(name) + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (mon::begin("two|" + base)) {
            auto r = mon::rng("two|" + base);
            History<D, P>::two_channels(base, r);
        }
        if (mon::begin("one|" + base)) {
            auto r = mon::rng("one|" + base);
            History<D, P>::one_channel(r);
        }
        if (i % 4 == 0 && mon::begin("single|" + base)) {
            auto r = mon::rng("single|" + base);
            History<D, P>::single(r);
        }
    }
}

using S = std::string;
using Vec = std::vector<S>;
using Free = Definition<
    Entry<by_value<0, std::uint64_t, std::int32_t, std::int32_t>, "add"_sha256_int, 0, std::uint64_t, std::int32_t, std::int32_t>,
    Entry<by_cref<1, S, S, std::uint32_t>, "text"_sha256_int, 1, S, S, std::uint32_t>,
    Entry<by_value<2, void, std::uint8_t>, "nothing"_sha256_int, 2, void, std::uint8_t>,
    Entry<by_value<3, std::uint64_t>, "none"_sha256_int, 3, std::uint64_t>,
    Entry<by_value<4, void>, "none_void"_sha256_int, 4, void>,
    Entry<quiet<9, std::vector<std::uint32_t>, Vec>, "vec"_sha256_int, 9, std::vector<std::uint32_t>, Vec>,
    Entry<by_rref<6, std::unique_ptr<std::uint64_t>, std::vector<std::uint8_t>, S>, "ptr"_sha256_int, 6, std::unique_ptr<std::uint64_t>, std::vector<std::uint8_t>, S>,
    Entry<by_value<7, zb::errc, S>, "code"_sha256_int, 7, zb::errc, S>,
    Entry<by_value<8, zoo::Padded, std::optional<S>, zoo::E16>, "opt"_sha256_int, 8, zoo::Padded, std::optional<S>, zoo::E16>>;
using Strings = Definition<
    Entry<by_value<0, std::uint64_t, S>, "fn:alpha-1"_s, 0, std::uint64_t, S>,
    Entry<by_value<1, S, std::int32_t, S>, "fn:alpha-2"_s, 1, S, std::int32_t, S>,
    Entry<by_value<2, std::optional<std::uint16_t>>, "fn:bravo-1"_s, 2, std::optional<std::uint16_t>>,
    Entry<quiet<9, void, std::vector<std::uint32_t>>, "gn:alpha-1"_s, 9, void, std::vector<std::uint32_t>>>;
using OneByte = Definition<
    Entry<by_cref<0, S, zoo::Person>, std::uint8_t(1), 0, S, zoo::Person>,
    Entry<by_value<1, std::int16_t, std::map<std::uint8_t, S>, std::uint8_t>, std::uint8_t(2), 1, std::int16_t, std::map<std::uint8_t, S>, std::uint8_t>,
    Entry<by_value<2, void, double, S>, std::uint8_t(255), 2, void, double, S>,
    Entry<by_value<3, zb::errc>, std::uint8_t(128), 3, zb::errc>>;
using Members = Definition<
    Entry<&Service::plain<0, std::uint64_t, S>, "eight--a"_s, 0, std::uint64_t, S>,
    Entry<&Service::fixed<1, S, std::uint32_t, S>, "eight--b"_s, 1, S, std::uint32_t, S>,
    Entry<by_value<2, std::vector<std::uint32_t>, Vec>, "aight--b"_s, 2, std::vector<std::uint32_t>, Vec>>;
using Mixed = Definition<
    Entry<&Service::both<9, std::uint64_t, std::uint64_t>, std::uint16_t(0x0102), 9, std::uint64_t, std::uint64_t>,
    Entry<&Service::plain<1, void, S, std::uint8_t>, std::uint16_t(0x0201), 1, void, S, std::uint8_t>,
    Entry<&Service::fixed<2, S>, std::uint16_t(0x0202), 2, S>>;
using Single = Definition<Entry<by_value<0, S, S>, "deep"_sha256_int, 0, S, S>>;

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto n = mon::iters(150, 4000);
#if PART == 0
    histories<Free, PNative4>("free", n);
#elif PART == 1
    histories<Free, PBig2>("free", n);
#elif PART == 2
    histories<Free, PNativeV>("free", n);
#elif PART == 3
    histories<Strings, PLittle1>("strings", n);
    histories<Strings, PBig4>("strings", n);
#elif PART == 4
    histories<OneByte, PBig2>("one byte", n);
    histories<OneByte, PNative8>("one byte", n);
#elif PART == 5
    histories<Members, PNative4>("members", n);
    histories<Members, PBig2>("members", n);
#elif PART == 6
    histories<Mixed, PNative4>("mixed", n);
    histories<Mixed, PBig8>("mixed", n);
    histories<Single, PSwapV>("single", n);
#elif PART == 7
    histories<Single, PLittle1>("single", n);
    histories<Mixed, PSwapV>("mixed", n);
    histories<Strings, PBig2>("strings", n);
#endif
    return mon::finish();
}
