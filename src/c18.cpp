// C18: opaque RPC. Opaque functions of every documented signature, driven by control
// variables (how much to consume, what to return), in histories with other requests.
#include "common/heap.hpp"
#include "common/zoo.hpp"
#include <deque>
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;
using namespace zpp::bits::literals;

struct Boom
{
};
// What the next opaque call shall do, and what it saw.
struct Control
{
    std::size_t consume = 0;
    bool last = false; // leave the tail of the view instead of its head
    std::errc error{};
    bool boom = false;
    std::uint32_t write = 0; // written through the output archive by functions that have it
} control;
struct Seen
{
    int fn;
    const void *in, *out, *object;
    const std::byte * data;
    std::size_t size, position;
};
inline std::vector<Seen> seen;
inline std::uint32_t nonce = 0;

template <typename R>
R result(std::uint32_t n)
{
    if constexpr (std::is_void_v<R>) return;
    else if constexpr (std::is_same_v<R, std::uint32_t>) return n * 2654435761u;
    else if constexpr (std::is_same_v<R, std::string>) return "opaque " + std::to_string(n);
    else if constexpr (std::is_same_v<R, zb::errc>) return control.error;
    else if constexpr (std::is_same_v<R, zb::value_or_errc<std::string>>) {
        if (control.error != std::errc{}) return zb::value_or_errc<std::string>{zb::errc{control.error}};
        return zb::value_or_errc<std::string>{"opaque " + std::to_string(n)};
    }
}
template <typename R>
constexpr bool returns_code = std::is_same_v<R, zb::errc> || std::is_same_v<R, zb::value_or_errc<std::string>>;

template <typename P>
struct Types
{
    using In = zb::in<std::vector<std::byte>, typename P::endian, typename P::size>;
    using Out = zb::out<std::vector<std::byte>, typename P::endian, typename P::size>;
};
using View = std::span<const std::byte>;

template <typename In>
void take(In & in)
{
    // consume by reading, or by moving the position
    if (control.last) in.position() += control.consume;
    else
        for (std::size_t i = 0; i < control.consume; ++i) {
            std::byte b;
            (void)in(b);
        }
}
template <int K, typename R>
R finish()
{
    if (control.boom) throw Boom{};
    return result<R>(nonce++);
}
template <int K, typename R, typename In, typename Out>
R do_in_out(In & in, Out & out, const void * self)
{
    seen.push_back({K, &in, &out, self, in.data().data(), in.data().size(), in.position()});
    take(in);
    (void)out(control.write);
    return finish<K, R>();
}
template <int K, typename R, typename In>
R do_in(In & in, const void * self)
{
    seen.push_back({K, &in, nullptr, self, in.data().data(), in.data().size(), in.position()});
    take(in);
    return finish<K, R>();
}
template <int K, typename R, typename Out>
R do_out(Out & out, const void * self)
{
    seen.push_back({K, nullptr, &out, self, nullptr, 0, 0});
    (void)out(control.write);
    return finish<K, R>();
}
template <int K, typename R>
R do_view(View v, const void * self)
{
    seen.push_back({K, nullptr, nullptr, self, v.data(), v.size(), 0});
    v = {}; // the caller's view must not be affected
    return finish<K, R>();
}
template <int K, typename R>
R do_view_ref(View & v, const void * self)
{
    seen.push_back({K, nullptr, nullptr, self, v.data(), v.size(), 0});
    v = control.last ? v.last(control.consume) : v.first(control.consume);
    return finish<K, R>();
}
template <int K, typename R>
R do_none(const void * self)
{
    seen.push_back({K, nullptr, nullptr, self, nullptr, 0, 0});
    return finish<K, R>();
}
template <int K, typename R, typename P>
R f_in_out(typename Types<P>::In & in, typename Types<P>::Out & out) { return do_in_out<K, R>(in, out, nullptr); }
template <int K, typename R, typename P>
R f_in(typename Types<P>::In & in) { return do_in<K, R>(in, nullptr); }
template <int K, typename R, typename P>
R f_out(typename Types<P>::Out & out) { return do_out<K, R>(out, nullptr); }
template <int K, typename R, typename P>
R f_view(View v) { return do_view<K, R>(v, nullptr); }
template <int K, typename R, typename P>
R f_view_ref(View & v) { return do_view_ref<K, R>(v, nullptr); }
template <int K, typename R, typename P>
R f_none() { return do_none<K, R>(nullptr); }
struct Service
{
    int pad = 0;
    template <int K, typename R, typename P>
    R m_in_out(typename Types<P>::In & in, typename Types<P>::Out & out) { return do_in_out<K, R>(in, out, this); }
    template <int K, typename R, typename P>
    R m_in(typename Types<P>::In & in) const { return do_in<K, R>(in, this); }
    template <int K, typename R, typename P>
    R m_out(typename Types<P>::Out & out) { return do_out<K, R>(out, this); }
    template <int K, typename R, typename P>
    R m_view(View v) const { return do_view<K, R>(v, this); }
    template <int K, typename R, typename P>
    R m_view_ref(View & v) { return do_view_ref<K, R>(v, this); }
    template <int K, typename R, typename P>
    R m_none() { return do_none<K, R>(this); }
};
// ordinary functions in between
inline std::vector<std::pair<std::string, std::uint16_t>> ordinary;
inline std::uint64_t plain(std::string s, std::uint16_t n)
{
    ordinary.emplace_back(s, n);
    return mon::hash_str(s) + n;
}

enum class Shape { in_out, in, out, view, view_ref, none, plain };
template <auto Fn, std::uint16_t Id, int K, Shape Sh, typename R_>
struct Entry
{
    using R = R_;
    using binding = std::conditional_t<Sh == Shape::plain, zb::bind<Fn, Id>, zb::bind_opaque<Fn, Id>>;
    static constexpr int k = K;
    static constexpr auto id = Id;
    static constexpr Shape shape = Sh;
    static constexpr bool member = std::is_member_function_pointer_v<decltype(Fn)>;
};
template <typename... E>
struct Definition
{
    using rpc = zb::rpc<typename E::binding...>;
    static constexpr std::size_t size = sizeof...(E);
    static constexpr bool member = (E::member || ...);
    template <typename F>
    static void pick(std::size_t k, F && f)
    {
        std::size_t i = 0;
        ((i++ == k ? f.template operator()<E>() : void()), ...);
    }
};

template <typename D, typename P>
void history(const char * name, std::uint64_t n)
{
    using In = typename Types<P>::In;
    using Out = typename Types<P>::Out;
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = std::string("opaque|") + name + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        std::vector<std::byte> up, down;
        Out cout{up, {}, {}}, sout{down, {}, {}};
        In sin{up, {}, {}}, cin{down, {}, {}};
        typename D::rpc::template client<In &, Out &> client{cin, cout};
        Service service;
        auto make_server = [&] {
            if constexpr (D::member) return typename D::rpc::template server<In &, Out &, Service &>{sin, sout, service};
            else return typename D::rpc::template server<In &, Out &>{sin, sout};
        };
        auto server = make_server();
        struct Pending
        {
            std::size_t entry;
            std::size_t payload;
            bool out_of_band;
            std::string s;
            std::uint16_t n;
        };
        std::deque<Pending> pending;
        Bytes up_model, down_model;
        std::size_t at = 0; // where the server must be
        seen.clear();
        ordinary.clear();
        for (unsigned step = 0; step < 60; ++step) {
            if (r.chance(1, 2) || pending.empty()) {
                if (step > 45) {
                    if (pending.empty()) break;
                } else {
                    auto k = r.below(D::size);
                    D::pick(k, [&]<typename E> {
                        Pending p{k, 0, r.chance(1, 5), {}, 0};
                        if (!p.out_of_band) {
                            auto id = encode(E::id, P::cfg);
                            up_model.insert(up_model.end(), id.begin(), id.end());
                        }
                        if constexpr (E::shape == Shape::plain) {
                            gen(r, p.s, G{8, 0});
                            p.n = std::uint16_t(r.next());
                            auto c = p.out_of_band ? client.template request_body<E::id>(p.s, p.n) : client.template request<E::id>(p.s, p.n);
                            mon::check(zb::success(c), "request");
                            for (auto & b : encode(p.s, P::cfg)) up_model.push_back(b);
                            for (auto & b : encode(p.n, P::cfg)) up_model.push_back(b);
                        } else if constexpr (E::shape == Shape::none) {
                            if (p.out_of_band) client.template request_body<E::id>();
                            else mon::check(zb::success(client.template request<E::id>()), "request");
                        } else {
                            // any payload: the client of an opaque function sends what it likes
                            std::vector<std::uint8_t> raw(r.below(20));
                            for (auto & b : raw) b = std::uint8_t(r.next());
                            auto word = std::uint32_t(r.next());
                            auto body = zb::unsized(raw);
                            auto c = p.out_of_band ? client.template request_body<E::id>(word, body) : client.template request<E::id>(word, body);
                            mon::check(zb::success(c), "request");
                            for (auto & b : encode(word, P::cfg)) up_model.push_back(b);
                            up_model.insert(up_model.end(), raw.begin(), raw.end());
                            p.payload = 4 + raw.size();
                        }
                        pending.push_back(p);
                    });
                    mon::check(up.size() == up_model.size() && same_bytes(up.data(), up_model.data(), up.size()), "request-bytes", [&] { return mon::hex(up_model) + " got " + mon::hex(up); });
                    mon::count("requests");
                    continue;
                }
            }
            auto p = pending.front();
            pending.pop_front();
            D::pick(p.entry, [&]<typename E> {
                using R = typename E::R;
                auto id_size = p.out_of_band ? 0u : 2u;
                auto begin = at + id_size;
                auto rest = up.size() - begin;
                // consume the payload, or (a careless function) some other amount
                control = {};
                control.consume = p.payload;
                bool stray = r.chance(1, 10);
                if (stray) control.consume = r.below(rest + 1);
                control.last = r.chance(1, 2);
                control.error = r.chance(1, 3) ? std::errc::no_message : std::errc{};
                control.boom = r.chance(1, 12) && E::shape != Shape::plain;
                control.write = std::uint32_t(r.next());
                auto n_seen = seen.size(), n_ordinary = ordinary.size();
                auto this_nonce = nonce;
                std::errc c{};
                bool threw = false;
                try {
                    c = p.out_of_band ? server.serve(zb::id_v<E::id>).code : server.serve().code;
                } catch (const Boom &) {
                    threw = true;
                }
                auto where = [&] { return "function " + std::to_string(E::k) + (p.out_of_band ? " out of band" : "") + " begin " + std::to_string(begin) + " consume " + std::to_string(control.consume) + " rest " + std::to_string(rest) + " position " + std::to_string(sin.position()) + " errc " + std::to_string(int(c)) + " threw " + std::to_string(threw); };
                if constexpr (E::shape == Shape::plain) {
                    if (p.out_of_band || true) {
                        mon::check(c == std::errc{} && ordinary.size() == n_ordinary + 1 && ordinary.back() == std::pair{p.s, p.n}, "following-request", where);
                        mon::check(seen.size() == n_seen, "opaque-called-instead", where);
                        for (auto & b : encode(std::uint64_t(mon::hash_str(p.s) + p.n), P::cfg)) down_model.push_back(b);
                        at = begin + encode(p.s, P::cfg).size() + 2;
                    }
                    mon::count("ordinary-calls");
                } else {
                    mon::check(ordinary.size() == n_ordinary, "ordinary-called-instead", where);
                    if (!mon::check(seen.size() == n_seen + 1, "called-other-than-once", where)) return;
                    auto & s = seen.back();
                    mon::check(s.fn == E::k, "wrong-function", where);
                    mon::check(s.object == (E::member ? &service : nullptr), "wrong-object", where);
                    constexpr auto sh = E::shape;
                    if (sh == Shape::in || sh == Shape::in_out) mon::check(s.in == &sin && s.position == begin && s.data == up.data() && s.size == up.size(), "input-archive", where);
                    if (sh == Shape::out || sh == Shape::in_out) mon::check(s.out == &sout, "output-archive", where);
                    if (sh == Shape::view || sh == Shape::view_ref) mon::check(s.data == up.data() + begin && s.size == rest, "view-of-remaining-input", where);
                    at = begin + (sh == Shape::in || sh == Shape::in_out || sh == Shape::view_ref ? control.consume : sh == Shape::view ? rest : 0);
                    if (sh == Shape::out || sh == Shape::in_out)
                        for (auto & b : encode(control.write, P::cfg)) down_model.push_back(b);
                    mon::check(threw == control.boom, "exception-lost", where);
                    if (!threw) {
                        auto expect = returns_code<R> ? control.error : std::errc{};
                        mon::check(c == expect, "result-code", where);
                        if constexpr (std::is_same_v<R, std::uint32_t> || std::is_same_v<R, std::string>) {
                            for (auto & b : encode(result<R>(this_nonce), P::cfg)) down_model.push_back(b);
                            mon::count("results");
                        } else if constexpr (std::is_same_v<R, zb::value_or_errc<std::string>>) {
                            if (control.error == std::errc{}) {
                                for (auto & b : encode(result<std::string>(this_nonce), P::cfg)) down_model.push_back(b);
                                mon::count("results");
                            } else mon::count("errors");
                        } else if (control.error != std::errc{} && returns_code<R>) mon::count("errors");
                    }
                    mon::count("opaque-calls");
                    if (threw) mon::count("throwing-calls");
                    mon::nontrivial(mon::hash_bytes(up.data() + begin, std::min<std::size_t>(rest, 32), control.consume * 64 + E::k));
                }
                mon::check(sin.position() == at, "consumed-other-than-the-function-took", where);
                mon::check(down.size() == down_model.size() && same_bytes(down.data(), down_model.data(), down.size()), "written-response", [&] { return where() + " expected " + mon::hex(down_model) + " got " + mon::hex(down); });
                if (stray || E::shape == Shape::view || control.boom || (p.payload && at != begin + p.payload)) {
                    // the stream is not in step with the requests any more: continue from the end
                    pending.clear();
                    sin.reset(up.size());
                    at = up.size();
                    mon::count("resynchronised");
                }
            });
        }
        mon::count("histories");
        mon::sample([&] { return mon::hex(up_model, 60); });
    }
}

template <typename P, typename R, typename Q>
using Frees = Definition<
    Entry<f_in_out<0, void, P>, 10, 0, Shape::in_out, void>,
    Entry<f_in<1, R, P>, 11, 1, Shape::in, R>,
    Entry<f_out<2, Q, P>, 12, 2, Shape::out, Q>,
    Entry<f_view_ref<3, R, P>, 13, 3, Shape::view_ref, R>,
    Entry<f_view<4, Q, P>, 14, 4, Shape::view, Q>,
    Entry<f_none<5, R, P>, 15, 5, Shape::none, R>,
    Entry<f_in_out<6, Q, P>, 16, 6, Shape::in_out, Q>,
    Entry<f_view_ref<7, Q, P>, 17, 7, Shape::view_ref, Q>,
    Entry<plain, 18, 8, Shape::plain, std::uint64_t>,
    Entry<f_in<9, Q, P>, 19, 9, Shape::in, Q>,
    Entry<f_none<10, Q, P>, 20, 10, Shape::none, Q>,
    Entry<f_view<11, R, P>, 21, 11, Shape::view, R>>;
template <typename P, typename R, typename Q>
using Members = Definition<
    Entry<&Service::m_in_out<0, R, P>, 10, 0, Shape::in_out, R>,
    Entry<&Service::m_in<1, Q, P>, 11, 1, Shape::in, Q>,
    Entry<&Service::m_out<2, R, P>, 12, 2, Shape::out, R>,
    Entry<&Service::m_view_ref<3, Q, P>, 13, 3, Shape::view_ref, Q>,
    Entry<&Service::m_view<4, R, P>, 14, 4, Shape::view, R>,
    Entry<&Service::m_none<5, Q, P>, 15, 5, Shape::none, Q>,
    Entry<plain, 18, 8, Shape::plain, std::uint64_t>,
    Entry<f_view_ref<7, R, P>, 17, 7, Shape::view_ref, R>,
    Entry<&Service::m_view_ref<9, R, P>, 19, 9, Shape::view_ref, R>>;

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto n = mon::iters(1200, 40000);
    using S = std::string;
    using U = std::uint32_t;
    using V = zb::value_or_errc<S>;
#if PART == 0
    history<Frees<PNative4, U, S>, PNative4>("u32/string", n);
    history<Frees<PBig2, zb::errc, void>, PBig2>("errc/void", n);
#elif PART == 1
    history<Frees<PNativeV, S, zb::errc>, PNativeV>("string/errc", n);
    history<Frees<PBig4, void, V>, PBig4>("void/value_or_errc", n);
#elif PART == 2
    history<Members<PNative4, U, S>, PNative4>("members u32/string", n);
    history<Members<PBig2, zb::errc, void>, PBig2>("members errc/void", n);
#elif PART == 3
    history<Members<PLittle1, V, U>, PLittle1>("members value_or_errc/u32", n);
    history<Members<PSwapV, void, zb::errc>, PSwapV>("members void/errc", n);
#endif
    return mon::finish();
}
