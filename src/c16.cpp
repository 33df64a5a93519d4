// C16: apply. Callees record every call; inputs are complete, cut at every byte,
// mutated and followed by other data.
#include "common/heap.hpp"
#include "common/zoo.hpp"
#include <functional>
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

// ---- recording callees
inline int calls = 0;
inline std::vector<Bytes> recorded; // encodings of the arguments of every call
template <typename... T>
std::uint64_t record(const T &... args)
{
    ++calls;
    Bytes b;
    (([&] {
        auto e = encode(args, PNative4::cfg);
        b.insert(b.end(), e.begin(), e.end());
    }()), ...);
    recorded.push_back(b);
    return mon::hash_bytes(b.data(), b.size());
}
inline std::uint64_t digest(const Bytes & b) { return mon::hash_bytes(b.data(), b.size()); }

struct Boom
{
};
inline bool boom = false;
inline std::errc errc_result{};
template <typename R>
R result(std::uint64_t h)
{
    if (boom) throw Boom{};
    if constexpr (std::is_void_v<R>) return;
    else if constexpr (std::is_same_v<R, std::uint64_t>) return h;
    else if constexpr (std::is_same_v<R, std::string>) return "result " + std::to_string(h);
    else if constexpr (std::is_same_v<R, std::vector<std::uint32_t>>) return {std::uint32_t(h), std::uint32_t(h >> 32)};
    else if constexpr (std::is_same_v<R, std::unique_ptr<std::uint64_t>>) return std::make_unique<std::uint64_t>(h);
    else if constexpr (std::is_same_v<R, zb::errc>) return errc_result;
    else if constexpr (std::is_same_v<R, bool>) return h & 1;
}
template <typename R, typename... T>
R by_value(T... a) { return result<R>(record(a...)); }
template <typename R, typename... T>
R by_cref(const T &... a) { return result<R>(record(a...)); }
template <typename R, typename... T>
R by_rref(T &&... a) { return result<R>(record(a...)); }
template <typename R, typename... T>
R not_throwing(T... a) noexcept { return result<R>(record(a...)); }

template <typename R, typename... T>
struct Obj
{
    mutable int mine = 0;
    R plain(T... a) { ++mine; return result<R>(record(a...)); }
    R constant(T... a) const { ++mine; return result<R>(record(a...)); }
    R nothrow(const T &... a) noexcept { ++mine; return result<R>(record(a...)); }
    R both(const T &... a) const noexcept { ++mine; return result<R>(record(a...)); }
};
template <typename R, typename... T>
struct Functor
{
    int * n;
    int own = 0; // the very object is invoked, not a copy of it
    R operator()(T... a) { ++*n, ++own; return result<R>(record(a...)); }
};
template <typename R, typename... T>
struct ConstFunctor
{
    mutable int own = 0;
    R operator()(const T &... a) const noexcept { ++own; return result<R>(record(a...)); }
};

// Runs one kind of application on one input and judges it.
// valid: the input starts with a complete encoding `want`.
template <typename R, typename Call, typename In>
void judge(Call && call, In & in, const Bytes & want, std::size_t end, bool valid, bool known, const char * how)
{
    calls = 0;
    recorded.clear();
    std::errc c{};
    bool value_ok = true, threw = false, has_value = true;
    constexpr bool is_code = std::is_void_v<R> || std::is_same_v<R, zb::errc>;
    try {
        auto res = call(in);
        if constexpr (is_code) {
            static_assert(std::is_same_v<decltype(res), zb::errc>);
            c = res.code;
            mon::check(zb::success(res) == (c == std::errc{}) && zb::failure(res) == (c != std::errc{}), "code-consistent");
        } else {
            static_assert(std::is_same_v<decltype(res), zb::value_or_errc<R>>);
            has_value = zb::success(res);
            mon::check(zb::failure(res) != has_value && res.success() == has_value && res.failure() != has_value, "code-consistent");
            if (has_value && !recorded.empty()) {
                auto h = digest(recorded[0]);
                auto expect = result<R>(h);
                auto got = std::move(res).value();
                if constexpr (std::is_same_v<R, std::unique_ptr<std::uint64_t>>) value_ok = got && *got == *expect;
                else value_ok = got == expect;
            } else if (!has_value) c = res.error().code, value_ok = true;
        }
    } catch (const Boom &) {
        threw = true;
    }
    auto where = [&] { return std::string(how) + (valid ? " complete" : known ? " cut" : " mutated") + " calls " + std::to_string(calls) + " errc " + std::to_string(int(c)) + " position " + std::to_string(in.position()) + " expected " + mon::hex(want); };
    if (valid) {
        mon::check(calls == 1, "called-other-than-once", where);
        if (boom) mon::check(threw, "exception-lost", where);
        else {
            if (std::is_same_v<R, zb::errc>) mon::check(c == errc_result, "returned-code", where);
            else mon::check(has_value && c == std::errc{}, "complete-input-rejected", where);
            mon::check(value_ok, "result-differs", where);
        }
        if (calls) mon::check(recorded[0] == want, "arguments-differ", where);
        mon::check(in.position() == end, "position", where);
        mon::count("calls");
    } else if (known) {
        mon::check(calls == 0, "called-after-failed-read", where);
        mon::check(c == std::errc::result_out_of_range && !threw, "error-of-failed-read", where);
        mon::check(in.position() <= in.data().size(), "position-beyond-input", where);
        mon::count("failed-reads");
    } else {
        // mutated input: either an error and no call, or success and one call
        bool failed = std::is_same_v<R, zb::errc> ? calls == 0 : (c != std::errc{} || !has_value);
        mon::check(calls == (failed ? 0 : 1), "calls-and-result-disagree", where);
        if (failed) mon::check(c != std::errc{}, "failure-without-code", where);
        mon::check(in.position() <= in.data().size(), "position-beyond-input", where);
        mon::count(calls ? "mutated-calls" : "mutated-failures");
    }
}

template <typename R, typename P, typename... T>
void applications(const char * name, std::uint64_t n)
{
    using Tup = std::tuple<T...>;
    constexpr bool copies = (std::is_copy_constructible_v<T> && ...);
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = std::string("apply|T=") + name + "|R=" + zoo::type_name<R>() + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        Tup v{};
        std::apply([&](auto &... x) { (gen(r, x, G{std::size_t(i % 8 ? 5 : 60), 0}), ...); }, v);
        Bytes wire, want;
        std::apply([&](auto &... x) {
            ((([&] {
                auto e = encode(x, P::cfg), f = encode(x, PNative4::cfg);
                wire.insert(wire.end(), e.begin(), e.end());
                want.insert(want.end(), f.begin(), f.end());
            }())), ...);
        }, v);
        auto every = [&](const Bytes & input, std::size_t start, bool valid, bool known, unsigned mask) {
            auto block = heap::Exact<const std::byte>::copy(input, input.size());
            unsigned kind = 0;
            auto go = [&](const char * how, auto && call) {
                if (!(mask >> kind++ & 1)) return;
                zb::in in{block.span(), typename P::endian{}, typename P::size{}};
                in.reset(start);
                judge<R>(call, in, want, start + wire.size(), valid, known, how);
            };
            Obj<R, T...> o;
            const Obj<R, T...> co{};
            int n_functor = 0, n_lambda = 0;
            Functor<R, T...> functor{&n_functor};
            go("rvalue reference function", [&](auto & in) { return zb::apply(by_rref<R, T...>, in); });
            go("const reference function", [&](auto & in) { return zb::apply(by_cref<R, T...>, in); });
            go("const functor", [&](auto & in) {
                if (i % 2) return zb::apply(ConstFunctor<R, T...>{}, in);
                const ConstFunctor<R, T...> f{};
                auto res = zb::apply(f, in);
                mon::check(f.own == calls, "functor-calls");
                return res;
            });
            go("noexcept const member", [&](auto & in) {
                auto before = co.mine;
                auto res = zb::apply(co, &Obj<R, T...>::both, in);
                mon::check(co.mine - before == calls, "wrong-object");
                return res;
            });
            go("noexcept member", [&](auto & in) {
                auto before = o.mine;
                auto res = zb::apply(o, &Obj<R, T...>::nothrow, in);
                mon::check(o.mine - before == calls, "wrong-object");
                return res;
            });
            go("lambda", [&](auto & in) {
                return zb::apply([&](const T &... a) -> R {
                    ++n_lambda;
                    return result<R>(record(a...));
                }, in);
            });
            if constexpr (copies) {
                go("function", [&](auto & in) { return zb::apply(by_value<R, T...>, in); });
                go("function pointer", [&](auto & in) { return zb::apply(&by_value<R, T...>, in); });
                go("noexcept function", [&](auto & in) { return zb::apply(not_throwing<R, T...>, in); });
                go("functor", [&](auto & in) {
                    auto before = n_functor, own = functor.own;
                    auto res = zb::apply(functor, in);
                    mon::check(n_functor - before == calls && functor.own - own == calls, "functor-calls");
                    return res;
                });
                go("mutable lambda", [&](auto & in) {
                    int seen = 0;
                    auto f = [&, count = 0](T... a) mutable -> R {
                        seen = ++count;
                        return result<R>(record(a...));
                    };
                    if (i % 2 && in.position() == 0) return zb::apply(f, in);
                    // twice: the second call sees the state of the first
                    auto from = in.position();
                    int called = 0;
                    try {
                        auto first = zb::apply(f, in);
                        called = calls;
                        (void)first;
                    } catch (const Boom &) {
                        called = calls;
                    }
                    in.reset(from);
                    calls = 0, recorded.clear();
                    auto res = zb::apply(f, in);
                    if (calls == 1 && called == 1) mon::check(seen == 2, "functor-state-lost");
                    return res;
                });
                go("std::function", [&](auto & in) {
                    std::function<R(T...)> f = by_value<R, T...>;
                    return zb::apply(f, in);
                });
                go("member", [&](auto & in) {
                    auto before = o.mine;
                    auto res = zb::apply(o, &Obj<R, T...>::plain, in);
                    mon::check(o.mine - before == calls, "wrong-object");
                    return res;
                });
                go("const member", [&](auto & in) {
                    auto before = co.mine;
                    auto res = zb::apply(co, &Obj<R, T...>::constant, in);
                    mon::check(co.mine - before == calls, "wrong-object");
                    return res;
                });
                go("rvalue object", [&](auto & in) { return zb::apply(Obj<R, T...>{}, &Obj<R, T...>::plain, in); });
            } else {
                go("move-only function", [&](auto & in) { return zb::apply(by_value<R, T...>, in); });
                go("move-only member", [&](auto & in) {
                    auto before = o.mine;
                    auto res = zb::apply(o, &Obj<R, T...>::plain, in);
                    mon::check(o.mine - before == calls, "wrong-object");
                    return res;
                });
            }
            mon::max_of("callees", kind);
        };
        errc_result = r.chance(1, 2) ? std::errc{} : r.chance(1, 2) ? std::errc::timed_out : std::errc::result_out_of_range;
        boom = false;
        every(wire, 0, true, true, ~0u);
        {
            Bytes b(r.below(5), 0x5a);
            auto start = b.size();
            b.insert(b.end(), wire.begin(), wire.end());
            for (auto k = r.below(9); k--;) b.push_back((unsigned char)r.next());
            every(b, start, true, true, ~0u);
        }
        errc_result = std::errc{};
        // a callee that throws (not for the noexcept ones)
        boom = true;
        every(wire, 0, true, true, ~(1u << 2 | 1u << 3 | 1u << 4 | (copies ? 1u << 8 : 0)));
        boom = false;
        for (std::size_t cut = 0; cut < wire.size(); ++cut) {
            if (wire.size() > 40 && !r.chance(40, unsigned(wire.size()))) continue;
            Bytes b(wire.begin(), wire.begin() + long(cut));
            every(b, 0, false, true, wire.size() < 12 ? ~0u : 1u << r.below(15) | 1u << r.below(8));
        }
        if constexpr (P::cfg.size == SizeKind::s1 || P::cfg.size == SizeKind::s2)
            for (unsigned k = 0; k < 24 && !wire.empty(); ++k) {
                Bytes b = wire;
                for (auto m = 1 + r.below(3); m--;) b[r.below(b.size())] = (unsigned char)r.next();
                if (r.chance(1, 4)) b.resize(r.below(b.size() + 1));
                every(b, 0, false, false, 1u << r.below(15) | 1u << r.below(6));
            }
        mon::nontrivial(mon::hash_bytes(wire.data(), wire.size()));
        mon::sample([&] { return mon::hex(wire, 48); });
    }
}

// ---- no parameters
inline int void_calls = 0;
template <typename R>
R none()
{
    ++void_calls;
    return result<R>(42);
}
struct NoneObj
{
    int n = 0;
    std::uint64_t value() { return ++n, ++void_calls, 42; }
    std::string text() const noexcept { return ++void_calls, "x"; }
    void nothing() noexcept { ++void_calls; }
};
inline void without_parameters(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "none|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        std::vector<std::byte> data(r.below(6));
        zb::in in{data};
        auto p = r.below(data.size() + 1);
        in.reset(p);
        void_calls = 0;
        boom = false;
        int expect = 0;
        auto ok = [&](bool good, const char * how) {
            ++expect;
            mon::check(good, "parameterless-result", [&] { return how; });
            mon::check(void_calls == expect, "parameterless-calls", [&] { return how; });
            mon::check(in.position() == p, "parameterless-position", [&] { return how; });
            mon::count("parameterless-calls");
        };
        NoneObj o;
        ok(zb::apply(none<std::uint64_t>, in) == 42, "function");
        ok(zb::apply(none<std::string>, in) == "result 42", "string");
        zb::apply(none<void>, in);
        ok(true, "void");
        errc_result = std::errc::io_error;
        ok(zb::apply(none<zb::errc>, in) == std::errc::io_error, "errc");
        errc_result = {};
        ok(zb::success(zb::apply(none<zb::errc>, in)), "errc");
        ok(zb::apply([&] { return ++void_calls, 7; }, in) == 7, "lambda");
        int k = 0;
        ok(zb::apply([&, j = 1]() mutable { return k = ++j, ++void_calls, 7; }, in) == 7 && k == 2, "mutable lambda");
        zb::apply([&]() noexcept { ++void_calls; }, in);
        ok(true, "void lambda");
        ok(zb::apply(o, &NoneObj::value, in) == 42 && o.n == 1, "member");
        ok(zb::apply(o, &NoneObj::text, in) == "x", "const member");
        zb::apply(o, &NoneObj::nothing, in);
        ok(true, "void member");
        mon::nontrivial(i * 8 + p);
    }
}

// ---- parameters are read in declaration order, and exactly those
inline std::vector<int> reads;
template <int K>
struct Ordered
{
    static auto serialize(auto & archive, auto & self) -> zb::errc
    {
        reads.push_back(K);
        return archive(self.x);
    }
    std::uint8_t x = 0;
};
inline void in_order(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "order|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        std::vector<std::byte> data(8);
        for (auto & x : data) x = std::byte(r.next());
        for (std::size_t have = 0; have <= 5; ++have) {
            std::vector<std::byte> some(data.begin(), data.begin() + long(have));
            zb::in in{some};
            reads.clear();
            std::vector<int> seen;
            auto res = zb::apply([&](Ordered<0> a, const Ordered<1> & b, Ordered<2> && c, Ordered<3> d) {
                seen = {a.x, b.x, c.x, d.x};
                return 5;
            }, in);
            std::vector<int> expect;
            for (int k = 0; k < 4 && k <= int(have); ++k) expect.push_back(k);
            mon::check(reads == expect, "read-order", [&] { return std::to_string(have); });
            mon::check(zb::success(res) == (have >= 4), "order-result");
            mon::check(seen.size() == (have >= 4 ? 4u : 0u), "order-call");
            for (std::size_t k = 0; k < seen.size(); ++k) mon::check(seen[k] == int(data[k]), "order-argument");
            mon::check(in.position() == std::min<std::size_t>(have, 4), "order-position");
            mon::count("ordered-reads");
        }
        mon::nontrivial(mon::hash_bytes(data.data(), data.size()));
    }
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto n = mon::iters(160, 5000);
    using S = std::string;
#if PART == 0
    applications<std::uint64_t, PNative4, std::int32_t>("int", n);
    applications<S, PBig2, std::uint8_t, S, std::uint64_t>("u8,string,u64", n);
    without_parameters(n * 10);
    in_order(n * 10);
#elif PART == 1
    applications<void, PNativeV, S, std::uint32_t>("string,u32", n);
    applications<zb::errc, PNative4, S, std::uint32_t>("string,u32", n);
#elif PART == 2
    applications<std::vector<std::uint32_t>, PLittle1, std::vector<S>, std::optional<std::uint16_t>, zoo::Pod>("vector,optional,Pod", n);
    applications<zb::errc, PBig2, std::uint16_t>("u16", n);
#elif PART == 3
    applications<std::uint64_t, PBig4, std::map<std::uint16_t, S>, std::variant<std::uint8_t, S>, double, zb::vint32_t, std::uint8_t>("map,variant,double,varint,u8", n);
#elif PART == 4
    applications<bool, PLittle1, std::tuple<std::uint8_t, S>, std::pair<std::uint16_t, std::uint8_t>>("tuple,pair", n);
    applications<void, PBig2, std::array<std::uint16_t, 3>>("array", n);
#elif PART == 5
    applications<std::unique_ptr<std::uint64_t>, PNative4, std::unique_ptr<zoo::Person>, std::uint8_t>("unique_ptr,u8", n);
    applications<std::uint64_t, PBig2, std::vector<std::unique_ptr<std::uint32_t>>>("vector<unique_ptr>", n);
#elif PART == 6
    applications<std::uint64_t, PNative8, std::uint8_t, std::uint16_t, std::uint32_t, std::uint64_t, float, double, char, zoo::E16>("eight scalars", n);
    applications<S, PLittle1, zoo::Person, std::bitset<9>>("Person,bitset", n);
#elif PART == 7
    applications<S, PSwapV, std::vector<zoo::Padded>, std::deque<S>>("vector<Padded>,deque", n);
    applications<std::unique_ptr<std::uint64_t>, PBig8, zoo::Padded>("Padded", n);
#endif
    return mon::finish();
}
