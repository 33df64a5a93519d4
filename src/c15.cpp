// C15: composition. The same items written and read in every grouping; failing items;
// event traces of instrumented items; histories of reset/position on a model.
#include "common/heap.hpp"
#include "common/zoo.hpp"
#include <list>
#include <memory>
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

template <typename A, typename B, typename C, typename D, typename E>
struct Agg
{
    using serialize = zb::members<5>;
    A a;
    B b;
    C c;
    D d;
    E e;
};
template <typename A, typename B, typename C, typename D, typename E>
struct Explicit5
{
    static constexpr auto serialize(auto & archive, auto & self) { return archive(self.a, self.b, self.c, self.d, self.e); }
    A a;
    B b;
    C c;
    D d;
    E e;
};
template <typename A, typename B, typename C>
struct Inner
{
    using serialize = zb::members<3>;
    A a;
    B b;
    C c;
};

// position, remaining_data and processed_data must describe one split of data()
template <typename Arch>
void views_agree(Arch & ar, const char * when)
{
    auto where = [&] { return std::string(when) + " position " + std::to_string(ar.position()) + " size " + std::to_string(ar.data().size()); };
    auto rem = ar.remaining_data();
    auto pro = ar.processed_data();
    const Arch & car = ar;
    mon::check(car.position() == ar.position(), "const-position", where);
    mon::check(pro.size() == ar.position() && pro.data() == ar.data().data(), "processed-data", where);
    mon::check(rem.size() == ar.data().size() - ar.position() && rem.data() == ar.data().data() + ar.position(), "remaining-data", where);
    mon::count("position-views");
}

template <typename P, typename... T>
struct Compose
{
    using Tup = std::tuple<T...>;
    static constexpr std::size_t N = sizeof...(T);
    static_assert(N == 5);
    Tup v{};
    Bytes want;
    std::size_t at[N + 1]{};
    std::vector<Bytes> each;

    void make(Rng & r)
    {
        std::apply([&](auto &... x) {
            std::size_t i = 0;
            ((gen(r, x, G{std::size_t(r.chance(1, 8) ? 150 : 5), 0}), each.push_back(encode(x, P::cfg)), want.insert(want.end(), each.back().begin(), each.back().end()), at[++i] = want.size()), ...);
        }, v);
    }
    // call ar once for each run of items between cut marks of Mask
    template <unsigned Mask, std::size_t From, typename Arch, typename V, typename F>
    static std::errc grouped(Arch & ar, V & v, F && after)
    {
        if constexpr (From == N) return {};
        else {
            constexpr std::size_t to = [] {
                std::size_t i = From + 1;
                while (i < N && !(Mask >> (i - 1) & 1)) ++i;
                return i;
            }();
            auto res = [&]<std::size_t... I>(std::index_sequence<I...>) { return ar(std::get<From + I>(v)...); }(std::make_index_sequence<to - From>{});
            if (!zb::success(res)) return res.code;
            after(to);
            return grouped<Mask, to>(ar, v, after);
        }
    }
    template <typename F>
    static void masks(F && f)
    {
        [&]<std::size_t... M>(std::index_sequence<M...>) { (f.template operator()<unsigned(M)>(), ...); }(std::make_index_sequence<1 << (N - 1)>{});
    }
    template <typename B>
    static auto archive_out(B & b) { return zb::out<B, typename P::endian, typename P::size>{b, typename P::endian{}, typename P::size{}}; }
    template <typename B>
    static auto archive_in(B & b) { return zb::in<B, typename P::endian, typename P::size>{b, typename P::endian{}, typename P::size{}}; }

    template <typename B>
    void compare(B & data, std::size_t pos, std::size_t base, const char * how)
    {
        auto where = [&] { return std::string(how) + " position " + std::to_string(pos) + " expected " + mon::hex(want) + " got " + mon::hex(data); };
        mon::check(pos == base + want.size(), "position", where);
        mon::check(data.size() >= base + want.size() && same_bytes(data.data() + base, want.data(), want.size()), "bytes-depend-on-grouping", where);
        mon::count("groupings-written");
    }
    void write(Rng & r)
    {
        masks([&]<unsigned M> {
            std::vector<std::byte> data;
            auto out = archive_out(data);
            auto c = grouped<M, 0>(out, v, [&](std::size_t i) {
                mon::check(out.position() == at[i], "position-between-calls", [&] { return std::to_string(M); });
                views_agree(out, "between writes");
            });
            mon::check(c == std::errc{}, "grouped-write-fails");
            compare(data, out.position(), 0, "growing");
            auto block = heap::Exact<unsigned char>(want.size() + r.below(3));
            auto fixed = block.span();
            auto out2 = archive_out(fixed);
            c = grouped<M, 0>(out2, v, [&](std::size_t i) {
                mon::check(out2.position() == at[i], "position-between-calls", [&] { return std::to_string(M); });
                views_agree(out2, "between fixed writes");
            });
            mon::check(c == std::errc{}, "grouped-fixed-write-fails");
            compare(fixed, out2.position(), 0, "fixed");
        });
        // one archive for each item: append, an explicit position, a subspan, or a chain of ids
        {
            std::vector<char> data;
            std::apply([&](auto &... x) { ((void)(zb::out{data, typename P::endian{}, typename P::size{}, zb::append{}}(x)), ...); }, v);
            compare(data, data.size(), 0, "append");
        }
        {
            std::vector<unsigned char> data;
            std::size_t i = 0;
            std::apply([&](auto &... x) {
                ([&] {
                    auto out = archive_out(data);
                    if (i & 1) out.reset(at[i]);
                    else out.position() = at[i];
                    (void)out(x);
                    mon::check(out.position() == at[i + 1], "position-of-item");
                    ++i;
                }(), ...);
            }, v);
            compare(data, data.size(), 0, "explicit positions");
        }
        {
            // backwards, by positions known in advance
            std::vector<std::byte> data(want.size(), std::byte{0xee});
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                ([&] {
                    constexpr auto J = N - 1 - I;
                    auto out = archive_out(data);
                    out.reset(at[J]);
                    (void)out(std::get<J>(v));
                }(), ...);
            }(std::make_index_sequence<N>{});
            compare(data, data.size(), 0, "backwards");
        }
        {
            std::vector<std::byte> data(want.size());
            std::size_t i = 0;
            std::apply([&](auto &... x) {
                ([&] {
                    std::span<std::byte> rest{data.data() + at[i], data.size() - at[i]};
                    auto out = archive_out(rest);
                    (void)out(x);
                    ++i;
                }(), ...);
            }, v);
            compare(data, data.size(), 0, "subspans");
        }
        // one item holding them all
        auto one = [&](auto && item, const char * how) {
            std::vector<std::byte> data;
            auto out = archive_out(data);
            auto c = out(item).code;
            mon::check(c == std::errc{}, "composite-write-fails", [&] { return how; });
            compare(data, out.position(), 0, how);
        };
        auto & [a, b, c, d, e] = v;
        one(v, "tuple");
        one(std::tie(a, b, c, d, e), "tuple of references");
        one(std::tuple{a, std::pair{b, c}, std::tuple{d, std::tuple{e}}}, "nested tuples");
        one(Agg<T...>{a, b, c, d, e}, "aggregate");
        one(Explicit5<T...>{a, b, c, d, e}, "explicit class");
        one(std::tuple{a, Inner{b, c, d}, e}, "tuple of aggregate");
        one(Agg<T...>{a, b, c, d, e}, "aggregate");
        // factories
        {
            std::vector<std::byte> data;
            auto [in, out] = zb::in_out(data, typename P::endian{}, typename P::size{});
            (void)out(a, b, c, d, e);
            compare(data, out.position(), 0, "in_out");
            Tup w{};
            auto rc = in(w).code;
            mon::check(rc == std::errc{} && eq(v, w) && in.position() == want.size(), "in_out-read");
        }
        {
            auto [data, in, out] = zb::data_in_out<char>(typename P::endian{}, typename P::size{});
            (void)out(a, b, c, d, e);
            compare(data, out.position(), 0, "data_in_out");
            Tup w{};
            auto rc = in(w).code;
            mon::check(rc == std::errc{} && eq(v, w) && in.position() == want.size(), "data_in_out-read");
        }
        {
            auto [data, out] = zb::data_out(typename P::endian{}, typename P::size{});
            (void)out(a, b, c, d, e);
            compare(data, out.position(), 0, "data_out");
            auto [data2, in] = zb::data_in(typename P::endian{}, typename P::size{});
            data2 = data;
            Tup w{};
            auto rc = in(w).code;
            mon::check(rc == std::errc{} && eq(v, w) && in.position() == want.size(), "data_in-read");
            auto out3 = zb::output(data, typename P::endian{}, typename P::size{});
            (void)out3(a, b, c, d, e);
            compare(data, out3.position(), 0, "output");
            auto in3 = zb::input(data, typename P::endian{}, typename P::size{});
            Tup u{};
            rc = in3(u).code;
            mon::check(rc == std::errc{} && eq(v, u) && in3.position() == want.size(), "input-read");
        }
    }
    void read(Rng & r)
    {
        auto block = heap::Exact<const std::byte>::copy(want, want.size(), r.below(3));
        auto data = block.span();
        auto where = [&] { return mon::hex(want); };
        masks([&]<unsigned M> {
            Tup w{};
            auto in = archive_in(data);
            auto c = grouped<M, 0>(in, w, [&](std::size_t i) {
                mon::check(in.position() == at[i], "read-position-between-calls", [&] { return std::to_string(M); });
                views_agree(in, "between reads");
            });
            mon::check(c == std::errc{}, "grouped-read-fails", where);
            mon::check(eq(v, w), "values-depend-on-grouping", where);
            mon::count("groupings-read");
        });
        // items in a random order, by reset
        {
            Tup w{};
            auto in = archive_in(data);
            std::size_t order[N];
            for (std::size_t i = 0; i < N; ++i) order[i] = i;
            for (std::size_t i = N; i-- > 1;) std::swap(order[i], order[r.below(i + 1)]);
            for (auto k : order) {
                if (r.chance(1, 2)) in.reset(at[k]);
                else in.position() = at[k];
                views_agree(in, "after reset");
                [&]<std::size_t... I>(std::index_sequence<I...>) {
                    ((I == k ? (void)mon::check(in(std::get<I>(w)).code == std::errc{} && in.position() == at[I + 1], "read-after-reset", where) : void()), ...);
                }(std::make_index_sequence<N>{});
            }
            mon::check(eq(v, w), "values-after-resets", where);
            in.reset();
            mon::check(in.position() == 0, "reset-default", where);
            mon::count("random-order-reads");
        }
        auto one = [&](auto && item, auto && get, const char * how) {
            auto in = archive_in(data);
            auto c = in(item).code;
            mon::check(c == std::errc{} && in.position() == want.size(), "composite-read-fails", [&] { return how; });
            get(item);
        };
        {
            Tup w{};
            auto & [a, b, c, d, e] = w;
            one(std::tie(a, b, c, d, e), [&](auto &) { mon::check(eq(v, w), "tie-read", where); }, "tie");
        }
        one(Agg<T...>{}, [&](auto & x) { mon::check(eq(v, Tup{x.a, x.b, x.c, x.d, x.e}), "aggregate-read", where); }, "aggregate");
        one(Explicit5<T...>{}, [&](auto & x) { mon::check(eq(v, Tup{x.a, x.b, x.c, x.d, x.e}), "explicit-read", where); }, "explicit");
        // a failing item: cut the input inside item k
        for (std::size_t cut = 0; cut < want.size(); ++cut) {
            if (want.size() > 80 && !r.chance(80, unsigned(want.size()))) continue;
            std::size_t k = 0;
            while (at[k + 1] <= cut) ++k;
            auto shorter = heap::Exact<const std::byte>::copy(want, cut);
            auto sdata = shorter.span();
            auto in = archive_in(sdata);
            Tup stale{};
            std::apply([&](auto &... x) { (gen(r, x, G{4, 0}), ...); }, stale);
            Tup w = stale;
            auto & [a, b, c, d, e] = w;
            auto res = in(a, b, c, d, e).code;
            auto what = [&] { return "cut at " + std::to_string(cut) + " in item " + std::to_string(k) + " of " + mon::hex(want) + " errc " + std::to_string(int(res)) + " position " + std::to_string(in.position()); };
            mon::check(res == std::errc::result_out_of_range, "cut-read-result", what);
            mon::check(in.position() >= at[k] && in.position() <= cut, "position-after-failure", what);
            views_agree(in, "after failed read");
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                ((I < k ? (void)mon::check(eq(std::get<I>(w), std::get<I>(v)), "earlier-item-lost", what) : I > k ? (void)mon::check(eq(std::get<I>(w), std::get<I>(stale)), "later-item-touched", what) : void()), ...);
            }(std::make_index_sequence<N>{});
            mon::count("failing-reads");
        }
        // a failing item: write into less room
        for (std::size_t room = 0; room < want.size(); ++room) {
            if (want.size() > 80 && !r.chance(80, unsigned(want.size()))) continue;
            std::size_t k = 0;
            while (at[k + 1] <= room) ++k;
            heap::Exact<std::byte> b(room);
            std::memset(b.data(), 0x77, room);
            auto sp = b.span();
            auto out = archive_out(sp);
            auto & [x0, x1, x2, x3, x4] = v;
            auto res = out(x0, x1, x2, x3, x4).code;
            auto what = [&] { return "room " + std::to_string(room) + " in item " + std::to_string(k) + " of " + mon::hex(want) + " errc " + std::to_string(int(res)) + " position " + std::to_string(out.position()); };
            mon::check(res == std::errc::result_out_of_range, "short-write-result", what);
            mon::check(out.position() >= at[k] && out.position() <= room, "position-after-failed-write", what);
            mon::check(same_bytes(b.data(), want.data(), at[k]), "earlier-bytes-lost", what);
            views_agree(out, "after failed write");
            mon::count("failing-writes");
        }
    }
};

template <typename P, typename... T>
void compose(const char * name, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = std::string("compose|T=") + name + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        Compose<P, T...> c;
        c.make(r);
        c.write(r);
        c.read(r);
        mon::nontrivial(mon::hash_bytes(c.want.data(), c.want.size()));
        mon::sample([&] { return mon::hex(c.want, 48); });
    }
}

// ---- traces of instrumented items
struct Trace
{
    std::vector<int> events;
    int fail_at = -1; // index of the event to fail
    std::errc with{};
};
inline Trace trace;
template <int Kind>
struct Probe
{
    int id = 0;
    static constexpr std::size_t size = Kind;
    static auto serialize(auto & archive, auto & self) -> zb::errc
    {
        auto e = self.id;
        if (trace.fail_at == int(trace.events.size())) {
            trace.events.push_back(-1);
            return trace.with;
        }
        trace.events.push_back(e);
        if constexpr (Kind == 0) return {};
        else if constexpr (Kind == 1) return archive(self.id);
        else return archive(self.id, std::uint8_t(0));
    }
    auto operator<=>(const Probe &) const = default;
};
struct PAgg
{
    Probe<1> a;
    Probe<0> b;
    std::uint16_t n;
    Probe<1> c;
};
struct PExplicit
{
    Probe<1> a, b;
    static auto serialize(auto & archive, auto & self)
    {
        return archive(self.b, self.a);
    }
};
struct PPrivate
{
    PPrivate() = default;
    friend zb::access;
    using serialize = zb::members<2>;
    Probe<1> a;
    std::vector<Probe<1>> b;
};

// Every probe inside `item`, in the documented order.
inline void order(const Probe<0> & p, std::vector<int> & o) { o.push_back(p.id); }
inline void order(const Probe<1> & p, std::vector<int> & o) { o.push_back(p.id); }
template <typename T>
    requires std::is_fundamental_v<T>
void order(const T &, std::vector<int> &) {}
template <typename T>
void order(const std::vector<T> & v, std::vector<int> & o);
template <typename T>
void order(const std::list<T> & v, std::vector<int> & o);
template <typename K, typename T>
void order(const std::map<K, T> & v, std::vector<int> & o);
template <typename T>
void order(const std::set<T> & v, std::vector<int> & o);
template <typename T>
void order(const std::optional<T> & v, std::vector<int> & o);
template <typename T>
void order(const std::unique_ptr<T> & v, std::vector<int> & o);
template <typename T, std::size_t N>
void order(const std::array<T, N> & v, std::vector<int> & o);
template <typename... T>
void order(const std::variant<T...> & v, std::vector<int> & o);
template <typename... T>
void order(const std::tuple<T...> & v, std::vector<int> & o);
template <typename A, typename B>
void order(const std::pair<A, B> & v, std::vector<int> & o);
inline void order(const PAgg & v, std::vector<int> & o)
{
    order(v.a, o);
    order(v.b, o);
    order(v.c, o);
}
inline void order(const PExplicit & v, std::vector<int> & o)
{
    order(v.b, o);
    order(v.a, o);
}
inline void order(const PPrivate & v, std::vector<int> & o)
{
    order(v.a, o);
    order(v.b, o);
}
template <typename T>
void order(const std::vector<T> & v, std::vector<int> & o) { for (auto & x : v) order(x, o); }
template <typename T>
void order(const std::list<T> & v, std::vector<int> & o) { for (auto & x : v) order(x, o); }
template <typename K, typename T>
void order(const std::map<K, T> & v, std::vector<int> & o) { for (auto & [k, x] : v) order(k, o), order(x, o); }
template <typename T>
void order(const std::set<T> & v, std::vector<int> & o) { for (auto & x : v) order(x, o); }
template <typename T>
void order(const std::optional<T> & v, std::vector<int> & o) { if (v) order(*v, o); }
template <typename T>
void order(const std::unique_ptr<T> & v, std::vector<int> & o) { order(*v, o); }
template <typename T, std::size_t N>
void order(const std::array<T, N> & v, std::vector<int> & o) { for (auto & x : v) order(x, o); }
template <typename... T>
void order(const std::variant<T...> & v, std::vector<int> & o) { std::visit([&](auto & x) { order(x, o); }, v); }
template <typename... T>
void order(const std::tuple<T...> & v, std::vector<int> & o) { std::apply([&](auto &... x) { (order(x, o), ...); }, v); }
template <typename A, typename B>
void order(const std::pair<A, B> & v, std::vector<int> & o) { order(v.first, o), order(v.second, o); }

inline int next_id = 1;
inline void fill(Rng &, Probe<0> & p) { p.id = next_id++; }
inline void fill(Rng &, Probe<1> & p) { p.id = next_id++; }
template <typename T>
    requires std::is_fundamental_v<T>
void fill(Rng & r, T & x) { x = T(r.next()); }
template <typename T>
void fill(Rng & r, std::vector<T> & v);
template <typename T>
void fill(Rng & r, std::list<T> & v);
template <typename K, typename T>
void fill(Rng & r, std::map<K, T> & v);
template <typename T>
void fill(Rng & r, std::set<T> & v);
template <typename T>
void fill(Rng & r, std::optional<T> & v);
template <typename T>
void fill(Rng & r, std::unique_ptr<T> & v);
template <typename T, std::size_t N>
void fill(Rng & r, std::array<T, N> & v);
template <typename... T>
void fill(Rng & r, std::variant<T...> & v);
template <typename... T>
void fill(Rng & r, std::tuple<T...> & v);
template <typename A, typename B>
void fill(Rng & r, std::pair<A, B> & v);
inline void fill(Rng & r, PAgg & v) { fill(r, v.a), fill(r, v.b), fill(r, v.n), fill(r, v.c); }
inline void fill(Rng & r, PExplicit & v) { fill(r, v.a), fill(r, v.b); }
inline void fill(Rng & r, PPrivate & v) { fill(r, v.a), fill(r, v.b); }
template <typename T>
void fill(Rng & r, std::vector<T> & v)
{
    v.resize(r.below(4));
    for (auto & x : v) fill(r, x);
}
template <typename T>
void fill(Rng & r, std::list<T> & v)
{
    v.resize(r.below(4));
    for (auto & x : v) fill(r, x);
}
template <typename K, typename T>
void fill(Rng & r, std::map<K, T> & v)
{
    v.clear();
    for (auto n = r.below(4); n--;) {
        K k;
        T t;
        fill(r, k), fill(r, t);
        v.emplace(std::move(k), std::move(t));
    }
}
template <typename T>
void fill(Rng & r, std::set<T> & v)
{
    v.clear();
    for (auto n = r.below(4); n--;) {
        T t;
        fill(r, t);
        v.insert(std::move(t));
    }
}
template <typename T>
void fill(Rng & r, std::optional<T> & v)
{
    v.reset();
    if (r.chance(2, 3)) fill(r, v.emplace());
}
template <typename T>
void fill(Rng & r, std::unique_ptr<T> & v)
{
    v = std::make_unique<T>();
    fill(r, *v);
}
template <typename T, std::size_t N>
void fill(Rng & r, std::array<T, N> & v)
{
    for (auto & x : v) fill(r, x);
}
template <typename... T>
void fill(Rng & r, std::variant<T...> & v)
{
    auto k = r.below(sizeof...(T));
    [&]<std::size_t... I>(std::index_sequence<I...>) { ((I == k ? fill(r, v.template emplace<I>()) : void()), ...); }(std::make_index_sequence<sizeof...(T)>{});
}
template <typename... T>
void fill(Rng & r, std::tuple<T...> & v)
{
    std::apply([&](auto &... x) { (fill(r, x), ...); }, v);
}
template <typename A, typename B>
void fill(Rng & r, std::pair<A, B> & v)
{
    fill(r, v.first), fill(r, v.second);
}

// Writes a call of several items while event k fails, for every k.
template <typename... T>
void traces(const char * name, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = std::string("trace|T=") + name + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        std::tuple<T...> items;
        next_id = 1;
        fill(r, items);
        std::vector<int> want;
        order(items, want);
        auto show = [](const std::vector<int> & v) {
            std::string s;
            for (auto x : v) s += std::to_string(x) + " ";
            return s;
        };
        for (int fail = -1; fail < int(want.size()); ++fail) {
            static constexpr std::errc errs[] = {std::errc::io_error, std::errc::timed_out, std::errc::bad_message, std::errc(0x7777)};
            trace = {{}, fail, errs[r.below(4)]};
            std::vector<std::byte> data;
            zb::out out{data};
            auto res = std::apply([&](auto &... x) { return out(x...); }, items).code;
            auto expect = want;
            if (fail >= 0) expect.resize(std::size_t(fail)), expect.push_back(-1);
            auto where = [&] { return "fail at " + std::to_string(fail) + " of " + show(want) + ": saw " + show(trace.events) + " errc " + std::to_string(int(res)); };
            mon::check(trace.events == expect, "write-trace", where);
            mon::check(res == (fail >= 0 ? trace.with : std::errc{}), "write-error", where);
            views_agree(out, "after trace");
            mon::count(fail < 0 ? "clean-traces" : "failing-traces");
            mon::max_of("events", trace.events.size());
            if (fail >= 0) continue;
            // and read back with every event failing in turn. While reading, every probe
            // reports the id its target holds before: zero for new objects.
            std::tuple<T...> back;
            trace = {{}, -1, {}};
            zb::in in{data};
            res = std::apply([&](auto &... x) { return in(x...); }, back).code;
            std::vector<int> got;
            order(back, got);
            std::erase(got, 0); // Probe<0> has no content
            auto content = want;
            // ids of Probe<0> are not on the wire
            std::vector<int> ids0;
            mon::check(res == std::errc{} && in.position() == data.size(), "read-result", where);
            std::size_t j = 0;
            for (auto id : got) {
                while (j < content.size() && content[j] != id) ++j;
                mon::check(j < content.size(), "read-order", [&] { return show(want) + " came back as " + show(got); });
                ++j;
            }
            auto n_events = trace.events.size();
            mon::check(n_events == want.size(), "read-trace", [&] { return std::to_string(n_events) + " events instead of " + std::to_string(want.size()); });
            for (std::size_t k = 0; k < n_events; ++k) {
                std::tuple<T...> partial;
                trace = {{}, int(k), errs[r.below(4)]};
                zb::in in2{data};
                auto c = std::apply([&](auto &... x) { return in2(x...); }, partial).code;
                auto what = [&] { return "read failing at " + std::to_string(k) + ": " + std::to_string(trace.events.size()) + " events, errc " + std::to_string(int(c)); };
                mon::check(c == trace.with, "read-error", what);
                mon::check(trace.events.size() == k + 1, "events-after-failure", what);
                views_agree(in2, "after failed trace");
                mon::count("failing-traces");
            }
        }
        mon::nontrivial(mon::hash_bytes(want.data(), want.size() * sizeof(int), data_hash(items)));
        mon::sample([&] { return show(want); });
    }
}
template <typename T>
std::uint64_t data_hash(const T & items)
{
    std::vector<std::byte> data;
    trace = {};
    (void)zb::out{data}(items);
    return mon::hash_bytes(data.data(), data.size());
}

// ---- histories on a model: random items, resets, reads and writes over one buffer
template <typename B, bool Grow>
void history(std::uint64_t n, const char * name)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = std::string("history|") + name + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        std::vector<B> data(r.below(60));
        for (auto & x : data) x = B(r.next());
        std::vector<unsigned char> model(data.size());
        for (std::size_t k = 0; k < data.size(); ++k) model[k] = (unsigned char)data[k];
        std::span<B> fixed{data};
        auto run = [&](auto & target) {
            zb::out out{target};
            zb::in in{target};
            std::size_t wp = 0, rp = 0;
            std::string log;
            auto where = [&] { return log; };
            for (unsigned step = 0; step < 60; ++step) {
                switch (r.below(7)) {
                case 0: wp = r.below(model.size() + 1), out.reset(wp), log += " w@" + std::to_string(wp); break;
                case 1: rp = r.below(model.size() + 1), in.reset(rp), log += " r@" + std::to_string(rp); break;
                case 2: if (r.chance(1, 2)) wp = 0, out.reset(); else rp = 0, in.reset(); break;
                case 3: {
                    auto skip = r.below(model.size() - rp + 1);
                    in.position() += skip;
                    rp += skip;
                    break;
                }
                case 4:
                case 5: {
                    std::uint32_t x = std::uint32_t(r.next());
                    std::string s(r.below(9), 'a');
                    for (auto & ch : s) ch = char(r.next());
                    Bytes e = encode(x, PNative4::cfg), f = encode(s, PNative4::cfg);
                    auto total = e.size() + f.size();
                    bool fits = Grow || total <= model.size() - wp;
                    if (!fits && !r.chance(1, 4)) break;
                    auto c = out(x, s).code;
                    log += " write " + std::to_string(total);
                    mon::check((c == std::errc{}) == fits, "history-write", where);
                    if (c != std::errc{}) {
                        // only the items that fit are there; resynchronise by position
                        mon::check(out.position() >= wp && out.position() <= model.size(), "history-position-after-failure", where);
                        for (std::size_t k = wp; k < model.size(); ++k) model[k] = (unsigned char)target.data()[k];
                        wp = out.position();
                        break;
                    }
                    e.insert(e.end(), f.begin(), f.end());
                    if (model.size() < wp + total) model.resize(wp + total);
                    std::copy(e.begin(), e.end(), model.begin() + long(wp));
                    wp += total;
                    mon::count("history-writes");
                    break;
                }
                default: {
                    std::uint16_t x;
                    std::array<std::uint8_t, 3> a;
                    if (model.size() - rp < 5) break;
                    auto c = in(x, a).code;
                    log += " read";
                    mon::check(c == std::errc{}, "history-read", where);
                    mon::check(x == (model[rp] | model[rp + 1] << 8) && std::equal(a.begin(), a.end(), model.begin() + long(rp) + 2), "history-values", where);
                    rp += 5;
                    mon::count("history-reads");
                }
                }
                mon::check(out.position() == wp && in.position() == rp, "history-position", where);
                mon::check(out.data().size() == model.size() && same_bytes(out.data().data(), model.data(), model.size()), "history-content", where);
                views_agree(out, "history");
                // an input archive over a resizable buffer follows its growth
                views_agree(in, "history");
                mon::check(in.data().size() == model.size(), "history-input-size", where);
            }
        };
        if constexpr (Grow) run(data);
        else run(fixed);
        mon::nontrivial(mon::hash_bytes(model.data(), model.size()));
        mon::count("histories");
    }
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto n = mon::iters(40, 1000), t = mon::iters(120, 3000);
    using U8 = std::vector<std::uint8_t>;
    using S = std::string;
#if PART == 0
    compose<PNative4, std::uint8_t, std::uint32_t, S, zoo::Padded, double>("u8,u32,string,Padded,double", n);
    compose<PBig2, std::uint8_t, std::uint32_t, S, zoo::Padded, double>("u8,u32,string,Padded,double", n);
#elif PART == 1
    compose<PNative4, U8, std::optional<S>, zb::vint32_t, std::map<std::uint16_t, S>, std::uint64_t>("bytes,optional,varint,map,u64", n);
    compose<PNativeV, U8, std::optional<S>, zb::vint32_t, std::map<std::uint16_t, S>, std::uint64_t>("bytes,optional,varint,map,u64", n);
#elif PART == 2
    compose<PNative4, std::variant<std::uint32_t, S>, std::bitset<13>, zoo::Person, std::array<std::uint16_t, 3>, std::tuple<std::uint8_t, S>>("variant,bitset,Person,array,tuple", n);
    compose<PSwapV, std::variant<std::uint32_t, S>, std::bitset<13>, zoo::Person, std::array<std::uint16_t, 3>, std::tuple<std::uint8_t, S>>("variant,bitset,Person,array,tuple", n);
#elif PART == 3
    compose<PBig4, std::vector<zoo::Pod>, zoo::E16, std::vector<S>, zoo::Pod, std::pair<std::uint8_t, std::uint16_t>>("pods", n);
    compose<PLittle1, std::vector<zoo::Pod>, zoo::E16, std::vector<S>, zoo::Pod, std::pair<std::uint8_t, std::uint16_t>>("pods", n);
#elif PART == 4
    traces<Probe<1>, Probe<0>, std::vector<Probe<1>>, Probe<1>>("flat", t);
    traces<PAgg, std::vector<PAgg>, PExplicit>("aggregates", t);
    traces<std::optional<Probe<1>>, std::unique_ptr<Probe<1>>, std::optional<PAgg>>("optionals", t);
#elif PART == 5
    traces<std::map<std::uint8_t, Probe<1>>, std::map<Probe<1>, Probe<1>>, std::set<Probe<1>>>("maps", t);
    traces<std::variant<Probe<1>, PAgg, std::vector<Probe<1>>>, std::variant<std::uint8_t, Probe<1>>, PPrivate>("variants", t);
    traces<std::vector<std::vector<Probe<1>>>, std::list<std::optional<Probe<1>>>, std::array<Probe<1>, 3>>("nested", t);
#elif PART == 6
    traces<std::tuple<Probe<1>, std::pair<Probe<1>, std::tuple<PAgg, Probe<0>>>>, std::tuple<>, std::vector<std::tuple<Probe<1>, Probe<1>>>>("tuples", t);
    traces<std::vector<std::unique_ptr<PAgg>>, std::optional<std::vector<PExplicit>>, std::map<std::uint8_t, std::vector<Probe<1>>>>("deep", t);
    compose<PNative8, std::list<std::uint16_t>, std::set<S>, zb::vsint64_t, zoo::PodMix, U8>("list,set", n);
#elif PART == 7
    history<std::byte, true>(t * 10, "growing byte");
    history<char, false>(t * 10, "fixed char");
    history<unsigned char, true>(t * 10, "growing uchar");
    compose<PBig8, float, std::int64_t, std::vector<std::uint32_t>, bool, char>("scalars", n);
#endif
    return mon::finish();
}
