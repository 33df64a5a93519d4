// Monitors of the generated C27 harness (tools/gen27.py).
#pragma once
namespace c27
{
namespace zb = zpp::bits;
using namespace ref;
struct plain_protocol
{};
template <std::size_t I>
struct tag
{
    std::uint16_t v;
    static auto tie(auto & s) { return std::tie(s.v); }
};
template <typename... Ts>
struct types
{};
struct Seen
{
    const void * address;
    std::size_t size;
    bool constant;
};
template <typename S>
struct Outer
{
    std::uint8_t a;
    S s;
    std::uint32_t b;
    static auto tie(auto & x) { return std::tie(x.a, x.s, x.b); }
};

constexpr std::uint64_t number(const auto & v)
{
    if constexpr (requires { v.v; }) return v.v;
    else return std::uint64_t(v);
}
template <typename S>
constexpr std::uint64_t visit_fold(S s)
{
    return zb::visit_members(s, [](auto... m) {
        std::uint64_t acc = 7;
        ((acc = (acc * 31 + number(m)) % 1000003), ...);
        return acc;
    });
}
template <typename S, std::uint64_t Got>
void constant(const std::string & name, std::uint64_t want)
{
    auto label = "constant|" + name;
    if (!mon::begin(label)) return;
    mon::count("visits-in-constant-evaluation");
    mon::check(Got == want, "constant-visit", [&] { return std::to_string(Got) + " expected " + std::to_string(want); });
}

template <typename S, typename Object, typename... Ts>
void visited(Object && object, types<Ts...>, const char * what)
{
    std::vector<Seen> seen;
    std::size_t calls = 0;
    int token = 0;
    constexpr bool constant = std::is_const_v<std::remove_reference_t<Object>>;
    decltype(auto) back = zb::visit_members(object, [&](auto &&... m) -> int & {
        ++calls;
        (seen.push_back({std::addressof(m), sizeof m, std::is_const_v<std::remove_reference_t<decltype(m)>>}), ...);
        using want = types<std::conditional_t<constant, const Ts, Ts> &...>;
        // by reference to the declared type
        mon::check(std::same_as<types<decltype(m)...>, types<std::add_lvalue_reference_t<std::conditional_t<constant, const Ts, Ts>>...>>, "visited-types", [&] { return std::string(what) + " " + __PRETTY_FUNCTION__; });
        return token;
    });
    mon::check(calls == 1, "visitor-calls", [&] { return std::string(what) + " " + std::to_string(calls); });
    mon::check(std::same_as<decltype(back), int &> && &back == &token, "visitor-result", [&] { return what; });
    std::vector<Seen> want;
    std::apply([&](auto &... m) { (want.push_back({std::addressof(m), sizeof m, constant}), ...); }, std::remove_const_t<S>::tie(object));
    mon::check(seen.size() == want.size(), "visited-count", [&] { return std::string(what) + " " + std::to_string(seen.size()) + " expected " + std::to_string(want.size()); });
    for (std::size_t i = 0; i < std::min(seen.size(), want.size()); ++i) {
        mon::check(seen[i].address == want[i].address && seen[i].size == want[i].size && seen[i].constant == constant, "visited-member", [&] { return std::string(what) + " member " + std::to_string(i); });
    }
    mon::count("members-visited", seen.size());
}

template <typename S>
void bytes_pack(const std::string & name, auto... options)
{
    auto n = mon::iters(8, 40);
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = name + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        G g{4, 0};
        S v{};
        gen(r, v, g);
        std::vector<std::byte> whole, parts, nested;
        zb::out out(whole, decltype(options)(options)...);
        auto res = out(v);
        mon::check(zb::success(res), "write-fails");
        zb::out each(parts, decltype(options)(options)...);
        std::apply([&](auto &... m) { ((void)mon::check(zb::success(each(m)), "member-write-fails"), ...); }, S::tie(v));
        mon::check(whole == parts, "bytes-differ", [&] { return "object " + mon::hex(whole) + " members " + mon::hex(parts); });
        mon::check(out.position() == each.position(), "position");
        // object written, members read one by one
        {
            S w{};
            zb::in in(whole, decltype(options)(options)...);
            std::apply([&](auto &... m) { ((void)mon::check(zb::success(in(m)), "member-read-fails"), ...); }, S::tie(w));
            mon::check(eq(v, w), "members-differ");
            mon::check(in.position() == whole.size(), "members-position");
        }
        // members written, object read into a dirty target
        {
            S w{};
            gen(r, w, g);
            zb::in in(parts, decltype(options)(options)...);
            if (mon::check(zb::success(in(w)), "read-fails", [&] { return mon::hex(parts); })) {
                mon::check(eq(v, w), "object-differs", [&] { return mon::hex(parts); });
                mon::check(in.position() == parts.size(), "read-position");
            }
        }
        // as a member and in a container
        {
            Outer<S> o{std::uint8_t(r.next()), std::move(v), std::uint32_t(r.next())};
            zb::out on(nested, decltype(options)(options)...);
            std::vector<std::byte> want;
            zb::out ow(want, decltype(options)(options)...);
            (void)on(o);
            (void)ow(o.a);
            std::apply([&](auto &... m) { ((void)ow(m), ...); }, S::tie(o.s));
            (void)ow(o.b);
            mon::check(nested == want, "nested-bytes", [&] { return mon::hex(nested) + " expected " + mon::hex(want); });
            std::vector<std::byte> row, row_want;
            zb::out orow(row, decltype(options)(options)...);
            zb::out oww(row_want, decltype(options)(options)...);
            std::vector<S> vec(2);
            for (auto & x : vec) gen(r, x, g);
            (void)orow(zb::unsized(vec));
            for (auto & x : vec) std::apply([&](auto &... m) { ((void)oww(m), ...); }, S::tie(x));
            mon::check(row == row_want, "container-bytes", [&] { return mon::hex(row) + " expected " + mon::hex(row_want); });
        }
        mon::count("objects");
        mon::nontrivial(mon::hash_bytes(whole.data(), whole.size(), whole.size()));
        mon::sample([&] { return mon::hex(whole, 40); });
    }
}
template <typename S, std::size_t N>
void bytes_only(const std::string & name)
{
    mon::count("classes");
    if constexpr (N % 3 == 0) bytes_pack<S>(name + "|2b", zb::size2b{}, zb::endian::swapped{});
    else if constexpr (N % 3 == 1) bytes_pack<S>(name + "|big", zb::endian::big{});
    else bytes_pack<S>(name);
}

template <typename S, std::size_t N, typename... Ts>
void judge_(const std::string & name, types<Ts...> list)
{
    if (mon::begin("count|" + name)) {
        std::size_t counts[] = {std::size_t(zb::number_of_members<S>()), std::size_t(zb::number_of_members<const S>()), std::size_t(zb::number_of_members<S &>()), std::size_t(zb::number_of_members<const S &>()), std::size_t(zb::number_of_members<S &&>())};
        for (auto c : counts) mon::check(c == N, "number-of-members", [&] { return std::to_string(c) + " expected " + std::to_string(N); });
        mon::max_of("members", N);
    }
    if (mon::begin("visit|" + name)) {
        S a{}, b{};
        visited<S>(a, list, "object");
        visited<S>(static_cast<const S &>(b), list, "constant object");
        using got = decltype(zb::visit_members_types<S>([]<typename... Us>() { return types<Us...>{}; }));
        using got_const = decltype(zb::visit_members_types<const S &>([]<typename... Us>() { return types<Us...>{}; }));
        mon::check(std::same_as<got, types<Ts...>>, "visit-members-types", [&] { return std::string(__PRETTY_FUNCTION__).substr(0, 600); });
        mon::check(std::same_as<got_const, types<Ts...>>, "visit-members-types", [&] { return "of a constant"; });
        mon::count("type-visits");
    }
    if constexpr (!requires { S::no_bytes; }) bytes_only<S, N + (sizeof...(Ts) ? sizeof(S) / 4 : 0)>(name);
}
template <typename S, std::size_t N, typename List>
void judge(const std::string & name)
{
    judge_<S, N>(name, List{});
}
} // namespace c27
