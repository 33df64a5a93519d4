// C28: error channels. Every code through every channel, random lives of results that
// carry a value or an error against a model, user errors raised at every call below
// every enclosing type.
#include "common/heap.hpp"
#include "common/zoo.hpp"
#include <list>
#include <memory>
#include <system_error>
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;
using namespace zpp::bits::literals;

inline const std::errc codes[] = {std::errc::address_family_not_supported, std::errc::address_in_use, std::errc::address_not_available, std::errc::already_connected, std::errc::argument_list_too_long, std::errc::argument_out_of_domain, std::errc::bad_address, std::errc::bad_file_descriptor, std::errc::bad_message, std::errc::broken_pipe, std::errc::connection_aborted, std::errc::connection_already_in_progress, std::errc::connection_refused, std::errc::connection_reset, std::errc::cross_device_link, std::errc::destination_address_required, std::errc::device_or_resource_busy, std::errc::directory_not_empty, std::errc::executable_format_error, std::errc::file_exists, std::errc::file_too_large, std::errc::filename_too_long, std::errc::function_not_supported, std::errc::host_unreachable, std::errc::identifier_removed, std::errc::illegal_byte_sequence, std::errc::inappropriate_io_control_operation, std::errc::interrupted, std::errc::invalid_argument, std::errc::invalid_seek, std::errc::io_error, std::errc::is_a_directory, std::errc::message_size, std::errc::network_down, std::errc::network_reset, std::errc::network_unreachable, std::errc::no_buffer_space, std::errc::no_child_process, std::errc::no_link, std::errc::no_lock_available, std::errc::no_message, std::errc::no_protocol_option, std::errc::no_space_on_device, std::errc::no_such_device_or_address, std::errc::no_such_device, std::errc::no_such_file_or_directory, std::errc::no_such_process, std::errc::not_a_directory, std::errc::not_a_socket, std::errc::not_connected, std::errc::not_enough_memory, std::errc::not_supported, std::errc::operation_canceled, std::errc::operation_in_progress, std::errc::operation_not_permitted, std::errc::operation_not_supported, std::errc::operation_would_block, std::errc::owner_dead, std::errc::permission_denied, std::errc::protocol_error, std::errc::protocol_not_supported, std::errc::read_only_file_system, std::errc::resource_deadlock_would_occur, std::errc::resource_unavailable_try_again, std::errc::result_out_of_range, std::errc::state_not_recoverable, std::errc::text_file_busy, std::errc::timed_out, std::errc::too_many_files_open_in_system, std::errc::too_many_files_open, std::errc::too_many_links, std::errc::too_many_symbolic_link_levels, std::errc::value_too_large, std::errc::wrong_protocol_type, std::errc(-1), std::errc(1), std::errc(255), std::errc(256), std::errc(0x10000), std::errc(0x7fffffff), std::errc(-0x7fffffff - 1)};
inline constexpr std::size_t n_codes = sizeof(codes) / sizeof(*codes);

// What f() threw: 0 nothing, 1 system_error of exactly this code, 2 anything else.
template <typename F>
int thrown(std::errc code, F && f)
{
    try {
        f();
        return 0;
    } catch (const std::system_error & e) {
        return e.code() == std::make_error_code(code) && e.code().value() == int(code) && e.code().category() == std::generic_category() ? 1 : 2;
    } catch (...) {
        return 2;
    }
}

// --- A: error codes
template <typename E>
void code_object(std::errc c)
{
    E e(c);
    bool fails = c != std::errc{};
    auto where = [&] { return std::to_string(int(c)) + " in " + zoo::type_name<E>(); };
    mon::check(zb::failure(e) == fails && zb::success(e) == !fails, "success-failure", where);
    if constexpr (std::is_same_v<E, zb::errc>) {
        const auto copy = e;
        mon::check(copy.code == c && std::errc(copy) == c && std::errc(std::move(e)) == c, "code-changed", where);
        for (int i = 0; i < 3; ++i) mon::check(thrown(c, [&] { i == 0 ? e.or_throw() : i == 1 ? copy.or_throw() : zb::errc(c).or_throw(); }) == (fails ? 1 : 0), "or-throw", where);
        mon::check((e == std::errc{}) == !fails, "comparison", where);
        zb::errc other{};
        mon::check(zb::success(other) && thrown({}, [&] { other.or_throw(); }) == 0, "default-is-success");
        other = e;
        mon::check(other.code == c, "assignment", where);
    }
    mon::count("codes");
    mon::nontrivial(std::uint64_t(int(c)));
}
static_assert(zb::success(zb::errc{}) && !zb::failure(zb::errc{}) && zb::failure(zb::errc{std::errc::timed_out}) && !zb::success(std::errc::bad_message));

// --- B: values or errors
struct Registry
{
    std::set<const void *> live;
    std::uint64_t born = 0, died = 0, bad = 0;
};
inline Registry reg;
struct Boom
{
};
// A life-time counted value that owns memory; knows when it has been moved from.
template <std::size_t Align, int Kind> // 0 all, 1 move only, 2 copy throws, 3 no default constructor
struct alignas(Align) Counted
{
    std::unique_ptr<std::uint64_t> p;
    static inline int throw_in = 0;
    void enter()
    {
        if (!reg.live.insert(this).second) ++reg.bad;
        if (std::uintptr_t(this) % Align) ++reg.bad;
        ++reg.born;
    }
    Counted() requires(Kind != 3) : p(std::make_unique<std::uint64_t>(0)) { enter(); }
    explicit Counted(std::uint64_t v) : p(std::make_unique<std::uint64_t>(v)) { enter(); }
    Counted(Counted && o) noexcept : p(std::move(o.p))
    {
        if (!reg.live.count(&o)) ++reg.bad;
        enter();
    }
    Counted(const Counted & o) requires(Kind != 1)
    {
        if (Kind == 2 && throw_in && --throw_in == 0) throw Boom{};
        if (o.p) p = std::make_unique<std::uint64_t>(*o.p);
        enter();
    }
    Counted & operator=(Counted && o) noexcept
    {
        if (!reg.live.count(&o) || !reg.live.count(this)) ++reg.bad;
        p = std::move(o.p);
        return *this;
    }
    ~Counted()
    {
        if (!reg.live.erase(this)) ++reg.bad;
        ++reg.died;
    }
    std::uint64_t get() const { return p ? *p : ~0ull; }
};

// How to make a value from a number and get the number back.
template <typename T>
struct Via
{
    static T make(std::uint64_t n) { return T(n); }
    static std::uint64_t get(const T & v)
    {
        if constexpr (requires { v.get(); }) return v.get();
        else return std::uint64_t(v);
    }
    static std::uint64_t norm(std::uint64_t n)
    {
        if constexpr (requires(const T & v) { v.get(); }) return n;
        else return std::uint64_t(T(n));
    }
};
template <>
struct Via<std::string>
{
    static std::string make(std::uint64_t n) { return std::to_string(n) + std::string(n % 40, '*'); }
    static std::uint64_t get(const std::string & s) { return std::strtoull(s.c_str(), nullptr, 10); }
    static std::uint64_t norm(std::uint64_t n) { return n; }
};
template <typename T>
struct Via<std::vector<T>>
{
    static std::vector<T> make(std::uint64_t n)
    {
        std::vector<T> v;
        for (std::uint64_t i = 0; i <= n % 3; ++i) v.push_back(Via<T>::make(n));
        return v;
    }
    static std::uint64_t get(const std::vector<T> & v)
    {
        if (v.empty() || v.size() != Via<T>::get(v[0]) % 3 + 1) return ~0ull;
        for (auto & x : v)
            if (Via<T>::get(x) != Via<T>::get(v[0])) return ~0ull;
        return Via<T>::get(v[0]);
    }
    static std::uint64_t norm(std::uint64_t n) { return Via<T>::norm(n); }
};
template <typename T>
struct Via<std::unique_ptr<T>>
{
    static std::unique_ptr<T> make(std::uint64_t n) { return std::make_unique<T>(Via<T>::make(n)); }
    static std::uint64_t get(const std::unique_ptr<T> & v) { return v ? Via<T>::get(*v) : ~0ull; }
    static std::uint64_t norm(std::uint64_t n) { return Via<T>::norm(n); }
};
template <typename T>
struct Via<std::optional<T>>
{
    static std::optional<T> make(std::uint64_t n) { return n % 4 ? std::optional<T>(Via<T>::make(n)) : std::nullopt; }
    static std::uint64_t get(const std::optional<T> & v) { return v ? Via<T>::get(*v) : 0; }
    static std::uint64_t norm(std::uint64_t n) { return n % 4 ? Via<T>::norm(n) : 0; }
};
template <>
struct Via<std::tuple<std::string, std::uint32_t>>
{
    using T = std::tuple<std::string, std::uint32_t>;
    static T make(std::uint64_t n) { return {Via<std::string>::make(n), std::uint32_t(n)}; }
    static std::uint64_t get(const T & v) { return Via<std::string>::get(std::get<0>(v)) == std::get<1>(v) ? std::get<1>(v) : ~0ull; }
    static std::uint64_t norm(std::uint64_t n) { return n; }
};
template <>
struct Via<std::errc>
{
    static std::errc make(std::uint64_t n) { return std::errc(int(n)); }
    static std::uint64_t get(std::errc v) { return std::uint64_t(unsigned(v)); }
    static std::uint64_t norm(std::uint64_t n) { return std::uint64_t(unsigned(n)); }
};
struct OneByte
{
    std::uint8_t b;
};
template <>
struct Via<OneByte>
{
    static OneByte make(std::uint64_t n) { return {std::uint8_t(n)}; }
    static std::uint64_t get(OneByte v) { return v.b; }
    static std::uint64_t norm(std::uint64_t n) { return std::uint8_t(n); }
};

template <typename T>
std::uint64_t fresh()
{
    if constexpr (std::is_default_constructible_v<T>) return Via<T>::get(T{});
    else return 0;
}

struct Slot
{
    bool full = false, fails = false, moved = false, deflt = false;
    std::uint64_t value = 0;
    std::errc code{};
};

template <typename T>
void lives(std::uint64_t n)
{
    using V = zb::value_or_errc<T>;
    constexpr std::size_t slots = 6;
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "lives of " + zoo::type_name<T>() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        auto before = reg;
        {
            struct alignas(64) Mem
            {
                unsigned char b[((sizeof(V) + 63) / 64) * 64];
            };
            static_assert(alignof(V) <= 64);
            std::vector<std::unique_ptr<Mem>> mem;
            Slot model[slots];
            for (std::size_t k = 0; k < slots; ++k) {
                mem.push_back(std::make_unique<Mem>());
                std::memset(mem[k]->b, int(r.next()), sizeof(Mem));
            }
            auto at = [&](std::size_t k) -> V & { return *std::launder(reinterpret_cast<V *>(mem[k]->b)); };
            std::uint64_t h = 0;
            auto look = [&](std::size_t k) {
                auto & m = model[k];
                V & v = at(k);
                const V & cv = v;
                auto where = [&] { return "slot " + std::to_string(k) + (m.fails ? " failure " + std::to_string(int(m.code)) : " value " + std::to_string(m.value)); };
                mon::check(cv.success() == !m.fails && cv.failure() == m.fails, "value-or-error", where);
                if (m.fails) {
                    mon::check(cv.error().code == m.code, "error-changed", where);
                    mon::check(zb::failure(cv.error()) && !zb::success(cv.error()), "error-is-no-failure", where);
                    mon::check(thrown(m.code, [&] { (void)v.or_throw(); }) == 1, "or-throw-lvalue", where);
                    mon::check(thrown(m.code, [&] { (void)cv.or_throw(); }) == 1, "or-throw-const", where);
                    mon::check(thrown(m.code, [&] { (void)std::move(v).or_throw(); }) == 1, "or-throw-rvalue", where);
                    mon::count("failures-looked-at");
                } else if (!m.moved) {
                    auto want = m.deflt ? fresh<T>() : Via<T>::norm(m.value);
                    mon::check(Via<T>::get(v.value()) == want && Via<T>::get(cv.value()) == want, "value-changed", where);
                    mon::check(std::addressof(v.value()) == std::addressof(cv.value()), "value-copied", where);
                    int none = thrown({}, [&] {
                        decltype(auto) a = v.or_throw();
                        decltype(auto) b = cv.or_throw();
                        static_assert(std::is_same_v<decltype(a), T &> && std::is_same_v<decltype(b), const T &> && std::is_same_v<decltype(std::move(v).or_throw()), T &&>);
                        mon::check(std::addressof(a) == std::addressof(v.value()) && std::addressof(b) == std::addressof(a), "or-throw-copies", where);
                        auto && c = std::move(v).or_throw();
                        mon::check(std::addressof(c) == std::addressof(a), "or-throw-copies", where);
                        mon::check(Via<T>::get(a) == want, "or-throw-value", where);
                    });
                    mon::check(none == 0, "success-throws", where);
                    mon::count("values-looked-at");
                }
                // the free functions take the result by value or reference
                mon::check(zb::success(v) == !m.fails && zb::failure(v) == m.fails && zb::success(cv) == !m.fails && zb::failure(cv) == m.fails, "free-success-failure", where);
            };
            for (int step = 0; step < 40; ++step) {
                auto k = r.below(slots);
                auto & m = model[k];
                auto op = r.below(10);
                h = mon::mix(h ^ (k * 16 + op));
                if (!m.full) {
                    if (r.chance(1, 2)) std::memset(mem[k]->b, int(r.next()), sizeof(Mem));
                    m = {};
                    auto num = r.next() & 0x7fffffff;
                    if (op < 3) {
                        new (mem[k]->b) V(Via<T>::make(num));
                        m = {true, false, false, false, num, {}};
                        mon::count("made-from-rvalue");
                    } else if (op == 3) {
                        if constexpr (std::is_copy_constructible_v<T>) {
                            T t = Via<T>::make(num);
                            const T ct = Via<T>::make(num);
                            if constexpr (requires { T::throw_in; }) T::throw_in = r.chance(1, 3);
                            try {
                                r.chance(1, 2) ? new (mem[k]->b) V(t) : new (mem[k]->b) V(ct);
                                m = {true, false, false, false, num, {}};
                                mon::count("made-from-lvalue");
                                mon::check(Via<T>::get(t) == Via<T>::norm(num), "source-changed");
                            } catch (Boom) {
                                mon::count("throwing-copies");
                            }
                            if constexpr (requires { T::throw_in; }) T::throw_in = 0;
                        }
                    } else if (op == 4) {
                        if constexpr (std::is_default_constructible_v<T>) {
                            new (mem[k]->b) V;
                            m = {true, false, false, true, 0, {}};
                            mon::count("made-from-nothing");
                        }
                    } else if (op < 7) {
                        auto c = codes[r.below(n_codes)];
                        zb::errc e{c};
                        if (r.chance(1, 2)) new (mem[k]->b) V(e);
                        else new (mem[k]->b) V(zb::errc{c});
                        m = {true, true, false, false, 0, c};
                        mon::count("made-from-errors");
                    } else {
                        for (std::size_t t = 1; t < slots; ++t) {
                            auto s = (k + t) % slots;
                            if (!model[s].full) continue;
                            new (mem[k]->b) V(std::move(at(s)));
                            bool was_moved = model[s].moved;
                            m = model[s];
                            m.moved = was_moved;
                            if (!m.fails && !std::is_trivially_copyable_v<T>) model[s].moved = true;
                            if (was_moved) m.moved = true;
                            look(s);
                            mon::count(m.fails ? "moved-errors" : "moved-values");
                            break;
                        }
                    }
                } else if (op < 3) {
                    look(k);
                    at(k).~V();
                    std::memset(mem[k]->b, 0xdd, sizeof(Mem));
                    m = {};
                    mon::count("destroyed");
                } else if (op < 5 && !m.fails && !m.moved) {
                    // take the value out
                    auto want = m.deflt ? fresh<T>() : Via<T>::norm(m.value);
                    if (op == 3) {
                        T t = std::move(at(k)).value();
                        mon::check(Via<T>::get(t) == want, "taken-value");
                    } else {
                        T t = std::move(at(k)).or_throw();
                        mon::check(Via<T>::get(t) == want, "taken-value");
                    }
                    m.moved = !std::is_trivially_copyable_v<T>;
                    mon::count("taken");
                } else look(k);
                for (std::size_t s = 0; s < slots; ++s)
                    if (model[s].full) look(s);
            }
            for (std::size_t k = 0; k < slots; ++k)
                if (model[k].full) at(k).~V();
            mon::nontrivial(h);
        }
        mon::check(reg.live.size() == before.live.size() && reg.born - before.born == reg.died - before.died && reg.bad == before.bad, "lifetimes", [&] { return "born " + std::to_string(reg.born - before.born) + " died " + std::to_string(reg.died - before.died) + " misused " + std::to_string(reg.bad - before.bad); });
        mon::count("histories");
    }
}

// --- C: user errors below every enclosing type
struct Plan
{
    unsigned at = 0, calls = 0, after = 0;
    bool failed = false, partial = false;
    std::errc code{};
};
inline Plan plan;
// true: this call fails
inline bool enter_call()
{
    if (plan.failed) ++plan.after;
    if (++plan.calls == plan.at) return plan.failed = true;
    return false;
}

inline std::errc user_call(auto & archive, auto & x)
{
    if (enter_call()) {
        if (plan.partial)
            if (auto res = archive(x); zb::failure(res)) return res;
        return plan.code;
    }
    return archive(x);
}
template <int Form> // 0: zpp::bits::errc, 1: std::errc
struct Bad
{
    std::uint8_t x = 1;
    static auto serialize(auto & archive, auto & self) -> std::conditional_t<Form == 1, std::errc, zb::errc> { return user_call(archive, self.x); }
    auto operator<=>(const Bad &) const = default;
};
template <>
struct Bad<2> // two functions outside
{
    std::uint8_t x = 1;
    Bad() = default;
    Bad(std::uint8_t x) : x(x) {}
    auto operator<=>(const Bad &) const = default;
};
zb::errc serialize(auto & archive, Bad<2> & self) { return user_call(archive, self.x); }
zb::errc serialize(auto & archive, const Bad<2> & self) { return user_call(archive, self.x); }
template <int F>
struct std::hash<Bad<F>>
{
    std::size_t operator()(const Bad<F> & b) const { return b.x; }
};

template <typename B>
struct Aggregate
{
    std::uint16_t a{};
    B b;
    std::string s;
    B c;
    auto operator<=>(const Aggregate &) const = default;
};
template <typename B>
struct Declared
{
    using serialize = zb::members<3>;
    B a[2];
    std::uint32_t x{};
    std::optional<B> o;
};
template <typename B>
class Hidden
{
    friend zpp::bits::access;
    using serialize = zb::members<3>;
    std::uint8_t k{};
    B b;
    std::vector<B> v;

public:
    void fill() { v.resize(2); }
};
template <typename B>
struct Explicit2
{
    static auto serialize(auto & archive, auto & self) { return archive(self.b, self.s, self.c); }
    B b;
    std::string s;
    B c;
};
template <typename B>
struct Stepwise
{
    static zb::errc serialize(auto & archive, auto & self)
    {
        if (auto res = archive(self.b); zb::failure(res)) return res;
        if (auto res = archive(self.x); zb::failure(res)) return res;
        return archive(self.v);
    }
    B b;
    std::uint64_t x{};
    std::vector<B> v;
};
template <typename B>
struct OutsideMembers
{
    OutsideMembers() {}
    std::vector<B> b;
    std::uint16_t x{};
};
template <typename B>
auto serialize(const OutsideMembers<B> &) -> zb::members<2>;
template <typename B, int N>
struct WithId
{
    using serialize_id = zb::id<std::uint16_t(0x100 + N)>;
    B b;
    std::uint8_t y{};
};
template <typename B>
struct TreeNode
{
    using serialize = zb::members<2>;
    B b;
    std::vector<TreeNode> kids;
};
template <typename B>
struct Chain
{
    using serialize = zb::members<2>;
    B b;
    zb::optional_ptr<Chain> next;
};

// fill(v): give every container a few elements so that serialize is reached
template <typename T>
void fill(Rng & r, T & v, int depth = 0);
inline std::uint8_t small(Rng & r) { return std::uint8_t(r.below(100)); }
template <typename T>
T filled(Rng & r, int depth)
{
    T t{};
    fill(r, t, depth);
    return t;
}
template <typename T, template <typename...> class C>
inline constexpr bool is = false;
template <template <typename...> class C, typename... A>
inline constexpr bool is<C<A...>, C> = true;
template <typename T>
struct base_of;
template <typename T, typename S>
struct base_of<zb::sized_item<T, S>>
{
    using type = T;
};
template <typename T>
inline constexpr bool is_bad = false;
template <int F>
inline constexpr bool is_bad<Bad<F>> = true;
template <typename T>
inline constexpr bool is_with_id = false;
template <typename B, int N>
inline constexpr bool is_with_id<WithId<B, N>> = true;
template <typename T>
void fill(Rng & r, T & v, int depth)
{
    auto n = [&] { return std::size_t(1 + r.below(depth > 2 ? 1 : 3)); };
    if constexpr (is_bad<T>) v.x = small(r);
    else if constexpr (std::is_arithmetic_v<T>) v = T(small(r));
    else if constexpr (std::is_same_v<T, std::string>) v.assign(r.below(5), 'e');
    else if constexpr (std::is_same_v<T, std::monostate>) {
    } else if constexpr (is<T, std::vector> || is<T, std::list> || is<T, std::deque>) {
        v.resize(n());
        for (auto & x : v) fill(r, x, depth + 1);
    } else if constexpr (is<T, std::set> || is<T, std::unordered_set> || is<T, std::multiset>) {
        for (auto k = n(); k--;) v.insert(filled<typename T::key_type>(r, depth + 1));
    } else if constexpr (is<T, std::map> || is<T, std::unordered_map> || is<T, std::multimap>) {
        for (auto k = n(); k--;) v.insert({filled<typename T::key_type>(r, depth + 1), filled<typename T::mapped_type>(r, depth + 1)});
    } else if constexpr (is<T, std::optional>) v.emplace(filled<typename T::value_type>(r, depth + 1));
    else if constexpr (is<T, std::unique_ptr> || is<T, std::shared_ptr> || is<T, zb::optional_ptr>) {
        if constexpr (is<T, std::shared_ptr>) v = std::make_shared<typename T::element_type>(filled<typename T::element_type>(r, depth + 1));
        else v = T(std::make_unique<typename T::element_type>(filled<typename T::element_type>(r, depth + 1)));
    } else if constexpr (is<T, std::variant>) {
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            auto k = r.below(sizeof...(I));
            ((I == k ? (void)v.template emplace<I>(filled<std::variant_alternative_t<I, T>>(r, depth + 1)) : (void)0), ...);
        }(std::make_index_sequence<std::variant_size_v<T>>{});
    } else if constexpr (is<T, Aggregate> || is<T, Explicit2>) {
        fill(r, v.b, depth + 1), fill(r, v.s, depth), fill(r, v.c, depth + 1);
    } else if constexpr (is<T, Declared>) {
        for (auto & x : v.a) fill(r, x, depth + 1);
        fill(r, v.o, depth + 1);
    } else if constexpr (is<T, Hidden>) v.fill();
    else if constexpr (is<T, Stepwise>) {
        fill(r, v.b, depth + 1), fill(r, v.v, depth + 1);
    } else if constexpr (is<T, OutsideMembers>) fill(r, v.b, depth + 1);
    else if constexpr (is_with_id<T>) fill(r, v.b, depth + 1);
    else if constexpr (is<T, TreeNode>) {
        fill(r, v.b, depth + 1);
        if (depth < 4) {
            v.kids.resize(r.below(3));
            for (auto & k : v.kids) fill(r, k, depth + 1);
        }
    } else if constexpr (is<T, Chain>) {
        fill(r, v.b, depth + 1);
        if (depth < 4 && r.chance(3, 4)) fill(r, v.next, depth + 1);
    } else if constexpr (requires { std::tuple_size<T>::value; }) {
        if constexpr (requires { v.fill(v[0]); }) {
            for (auto & x : v) fill(r, x, depth + 1);
        } else std::apply([&](auto &... x) { (fill(r, x, depth + 1), ...); }, v);
    } else if constexpr (is<T, zb::sized_item>) fill(r, static_cast<typename base_of<T>::type &>(v), depth);
    else static_assert(sizeof(T) == 0);
}

template <typename B>
using Enclosing = std::tuple<
    B, std::vector<B>, std::array<B, 3>, std::list<B>, std::deque<B>, std::tuple<std::uint32_t, B, B>, std::pair<B, B>, std::pair<std::string, B>, std::optional<B>,
    std::variant<B>, std::variant<std::uint32_t, B>, std::variant<std::monostate, std::vector<B>, B>, std::variant<WithId<B, 1>, WithId<B, 2>>,
    std::unique_ptr<B>, std::shared_ptr<B>, zb::optional_ptr<B>, std::map<std::uint8_t, B>, std::map<B, std::uint8_t>, std::map<B, B>, std::multimap<B, std::string>,
    std::set<B>, std::multiset<B>, std::unordered_set<B>, std::unordered_map<std::uint8_t, B>, std::unordered_map<B, std::uint16_t>,
    Aggregate<B>, Declared<B>, Hidden<B>, Explicit2<B>, Stepwise<B>, OutsideMembers<B>, TreeNode<B>, Chain<B>,
    std::vector<std::vector<B>>, std::vector<std::optional<B>>, std::vector<std::unique_ptr<B>>, std::vector<Aggregate<B>>, std::optional<std::vector<B>>, std::unique_ptr<Aggregate<B>>,
    std::map<std::string, std::vector<std::optional<B>>>, std::array<std::array<B, 2>, 2>, std::array<std::vector<B>, 2>, std::tuple<std::tuple<B>, std::pair<std::uint16_t, std::vector<B>>>,
    std::variant<std::string, std::map<std::uint8_t, B>, Aggregate<B>>, std::vector<std::variant<std::uint8_t, B>>, std::shared_ptr<std::vector<B>>, Aggregate<Aggregate<B>>,
    Explicit2<Stepwise<B>>, Stepwise<Declared<B>>, Hidden<Explicit2<B>>, zb::sized_t<std::vector<B>, std::uint16_t>, zb::sized_t<std::map<std::uint8_t, B>, zb::vsize_t>, std::vector<zb::sized_t<std::vector<B>, std::uint8_t>>>;

template <typename F>
void expect(std::errc code, unsigned at, const char * what, F && run)
{
    plan = {};
    plan.at = at;
    plan.code = code;
    auto res = run();
    auto where = [&] { return std::string(what) + " raised " + std::to_string(int(code)) + " at call " + std::to_string(at) + " reported " + std::to_string(int(res.code)) + " calls " + std::to_string(plan.calls) + " after " + std::to_string(plan.after); };
    mon::check(res.code == code, "code-changed-on-the-way", where);
    mon::check(zb::failure(res) && !zb::success(res), "failure-not-reported", where);
    mon::check(plan.calls == at && plan.after == 0, "calls-after-failure", where);
    mon::count("propagated");
}
template <typename F>
void expect_throw(std::errc code, unsigned at, const char * what, F && run)
{
    plan = {};
    plan.at = at;
    plan.code = code;
    int t = thrown(code, run);
    mon::check(t == (code == std::errc{} ? 0 : 1), "or-throw-code", [&] { return std::string(what) + " raised " + std::to_string(int(code)) + " thrown " + std::to_string(t); });
    mon::count("thrown");
}

template <typename T, typename B, int Form>
void nested(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "nested in " + zoo::type_name<T>() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        T v = filled<T>(r, 0);
        B last;
        last.x = 0xee;
        std::vector<std::byte> data;
        plan = {};
        unsigned total = 0;
        {
            zb::out out{data};
            mon::check(zb::success(out(v, std::uint32_t(7), last)), "valid-write-fails");
            total = plan.calls;
        }
        plan = {};
        {
            T back{};
            std::uint32_t seven = 0;
            B l2;
            zb::in in{data};
            auto res = in(back, seven, l2);
            mon::check(zb::success(res) && plan.calls == total && seven == 7 && l2.x == 0xee, "valid-read-fails", [&] { return "errc " + std::to_string(int(res.code)); });
        }
        auto seen = [&](unsigned at) {
            auto code = codes[r.below(n_codes)];
            plan.partial = false;
            bool partial = r.chance(1, 2);
            auto with = [&](auto && f) {
                return [&] {
                    plan.partial = partial;
                    return f();
                };
            };
            {
                std::vector<std::byte> d2(r.below(3) ? 0 : data.size() + 5, std::byte{0xaa});
                expect(code, at, "growing write", with([&] { return zb::out{d2}(v, std::uint32_t(7), last); }));
            }
            {
                heap::Exact<unsigned char> block(data.size() + 4);
                auto s = block.span();
                expect(code, at, "fixed write", with([&] { return zb::out{s}(std::as_const(v), std::uint32_t(7), last); }));
            }
            {
                T back{};
                std::uint32_t seven = 0;
                B l2;
                expect(code, at, "read", with([&] { return zb::in{data}(back, seven, l2); }));
                if (at < total) mon::check(l2.x == 1, "read-on-after-failure");
                if (at < total) mon::check(seven == 0, "read-on-after-failure");
                T dirty = filled<T>(r, 0);
                expect(code, at, "read over", with([&] { return zb::in{data}(dirty, seven, l2); }));
            }
            expect_throw(code, at, "write", [&] {
                std::vector<unsigned char> d3;
                zb::out{d3}(v, last).or_throw();
            });
            expect_throw(code, at, "read", [&] {
                T back{};
                B l2;
                std::uint32_t seven = 0;
                zb::in{data}(back, seven, l2).or_throw();
            });
            if constexpr (std::is_move_constructible_v<T>) { // parameters of an applied function
                int called = 0;
                auto f = [&](T, std::uint32_t, B) { ++called; };
                auto g = [&](T, std::uint32_t, B) -> std::string {
                    ++called;
                    return "done";
                };
                expect(code, at, "apply", with([&] {
                    zb::in in{data};
                    return zb::apply(f, in);
                }));
                plan = {};
                plan.at = at;
                plan.code = code;
                zb::in in{data};
                auto res = zb::apply(g, in);
                mon::check(res.failure() && !res.success() && res.error().code == code && zb::failure(res) && plan.calls == at, "apply-result", [&] { return std::to_string(int(res.error().code)); });
                mon::check(thrown(code, [&] { (void)res.or_throw(); }) == 1, "apply-or-throw");
                plan = {};
                in.reset();
                auto good = zb::apply(g, in);
                mon::check(good.success() && good.value() == "done" && std::move(good).or_throw() == "done", "apply-result");
                mon::check(called == 1, "called-on-failure");
                mon::count("applied");
            }
        };
        for (unsigned at = 1; at <= total; ++at)
            if (total <= 8 || at <= 3 || at + 2 > total || r.chance(4, total)) seen(at);
        // both channels agree on failures of the library itself
        for (int k = 0; k < 4; ++k) {
            auto cut = r.below(data.size());
            heap::Exact<std::byte> block(cut);
            std::memcpy(block.data(), data.data(), cut);
            auto s = std::span<const std::byte>(block.span());
            std::errc code{};
            plan = {};
            auto read = [&] {
                T back{};
                std::uint32_t seven = 0;
                B l2;
                return zb::in{s}(back, seven, l2);
            };
            auto res = read();
            code = res.code;
            mon::check(code != std::errc{}, "cut-read-succeeds", [&] { return std::to_string(cut); });
            expect_throw(code, 0, "cut", [&] { read().or_throw(); });
            auto room = heap::Exact<std::byte>(cut);
            auto m = room.span();
            auto write = [&] { return zb::out{m}(v, std::uint32_t(7), last); };
            auto wres = write();
            mon::check(zb::failure(wres), "tight-write-succeeds");
            expect_throw(wres.code, 0, "tight", [&] { write().or_throw(); });
        }
        expect_throw({}, 0, "success", [&] {
            T back{};
            zb::in{data}(back).or_throw();
            std::vector<char> d;
            zb::out{d}(back).or_throw();
        });
        mon::count("enclosing");
        mon::nontrivial(mon::hash_bytes(data.data(), data.size()));
        mon::max_of("calls", total);
        mon::sample([&] { return std::to_string(total) + " calls, " + mon::hex(data, 40); });
    }
}

// --- D: the whole zoo: one result, both channels
template <typename T>
void channels(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "channels of " + zoo::type_name<T>() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        T v{};
        gen(r, v, G{6, 0});
        std::vector<std::byte> data;
        auto w = zb::out{data}(v);
        mon::check(zb::success(w) && !zb::failure(w) && w.code == std::errc{}, "write-fails");
        mon::check(thrown({}, [&] {
                       std::vector<std::byte> d2;
                       zb::out{d2}(v).or_throw();
                   }) == 0, "success-throws");
        for (int k = 0; k < 6; ++k) {
            auto cut = k == 0 ? data.size() : r.below(data.size() + 1);
            heap::Exact<std::byte> block(cut);
            if (cut) std::memcpy(block.data(), data.data(), cut);
            auto s = std::span<const std::byte>(block.span());
            auto a = [&] {
                T t{};
                return zb::in{s}(t);
            }();
            auto t = thrown(a.code, [&] {
                T t{};
                zb::in{s}(t).or_throw();
            });
            mon::check((a.code == std::errc{}) == zb::success(a) && zb::success(a) != zb::failure(a), "success-and-failure");
            mon::check((cut == data.size()) == zb::success(a), "cut", [&] { return std::to_string(cut) + " of " + std::to_string(data.size()) + " errc " + std::to_string(int(a.code)); });
            mon::check(t == (zb::failure(a) ? 1 : 0), "channels-differ", [&] { return std::to_string(int(a.code)) + " thrown " + std::to_string(t); });
            heap::Exact<unsigned char> room(cut);
            auto m = room.span();
            auto b = zb::out{m}(v);
            auto t2 = thrown(b.code, [&] { zb::out{m}(v).or_throw(); });
            mon::check(t2 == (zb::failure(b) ? 1 : 0) && (cut == data.size()) == zb::success(b), "write-channels-differ", [&] { return std::to_string(int(b.code)) + " thrown " + std::to_string(t2); });
            mon::count(zb::failure(a) ? "failing-reads" : "good-reads");
        }
        mon::nontrivial(mon::hash_bytes(data.data(), data.size()));
    }
    mon::count("zoo-types");
}

// --- E: remote calls
template <int Form>
struct Remote
{
    using B = Bad<Form>;
    static inline int called = 0;
    static inline zb::errc answer{};
    static std::vector<B> give(std::uint8_t n, B b)
    {
        ++called;
        return std::vector<B>(n % 3 + 1, b);
    }
    static void take(std::vector<B>) { ++called; }
    static std::uint32_t many(std::pair<B, B>, std::string, std::optional<B>)
    {
        ++called;
        return 77;
    }
    static zb::errc report(std::uint8_t)
    {
        ++called;
        return answer;
    }
    using rpc = zb::rpc<zb::bind<give, "give"_sha256_int>, zb::bind<take, "take"_sha256_int>, zb::bind<many, "many"_sha256_int>, zb::bind<report, "report"_sha256_int>>;

    static void run(std::uint64_t n)
    {
        for (std::uint64_t i = 0; i < n; ++i) {
            auto label = "rpc form " + std::to_string(Form) + "|i=" + std::to_string(i);
            if (!mon::begin(label)) continue;
            auto r = mon::rng(label);
            auto code = codes[r.below(n_codes)];
            // fail at the k-th user call of the whole exchange; each step reports it
            for (unsigned at = 0; at < 14; ++at) {
                for (int fn = 0; fn < 3; ++fn) {
                    auto [data, in, out] = zb::data_in_out();
                    typename rpc::template client<decltype(in) &, decltype(out) &> client{in, out};
                    typename rpc::template server<decltype(in) &, decltype(out) &> server{in, out};
                    plan = {};
                    plan.at = at;
                    plan.code = code;
                    called = 0;
                    B b;
                    b.x = 9;
                    auto judge = [&](auto && res, const char * step) {
                        bool here = plan.failed;
                        mon::check(zb::failure(res) == here && zb::success(res) == !here, "rpc-failure", [&] { return std::string(step) + " function " + std::to_string(fn) + " call " + std::to_string(at); });
                        mon::check(plan.after == 0, "rpc-calls-after-failure", [&] { return step; });
                        if constexpr (requires { res.code; }) mon::check(res.code == (here ? code : std::errc{}), "rpc-code", [&] { return std::string(step) + " " + std::to_string(int(res.code)); });
                        else if (here) {
                            mon::check(res.error().code == code, "rpc-code", [&] { return std::string(step) + " " + std::to_string(int(res.error().code)); });
                            mon::check(thrown(code, [&] { (void)res.or_throw(); }) == 1, "rpc-or-throw");
                        }
                        mon::count(here ? "rpc-failures" : "rpc-steps");
                        return here;
                    };
                    bool f = fn == 0 ? judge(client.template request<"give"_sha256_int>(std::uint8_t(2), b), "request") : fn == 1 ? judge(client.template request<"take"_sha256_int>(std::vector<B>(2, b)), "request") : judge(client.template request<"many"_sha256_int>(std::pair<B, B>{b, b}, std::string("x"), std::optional<B>{b}), "request");
                    if (f) continue;
                    bool ran = false;
                    auto served = server.serve();
                    ran = called == 1;
                    f = judge(served, "serve");
                    if (f) {
                        mon::count(ran ? "rpc-failing-results" : "rpc-failing-arguments");
                        continue;
                    }
                    mon::check(called == 1, "rpc-called");
                    if (fn == 0) {
                        auto res = client.template response<"give"_sha256_int>();
                        if (!judge(res, "response")) mon::check(res.value().size() == 3 && res.value()[2].x == 9, "rpc-value");
                    }
                    if (fn == 2) {
                        auto res = client.template response<"many"_sha256_int>();
                        if (!judge(res, "response")) mon::check(std::move(res).or_throw() == 77, "rpc-value");
                    }
                    mon::nontrivial(at * 3 + fn);
                }
            }
        }
    }
};

template <int Form>
void all_nested()
{
    using E = Enclosing<Bad<Form>>;
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        (
            [&] {
                if constexpr ((I + Form) % PARTS == PART) {
                    nested<std::tuple_element_t<I, E>, Bad<Form>, Form>(mon::iters(6, 150));
                    mon::count("enclosing-types");
                }
            }(),
            ...);
    }(std::make_index_sequence<std::tuple_size_v<E>>{});
    if constexpr (Form % PARTS == PART) Remote<Form>::run(mon::iters(12, 400));
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    all_nested<0>();
    all_nested<1>();
    all_nested<2>();
    using Values = std::tuple<Counted<16, 0>, Counted<64, 0>, Counted<8, 1>, Counted<8, 2>, Counted<32, 3>, std::string, std::unique_ptr<Counted<8, 0>>, std::vector<Counted<8, 0>>, std::vector<std::string>, std::optional<std::string>, std::tuple<std::string, std::uint32_t>, std::uint32_t, bool, char, std::uint64_t, OneByte, std::errc, std::unique_ptr<std::string>>;
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        (
            [&] {
                if constexpr (I % PARTS == PART) lives<std::tuple_element_t<I, Values>>(mon::iters(120, 5000));
            }(),
            ...);
    }(std::make_index_sequence<std::tuple_size_v<Values>>{});
    zoo::each<PART, PARTS>(zoo::Zoo{}, []<typename T, std::size_t I> { channels<T>(mon::iters(6, 200)); });
    if (PART == 0) {
        for (int c = -300; c < 300; ++c)
            if (mon::begin("code " + std::to_string(c))) code_object<zb::errc>(std::errc(c)), code_object<std::errc>(std::errc(c));
        for (auto c : codes)
            if (mon::begin("named code " + std::to_string(int(c)))) code_object<zb::errc>(c), code_object<std::errc>(c);
    }
    return mon::finish();
}
