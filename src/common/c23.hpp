// Monitors of the generated C23 harness (tools/gen23.py).
#pragma once
#include <algorithm>
#include <array>
#include <span>
#include <string>
#include <string_view>
namespace c23
{
namespace zb = zpp::bits;
using namespace zpp::bits::literals;
using b = std::byte;
template <std::size_t N>
std::string_view T(const char (&s)[N])
{
    return {s, N - 1};
}
inline std::string bytes_of(const auto & a)
{
    std::string r;
    for (auto & x : a) r.push_back(char(x));
    return r;
}
inline bool case_(const std::string & label)
{
    return mon::begin(label);
}
inline int serial = 0;

template <auto Message, bool CompileTime>
void digests(std::size_t n, std::string_view want1, std::string_view want2)
{
    auto label = "digest|n=" + std::to_string(n) + "|" + std::to_string(serial++);
    if (!case_(label)) return;
    auto judge = [&](const auto & got, std::string_view want, const char * what) {
        auto g = bytes_of(got);
        mon::check(g == want, what, [&] { return "length " + std::to_string(n) + " expected " + mon::hex(want) + " got " + mon::hex(g) + " message " + mon::hex(bytes_of(zb::to_bytes<Message>()), 200); });
        mon::count(what);
    };
    judge(zb::sha1<Message>(), want1, "sha1");
    judge(zb::sha256<Message>(), want2, "sha256");
    if (n % 8 == 1) {
        judge(zb::sha1<Message, std::array<unsigned char, 20>>(), want1, "sha1-of-other-byte-type");
        judge(zb::sha256<Message, std::array<char, 32>>(), want2, "sha256-of-other-byte-type");
    }
    if constexpr (CompileTime) {
        constexpr auto d1 = zb::sha1<Message>();
        constexpr auto d2 = zb::sha256<Message>();
        judge(d1, want1, "sha1-at-compile-time");
        judge(d2, want2, "sha256-at-compile-time");
        static_assert(d1.size() == 20 && d2.size() == 32);
    }
    mon::count("lengths");
    mon::nontrivial(mon::hash_str(want2));
    mon::sample([&] { return std::to_string(n) + " bytes -> " + mon::hex(want2); });
}
void literal_bytes(const auto & got, std::string_view want, const char * what)
{
    auto label = std::string("literal|") + what + "|" + std::to_string(serial++);
    if (!case_(label)) return;
    auto g = bytes_of(got);
    mon::check(g == want && got.size() == want.size(), what, [&] { return "expected " + mon::hex(want) + " got " + mon::hex(g); });
    mon::count(what);
    mon::nontrivial(mon::hash_str(want));
}
void literal_int(auto got, std::uint32_t want, const char * what)
{
    auto label = std::string("literal|") + what + "|" + std::to_string(serial++);
    if (!case_(label)) return;
    static_assert(sizeof(got) == 4 && std::is_integral_v<decltype(got)>);
    mon::check(got == want, what, [&] { return "expected " + std::to_string(want) + " got " + std::to_string(got); });
    mon::count(what);
    mon::nontrivial(want);
}
template <typename Id, auto Value>
void identifier(std::string_view want)
{
    auto label = "identifier|" + mon::hex(want) + "|" + std::to_string(serial++);
    if (!case_(label)) return;
    using type = std::remove_cvref_t<decltype(Value)>;
    auto detail = [&] { return "expected " + mon::hex(want) + " type " + std::string(__PRETTY_FUNCTION__).substr(0, 200); };
    constexpr auto n = sizeof(type);
    if constexpr (n == 1) mon::check(std::is_integral_v<type> || std::same_as<type, std::byte>, "identifier-type", detail);
    else if constexpr (n == 2 || n == 4 || n == 8) mon::check(std::is_integral_v<type>, "identifier-type", detail);
    else mon::check(std::same_as<type, std::array<std::byte, n>>, "identifier-type", detail);
    mon::check(n == want.size(), "identifier-size", detail);
    static_assert(std::same_as<std::remove_cvref_t<decltype(Id::value)>, type>);
    mon::check(Id::value == Value, "identifier-value", detail);
    std::vector<unsigned char> data;
    zb::out out{data};
    auto value = Value;
    auto res = out(value);
    mon::check(zb::success(res) && bytes_of(data) == want, "identifier-on-the-wire", [&] { return detail() + " got " + mon::hex(data); });
    mon::count("identifiers");
    mon::nontrivial(mon::hash_str(want));
}
} // namespace c23
