// C24: independent archives in several threads. ThreadSanitizer watches for races;
// every thread compares its results with those computed alone beforehand.
#include "common/pbref.hpp"
#include "common/zoo.hpp"
#include "common/zoo2.hpp"
#include <atomic>
#include <memory>
#include <thread>
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

// Evidence of real overlap, without ordering anything between the threads.
std::atomic<unsigned> running{0};
std::atomic<unsigned long long> overlapped{0}, widest{0};
struct Running
{
    Running()
    {
        auto n = running.fetch_add(1, std::memory_order_relaxed) + 1;
        if (n > 1) overlapped.fetch_add(1, std::memory_order_relaxed);
        auto w = widest.load(std::memory_order_relaxed);
        while (n > w && !widest.compare_exchange_weak(w, n, std::memory_order_relaxed)) {
        }
    }
    ~Running() { running.fetch_sub(1, std::memory_order_relaxed); }
};
thread_local unsigned jitter = 1;
inline void pause_a_little()
{
    jitter = jitter * 1103515245 + 12345;
    auto k = jitter >> 16 & 15;
    if (k == 0) std::this_thread::yield();
    else
        for (volatile unsigned i = 0; i < k * 20; i = i + 1) {
        }
}

// Lets other threads run in the middle of a write or read.
struct Slow
{
    std::uint32_t a;
    std::string b;
    std::optional<std::uint16_t> c;
    zb::vint64_t d;
    static zb::errc serialize(auto & archive, auto & self)
    {
        pause_a_little();
        if (auto res = archive(self.a, self.b); zb::failure(res)) return res;
        pause_a_little();
        if (auto res = archive(self.c); zb::failure(res)) return res;
        pause_a_little();
        return archive(self.d);
    }
    static auto tie(auto & s) { return std::tie(s.a, s.b, s.c, s.d); }
};

struct Case
{
    std::string name;
    virtual ~Case() = default;
    virtual const char * run(unsigned salt) const = 0; // null when right
};

template <typename T, typename P>
struct ValueCase : Case
{
    T v{};
    Bytes bytes;
    ValueCase(Rng & r)
    {
        for (auto n = std::min<std::size_t>(P::max_items, 20);; n /= 2) {
            gen(r, v, G{n, 0});
            bytes = zoo2::encode(v, P::cfg);
            if (!zoo2::oversized) break;
        }
    }
    const char * run(unsigned salt) const override
    {
        std::vector<std::byte> data;
        zb::out out{data, typename P::endian{}, typename P::size{}};
        if (zb::failure(out(v))) return "write-fails";
        if (data.size() != bytes.size() || !same_bytes(data.data(), bytes.data(), bytes.size())) return "bytes-differ";
        if constexpr (!(P::sizeless && ref::dynamic<T>::value)) {
            T w{};
            zb::in in{bytes, typename P::endian{}, typename P::size{}};
            if (zb::failure(in(w))) return "read-fails";
            if (!eq(v, w)) return "value-differs";
            if (in.position() != bytes.size()) return "position-differs";
            if (bytes.size()) { // a cut input
                T x{};
                zb::in cut{std::span{bytes.data(), salt % bytes.size()}, typename P::endian{}, typename P::size{}};
                auto res = cut(x);
                if (res.code != std::errc::result_out_of_range) return "cut-input-result-differs";
            }
        }
        std::vector<unsigned char> tight(bytes.size());
        if (zb::failure(zb::out{std::span{tight}, typename P::endian{}, typename P::size{}}(v)) || tight != bytes) return "fixed-output-differs";
        return nullptr;
    }
};
template <typename T, typename P>
struct MessageCase : Case
{
    T v{};
    Bytes bytes, other;
    MessageCase(Rng & r)
    {
        pbz::pgen(r, v, G{10, 1});
        bytes = pbz::with_prefix(v, P::cfg);
        pbz::Free free{r};
        auto m = free.message_bytes(v, T{});
        bytes = pbz::with_prefix(v, P::cfg);
        put_size(other, m.size(), P::cfg);
        other.insert(other.end(), m.begin(), m.end());
    }
    const char * run(unsigned) const override
    {
        std::vector<std::byte> data;
        zb::out out{data, typename P::endian{}, typename P::size{}};
        if (zb::failure(out(v))) return "message-write-fails";
        if (data.size() != bytes.size() || !same_bytes(data.data(), bytes.data(), bytes.size())) return "message-bytes-differ";
        T w{};
        zb::in in{other, typename P::endian{}, typename P::size{}};
        if (zb::failure(in(w))) return "message-read-fails";
        if (!pbz::meq(v, w)) return "message-differs";
        return nullptr;
    }
};
std::string join(std::string a, std::vector<std::uint32_t> b)
{
    pause_a_little();
    for (auto x : b) a += char('a' + x % 26);
    return a;
}
struct Account
{
    long balance = 0;
    long add(int n) { return balance += n; }
};
using namespace zpp::bits::literals;
using rpc = zb::rpc<zb::bind<join, "join"_sha256_int>, zb::bind<&Account::add, "add"_sha256_int>>;
struct RpcCase : Case
{
    std::string a;
    std::vector<std::uint32_t> b;
    RpcCase(Rng & r)
    {
        gen(r, a, G{20, 0});
        gen(r, b, G{20, 0});
    }
    const char * run(unsigned salt) const override
    {
        std::vector<std::byte> q, p;
        zb::in qi{q}, pi{p};
        zb::out qo{q}, po{p};
        auto client = rpc::client(pi, qo);
        Account account;
        auto server = rpc::server(qi, po, account);
        long sum = 0;
        for (unsigned i = 0; i < 4; ++i) {
            if ((salt >> i) & 1) {
                if (zb::failure(client.template request<"join"_sha256_int>(a, b))) return "request-fails";
                if (zb::failure(server.serve())) return "serve-fails";
                auto res = client.template response<"join"_sha256_int>();
                if (res.failure() || res.value() != join(a, b)) return "response-differs";
            } else {
                if (zb::failure(client.template request<"add"_sha256_int>(int(salt + i)))) return "request-fails";
                if (zb::failure(server.serve())) return "serve-fails";
                auto res = client.template response<"add"_sha256_int>();
                sum += int(salt + i);
                if (res.failure() || res.value() != sum) return "response-differs";
            }
        }
        return nullptr;
    }
};
struct ApplyCase : Case
{
    Bytes data;
    std::string want;
    ApplyCase(Rng & r)
    {
        std::string a;
        std::vector<std::uint32_t> b;
        gen(r, a, G{20, 0});
        gen(r, b, G{20, 0});
        enc(data, a, PNative4::cfg);
        enc(data, b, PNative4::cfg);
        want = join(a, b);
    }
    const char * run(unsigned) const override
    {
        zb::in in{data};
        auto res = zb::apply(join, in);
        return res.success() && res.value() == want ? nullptr : "apply-differs";
    }
};

// Archives that take turns within one thread: state hidden per thread would show, too.
template <typename P>
struct TurnsCase : Case
{
    std::vector<std::vector<std::uint32_t>> items;
    TurnsCase(Rng & r)
    {
        items.resize(2 + r.below(4));
        for (auto & x : items) gen(r, x, G{15, 0});
    }
    const char * run(unsigned) const override
    {
        auto k = items.size();
        std::vector<std::vector<std::byte>> data(k);
        using Out = zb::out<std::vector<std::byte>, typename P::endian, typename P::size>;
        using In = zb::in<std::vector<std::byte>, typename P::endian, typename P::size>;
        std::vector<std::unique_ptr<Out>> outs;
        std::vector<Bytes> want(k);
        for (auto & d : data) outs.push_back(std::make_unique<Out>(d, typename P::endian{}, typename P::size{}));
        for (std::size_t step = 0; step < 15; ++step)
            for (std::size_t i = 0; i < k; ++i)
                if (step < items[i].size()) {
                    zb::vuint32_t v{items[i][step]};
                    std::string s(step % 3, 's');
                    if (zb::failure((*outs[i])(v, s, std::uint16_t(step)))) return "turns-write-fails";
                    enc(want[i], v, P::cfg);
                    enc(want[i], s, P::cfg);
                    enc(want[i], std::uint16_t(step), P::cfg);
                }
        for (std::size_t i = 0; i < k; ++i)
            if (data[i].size() != want[i].size() || !same_bytes(data[i].data(), want[i].data(), want[i].size())) return "turns-bytes-differ";
        std::vector<std::unique_ptr<In>> ins;
        for (auto & d : data) ins.push_back(std::make_unique<In>(d, typename P::endian{}, typename P::size{}));
        for (std::size_t step = 0; step < 15; ++step)
            for (std::size_t i = 0; i < k; ++i)
                if (step < items[i].size()) {
                    zb::vuint32_t v;
                    std::string s;
                    std::uint16_t n;
                    if (zb::failure((*ins[i])(v, s, n))) return "turns-read-fails";
                    if (v != items[i][step] || n != step || s.size() != step % 3) return "turns-value-differs";
                }
        return nullptr;
    }
};

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    std::vector<std::unique_ptr<Case>> cases;
    auto seed = mon::rng("cases");
    auto add = [&](std::unique_ptr<Case> c, const std::string & name) {
        c->name = name;
        cases.push_back(std::move(c));
        mon::nontrivial(mon::hash_str(name) ^ seed.next());
    };
    auto values = mon::iters(8, 20);
    auto all = [&]<typename T, std::size_t I>() {
        mon::count("types");
        using P = std::conditional_t<I % 4 == 0, PNative4, std::conditional_t<I % 4 == 1, PSwapV, std::conditional_t<I % 4 == 2, PBig2, PLittle1>>>;
        for (std::uint64_t k = 0; k < values; ++k) add(std::make_unique<ValueCase<T, P>>(seed), "T=" + zoo::type_name<T>() + "|P=" + P::name());
    };
    zoo::each<PART, PARTS>(zoo::Zoo{}, all);
    zoo2::each<PART, PARTS>(all);
    pbz::each<PART, PARTS>(pbz::PZoo{}, [&]<typename T, std::size_t I>() {
        mon::count("messages");
        using P = std::conditional_t<I % 2 == 0, PNative4, PNativeV>;
        for (std::uint64_t k = 0; k < values; ++k) add(std::make_unique<MessageCase<T, P>>(seed), "message=" + pbz::name<T>());
    });
    for (std::uint64_t k = 0; k < 2 * values; ++k) {
        add(std::make_unique<RpcCase>(seed), "rpc");
        add(std::make_unique<ApplyCase>(seed), "apply");
        add(std::make_unique<TurnsCase<PNative4>>(seed), "turns");
        add(std::make_unique<TurnsCase<PSwapV>>(seed), "turns");
        add(std::make_unique<ValueCase<Slow, PNative4>>(seed), "slow");
        add(std::make_unique<ValueCase<std::vector<Slow>, PSwapV>>(seed), "slow");
    }
    mon::count("cases", cases.size());
    // alone first
    for (auto & c : cases) {
        if (!mon::begin("alone|" + c->name)) continue;
        auto e = c->run(3);
        mon::check(!e, e ? e : "", [] { return "alone"; });
    }
    // Rounds of four threads over a shared set of cases: all of them the same
    // case, or each any case.
    auto rounds = mon::iters(250, 8000);
    for (std::uint64_t round = 0; round < rounds; ++round) {
        auto label = "round=" + std::to_string(round);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        constexpr unsigned n = 4;
        struct Failure
        {
            const char * what;
            std::size_t which;
        };
        std::vector<Failure> failures[n];
        unsigned long long done[n] = {};
        std::atomic<bool> go{false};
        auto order = r.next();
        std::vector<std::thread> threads;
        auto steps = std::size_t(60);
        for (unsigned t = 0; t < n; ++t) {
            auto own = r.next();
            threads.emplace_back([&, t, own] {
                jitter = unsigned(own);
                Rng mine(round % 2 ? own : order); // in step, or on their own
                while (!go.load(std::memory_order_relaxed)) {
                }
                for (std::size_t s = 0; s < steps; ++s) {
                    auto which = mine.below(cases.size());
                    auto salt = unsigned(mine.next());
                    Running running;
                    if (auto e = cases[which]->run(salt)) failures[t].push_back({e, which});
                    ++done[t];
                }
            });
        }
        go.store(true, std::memory_order_relaxed);
        for (auto & t : threads) t.join();
        for (unsigned t = 0; t < n; ++t) {
            mon::count("concurrent-operations", done[t]);
            mon::check(failures[t].empty(), failures[t].empty() ? "" : failures[t][0].what, [&] { return cases[failures[t][0].which]->name; });
        }
    }
    mon::count("overlapping-operations", overlapped.load());
    mon::max_of("threads-at-once", widest.load());
    return mon::finish();
}
