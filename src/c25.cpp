// C25: failing allocations. Every allocation of a read or write fails once;
// blocks are counted, the exception, the earlier bytes and the repetition checked.
#define HEAP_IMPL
#include "common/heap.hpp"
#include "common/pbref.hpp"
#include "common/zoo2.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace ref;

constexpr unsigned long long most = 24;

// Calls f(k) for every allocation k, or for some of them when there are many.
template <typename F>
void each_fault(Rng & r, unsigned long long count, F && f)
{
    for (unsigned long long j = 0; j < std::min(count, most); ++j) f(count <= most ? j : j < 8 ? j : j < 12 ? count - 1 - (j - 8) : r.below(count));
}

template <typename P, typename T, typename Same>
void read_faults(Rng r, const Bytes & bytes, const T & v, Same same, auto make_target)
{
    auto block = heap::Exact<const std::byte>::copy(bytes, bytes.size(), r.below(4));
    auto detail = [&](auto k) { return [&, k] { return "allocation " + std::to_string(k) + " of reading " + mon::hex(bytes, 200); }; };
    auto seed = r;
    unsigned long long count = 0;
    {
        auto w = make_target(seed);
        zb::in in{block.span(), typename P::endian{}, typename P::size{}};
        zb::errc res;
        {
            heap::Fault f;
            res = in(w);
            count = heap::requests;
        }
        if (!mon::check(zb::success(res), "read-fails", detail(-1))) return;
    }
    mon::max_of("allocations-in-a-read", count);
    each_fault(r, count, [&](unsigned long long k) {
        bool threw = false, fine = true, repeated = k % 4 != 3;
        std::size_t position = 0;
        zb::errc res{};
        auto before = heap::blocks;
        {
            auto w = make_target(seed);
            zb::in in{block.span(), typename P::endian{}, typename P::size{}};
            try {
                heap::Fault f(k);
                res = in(w);
            } catch (const std::bad_alloc &) {
                threw = true;
            }
            position = in.position();
            if (repeated) {
                in.reset();
                res = in(w);
                fine = zb::success(res) && same(v, w) && in.position() == bytes.size();
            }
        }
        auto after = heap::blocks;
        mon::check(threw, "exception-lost", detail(k));
        mon::check(position <= bytes.size(), "position-outside-input", detail(k));
        mon::check(fine, "repeated-read-differs", detail(k));
        mon::check(before == after, "leak", [&] { return std::to_string(after - before) + " blocks, " + detail(k)(); });
        mon::count("read-faults");
        if (repeated) mon::count("repeated-reads");
    });
}

template <typename P, typename Buffer, typename... Opt>
void write_faults(Rng r, const Bytes & want, auto && write)
{
    auto detail = [&](auto k) { return [&, k] { return "allocation " + std::to_string(k) + " of writing " + mon::hex(want, 200); }; };
    Bytes head(r.below(20), 0x5c), tail(r.below(10), 0xe7);
    auto start = [&](Buffer & data) {
        for (auto x : head) data.push_back(typename Buffer::value_type(x));
        for (auto x : tail) data.push_back(typename Buffer::value_type(x));
        data.shrink_to_fit();
    };
    unsigned long long count = 0;
    {
        Buffer data;
        start(data);
        zb::out out{data, typename P::endian{}, typename P::size{}, Opt{}...};
        out.position() = head.size();
        zb::errc res;
        {
            heap::Fault f;
            res = write(out);
            count = heap::requests;
        }
        if (!mon::check(zb::success(res), "write-fails", detail(-1))) return;
    }
    mon::max_of("allocations-in-a-write", count);
    each_fault(r, count, [&](unsigned long long k) {
        bool threw = false, kept = true, valid = true, fine = true;
        auto before = heap::blocks;
        {
            Buffer data;
            start(data);
            zb::out out{data, typename P::endian{}, typename P::size{}, Opt{}...};
            out.position() = head.size();
            try {
                heap::Fault f(k);
                (void)write(out);
            } catch (const std::bad_alloc &) {
                threw = true;
            }
            kept = data.size() >= head.size() && same_bytes(data.data(), head.data(), head.size());
            valid = out.position() <= data.size() && out.position() >= head.size() && data.size() >= head.size() + tail.size();
            // what is there already are the first bytes of the encoding
            auto partial = out.position() - head.size();
            valid = valid && partial <= want.size();
            out.reset(head.size());
            auto res = write(out);
            fine = zb::success(res) && out.position() == head.size() + want.size() && data.size() >= out.position() && same_bytes(data.data(), head.data(), head.size()) && same_bytes(data.data() + head.size(), want.data(), want.size());
        }
        auto after = heap::blocks;
        mon::check(threw, "exception-lost", detail(k));
        mon::check(kept, "earlier-bytes-lost", detail(k));
        mon::check(valid, "archive-invalid", detail(k));
        mon::check(fine, "repeated-write-differs", detail(k));
        mon::check(before == after, "leak", [&] { return std::to_string(after - before) + " blocks, " + detail(k)(); });
        mon::count("write-faults");
    });
}

template <typename T, typename P>
void one_pack(const std::string & tname, std::uint64_t n)
{
    if constexpr (P::sizeless && ref::dynamic<T>::value) return;
    else {
        for (std::uint64_t i = 0; i < n; ++i) {
            auto label = "T=" + tname + "|P=" + P::name() + "|i=" + std::to_string(i);
            if (!mon::begin(label)) continue;
            auto r = mon::rng(label);
            G g{std::min<std::size_t>(P::max_items, r.chance(1, 4) ? 40 : 6), 0};
            T v{};
            gen(r, v, g);
            auto bytes = zoo2::encode(v, P::cfg);
            if (zoo2::oversized) continue;
            bool dirty = r.chance(1, 2);
            read_faults<P>(r, bytes, v, [](const T & a, const T & b) { return eq(a, b); }, [dirty](Rng s) {
                T w{};
                if (dirty) gen(s, w, G{8, 0});
                return w;
            });
            auto write = [&](auto & out) -> zb::errc { return out(v); };
            if (P::cfg.big) write_faults<P, std::vector<std::byte>, zb::exact_enlarger>(r, bytes, write);
            else write_faults<P, std::vector<unsigned char>>(r, bytes, write);
            mon::nontrivial(mon::hash_bytes(bytes.data(), bytes.size()));
            mon::sample([&] { return mon::hex(bytes, 48); });
        }
    }
}
template <typename T, typename P>
void one_message(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "message=" + pbz::name<T>() + "|P=" + P::name() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        T v{};
        pbz::pgen(r, v, G{r.chance(1, 4) ? std::size_t(30) : std::size_t(6), 1});
        auto bytes = pbz::with_prefix(v, P::cfg);
        if (P::cfg.size == SizeKind::s2 && bytes.size() > 65000) continue;
        auto write = [&](auto & out) -> zb::errc { return out(v); };
        write_faults<P, std::vector<std::byte>>(r, bytes, write);
        pbz::Free free{r};
        auto x = v;
        auto m = free.message_bytes(x, T{});
        Bytes other;
        if (P::cfg.size == SizeKind::s2 && m.size() > 65000) continue;
        put_size(other, m.size(), P::cfg);
        other.insert(other.end(), m.begin(), m.end());
        // containers in the message are replaced, so only a fresh target gives x
        read_faults<P>(r, other, x, [](const T & a, const T & b) { return pbz::meq(a, b); }, [](Rng) { return T{}; });
        mon::nontrivial(mon::hash_bytes(bytes.data(), bytes.size()));
    }
}

int calls = 0;
std::string last;
std::string work(std::string a, std::vector<std::string> b, std::map<int, std::string> c)
{
    ++calls;
    std::string s = std::move(a);
    for (auto & x : b) s += x;
    for (auto & [k, x] : c) s += x;
    last = s;
    return s + std::string(40, '.');
}
using rpc = zb::rpc<zb::bind<work, 7>>;

void calls_under_faults(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "calls|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        std::string a;
        std::vector<std::string> b;
        std::map<int, std::string> c;
        G g{40, 0};
        gen(r, a, g);
        gen(r, b, G{5, 0});
        gen(r, c, G{5, 0});
        auto expected = work(a, b, c);
        auto state = last;
        { // apply
            std::vector<std::byte> data;
            zb::out out{data};
            (void)out(a, b, c);
            unsigned long long count;
            {
                zb::in in{data};
                heap::Fault f;
                (void)zb::apply(work, in);
                count = heap::requests;
            }
            each_fault(r, count, [&](unsigned long long k) {
                auto before = heap::blocks;
                bool threw = false, good = false;
                int made = 0;
                {
                    zb::in in{data};
                    calls = 0;
                    try {
                        heap::Fault f(k);
                        auto res = zb::apply(work, in);
                    } catch (const std::bad_alloc &) {
                        threw = true;
                    }
                    made = calls;
                    in.reset();
                    auto res = zb::apply(work, in);
                    good = res.success() && res.value() == expected;
                }
                auto after = heap::blocks;
                mon::check(threw && made <= 1 && good, "apply-under-fault", [&] { return std::to_string(k) + " calls " + std::to_string(made); });
                mon::check(std::abs(after - before) <= 1, "leak", [&] { return "apply, allocation " + std::to_string(k) + ": " + std::to_string(after - before); });
                mon::count("apply-faults");
            });
        }
        { // RPC: request, serve, response, each under fault
            unsigned long long counts[3] = {};
            for (int stage = 0; stage < 3; ++stage) {
                for (unsigned long long k = 0; k == 0 || k < std::min<unsigned long long>(counts[stage], 40); ++k) {
                    for (bool fault : {false, true}) {
                        if (!fault && k) continue;
                        std::vector<std::byte> q, p;
                        zb::in qi{q}, pi{p};
                        zb::out qo{q}, po{p};
                        auto client = rpc::client(pi, qo);
                        auto server = rpc::server(qi, po);
                        bool threw = false, good = true;
                        auto guarded = [&](int s, auto && f) {
                            if (stage != s) {
                                f();
                                return;
                            }
                            try {
                                heap::Fault h(fault ? k : ~0ull);
                                f();
                                if (!fault) counts[s] = heap::requests;
                            } catch (const std::bad_alloc &) {
                                threw = true;
                            }
                        };
                        auto q0 = qo.position();
                        guarded(0, [&] { good = good && zb::success(client.template request<7>(a, b, c)); });
                        if (threw) {
                            qo.reset(q0);
                            good = zb::success(client.template request<7>(a, b, c));
                        }
                        bool t0 = threw;
                        threw = false;
                        auto p0 = po.position();
                        calls = 0;
                        guarded(1, [&] { good = good && zb::success(server.serve()); });
                        auto made = calls;
                        if (threw) {
                            qi.reset();
                            po.reset(p0);
                            good = good && zb::success(server.serve());
                        }
                        bool t1 = threw;
                        threw = false;
                        std::string got;
                        guarded(2, [&] {
                            auto res = client.template response<7>();
                            good = good && res.success();
                            if (good) got = std::move(res.value());
                        });
                        if (threw) {
                            pi.reset();
                            auto res = client.template response<7>();
                            good = good && res.success();
                            if (good) got = std::move(res.value());
                        }
                        mon::check(good && got == expected && made <= 1 && (stage != 1 || made == 1 || t1), "rpc-under-fault", [&] { return "stage " + std::to_string(stage) + " allocation " + std::to_string(k) + " got " + got; });
                        if (fault && counts[stage]) mon::check(t0 || t1 || threw, "exception-lost", [&] { return "stage " + std::to_string(stage) + " allocation " + std::to_string(k); });
                        mon::count("rpc-faults");
                    }
                }
            }
        }
        mon::nontrivial(mon::hash_str(expected));
    }
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    auto all = []<typename T, std::size_t I>() {
        auto name = zoo::type_name<T>();
        auto n = mon::iters(120, 4000);
        mon::count("types");
        if constexpr (I % 3 == 0) one_pack<T, PNative4>(name, n);
        else if constexpr (I % 3 == 1) one_pack<T, PSwapV>(name, n);
        else one_pack<T, PBig2>(name, n);
    };
    zoo::each<PART, PARTS>(zoo::Zoo{}, all);
    zoo2::each<PART, PARTS>(all);
    zoo::each<(PART + 4) % PARTS, PARTS>(zoo2::ViewTypes{}, all);
    pbz::each<PART, PARTS>(pbz::PZoo{}, []<typename T, std::size_t I>() {
        auto n = mon::iters(150, 5000);
        if constexpr (I % 2) one_message<T, PNative4>(n);
        else one_message<T, PNativeV>(n);
        mon::count("messages");
    });
    if (PART == 5 || PARTS == 1) calls_under_faults(mon::iters(150, 5000));
    return mon::finish();
}
