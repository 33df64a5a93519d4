// C21: malformed protobuf input. Corrupted and random messages in heap blocks of
// the exact size; an independent decoder decides which errors are possible.
#define HEAP_IMPL
#include "common/heap.hpp"
#include "common/pbref.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace pbz;

struct Mutator
{
    Rng & r;
    const unsigned * numbers;
    std::size_t n_numbers;

    unsigned char hostile_byte()
    {
        static constexpr unsigned char odd[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 0x0a, 0x0d, 0x12, 0x1a, 0x22, 0x7f, 0x80, 0x81, 0xfe, 0xff};
        return r.chance(1, 2) ? odd[r.below(sizeof odd)] : (unsigned char)r.next();
    }
    void hostile_varint(Bytes & o)
    {
        switch (r.below(8)) {
        case 0: put_varint(o, r.below(20)); break;
        case 1: put_varint(o, r.next() >> r.below(64)); break;
        case 2: put_varint(o, ~0ull); break;
        case 3: // too long
            o.insert(o.end(), 10 + r.below(3), 0x80 | (unsigned char)r.next());
            o.push_back((unsigned char)r.below(2));
            break;
        case 4: // unfinished when at the end
            o.insert(o.end(), r.below(9), 0x80 | (unsigned char)r.next());
            break;
        case 5: put_varint(o, (1ull << (r.below(64))) - r.below(2)); break;
        case 6: { // non-minimal zero
            o.insert(o.end(), r.below(9), 0x80);
            o.push_back(0);
            break;
        }
        default: put_varint(o, r.below(300));
        }
    }
    void record(Bytes & o)
    {
        unsigned number = r.chance(3, 4) && n_numbers ? numbers[r.below(n_numbers)] : unsigned(r.below(40));
        if (r.chance(1, 30)) number = 0;
        unsigned wt = r.chance(1, 10) ? unsigned(r.below(8)) : unsigned("\0\1\2\2\5"[r.below(5)]);
        if (r.chance(1, 15)) hostile_varint(o);
        else if (r.chance(1, 20)) { // a tag in more bytes than five, or beyond 32 bits
            auto t = (unsigned long long)number * 8 + wt + (r.chance(1, 2) ? r.next() << 32 : 0);
            Bytes b;
            put_varint(b, t);
            while (r.chance(1, 2) && b.size() < 11) {
                b.back() |= 0x80;
                b.push_back(0);
            }
            o.insert(o.end(), b.begin(), b.end());
        } else put_varint(o, (unsigned long long)number * 8 + wt);
        switch (wt) {
        case 0: hostile_varint(o); break;
        case 1: o.resize(o.size() + 8, hostile_byte()); break;
        case 5: o.resize(o.size() + 4, hostile_byte()); break;
        case 2: {
            Bytes b;
            switch (r.below(4)) {
            case 0: // records inside
                for (auto n = r.below(4); n--;) record(b);
                break;
            case 1: // varints inside
                for (auto n = r.below(6); n--;) hostile_varint(b);
                break;
            case 2: // fixed numbers inside, perhaps one byte less
                b.resize(r.below(5) * 8 + (r.chance(1, 4) ? r.below(8) : 0), hostile_byte());
                break;
            default:
                b.resize(r.below(30));
                for (auto & x : b) x = hostile_byte();
            }
            auto n = b.size();
            if (r.chance(1, 8)) n += r.below(5) - 2;
            if (r.chance(1, 40)) hostile_varint(o);
            else put_varint(o, n);
            o.insert(o.end(), b.begin(), b.end());
            break;
        }
        default:
            for (auto n = r.below(4); n--;) o.push_back(hostile_byte());
        }
    }
    void mutate(Bytes & b)
    {
        for (auto n = 1 + r.below(3); n--;) {
            if (b.empty()) {
                b.push_back(hostile_byte());
                continue;
            }
            auto at = r.below(b.size());
            switch (r.below(9)) {
            case 0: b[at] ^= (unsigned char)(1u << r.below(8)); break;
            case 1: b[at] = hostile_byte(); break;
            case 2: b.resize(at); break;
            case 3: b.insert(b.begin() + long(at), hostile_byte()); break;
            case 4: b.erase(b.begin() + long(at)); break;
            case 5: { // repeat a piece
                auto k = 1 + r.below(std::min<std::size_t>(b.size() - at, 12));
                Bytes piece(b.begin() + long(at), b.begin() + long(at + k));
                b.insert(b.begin() + long(r.below(b.size() + 1)), piece.begin(), piece.end());
                break;
            }
            case 6: { // a piece is lost
                auto k = 1 + r.below(std::min<std::size_t>(b.size() - at, 12));
                b.erase(b.begin() + long(at), b.begin() + long(at + k));
                break;
            }
            case 7: b[at] = (unsigned char)(b[at] + (r.chance(1, 2) ? 1 : -1)); break;
            case 8: {
                Bytes v;
                hostile_varint(v);
                b.insert(b.begin() + long(at), v.begin(), v.end());
                break;
            }
            }
        }
    }
};

template <typename T, typename P, std::size_t Limit>
void one_config(std::uint64_t n)
{
    constexpr bool limited = Limit != 0;
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "T=" + name<T>() + "|P=" + P::name() + "|limit=" + std::to_string(Limit) + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        Mutator m{r, T::numbers, std::size(T::numbers)};
        Bytes message;
        const char * kind;
        switch (r.below(8)) {
        case 0: // random bytes
            message.resize(r.below(40));
            for (auto & x : message) x = m.hostile_byte();
            kind = "random";
            break;
        case 1:
        case 2:
        case 3: // hostile records
            for (auto k = r.below(6); k--;) m.record(message);
            if (r.chance(1, 3)) m.mutate(message);
            kind = "records";
            break;
        default: {
            T v{};
            pgen(r, v, G{r.chance(1, 2) ? std::size_t(10) : std::size_t(40), 1});
            if (r.chance(1, 2)) message = penc(v);
            else {
                Free free{r};
                message = free.message_bytes(v, T{});
            }
            m.mutate(message);
            kind = "mutated";
        }
        }
        mon::count(kind);
        if (P::cfg.size == SizeKind::s1 && message.size() > 255) message.resize(255);
        // the prefix, now and then wrong
        Bytes all;
        std::size_t start = 0;
        if constexpr (P::cfg.size == SizeKind::none) all = message;
        else {
            auto announced = message.size();
            if (r.chance(1, 8)) announced = announced ? r.below(announced) : 1;
            else if (r.chance(1, 12)) announced += 1 + r.below(4);
            else if (r.chance(1, 30)) announced = r.next() >> r.below(64);
            if (P::cfg.size == SizeKind::varint && r.chance(1, 40)) m.hostile_varint(all);
            else put_size(all, announced, P::cfg);
            all.insert(all.end(), message.begin(), message.end());
            for (auto k = r.chance(1, 2) ? r.below(20) : 0; k--;) all.push_back(m.hostile_byte());
            if (r.chance(1, 30)) all.resize(r.below(all.size()));
        }
        T old{};
        if (r.chance(1, 2)) pgen(r, old, G{8, 1});
        // what an independent decoder says
        T want = old;
        Dec d;
        if (limited) d.limit = Limit;
        View view{all.data(), all.size()};
        unsigned errors = ok;
        if constexpr (P::cfg.size != SizeKind::none) {
            unsigned long long length = 0;
            if constexpr (P::cfg.size == SizeKind::varint) errors = d.varint(view, 10, length);
            else {
                constexpr std::size_t w = P::cfg.size == SizeKind::s1 ? 1 : P::cfg.size == SizeKind::s2 ? 2 : P::cfg.size == SizeKind::s4 ? 4 : 8;
                if (view.n < w) errors = range;
                else {
                    for (std::size_t k = 0; k < w; ++k) length |= (unsigned long long)view.p[k] << 8 * (P::cfg.big ? w - 1 - k : k);
                    view.p += w;
                    view.n -= w;
                }
            }
            if (!errors && length > view.n) errors = range;
            if (!errors) view.n = length;
            start = std::size_t(view.p - all.data());
        }
        if (!errors) errors = d.decode(view, want);

        auto block = heap::Exact<const std::byte>::copy(all, all.size(), r.below(4));
        T target = old;
        auto judge = [&](auto & in) {
            zb::errc res;
            bool threw = false;
            try {
                heap::Arm arm;
                res = in(target);
            } catch (const std::bad_alloc &) {
                threw = true;
            } catch (const std::length_error &) {
                threw = true;
            }
            auto detail = [&] { return "errc " + std::to_string(int(res.code)) + " expected error set " + std::to_string(errors) + " position " + std::to_string(in.position()) + " " + mon::hex(all, 500); };
            mon::check(in.position() <= all.size(), "position-outside-input", detail);
            if (threw) { // an impossible length, where no limit is set
                mon::check(!limited && (errors & range), "throws", detail);
                mon::count("throws");
                auto copy = target;
                mon::check(meq(copy, target), "target-broken", detail);
                return;
            }
            if (errors == ok) {
                if (mon::check(zb::success(res), "valid-message-refused", detail)) {
                    mon::check(meq(target, want), "value-differs", detail);
                    mon::check(in.position() == start + view.n, "position-differs", detail);
                }
                mon::count("accepted");
            } else {
                auto bit = code_bit(res.code);
                if (!mon::check(zb::failure(res), "malformed-message-accepted", detail)) return;
                mon::check(bit & errors, "wrong-error", detail);
                mon::count(bit == range ? "out-of-range" : bit == proto ? "protocol-errors" : bit == large ? "too-large" : "message-sizes");
                // the target is still good
                auto copy = target;
                mon::check(meq(copy, target), "target-broken", detail);
            }
        };
        if constexpr (limited) {
            zb::in in{block.span(), typename P::endian{}, typename P::size{}, zb::alloc_limit<Limit>{}};
            judge(in);
        } else {
            zb::in in{block.span(), typename P::endian{}, typename P::size{}};
            judge(in);
        }
        mon::nontrivial(mon::hash_bytes(all.data(), all.size()));
        mon::sample([&] { return mon::hex(all, 64) + " -> " + std::to_string(errors); });
    }
}

// Every strict prefix of a valid message: as an unsized message it may end
// between two fields, as a sized one it never may.
template <typename T>
void prefixes(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i) {
        auto label = "prefixes|T=" + name<T>() + "|i=" + std::to_string(i);
        if (!mon::begin(label)) continue;
        auto r = mon::rng(label);
        T v{};
        pgen(r, v, G{6, 1});
        auto message = penc(v);
        if (message.size() > 3000) continue;
        Bytes sized;
        put_size(sized, message.size(), PNative4::cfg);
        sized.insert(sized.end(), message.begin(), message.end());
        for (std::size_t k = 0; k < sized.size(); ++k) {
            auto block = heap::Exact<const std::byte>::copy(sized, k);
            T target{};
            zb::in in{block.span()};
            auto res = in(target);
            mon::check(res.code == std::errc::result_out_of_range && in.position() <= k, "prefix-of-sized-message", [&] { return std::to_string(k) + " of " + mon::hex(sized, 300) + " errc " + std::to_string(int(res.code)); });
            mon::count("sized-prefixes");
        }
        for (std::size_t k = 0; k < message.size(); ++k) {
            T want{}, target{};
            Dec d;
            auto e = d.decode({message.data(), k}, want);
            auto block = heap::Exact<const std::byte>::copy(message, k);
            zb::in in{block.span(), zb::no_size{}};
            auto res = in(target);
            bool good = e == ok ? zb::success(res) && meq(target, want) && in.position() == k : (code_bit(res.code) & e) != 0;
            mon::check(good, "prefix-of-message", [&] { return std::to_string(k) + " of " + mon::hex(message, 300) + " errc " + std::to_string(int(res.code)) + " expected set " + std::to_string(e); });
            mon::count("unsized-prefixes");
        }
        mon::nontrivial(mon::hash_bytes(message.data(), message.size()));
    }
}

int main(int argc, char ** argv)
{
    mon::init(argc, argv);
    heap::limit = 1 << 26;
    auto n = mon::iters(2500, 60000);
    each<PART, PARTS>(PZoo{}, [&]<typename T, std::size_t I>() {
        one_config<T, PNative4, 0>(n);
        one_config<T, PNative0, 16>(n);
        one_config<T, PSwapV, (1 << 20)>(n);
        one_config<T, PLittle1, 0>(n / 2);
        one_config<T, PBig2, 5>(n / 2);
        prefixes<T>(mon::iters(40, 1000));
        mon::count("messages");
    });
    return mon::finish();
}
