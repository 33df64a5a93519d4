"""What each check builds and runs (see DESIGN.md)."""
import os

import gen22
import gen23
import gen27
from run import Job, jobs  # noqa: F401

SPECS = {}
TRUST = " Says nothing about paths, types and values the workload does not reach; trusts the harness' own reference model, the compiler and the sanitizer runtimes."


def spec(pid, jobs, rule, technique, note, level="exploration", **kw):
    SPECS[pid] = dict(jobs=jobs, rule=rule, technique=technique, note=note + TRUST, level=level, **kw)


def zoo(src, c, parts=8, build="asan-ni", thorough=("asan", "asan-o1"), **kw):
    js = jobs(src, build, parts, **kw)
    if c.thorough:
        for b in thorough:
            if b != build:
                js += jobs(src, b, parts, **kw)
    return js


SAN = " under AddressSanitizer and UndefinedBehaviorSanitizer."

spec(
    "C01",
    lambda c: zoo("c01.cpp", c, build="asan"),
    "each zoo type x option pack x generated value, read into a fresh or dirtied target, with or without trailing data; distinct by (type, options, bytes)",
    "round trips of generated values of every type under ASan+UBSan, judged by deep equality",
    "Round trips of generated values over a zoo of more than 280 types and 7 option packs each," + SAN,
    require={"types": 270, "distinct": 10000},
)
spec(
    "C02",
    lambda c: zoo("c02.cpp", c, build="asan"),
    "each zoo type x option pack x generated value (and its sized and unsized forms, and counts around every size type's range); distinct by (type, options, bytes)",
    "written bytes compared with an independent reference encoder on generated values, ASan+UBSan",
    "Bytes of generated values compared with an encoder written from the README,"  + SAN,
    require={"types": 270, "distinct": 8000, "large-counts": 300, "own-size-counts": 1000},
)
spec(
    "C03",
    lambda c: zoo("c03.cpp", c),
    "each zoo type x option pack x hostile input (mutated encodings, random bytes, hostile counts) in heap blocks of the exact size; distinct by (type, options, input)",
    "hostile inputs into every type under ASan+UBSan+LSan with exact-size heap blocks and position/leak monitors",
    "Mutated and random inputs in exact-size heap blocks with an allocation ceiling," + SAN + " Types containing bool or unfixed enums only get valid representations.",
    require={"distinct": 5000},
)
spec(
    "C04",
    lambda c: zoo("c04.cpp", c),
    "every strict prefix of the encoding of each zoo type x option pack x generated value; distinct by (type, options, bytes)",
    "every strict prefix of generated encodings read back, error code and position monitored, ASan+UBSan",
    "All strict prefixes of generated encodings," + SAN,
    require={"distinct": 1500},
)
spec(
    "C05",
    lambda c: zoo("c05.cpp", c),
    "each zoo type x option pack x generated value into fixed memory of every nearby room between guard bytes; distinct by (type, options, bytes)",
    "fixed-size output with canaries and exact-size heap blocks under ASan, every tight room tried",
    "Fixed memory of all nearby sizes with guards," + SAN,
    require={"distinct": 1500},
)
spec(
    "C10",
    lambda c: zoo("c10.cpp", c),
    "each zoo type x value written with opposite byte orders; distinct by (type, bytes)",
    "the same values through archives of every byte order, compared with an endian-aware reference encoder, ASan+UBSan",
    "Generated values of every type, variants and RPC ids in both byte orders," + SAN,
    require={"distinct": 3000},
)
spec(
    "C19",
    lambda c: zoo("c19.cpp", c),
    "21 message types x option packs x generated message, plus nested lengths around every prefix boundary; distinct by (type, options, bytes)",
    "written protobuf bytes compared with an independent encoder and decoded back by an independent decoder, ASan+UBSan",
    "Generated messages of 21 types compared with an encoder and decoder written from the protobuf specification," + SAN,
    require={"messages": 21, "distinct": 15000, "boundary-lengths": 1500, "own-size-lengths": 2000},
)
spec(
    "C26",
    lambda c: zoo("c26.cpp", c),
    "each zoo type x generated value written into buffers differing in stale content, padding, capacity, offset, alignment and byte type; distinct by (type, options, bytes)",
    "differential writes of one value under varied stale memory, padding, alignment and buffer types, ASan+UBSan",
    "The same value written in many surroundings and compared," + SAN,
    require={"distinct": 3000},
)
spec(
    "C06",
    lambda c: zoo("c06.cpp", c),
    "each history of writes, failing writes, repositionings, user resizes and new archives over one buffer under 8 option sets; distinct by (encoding, position, size)",
    "model-checked histories of growing output: after every call the whole buffer is compared with a model, ASan+UBSan",
    "Random histories under 8 combinations of buffer, enlarger, size and fit options," + SAN,
    require={"writes": 100000, "growths": 30000, "overwrites-in-place": 20000, "appends": 3000, "failing-writes": 5000, "long-messages": 500},
)
spec(
    "C07",
    lambda c: zoo("c07.cpp", c),
    "writes of 16 kinds of items around every edge of (limit, buffer size, position, encoding length) for 8 limits x 5 option sets, and sizes near overflow; distinct by (configuration, size, position, length)",
    "output through a buffer that records every requested size; monitor bounds requests and decides must-fail and must-succeed writes, ASan+UBSan",
    "Edges of the output limit and of size arithmetic with a recording buffer," + SAN,
    require={"must-fail": 60000, "must-succeed": 60000, "one-byte-too-many": 8000, "last-size-that-fits": 4000, "overflows": 150},
)
spec(
    "C08",
    lambda c: zoo("c08.cpp", c),
    "each container x limit x announced count (around the limit, around every power of two, 2^64-1) x elements present, deep mutated inputs, protobuf fields around the limit; distinct by (container, limit, count, present)",
    "reads through metering allocators; monitor bounds the largest allocation and decides refusals and acceptances, ASan+UBSan",
    "Announced counts around the limit and the range of the size type, with metering allocators," + SAN,
    require={"above-limit": 30000, "exactly-the-limit": 500, "within-limit": 1000, "fields-above-limit": 1500},
)
spec(
    "C09",
    lambda c: zoo("c09.cpp", c) + jobs("c09.cpp", "asan-varint", 8),
    "every value of the 8 and 16 bit varint types, edges and samples of the wider ones, and byte strings up to 13 bytes; distinct by (type, wire value or bytes)",
    "encodings and decodings of varints compared with a reference in exact-size heap blocks, both decoder builds, ASan+UBSan",
    "All 8 and 16 bit values, sampled wider ones, in all byte types and distances to the end," + SAN,
    require={"values": 500000, "types": 40, "padded": 100000, "too-long": 100000, "unfinished": 100000},
)
spec(
    "C11",
    lambda c: zoo("c11.cpp", c),
    "variants of 1 to 40 alternatives with index, integer, string and hash ids x every pair of (previous, written) alternative, known ids, unknown ids, cuts; distinct by (variant, bytes)",
    "variants driven through every pair of alternatives and hostile identifiers with life-time counted alternatives, ASan+UBSan",
    "Every (previous, new) pair of alternatives of 58 variant types, unknown and truncated identifiers," + SAN,
    require={"pairs": 5000, "bad-ids": 10000, "known-ids": 400, "unknown-dynamic-ids": 10000, "truncated-ids": 10000, "variants": 50},
)
spec(
    "C12",
    lambda c: zoo("c12.cpp", c),
    "optionals and owning pointers of every kind read into empty and occupied targets, chains, random trees and graphs; distinct by (type, bytes)",
    "presence, identity and shape of optionals and pointer structures monitored through life-time counted pointees, ASan+UBSan+LSan",
    "Presence transitions, null pointers, random trees with life-time counted nodes," + SAN,
    require={"pointers": 5000, "trees": 1500, "nulls": 20},
)
spec(
    "C13",
    lambda c: zoo("c13.cpp", c),
    "28 types of life-time counted elements x every prefix, corrupted inputs, throwing constructors and calls; distinct by (type, input, fault)",
    "life-time registry of every object created while reading, under cuts, corruption and exceptions at every step, ASan+UBSan+LSan",
    "Every object's construction and destruction is recorded while reads succeed, fail at every byte and throw at every step," + SAN,
    require={"failures": 100000, "successes": 20000, "throws": 20000, "types": 25},
)
spec(
    "C14",
    lambda c: zoo("c14.cpp", c),
    "views of const bytes at every kind of size prefix x announced length around the remaining input, nested views, mutable views x announced counts around the view; distinct by (view, options, input)",
    "addresses and lengths of views, allocations and guarded view targets monitored while reading, ASan+UBSan",
    "Addresses and lengths of every view compared with the documented layout, mutable views in guarded memory," + SAN,
    require={"sized-views": 30000, "too-long-views": 20000, "unsized-views": 600, "nested-views": 500, "mutable-views": 20000, "counts-beyond-view": 20000, "fixed-spans": 3000},
)
spec(
    "C15",
    lambda c: zoo("c15.cpp", c),
    "five-item lists x every split of the calls x fixed and growing buffers, every cut, instrumented items failing at every event, random reset histories; distinct by (items, bytes)",
    "differential grouping of writes and reads, event traces of instrumented items, model-checked position histories, ASan+UBSan",
    "All 16 groupings of five items, traces with every event failing, position histories," + SAN,
    require={"groupings-written": 8000, "groupings-read": 3000, "failing-reads": 8000, "failing-writes": 8000, "failing-traces": 6000, "histories": 2000, "position-views": 200000},
)
spec(
    "C16",
    lambda c: zoo("c16.cpp", c),
    "18 parameter lists x up to 15 kinds of callee x complete, cut, mutated and trailing input and throwing callees; distinct by (list, bytes)",
    "recording callees: count, order, arguments and results of every call compared with the encoded arguments, ASan+UBSan",
    "Recording functions, function objects and member functions applied to complete, cut and mutated inputs," + SAN,
    require={"calls": 50000, "failed-reads": 80000, "mutated-calls": 10000, "parameterless-calls": 8000, "ordered-reads": 5000},
)
spec(
    "C17",
    lambda c: zoo("c17.cpp", c),
    "histories of requests, serves and responses over six definitions (1, 2, 4, 8 and 10 byte ids) x option packs, cuts, mutations, small response buffers; distinct by request stream",
    "sequential model of both byte streams and of the recorded calls checked after every step of random histories, ASan+UBSan",
    "Random RPC histories against a sequential model, with unknown, cut and mutated requests and throwing functions," + SAN,
    require={"histories": 700, "served": 7000, "responses": 10000, "truncated-requests": 15000, "unknown-ids": 500, "throwing-calls": 200, "mutated-requests": 3000},
)
spec(
    "C18",
    lambda c: zoo("c18.cpp", c, parts=4),
    "histories mixing opaque functions of every documented signature and return kind with ordinary ones; distinct by (remaining input, consumption, function)",
    "controlled opaque callees record what they receive; a model decides position and output bytes after every call, ASan+UBSan",
    "Histories of opaque and ordinary requests with controlled consumption, errors and exceptions," + SAN,
    require={"opaque-calls": 80000, "ordinary-calls": 8000, "errors": 8000, "results": 30000, "throwing-calls": 6000},
)
spec(
    "C20",
    lambda c: zoo("c20.cpp", c),
    "21 message types x option packs x valid encodings using every freedom of the format, read into fresh and dirty targets; distinct by (type, options, bytes)",
    "valid encodings of generated messages from an independent non-canonical writer, values, positions and following data monitored, ASan+UBSan",
    "Encodings with reordered, repeated, absent, packed, unpacked, unknown and mistyped fields and non-minimal varints," + SAN + " Not covered: singular nested messages that occur twice (the library does not claim to merge them).",
    require={"messages": 17, "messages-read": 30000, "data-after": 8000, "back-to-back": 8000, "in-containers": 2000, "used: unknown field": 20000, "used: unpacked element": 8000, "used: negative in ten bytes": 8000},
)
spec(
    "C21",
    lambda c: zoo("c21.cpp", c),
    "21 message types x option packs x limits x mutated, hostile and random messages with right and wrong length prefixes; every prefix; distinct by (type, options, bytes)",
    "corrupted messages in exact-size heap blocks; an independent decoder predicts value or set of possible errors, ASan+UBSan+LSan",
    "Mutated and hostile messages judged by an independent decoder," + SAN,
    require={"messages": 17, "accepted": 15000, "out-of-range": 25000, "protocol-errors": 30000, "too-large": 8000, "message-sizes": 2500, "sized-prefixes": 20000},
)


def generated(module, name, c, parts=8, build="plain-ni", off=0, gen={}, **kw):
    js = []
    for p in range(parts):
        path = os.path.join(c.dir, f"{name}_{p}.cpp")
        module.generate(path, p, parts, c.seed + off, c.thorough, **gen)
        js.append(Job(path, build, p, parts, **kw))
    return js


spec(
    "C23",
    lambda c: generated(gen23, "c23", c, timeout=600),
    "messages of every length from 0 to 135 and around block boundaries beyond, literals, identifiers of every width, all hex digit pairs; distinct by expected result",
    "digests, identifiers and decoded bytes of generated messages compared with Python's hashlib, at run time and in constant evaluation",
    "Digests at run time and compile time against hashlib, identifiers observed on the wire.",
    require={"lengths": 170, "sha1-at-compile-time": 30, "sha256-at-compile-time": 30, "_decode_hex": 150, "identifiers": 400, "_sha256_int": 35},
)
spec(
    "C25",
    lambda c: zoo("c25.cpp", c),
    "each allocation of reads and writes of every zoo type and message, of apply and of RPC calls, fails once; distinct by (type, options, bytes)",
    "fault-injecting operator new with block accounting: exception, earlier bytes, leaks and the repeated operation monitored, ASan+UBSan+LSan",
    "Each allocation (all of the first 24, else a sample) fails once, then the operation is repeated," + SAN,
    require={"types": 270, "messages": 17, "read-faults": 15000, "repeated-reads": 12000, "write-faults": 15000, "apply-faults": 500, "rpc-faults": 1500},
)
spec(
    "C24",
    lambda c: zoo("c24.cpp", c, build="tsan-ni", thorough=("tsan",)),
    "every zoo type, message, RPC, apply and interleaved archives as cases; rounds of four threads running random and identical case sequences over shared constant objects and inputs; distinct by case",
    "ThreadSanitizer and result comparison while four threads use independent archives over shared constant data, with injected pauses",
    "Four threads over shared constant objects and inputs under ThreadSanitizer, results compared with those computed alone. Pauses are injected inside user serialize functions; races in code paths the cases do not reach are not seen.",
    require={"types": 270, "messages": 17, "concurrent-operations": 200000, "overlapping-operations": 20000, "max:threads-at-once": 3},
)
spec(
    "C27",
    lambda c: generated(gen27, "c27", c, build="asan-ni" if c.thorough else "plain-ni", extra=["-fbracket-depth=2048"], timeout=600),
    "generated classes of 0 to 50 members of mixed types in every declared form x generated values; distinct by (class, bytes)",
    "recording visitors (count, order, addresses, types, results) and member-by-member differential serialization of generated classes",
    "About 240 generated classes per run, every member count from 0 to 50 with all members of different types, in ten forms of declaration. Automatic counting is judged for aggregates whose members it is documented to count (no std::optional, no C arrays, which need declared counts).",
    require={"classes": 240, "max:members": 50, "members-visited": 11000, "objects": 1800, "type-visits": 220, "visits-in-constant-evaluation": 50},
)
spec(
    "C22",
    lambda c: generated(gen22, "c22", c, timeout=600)
    + generated(gen22, "c22g", c, parts=3, build="gcc-ni", gen={"gcc": True}, timeout=600)
    + generated(gen22, "c22v", c, parts=4 if c.thorough else 1, build="plain-ni-varint", off=500, gen={"few": not c.thorough}, timeout=600),
    "constexpr programs (type x byte type x options x seed) and generated constants; distinct by what the program observes",
    "the same logging archive programs evaluated by two compilers and at run time, logs compared step by step; to_bytes and from_bytes against archives and Python's struct",
    "About 370 constexpr programs per run (values, cuts, corruption, fixed and growing buffers, views, protobuf, function calls, RPC, varints) by clang/libc++ and gcc/libstdc++. Types whose standard library implementation is not constexpr there (maps, pointers, bitsets; variants with libc++) cannot be used in constant evaluation at all.",
    require={"programs": 330, "steps": 40000, "failures": 3500, "constants": 120, "cut-constants": 100},
)

spec(
    "C28",
    lambda c: zoo("c28.cpp", c),
    "every error code; random lives of results of 18 value types; user errors at each call below 53 enclosing types in three forms, through archives, apply and RPC; cuts of every zoo type; distinct by (type, bytes) or history",
    "exact codes and exceptions monitored at every failing call, result lives against a model with counted life times, ASan+UBSan+LSan",
    "User errors raised at every call below 53 enclosing types, 18 value types of results through random lives," + SAN,
    require={"codes": 1000, "propagated": 10000, "thrown": 10000, "enclosing-types": 150, "histories": 1800, "moved-values": 4000, "moved-errors": 1800, "failures-looked-at": 80000, "zoo-types": 150, "rpc-failing-results": 80, "applied": 2500},
)


def c29_jobs(c):
    builds = ["plain-ni", "gcc-ni-varint", "gcc-o2-ni", "plain-o1"]
    if c.thorough:
        builds += ["noexcept-o3", "libstdcxx-o1-varint", "gcc-o2", "gcc-os-ni-varint", "asan", "clang-libstdcxx"]
    # forced inlining of recursive types fails with gcc (README)
    return [j for b in builds for j in jobs("c29.cpp", b, 8, log=True, defs=["-DNO_RECURSION"] if b == "gcc-o2" else [])]


def c29_post(c, js):
    libcxx = ("plain-ni", "plain-o1", "noexcept-o3", "asan")
    logs, lines, apart = {}, 0, 0
    for j in js:
        if not j.exe or not os.path.exists(j.logfile):
            continue
        d = logs.setdefault(j.part, {})[j.build] = {}
        with open(j.logfile, errors="replace") as f:
            for l in f:
                label, _, rest = l.rstrip("\n").partition(" :")
                if l.startswith("~type"):
                    label, _, rest = l.rstrip("\n").partition(" hostile")
                d[label] = rest
    for part, by in sorted(logs.items()):
        bases = [b for b in ("plain-ni", "gcc-ni-varint") if b in by]
        for b, d in by.items():
            base = next((x for x in bases if (x in libcxx) == (b in libcxx)), None)
            other = next((x for x in bases if x != base), None)
            for how, ref in (("same", base), ("across", other)):
                if ref is None or ref == b:
                    continue
                for label, text in d.items():
                    if how == "across" and label.startswith("~"):
                        continue
                    if label not in by[ref]:
                        continue  # an excluded type, or a run that ended early (reported as such)
                    lines += 1
                    apart += label.startswith("~")
                    if text != by[ref][label]:
                        job = next(j for j in js if j.build == b and j.part == part)
                        c.violation("builds-differ", label.lstrip("~"), f"{ref}:{by[ref][label][:600]} | {b}:{text[:600]}", job)
    c.results.append((None, dict(evaluations=0, checks=lines, distinct=0, samples=[], violations=[], counters={"lines-compared": lines, "lines-compared-within-one-library": apart})))


spec(
    "C29",
    c29_jobs,
    "each case of one deterministic workload (zoo types, messages, hostile inputs, varints, RPC, digests) run in every build; distinct by the logged line",
    "event logs of one workload recorded in builds with different compilers, libraries, settings and optimisation, compared line by line",
    "Logs of one workload in four (thorough: ten) builds: clang and gcc, libc++ and libstdc++, forced inlining on and off, both varint decoders, -O0 to -O3. Hash containers are left out (their order belongs to the standard library); limits on hostile counts of library classes are compared within one library only.",
    require={"lines-compared": 150000, "lines-compared-within-one-library": 10000, "types": 500, "message-types": 60, "varints": 40000, "calls": 5000},
    post=c29_post,
)
