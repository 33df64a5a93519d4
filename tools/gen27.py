"""Generates the C27 harness: classes of 0 to 50 members in every declared form."""
import random

MAX = 50
SCALARS = ["std::uint8_t", "std::int16_t", "std::uint32_t", "std::int64_t", "char", "std::byte", "float", "double", "E8", "E16", "E32", "bool", "char16_t"]
REST = [
    "std::string", "std::vector<std::uint16_t>", "std::vector<std::string>", "std::array<std::uint16_t, 3>", "std::array<std::string, 2>",
    "Pod", "Padded", "Person", "Empty", "std::map<std::uint8_t, std::string>", "std::set<std::uint16_t>", "std::unique_ptr<std::uint32_t>",
    "zb::vint32_t", "zb::vuint64_t", "std::bitset<11>", "std::pair<std::uint8_t, std::string>", "std::tuple<std::uint16_t, std::int8_t>",
    "std::variant<std::uint16_t, std::string>", "zb::optional_ptr<std::uint16_t>", "std::list<std::uint8_t>", "std::deque<std::int32_t>",
    "zb::sized_t<std::string, std::uint16_t>", "std::u16string", "std::shared_ptr<std::uint8_t>",
]
# These cannot be counted from an aggregate initialisation, only declared.
DECLARED = ["std::optional<std::int32_t>", "std::optional<std::string>", "std::uint16_t@[3]", "std::string@[2]", "Pod@[2]"]

FORMS = ["plain", "inside", "inside-class", "outside", "outside-by-value", "private", "private-outside", "protocol", "explicit", "explicit-outside"]


def mix(rnd, n, kind):
    if kind == "tags":
        return ["tag<%d>" % i for i in range(n)]
    if kind == "ints":
        return [rnd.choice(["std::uint8_t", "std::int16_t", "std::uint32_t", "std::int64_t"]) for _ in range(n)]
    if kind == "same":
        t = rnd.choice(SCALARS[:-2] + ["std::string"])
        return [t] * n
    pool = {"scalars": SCALARS, "mixed": SCALARS + REST, "rest": REST, "declared": SCALARS + REST + DECLARED * 4}[kind]
    t = [rnd.choice(pool) for _ in range(n)]
    if kind == "declared" and n and not any(x in DECLARED for x in t):
        t[rnd.randrange(n)] = rnd.choice(DECLARED)
    return t


def member(t, i):
    base, _, dim = t.partition("@")
    return "%s m%d%s" % (base, i, dim)


def type_of(t):
    return t.replace("@", "")


def klass(name, types, form):
    n = len(types)
    o = []
    fields = "".join("    %s{};\n" % member(t, i) for i, t in enumerate(types))
    args = ", ".join("self.m%d" % i for i in range(n))
    tie = "    static auto tie(auto & self) { return std::tie(%s); }\n" % args
    priv = form.startswith("private")
    o.append("%s %s\n{\n" % ("class" if priv else "struct", name))
    if priv:
        o.append("    friend zpp::bits::access;\n")
    if form in ("inside", "inside-class", "private"):
        o.append("    using serialize = zpp::bits::members<%d>;\n" % n)
    if form == "protocol":
        o.append("    using serialize = zpp::bits::protocol<plain_protocol{}, %d>;\n    static constexpr bool no_bytes = true;\n" % n)
    if form in ("inside-class", "outside", "outside-by-value"):
        o.append("    %s() {}\n" % name)
    if form == "explicit":
        o.append("    constexpr static auto serialize(auto & archive, auto & self) { return archive(%s); }\n" % args)
    o.append(fields)
    if priv:
        o.append("public:\n    %s() {}\n" % name)
    o.append(tie)
    o.append("};\n")
    if form in ("outside", "private-outside"):
        o.append("auto serialize(const %s &) -> zpp::bits::members<%d>;\n" % (name, n))
    if form == "outside-by-value":
        o.append("auto serialize(%s) -> zpp::bits::members<%d>;\n" % (name, n))
    if form == "explicit-outside":
        for c in ("", "const "):
            o.append("constexpr auto serialize(auto & archive, %s%s & self) { return archive(%s); }\n" % (c, name, args))
    return "".join(o)


def generate(path, part, parts, seed, thorough):
    rnd = random.Random(seed * 1000 + part)
    out = ['#include "common/zoo.hpp"\n#include "common/c27.hpp"\nnamespace c27 {\nusing namespace zoo;\n']
    calls = []
    serial = 0
    plan = []
    for n in range(MAX + 1):
        plan += [(n, "tags", "plain"), (n, "mixed", "plain")]
        declared = FORMS[1:]
        for k in range(6 if thorough else 1):
            plan.append((n, rnd.choice(["scalars", "rest", "same", "ints"]), "plain"))
        for k in range(len(declared) if thorough else 2):
            f = declared[(n * 2 + k + seed) % len(declared)]
            plan.append((n, rnd.choice(["mixed", "declared", "declared", "tags", "scalars"]), f))
    # every part draws the same plan shape, and takes its share of it
    for i, (n, kind, form) in enumerate(plan):
        if i % parts != part:
            continue
        if form == "protocol" and kind == "declared":
            kind = "mixed"
        types = mix(rnd, n, kind)
        name = "S%d" % serial
        serial += 1
        out.append(klass(name, types, form))
        tl = ", ".join(type_of(t) for t in types)
        if form.startswith("explicit"):
            calls.append('bytes_only<%s, %d>("%s|n=%d|%s");' % (name, n, form, n, kind))
        else:
            calls.append('judge<%s, %d, types<%s>>("%s|n=%d|%s");' % (name, n, tl, form, n, kind))
        # sums at compile time
        if form == "plain" and kind in ("ints", "tags") and n:
            vals = [rnd.randrange(1, 100) for _ in range(n)]
            acc = 7
            for v in vals:
                acc = (acc * 31 + v) % 1000003
            calls.append('constant<%s, visit_fold(%s{%s})>("%s|n=%d|%s", %du);' % (name, name, ", ".join("{%d}" % v for v in vals), form, n, kind, acc))
    out.append("void run() {\n%s\n}\n}\n" % "\n".join(calls))
    out.append("int main(int argc, char ** argv) { mon::init(argc, argv); c27::run(); return mon::finish(); }\n")
    with open(path, "w") as f:
        f.write("".join(out))
