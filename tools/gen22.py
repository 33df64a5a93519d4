"""Generates the program lists of C22: which types, buffers, options and seeds the constexpr
programs of c22.cpp run with, and constants for to_bytes and from_bytes."""
import random
import struct

PLAIN = [
    "std::uint8_t", "std::int8_t", "char", "std::byte", "std::int16_t", "std::uint16_t", "std::uint32_t", "std::int32_t", "std::int64_t", "std::uint64_t", "bool@",
    "float", "double", "char16_t", "char32_t", "E8", "E16", "E32", "E64", "Pod", "Padded", "Bytes4", "Nested", "Empty", "WithEmpty", "CArr", "Explicit", "Private",
    "Varints", "Numbers", "zb::numbers::big_endian<std::uint16_t>", "std::array<std::uint16_t, 5>", "std::array<std::uint8_t, 7>", "std::array<Pod, 2>", "std::array<Padded, 2>",
    "std::tuple<std::uint8_t, std::uint32_t>", "std::tuple<Pod, std::array<std::int16_t, 2>, double>", "std::pair<std::uint16_t, Padded>", "std::tuple<>",
    "std::optional<std::uint32_t>", "std::optional<Pod>", "std::optional<std::tuple<std::uint8_t, std::uint16_t>>", "std::array<std::optional<std::uint16_t>, 3>",
    "zb::vint32_t", "zb::vsint64_t", "zb::vuint64_t", "std::array<zb::vsint32_t, 4>", "std::tuple<zb::vint64_t, std::uint8_t, zb::vuint32_t>",
]
DYNAMIC = [
    "std::string", "std::vector<std::uint8_t>", "std::vector<std::uint32_t>", "std::vector<double>", "std::vector<Pod>", "std::vector<Padded>", "std::vector<Bytes4>", "std::vector<E16>",
    "std::vector<std::string>", "std::vector<std::vector<std::uint16_t>>", "Person", "std::vector<Person>", "std::optional<std::string>", "std::tuple<std::string, std::vector<std::uint16_t>>",
    "std::vector<std::tuple<std::uint8_t, std::uint32_t>>", "std::vector<std::optional<std::uint16_t>>", "std::vector<zb::vint32_t>", "std::vector<Explicit>", "std::vector<Numbers>",
    "zb::sized_t<std::vector<std::uint16_t>, std::uint8_t>", "zb::sized_t<std::string, std::uint64_t>", "zb::sized_t<std::vector<Pod>, zb::vsize_t>", "std::u16string",
    "Message", "PlainMessage", "std::vector<PlainMessage>", "std::tuple<std::uint8_t, Sub, std::uint16_t>",
]
VARIANTS = [
    "std::variant<std::uint32_t, std::uint8_t, Pod>", "std::vector<std::variant<std::uint32_t, std::string>>", "std::optional<std::variant<std::uint16_t, Padded>>",
    "std::tuple<std::variant<std::string, std::vector<std::uint16_t>>, std::uint8_t>",
]
ENDIANS = ["", "zb::endian::big", "zb::endian::little", "zb::endian::swapped", "zb::endian::native", "zb::endian::network"]
SIZES = ["", "zb::size1b", "zb::size2b", "zb::size4b", "zb::size8b", "zb::size_varint", "zb::size_native"]
BYTES = ["std::byte", "char", "unsigned char"]


def options(rnd, dynamic):
    o = [rnd.choice(ENDIANS), rnd.choice(SIZES + ([] if dynamic else ["zb::no_size"]))]
    o = [x for x in o if x]
    rnd.shuffle(o)
    return o


def programs(rnd, part, parts, gcc, thorough):
    out = []

    def add(program, name):
        seed = rnd.randrange(1, 2**40)
        out.append('compare<%s, %du>("%s");' % (program, seed, name))

    types = PLAIN + DYNAMIC
    reps = 8 if thorough else 1 if gcc else 2
    if gcc:
        types = VARIANTS + rnd.sample(types, 60 if thorough else 6)
    for i, t in enumerate(types):
        dyn = t not in PLAIN
        for k in range(reps):
            t_ = t.rstrip("@")
            b, o = rnd.choice(BYTES), options(rnd, dyn)
            if (i + k) % parts != part:
                continue
            if t.endswith("@"):  # changed bytes are no bools
                continue
            add("VP<%s>" % ", ".join([t_, b] + o), ", ".join([t_, b] + o))
    for k in range(2 * reps):
        o = options(rnd, True)
        add("message_program<%s>" % ", ".join(o), "messages: " + ", ".join(o))
        o = options(rnd, True)
        add("view_program<%s>" % ", ".join(o), "views: " + ", ".join(o))
        o = options(rnd, True)
        add("call_program<%s>" % ", ".join(o), "calls: " + ", ".join(o))
        o = options(rnd, True)
        add("rpc_program<%s>" % ", ".join(o), "rpc: " + ", ".join(o))
        v, b = rnd.choice(["vint32_t", "vint64_t", "vuint32_t", "vuint64_t", "vsint32_t", "vsint64_t", "varint<std::uint16_t>", "varint<std::int16_t, zb::varint_encoding::zig_zag>"]), rnd.choice(BYTES)
        add("varint_program<zb::%s, %s>" % (v, b), "varints: %s %s" % (v, b))
    if part == 0:
        add("message_program<zb::size_varint>", "messages: size_varint")
        add("message_program<zb::no_size>", "messages: no_size")
        add("message_program<zb::size1b>", "messages: size1b")
    return out


def constant(rnd, depth=0):
    """(C++ structural constant, its type, its bytes)"""
    k = rnd.randrange(12 if depth < 2 else 6)
    if k < 4:
        bits = rnd.choice([8, 16, 32, 64])
        if rnd.random() < 0.5:
            v = rnd.randrange(2**bits)
            return "std::uint%d_t(%du)" % (bits, v), "std::uint%d_t" % bits, v.to_bytes(bits // 8, "little")
        v = rnd.randrange(-2 ** (bits - 1) + 1, 2 ** (bits - 1))
        return "std::int%d_t(%d)" % (bits, v), "std::int%d_t" % bits, v.to_bytes(bits // 8, "little", signed=True)
    if k == 4:
        v = rnd.randrange(2**15)
        return "E16(%d)" % v, "E16", struct.pack("<h", v)
    if k == 5:
        v = rnd.randrange(256)
        return "std::byte{%d}" % v, "std::byte", bytes([v])
    if k == 6:
        n = rnd.randrange(1, 6)
        v = [rnd.randrange(2**16) for _ in range(n)]
        return "std::array<std::uint16_t, %d>{%s}" % (n, ", ".join(map(str, v))), "std::array<std::uint16_t, %d>" % n, b"".join(struct.pack("<H", x) for x in v)
    if k == 7:
        a, b = rnd.randrange(-2**31 + 1, 2**31), rnd.randrange(2**32)
        return "Pod{%d, %du}" % (a, b), "Pod", struct.pack("<iI", a, b)
    if k == 8:
        a, b, c = rnd.randrange(128), rnd.randrange(-2**62, 2**62), rnd.randrange(2**16)
        return "Padded{%d, %d, %d}" % (a, b, c), "Padded", struct.pack("<bqH", a, b, c)
    if k == 9:
        s = "".join(rnd.choice("abcdefgh ijkl") for _ in range(rnd.randrange(1, 30)))
        return '"%s"_s' % s, "zb::string_literal<char, %d>" % len(s), s.encode()
    if k == 10:
        v = rnd.randrange(2**rnd.randrange(1, 63))
        o, x = b"", v
        while True:
            o += bytes([x & 127 | (128 if x > 127 else 0)])
            x >>= 7
            if not x:
                break
        return "zb::vuint64_t{%du}" % v, "zb::vuint64_t", o
    v = rnd.randrange(-2**31 + 1, 2**31)
    return "zb::numbers::big_endian<std::int32_t>{%d}" % v, "zb::numbers::big_endian<std::int32_t>", struct.pack(">i", v)


def constants(rnd, part, parts, thorough):
    out = []
    for i in range(12 if not thorough else 60):
        n = rnd.choice([1, 1, 2, 3, 4, 5])
        cs = [constant(rnd) for _ in range(n)]
        data = b"".join(c[2] for c in cs)
        if not data:
            continue
        text = "".join("\\%03o" % x for x in data)
        out.append('constants<values<%s>, %s>(std::string_view("%s", %d));' % (", ".join(c[0] for c in cs), ", ".join(c[1] for c in cs), text, len(data)))
    return out


def generate(path, part, parts, seed, thorough, gcc=False, few=False):
    rnd = random.Random(seed * 1000 + 77 * gcc)
    lines = programs(rnd, part, parts, gcc, thorough)
    if few:
        lines = [x for x in lines if rnd.random() < 0.2 or 'arint' in x or 'vint' in x or 'vs' in x]
    lines += constants(random.Random(seed * 1000 + part + 500 * gcc), part, parts, thorough)
    inc = path[:-4] + ".inc"
    with open(inc, "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(path, "w") as f:
        f.write('#define PROGRAMS "%s"\n#include "c22.cpp"\n' % inc)
