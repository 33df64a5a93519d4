"""Generates the C23 harness: messages of every length with the digests, slices and
bytes computed by Python's hashlib, to compare with the library's."""
import hashlib
import random

LENGTHS = list(range(0, 136)) + [183, 184, 191, 192, 193, 247, 248, 255, 256, 257, 311, 312, 319, 320, 321, 439, 440, 447, 448, 503, 504, 505, 511, 512, 513, 575, 640, 767, 1000, 1023, 1024, 1025]


def arr(b):
    return "{" + ",".join("b{%d}" % x for x in b) + "}"


def lit(b):
    """A C++ narrow string literal of these bytes."""
    o = ""
    for x in b:
        c = chr(x)
        o += c if x < 128 and c.isalnum() or c in " .,:;+-*/=<>()[]{}_" else "\\%03o" % x
    return '"' + o + '"'


def text(b):
    return "T(" + lit(b) + ")"


def generate(path, part, parts, seed, thorough):
    rnd = random.Random(seed * 1000 + part)
    out = ['#include "zpp_bits.h"', '#include "common/mon.hpp"', '#include "common/c23.hpp"', "namespace c23 {"]
    body = []

    def content(n, kind):
        if kind == "zeros":
            return bytes(n)
        if kind == "ones":
            return b"\xff" * n
        if kind == "text":
            return bytes(rnd.choice(b"abcdefghijklmnopqrstuvwxyz :") for _ in range(n))
        return bytes(rnd.randrange(256) for _ in range(n))

    lengths = LENGTHS + ([rnd.randrange(136, 1400) for _ in range(80)] if thorough else [rnd.randrange(136, 600) for _ in range(4)])
    k = 0
    for i, n in enumerate(lengths):
        if i % parts != part:
            continue
        kinds = ["random"]
        if thorough or n in (55, 56, 63, 64, 119, 120):
            kinds += ["zeros", "ones", "text"]
        for kind in kinds:
            m = content(n, kind)
            k += 1
            if n and n < 300:
                out.append("constexpr std::array<b, %d> m%d%s;" % (n, k, arr(m)))
            else:
                out.append("constexpr zb::string_literal m%d{%s};" % (k, lit(m)))
            d1, d2 = hashlib.sha1(m).digest(), hashlib.sha256(m).digest()
            ct = n < 64 and i % 16 < (16 if thorough else 5) or n in (55, 56, 64)
            body.append("digests<m%d, %s>(%d, %s, %s);" % (k, "true" if ct else "false", n, text(d1), text(d2)))
    # literals
    for i in range(part, 40 if not thorough else 400, parts):
        n = rnd.choice([1, 2, 3, 5, 9, 20, 55, 56, 64, 70])
        s = content(n, rnd.choice(["text", "random", "text"]))
        d1, d2 = hashlib.sha1(s).digest(), hashlib.sha256(s).digest()
        L = lit(s)
        body.append("literal_bytes(%s_sha1, %s, \"_sha1\");" % (L, text(d1)))
        body.append("literal_bytes(%s_sha256, %s, \"_sha256\");" % (L, text(d2)))
        body.append("literal_int(%s_sha1_int, %du, \"_sha1_int\");" % (L, int.from_bytes(d1[:4], "little")))
        body.append("literal_int(%s_sha256_int, %du, \"_sha256_int\");" % (L, int.from_bytes(d2[:4], "little")))
        body.append("literal_bytes(%s_b, %s, \"_b\");" % (L, text(s)))
        body.append("literal_bytes(%s_s, %s, \"_s\");" % (L, text(s)))
        if len(s) <= 20:
            # an identifier is the literal's bytes, or the first ones
            for w in sorted({len(s), rnd.randrange(1, len(s) + 1), min(4, len(s)), min(8, len(s))}):
                body.append("identifier<zb::id<%s_s, %d>, zb::id_v<%s_s, %d>>(%s);" % (L, w, L, w, text(s[:w])))
            body.append("identifier<zb::id<%s_s>, zb::id_v<%s_s>>(%s);" % (L, L, text(s)))
        for w in (1, 2, 3, 4, 5, 7, 8, 9, 16, 19, 20):
            if (i + w) % 3 == 0:
                body.append("identifier<zb::id<%s_sha1, %d>, zb::id_v<%s_sha1, %d>>(%s);" % (L, w, L, w, text(d1[:w])))
        for w in (1, 2, 3, 4, 6, 8, 31, 32):
            if (i + w) % 4 == 0:
                body.append("identifier<zb::id<%s_sha256, %d>, zb::id_v<%s_sha256, %d>>(%s);" % (L, w, L, w, text(d2[:w])))
        body.append("identifier<zb::id<%s_sha256_int>, zb::id_v<%s_sha256_int>>(%s);" % (L, L, text(d2[:4])))
        v = rnd.randrange(2**32)
        body.append("identifier<zb::id<std::uint32_t(%du)>, zb::id_v<std::uint32_t(%du)>>(%s);" % (v, v, text(v.to_bytes(4, "little"))))
        v = rnd.randrange(2**63)
        body.append("identifier<zb::id<std::uint64_t(%du)>, zb::id_v<std::uint64_t(%du)>>(%s);" % (v, v, text(v.to_bytes(8, "little"))))
        v = rnd.randrange(2**16)
        body.append("identifier<zb::id<std::uint16_t(%du)>, zb::id_v<std::uint16_t(%du)>>(%s);" % (v, v, text(v.to_bytes(2, "little"))))
        v = rnd.randrange(2**8)
        body.append("identifier<zb::id<std::uint8_t(%du)>, zb::id_v<std::uint8_t(%du)>>(%s);" % (v, v, text(v.to_bytes(1, "little"))))
    # hex, all pairs of digits in both cases
    pairs = [bytes([x]) for x in range(256) if x % parts == part]
    texts = [b"".join(pairs)] + [content(rnd.randrange(1, 40), "random") for _ in range(6)]
    for m in texts:
        for how in range(3):
            h = m.hex()
            h = h if how == 0 else h.upper() if how == 1 else "".join(rnd.choice([c.lower(), c.upper()]) for c in h)
            body.append('literal_bytes("%s"_decode_hex, %s, "_decode_hex");' % (h, text(m)))
    body.append('static_assert(""_decode_hex.size() == 0);')
    # other objects than byte strings: the digest of their serialized bytes
    for i in range(part, 24, parts):
        v = [rnd.randrange(2**16) for _ in range(rnd.randrange(1, 40))]
        m = b"".join(x.to_bytes(2, "little") for x in v)
        k += 1
        out.append("constexpr std::array<std::uint16_t, %d> m%d{%s};" % (len(v), k, ",".join(map(str, v))))
        body.append("digests<m%d, false>(%d, %s, %s);" % (k, len(m), text(hashlib.sha1(m).digest()), text(hashlib.sha256(m).digest())))
    out.append("void run() {")
    # small functions keep the compiler quick
    out.append("}")
    chunks = [body[i:i + 25] for i in range(0, len(body), 25)]
    out.pop()
    out.pop()
    for i, ch in enumerate(chunks):
        out.append("void run%d() {\n%s\n}" % (i, "\n".join(ch)))
    out.append("void run() {\n%s\n}\n}" % "\n".join("run%d();" % i for i in range(len(chunks))))
    out.append("int main(int argc, char ** argv) { mon::init(argc, argv); c23::run(); return mon::finish(); }")
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")
