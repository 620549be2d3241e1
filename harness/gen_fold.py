"""Generates uses of what can be computed at compile time, with the values they must have, computed here."""
import base64 as b64
import random
import struct

UPPER, LOWER, DIGITS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmnopqrstuvwxyz", "0123456789"
M32, M64 = 2**32 - 1, 2**64 - 1
INTS = [("ce::uint8_t", 8, 0), ("ce::int8_t", 8, 1), ("ce::uint16_t", 16, 0), ("ce::int16_t", 16, 1), ("ce::uint32_t", 32, 0), ("ce::int32_t", 32, 1), ("ce::uint64_t", 64, 0), ("ce::int64_t", 64, 1)]
POLYS = [0x82f63b78, 0xedb88320, 0xeb31d82e, 0xd5828281, 0x80000001 | 0x4000]


def fnv(bs, bits, h=None):
    prime = 0x01000193 if bits == 32 else 0x100000001b3
    if h is None:
        h = 0x811c9dc5 if bits == 32 else 0xcbf29ce484222325
    for b in bs:
        h = (h ^ b) * prime & ((1 << bits) - 1)
    return h


def crc(bs, poly, c=0):
    v = ~c & M32
    for b in bs:
        v ^= b
        for _ in range(8):
            v = v >> 1 ^ (poly if v & 1 else 0)
    return ~v & M32


def cstr(bs):
    return '"' + "".join("\\%03o" % b for b in bs) + '"'


class Fold:
    def __init__(self, seed):
        self.r = random.Random(seed * 7919 + 5)
        self.top, self.body, self.n = [], [], 0

    def wide(self, bits, signed):
        r = self.r
        k = r.randint(0, bits)
        v = r.getrandbits(k) if k else 0
        if r.random() < 0.4:
            v = r.choice([(1 << k) - 1, 1 << k, (1 << k) + 1, (1 << bits) - 1, 1 << (bits - 1), 0])
        v &= (1 << bits) - 1
        return v - (1 << bits) if signed and v >> (bits - 1) else v

    def lit(self, v, bits=64, signed=1):
        if v < 0:
            return "(-%dll - 1)" % (-v - 1)
        return "%d%s" % (v, "ull" if v >= 2**63 else "ll")

    def array(self, t, vs):
        """a constant array and a variable one of the same values; returns their names"""
        i = self.n
        self.n += 1
        text = ", ".join("%s(%s)" % (t, v) for v in vs) or "%s(0)" % t
        self.top.append("static constexpr %s c_%d[] = { %s };\nextern %s v_%d[%d]; %s v_%d[] = { %s };" % (t, i, text, t, i, max(1, len(vs)), t, i, text))
        return "c_%d" % i, "v_%d" % i

    def use(self, kind, t, expr, args, want):
        """expr with {0}.. for the arguments' names; want: text of the value or None (then only both must agree)"""
        a, b = expr.format(*[x[0] for x in args]), expr.format(*[x[1] for x in args])
        self.body.append("    { constexpr %s folded = %s; %s run = %s; fold(c, %s, %s, folded, run, %s, %s); }" % (
            t, a, t, b, cstr(kind.encode()), cstr(a.encode()), "%s(%s)" % (t, want) if want is not None else "run", "true" if want is not None else "false"))

    def hashes(self):
        r = self.r
        t, bits, s = r.choice(INTS)
        n = r.choice([0, 1, 2, 3, 5, 8, r.randint(0, 40)])
        vs = [self.wide(bits, s) for _ in range(n)]
        bs = b"".join((v & ((1 << bits) - 1)).to_bytes(bits // 8, "little") for v in vs)
        a = self.array(t, [self.lit(v) for v in vs])
        for w in (32, 64):
            basis = None
            extra = ""
            if r.random() < 0.4:
                basis = self.wide(w, 0)
                extra = ", %s" % self.lit(basis)
            self.use("fnv1a%d" % w, "ce::uint%d_t" % w, "ce::hash::fnv1a%d(%d, {0}%s)" % (w, n, extra), [a], "%dull" % fnv(bs, w, basis))

    def texts(self):
        r = self.r
        bs = bytes(r.randint(1, 255) for _ in range(r.choice([0, 1, 2, 7, 8, 9, r.randint(0, 60)])))
        i = self.n
        self.n += 1
        n = len(bs) + 1
        self.top.append("static constexpr char c_%d[] = %s;\nextern char v_%d[%d]; char v_%d[] = %s;" % (i, cstr(bs), i, n, i, cstr(bs)))
        a = ("c_%d" % i, "v_%d" % i)
        self.use("fnv1a", "ce::uint32_t", "ce::hash::fnv1a({0})", [a], "%dull" % fnv(bs, 32))
        self.use("crc32c", "ce::uint32_t", "ce::crc32c({0})", [a], "%dull" % crc(bs, POLYS[0]))
        digits = 0
        while digits < len(bs) and chr(bs[digits]) in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/":
            digits += 1
        self.use("base64-size-text", "ce::size_t", "ce::base64::size({0})", [a], "%dull" % (digits * 3 // 4))

    def checksums(self):
        r = self.r
        t, bits, _ = r.choice([x for x in INTS if x[0] in ("ce::uint8_t", "ce::uint32_t", "ce::uint64_t")])
        n = r.choice([0, 1, 2, 3, r.randint(0, 30)])
        vs = [self.wide(bits, 0) for _ in range(n)]
        bs = b"".join(v.to_bytes(bits // 8, "little") for v in vs)
        p = r.choice(POLYS)
        c0 = r.choice([0, self.wide(32, 0)])
        a = self.array(t, [self.lit(v) for v in vs])
        T = "ce::crc32_t<%du>" % p
        self.use("crc32-%d" % bits, "ce::uint32_t", "ce::uint32_t(ce::crc32(%s(%du), %d, {0}))" % (T, c0, n), [a], "%dull" % crc(bs, p, c0))

    def decoders(self):
        r = self.r
        raw = bytes(r.getrandbits(8) for _ in range(r.choice([1, 2, 3, 4, 5, r.randint(1, 60)])))
        t = b64.b64encode(raw).decode()
        if r.random() < 0.5:
            t = t.rstrip("=")
        i = self.n
        self.n += 1
        self.top.append("struct d_%d { static constexpr char const* data = \"%s\"; };\nstatic constexpr ce::base64::decoder<d_%d> c_%d; static ce::base64::decoder<d_%d> v_%d;" % (i, t, i, i, i, i))
        a = ("c_%d" % i, "v_%d" % i)
        self.use("decoder", "ce::uint64_t", "digest({0}.data)", [a], "%dull" % fnv(raw, 64))
        n = self.wide(64, 0)
        b = self.array("ce::size_t", [self.lit(n)])
        self.use("base64-size", "ce::size_t", "ce::base64::size({0}[0])", [b], "%dull" % (n * 3 // 4))

    def letters(self):
        """all characters"""
        for base in range(0, 256, 32):
            a = self.array("char", ["%d" % (ch - 256 if ch > 127 else ch) for ch in range(base, base + 32)])
            for f, of in (("is_base10", DIGITS), ("is_base16", DIGITS + "ABCDEFabcdef"), ("is_base64", UPPER + LOWER + DIGITS + "+/"), ("is_alpha", UPPER + LOWER), ("is_upper", UPPER), ("is_lower", LOWER)):
                want = sum(1 << i for i in range(32) if base + i < 128 and chr(base + i) in of)
                self.use(f, "ce::uint32_t", " | ".join("(ce::ascii::%s({0}[%d]) ? %du : 0u)" % (f, i, 1 << i) for i in range(32)), [a], "%dull" % want)

    def vectors(self):
        r = self.r
        t, bits = r.choice([("ce::int32_t", 32), ("ce::int64_t", 64), ("double", 0), ("float", 0)])
        dim = r.choice([2, 3])

        def some(b):
            if bits:
                return self.wide(b, 1)
            return r.randint(-4096, 4096) / 8

        def show(v):
            return self.lit(v) if bits else repr(float(v))

        def vec(vs):
            i = self.n
            self.n += 1
            V = "ce::vec%d<%s>" % (dim, t)
            text = "{ %s }" % ", ".join("%s(%s)" % (t, show(v)) for v in vs)
            self.top.append("static constexpr %s c_%d%s;\nextern %s v_%d; %s v_%d%s;" % (V, i, text, V, i, V, i, text))
            return ("c_%d" % i, "v_%d" % i)

        # sums and differences within range
        A, B = [some(bits - 1) for _ in range(dim)], [some(bits - 1) for _ in range(dim)]
        if r.random() < 0.3:
            B = list(A)
            if r.random() < 0.6:
                B[r.randrange(dim)] = some(bits - 1)
        a, b = vec(A), vec(B)
        for op, w in (("+", [x + y for x, y in zip(A, B)]), ("-", [x - y for x, y in zip(A, B)])):
            for k in range(dim):
                self.use("vec" + op, t, "({0} %s {1}).%s" % (op, "xyz"[k]), [a, b], show(w[k]))
        self.use("vec==", "bool", "({0} == {1})", [a, b], "true" if A == B else "false")
        self.use("vec!=", "bool", "({0} != {1})", [a, b], "false" if A == B else "true")
        s = some(bits // 2 - 1) or 3
        C = [some(bits // 2 - 1) for _ in range(dim)]
        if r.random() < 0.3:
            C = [s] * dim
        c, ss = vec(C), self.array(t, [show(s)])
        self.use("vec==s", "bool", "({0} == {1}[0])", [c, ss], "true" if all(x == s for x in C) else "false")
        self.use("vec!=s", "bool", "({0} != {1}[0])", [c, ss], "false" if all(x == s for x in C) else "true")
        for k in range(dim):
            self.use("vec*", t, "({0} * {1}[0]).%s" % "xyz"[k], [c, ss], show(C[k] * s))
            if bits:
                q = abs(A[k]) // abs(s)
                self.use("vec/", t, "({0} / {1}[0]).%s" % "xyz"[k], [a, ss], show(q if (A[k] < 0) == (s < 0) else -q))
        if t == "double":
            return
        # products: exact in 64 bits
        w = 31 if t == "ce::int32_t" else 30
        P, Q = ([some(w) for _ in range(dim)], [some(w) for _ in range(dim)])
        if not bits:
            P, Q = [float(int(v)) for v in P], [float(int(v) // 16) for v in Q]
        p, q = vec(P), vec(Q)
        R = "ce::int64_t" if bits else "float"
        self.use("dotx", R, "ce::dotx({0}, {1})", [p, q], show(sum(x * y for x, y in zip(P, Q))))
        self.use("sqrx1", R, "ce::sqrx({0}.x)", [p], show(P[0] * P[0]))
        if t == "ce::int32_t":
            # one product always fits: the extremes too
            X, Y = (r.choice([-2**31, 2**31 - 1, -2**31 + 1, self.wide(32, 1)]) for _ in range(2))
            x, y = self.array(t, [show(X)]), self.array(t, [show(Y)])
            self.use("sqrx1", R, "ce::sqrx({0}[0])", [x], show(X * X))
            self.use("dotx1", R, "ce::dotx({0}[0], {1}[0])", [x, y], show(X * Y))
        if dim == 2:
            if bits:
                self.use("sqrx", R, "ce::sqrx({0})", [p], show(P[0] ** 2 + P[1] ** 2))
                ab, ba = P[0] * Q[1], P[1] * Q[0]
                self.use("inside", "bool", "ce::inside({0}, {1})", [p, q], "true" if (ab < ba if ab != ba else Q[1] < P[1] if P[1] != Q[1] else P[0] < Q[0]) else "false")
            self.use("crossx", R, "ce::crossx({0}, {1})", [p, q], show(P[0] * Q[1] - P[1] * Q[0]))
        else:
            for k in range(3):
                i, j = (k + 1) % 3, (k + 2) % 3
                self.use("crossx3", R, "ce::crossx({0}, {1}).%s" % "xyz"[k], [p, q], show(P[i] * Q[j] - P[j] * Q[i]))

    def degrees(self):
        r = self.r
        d = r.choice([45 * r.randint(-8, 8), r.randint(-360, 360), self.wide(32, 1)])
        a = self.array("ce::int32_t", [self.lit(d)])
        want = None
        if d % 45 == 0:
            w = d * (1 << 28) // 45 & M32
            want = self.lit(w - (1 << 32) if w >> 31 else w)
        self.use("degrees", "ce::int32_t", "ce::degrees_to_angle({0}[0])", [a], want)

    def names(self):
        r = self.r
        n = r.randint(1, 8)
        parts, src = [], ""
        for k in range(n):
            p = "".join(r.choice("abcxyz_059") for _ in range(r.randint(1, 9)))
            if r.random() < 0.4:
                p += r.choice(["(1, 2)", "[i]", "{ a, b }", " + \"x, y\"", " * 'c'", "(f(a, b), c)", " + 1'000", "(\"\\\"(\", 2)", " + ','"])
            parts.append(p)
            src += r.choice(["", " ", "  "]) + p + r.choice(["", " "]) + ("," if k < n - 1 else "")
        i = self.n
        self.n += 1
        S = cstr(src.encode())
        self.top.append("static constexpr ce::names<%d, %d> c_%d{ %s }; static ce::names<%d, %d> v_%d{ variable(%s) };" % (len(src) + 1, n, i, S, len(src) + 1, n, i, S))
        for k in range(n):
            self.use("names", "ce::uint32_t", "digest_text({0}.data[%d])" % k, [("c_%d" % i, "v_%d" % i)], "%dull" % fnv(parts[k].encode(), 32))

    def members(self):
        r = self.r
        n = r.randint(1, 10)
        parts = [r.choice("abc_Z") + "".join(r.choice("abcxyz_059") for _ in range(r.randint(0, 9))) for _ in range(n)]
        src = ",".join(r.choice(["", " ", "  "]) + p + r.choice(["", " "]) for p in parts)
        i = self.n
        self.n += 1
        S = cstr(src.encode())
        self.top.append("static constexpr ce::names_t<%d, %d> c_%d{ %s }; static ce::names_t<%d, %d> v_%d{ %s };" % (len(src) + 1, n, i, S, len(src) + 1, n, i, S))
        for k in range(n):
            self.use("members", "ce::uint32_t", "digest_text({0}.names[%d])" % k, [("c_%d" % i, "v_%d" % i)], "%dull" % fnv(parts[k].encode(), 32))


def generate(seed, thorough):
    f = Fold(seed)
    for _ in range(300 if thorough else 60):
        for what in (f.hashes, f.texts, f.checksums, f.decoders, f.vectors, f.degrees, f.names, f.members):
            what()
    f.letters()
    o = list(f.top)
    size = 40
    for i in range(0, len(f.body), size):
        o.append("static void part_%d(Case& c)\n{\n%s\n}" % (i // size, "\n".join(f.body[i:i + size])))
    o.append("static void (*const parts[])(Case&) = { %s };" % ", ".join("part_%d" % (i // size) for i in range(0, len(f.body), size)))
    return "\n".join(o) + "\n"
