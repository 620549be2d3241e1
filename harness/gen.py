"""Generates call sites (C++ source) with what each must report, from the seed alone."""
import random

import gen_fold
import gen_types
import gen_units

LEVELS = ["fatal", "error", "warn", "note", "info", "debug", "spam", "more"]


def cq(s):
    """C++ string literal of the bytes of s"""
    o = ""
    for b in s.encode("utf-8"):
        ch = chr(b)
        if ch in "\"\\?":
            o += "\\" + ch
        elif 32 <= b < 127:
            o += ch
        else:
            o += "\\%03o" % b
    return '"' + o + '"'


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.hits = []

    # an expression is a list of tokens; "" between two means no space, " " means white space.  Kept as [(token, gap after)]
    def toks(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, list):
                out += p
            else:
                out.append(p)
        return out

    def gap(self, need=False):
        return " " if need or self.r.random() < 0.4 else ""

    def comma(self):
        return [self.gap(), ",", self.gap()]

    def atom(self):
        """an int expression -> (tokens, C++ expression of the same value for the monitor)"""
        r = self.r
        k = r.randrange(12)
        if k < 3:
            v = "v%d" % r.randrange(6)
            return [v], v
        if k == 3:
            n = r.choice([0, 1, 7, 42, 1000, 65535, 2147483647])
            return [str(n)], str(n)
        if k == 4:
            s = r.choice(["0x1F", "0b101", "017", "1'000", "0xF'f", "12'34'5", "0b1'0", "0xA", "9"])
            return [s], "int(%s)" % s.replace("'", "")
        if k == 5:
            i = len(self.hits)
            n = r.randrange(100)
            self.hits.append(n)
            return self.toks("hit", "(", self.gap(), str(n), self.comma(), "v1", self.gap(), ")"), "v1"
        if k == 6:
            i = r.randrange(8)
            return self.toks("arr", self.gap(), "[", self.gap(), str(i), self.gap(), "]"), "arr[%d]" % i
        if k == 7:
            a, ea = self.atom()
            b, eb = self.atom()
            return self.toks("sum", "(", self.gap(), a, self.comma(), b, ")"), "sum(%s, %s)" % (ea, eb)
        if k == 8:
            a, ea = self.atom()
            return self.toks("P", "{", self.gap(), a, self.comma(), "3", self.gap(), "}", ".", "x"), "(%s)" % ea
        if k == 9:
            a, ea = self.atom()
            return self.toks("(", self.gap(), "v2", self.comma(), a, ")"), "(%s)" % ea
        if k == 10:
            c = r.choice(["','", "'('", "')'", "'['", "'\"'", "'\\''", "'\\\\'", "'}'", "'a'", "L','", "u'('", "U'}'", "u8'\"'", "L'\\''", "u']'"])
            return self.toks("int", "(", c, ")"), "int(%s)" % c
        a, ea = self.atom()
        return self.toks("arr", "[", "sum", "(", self.gap(), a, self.comma(), "v5", ")", " ", "&", self.gap(), "7", "]"), "arr[sum(%s, v5) & 7]" % ea

    def small(self):
        v = "v%d" % self.r.randrange(6)
        return [v], v

    def integer(self):
        r = self.r
        k = r.randrange(8)
        if k < 4:
            a, ea = self.atom()
        if k < 3:
            return a, ea
        if k == 3:
            b, eb = self.small()
            return self.toks(a, " ", "&", " ", b), "((%s) & (%s))" % (ea, eb)
        if k == 4 and r.random() < 0.1:
            # longer than any counter of a byte
            n = r.choice([60, 130, 260, 700])
            return self.toks("v0", *(["^", "v%d" % (j % 6)][h] for j in range(n) for h in (0, 1))), "(v0 %s)" % " ".join("^ v%d" % (j % 6) for j in range(n))
        if k == 4:
            b, eb = self.small()
            g = self.gap()
            return self.toks("v0", g, "+", g, "v1", self.gap(), "-", self.gap(), "v2"), "(v0 + v1 - v2)"
        if k == 5:
            return self.toks("v3", self.gap(), "<<", self.gap(), "2"), "(v3 << 2)"
        if k == 6:
            a, ea = self.small()
            b, eb = self.small()
            return self.toks("(", "v0", " ", "<", " ", "v1", ")", self.gap(), "?", self.gap(), a, self.gap(), ":", " ", b), "(v0 < v1 ? (%s) : (%s))" % (ea, eb)
        return self.toks("-", "v4"), "(-v4)"

    LITS = ["plain", "", "a, b", "(", ")", "[x", "{", "}", ")]}", "it's", "'", "say \\\"hi\\\", now", "back\\\\slash", "tab\\there", "end\\\\", "\\\"", "é, ü", "水", "//", "/* no */", "a  b", " lead", "trail ", "%s", "\\x41", "?!", "$", "\\'"]
    VAL = {"\\\"": '"', "\\\\": "\\", "\\t": "\t", "\\x41": "A", "\\'": "'"}

    def string(self):
        r = self.r
        parts = [r.choice(self.LITS) for _ in range(r.choice([1, 1, 1, 2]) if r.random() < 0.98 else r.choice([40, 90]))]
        t = []
        for i, p in enumerate(parts):
            if i:
                t.append(" ")
            t.append('"%s"' % p)
        s = ""
        for p in parts:
            i = 0
            while i < len(p):
                for e, v in self.VAL.items():
                    if p.startswith(e, i):
                        s += v
                        i += len(e)
                        break
                else:
                    s += p[i]
                    i += 1
        return t, s

    def arg(self, last=False):
        """-> (tokens, C++ std::string expression of the reported value)"""
        r = self.r
        k = r.randrange(14)
        if k < 5:
            t, e = self.integer()
            return t, "S(int(%s))" % e if True else ""
        if k < 8:
            t, s = self.string()
            return t, "std::string(%s)" % cq(s)
        if k == 8:
            c = r.choice(["','", "'('", "')'", "'['", "'\"'", "'\\''", "'\\\\'", "'}'", "'a'", "'$'"])
            return [c], "S(%s)" % c
        if k == 9:
            return self.toks("v0", self.gap(), r.choice(["<", ">", "==", "!="]), self.gap(), "v1"), None
        if k == 10:
            v = "s%d" % r.randrange(3)
            return [v], "S(%s)" % v
        if k == 11:
            n = r.choice(["10.5", "0.25f", "1'0.5", "-3.0", "1e3"])
            return ([n], {"10.5": '"10.5"', "0.25f": '"0.25"', "1'0.5": '"10.5"', "-3.0": '"-3"', "1e3": '"1000"'}[n].join(["std::string(", ")"]))
        if k == 12 and last:
            return self.toks("both", "<", "int", ",", " ", "3", ">", "(", ")"), 'S(3)'
        if k == 12:
            return ["E", "::", r.choice("ab")], None
        return ["wide"], "S(wide)"

    def fix(self, t, e):
        if e is None:
            e = "S(%s)" % "".join(t)
        return t, e

    def source(self, t):
        """tokens as source text: each white space in one of many ways"""
        o = ""
        for x in t:
            if x == " ":
                x = self.r.choice([" ", " ", " ", "  ", "\t", " /* c, ( \" */ ", "\n        ", " \\\n "])
            o += x
        return o

    def args(self, n):
        out = []
        for i in range(n):
            out.append(self.fix(*self.arg(i == n - 1)))
        return out


def canon(t):
    return "".join(t)


def logs(seed, n):
    g = Gen("log %d" % seed)
    r = g.r
    o = ["// generated: %d call sites, seed %d" % (n, seed)]
    for i in range(n):
        g.hits = []
        lv = r.choice(LEVELS + ["snowball", "to_text", "0", "level_x"])
        num = LEVELS.index(lv) if lv in LEVELS else 7
        msg = r.random() < 0.25
        a = g.args(r.randrange(1, 9) if msg or r.random() < 0.95 else 0)
        src = ""
        for t, e in a:
            src += r.choice([",", ", ", " , ", ",\n    "]) + g.source(t)
        pre = r.choice(["", " "])
        o.append("static void site_%d() { CE_LOG%s(%s%s%s%s); }" % (i, "_MSG" if msg else "", pre, lv, src, r.choice(["", " "])))
        o.append("static void want_%d(Want& w) {" % i)
        o.append('    w.level = %d; w.add("$", "%s");' % (num, lv))
        if msg:
            o.append('    w.add("$msg", %s);' % (" + ".join(e for t, e in a)))
        else:
            for t, e in a:
                o.append("    w.add(%s, %s);" % (cq(canon(t)), e))
        o.append("    w.hits = { %s }; }" % ", ".join(str(h) for h in g.hits))
    o.append("static Site const sites[] = { %s };" % ", ".join("{ site_%d, want_%d }" % (i, i) for i in range(n)))
    return "\n".join(o) + "\n"


def checks(seed, n):
    g = Gen("check %d" % seed)
    r = g.r
    o = ["// generated: %d call sites, seed %d" % (n, seed)]
    for i in range(n):
        kind = r.choice(["CE_ASSERT", "CE_VERIFY", "CE_REJECT", "CE_ERROR"])
        # the test: counted, and true or false as the monitor sets flag
        g.hits = []
        test = r.choice([["test", "(", ")"], ["test", "(", ")", " ", "&&", " ", "v0", "==", "v0"], ["!", "!", "test", "(", ")"], ["sum", "(", "1", ",", " ", "2", ")", "==", "3", " ", "&&", " ", "test", "(", ")"],
                         ["test", "(", ")", " ", "||", " ", "test_false", "(", ")"], ["(", "v0", ",", "test", "(", ")", ")"], ["test", "(", ")", " ", "&", " ", "(", "\"\\\"\\\\,\"", "[", "0", "]", " ", "!=", " ", "0", ")"]])
        g.hits = []
        a = g.args(r.randrange(0, 6))
        line = r.randrange(1, 100000)
        file = "dir %d/f\\\\%d.cpp" % (i % 7, i)
        src = ""
        more = ""
        for j, (t, e) in enumerate(a):
            sep = r.choice([",", ", "])
            flat = "".join(x if x != " " else r.choice([" ", "  ", " /* x */ "]) for x in t)
            src += ("" if j == 0 else sep) + flat
            more += ("" if j == 0 else sep) + canon(t)
        o.append("#line %d \"%s\"" % (line, file))
        full = (src if kind == "CE_ERROR" else "".join(test) + (", " + src if a else ""))
        if kind in ("CE_VERIFY", "CE_REJECT"):
            o.append("static int site_%d() { if (%s(%s)) return 1; return 0; }" % (i, kind, full))
        else:
            o.append("static int site_%d() { %s(%s); return 2; }" % (i, kind, full))
        o.append("#line 1 \"want\"")
        o.append("static void want_%d(Want& w) {" % i)
        o.append('    w.kind = "%s"; w.what = %s; w.file = "%s(%d)"; w.more = %s;' % (kind, cq("" if kind == "CE_ERROR" else canon(test)), file, line, cq(more)))
        for t, e in a:
            o.append("    w.add(%s);" % e)
        o.append("    w.hits = { %s }; }" % ", ".join(str(h) for h in g.hits))
    o.append("static Site const sites[] = { %s };" % ", ".join("{ site_%d, want_%d }" % (i, i) for i in range(n)))
    return "\n".join(o) + "\n"


def types(seed, n):
    """described types with what walking them must report"""
    r = random.Random("type %d" % seed)
    o = ["// generated: %d described types, seed %d" % (n, seed)]
    known = []   # (C++ name, depth, weight)
    atoms = ["int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "float", "double", "bool", "char", "Color", "Wide", "Old", "void*"]
    used = set()

    def ident():
        while True:
            k = r.randrange(8)
            if k == 0:
                s = r.choice(["é", "水", "_", "naïve", "Ω", "x_", "y", "x", "size", "data", "name", "item", "n"]) + r.choice(["", str(r.randrange(1000))])
            elif k == 1:
                s = "m" + "".join(r.choice("abcXYZ_09") for _ in range(r.choice([1, 5, 40, 120])))
            else:
                s = "".join(r.choice("abcdefghijklmnopqrstuvwxyz_ABCDEFG") for _ in range(r.randrange(1, 9))) + str(r.randrange(100))
            if s not in used and s not in ("io", "IO", "_n", "y", "x"):
                used.add(s)
                return s

    def kind(depth):
        """-> C++ type (usable as a template argument), array suffix, weight"""
        k = r.randrange(12)
        if k < 4 or depth > 3:
            return r.choice(atoms), "", 1
        if k < 7 and known:
            for _ in range(5):
                name, d, w = r.choice(known[-12:])
                if w < 2000:
                    return name, "", w
            return "uint64_t", "", 1
        t, a, w = kind(depth + 1)
        if k < 9:
            dims = [r.choice([1, 2, 3, 5]) for _ in range(r.choice([1, 1, 2, 3]))]
            m = 1
            for d in dims:
                m *= d
            if w * m > 2000:
                return t, a, w
            return t, "".join("[%d]" % d for d in dims) + a, w * m
        if a:
            return t, a, w
        if k == 9:
            c = r.choice([1, 2, 7])
            if w * c > 2000:
                return t, a, w
            return "ce::list<%s, %d>" % (t, c), "", w * c
        if k == 10:
            c = r.choice([1, 2, 2, 3, 4])
            return "ce::vec<%d, %s%s>" % (c, t, r.choice(["", "", ", Tag"])), "", w * c
        h, c = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3, 4])
        return "ce::mat<%d, %d, %s>" % (h, c, t), "", w * h * c

    def gap():
        return r.choice(["", "", "", " ", "  ", "\t", " /* a, b */ ", "\n    ", " \\\n "])

    for i in range(n):
        used.clear()
        ns = r.choice(["", "", "deep", "deep::er"])
        name = "T%d" % i
        full = (ns + "::" if ns else "") + name
        style = r.randrange(10)
        m = []        # (declaration, expression as tokens, C++ path)
        base = ""
        weight = 0
        if style == 0:
            # another type's shape
            k = r.randrange(4)
            body, shape, w = [("int a, b, c;", ("int[3]", "(int const(&)[3])v.a"), 3), ("float f;", ("float", "v.f"), 1), ("uint8_t b[2][3];", ("uint8_t[6]", "(uint8_t const(&)[6])v.b"), 6), ("int64_t q;", ("int64_t", "v.q"), 1)][k]
            o.append(("namespace %s { " % ns if ns else "") + "struct %s { %s };" % (name, body) + (" }" if ns else ""))
            o.append("CE_IO_AS(%s, %s);" % (full, shape[0]))
            o.append("template<> struct Shape<%s> { static void walk(Trace& t, %s const& v) { Shape<%s>::walk(t, %s); } static void fill(kit::Rng& r, %s& v) { kit_fill(r, &v, sizeof v); } };" % (full, full, shape[0], shape[1], full))
            known.append((full, 1, w))
            continue
        if style == 1 and known:
            base, _, bw = r.choice(known)
            if "<" in base or bw > 500:
                base = ""
        count = r.choice([1, 1, 2, 3, 4, 5, 8, 13]) if r.random() < 0.93 else r.choice([40, 100, 200])
        decl = []
        for j in range(count):
            x = ident()
            if r.random() < 0.08:
                y = ident()
                t, a, w = kind(2)
                decl.append("struct { %s %s%s; } %s;" % (t, y, a, x))
                m.append(([x, ".", y], "%s.%s" % (x, y)))
            elif r.random() < 0.05:
                t, a, w = kind(2)
                decl.append("%s %s[3]%s;" % (t, x, a))
                e = r.randrange(3)
                m.append(([x, "[", str(e), "]"], "%s[%d]" % (x, e)))
            else:
                t, a, w = kind(0)
                decl.append("%s %s%s;" % (t, x, a))
                m.append(([x], x))
            weight += w
            if weight > 3000:
                break
        # listed in any order, some not at all
        if r.random() < 0.3:
            r.shuffle(m)
        if len(m) > 2 and r.random() < 0.3:
            m = m[:-1]
        o.append(("namespace %s { " % ns if ns else "") + "struct %s%s { %s };" % (name, " : " + base if base else "", " ".join(decl)) + (" }" if ns else ""))
        src = ",".join(gap() + gap().join(t) + gap() for t, p in m)
        o.append("CE_IO_BIND(%s,%s);" % (full, src))
        walk = "t.add('{');" + "".join(' t.name(%s); Shape<std::remove_cv_t<std::remove_reference_t<decltype((%s))>>>::walk(t, %s);' % (cq("".join(t)), "v." + p, "v." + p) for t, p in m) + " t.add('}');"
        fill = "".join(" Shape<std::remove_cv_t<std::remove_reference_t<decltype((v.%s))>>>::fill(r, v.%s);" % (p, p) for t, p in m)
        o.append("template<> struct Shape<%s> { static void walk(Trace& t, %s const& v) { %s } static void fill(kit::Rng& r, %s& v) {%s } };" % (full, full, walk, full, fill))
        known.append((full, 1, max(weight, 1)))
    o.append("static Entry const entries[] = { %s };" % ", ".join("entry<%s>(%s)" % (k[0], cq(k[0])) for k in known))
    return "\n".join(o) + "\n"


def names(seed, n):
    """enumerations with their values and names, and types with their full names"""
    r = random.Random("name %d" % seed)
    o = ["// generated: %d enumerations and types, seed %d" % (n, seed)]
    bits = {"int8_t": 8, "uint8_t": 8, "int16_t": 16, "uint16_t": 16, "int32_t": 32, "uint32_t": 32, "int64_t": 64, "uint64_t": 64, "char": 8, "unsigned long": 64, "long long": 64}
    entries = []
    enums = []
    for i in range(n):
        under = r.choice([None, None] + sorted(bits))
        scoped = r.random() < 0.5
        signed = under is None or under[0] != "u" and under != "unsigned long"
        top = {None: 2**31 - 1}.get(under) or 2**(bits[under] - (1 if signed else 0)) - 1
        low = 0 if not signed else -2**(31 if under is None else bits[under] - 1)
        style = r.randrange(7)
        pool = [0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255]
        vals = {"dense": range(r.choice([1, 2, 5, 64, 256])), "edges": pool, "few": r.sample(range(256), r.choice([1, 3, 10])), "far": r.sample(range(256), 5) + [256, 257, 511, 65536, 2**31, 2**32, 2**32 + 1, 2**32 + 255, 2**63, 2**64 - 1, 2**40 + 7, -1, -2, -128, -256],
                "dense2": range(100, 180), "none": [], "half": [v for v in range(256) if r.random() < 0.5]}[["dense", "edges", "few", "far", "dense2", "none", "half"][style]]
        vals = [v for v in vals if low <= v <= top]
        if r.random() < 0.5:
            vals = list(vals)
            r.shuffle(vals)
        used = set()
        scope = r.choice(["", "", "deep", "deep::er", "hidden", "quite::a::deep::nest_of_namespaces_with_long_names::inside_of_one_another::each", "class", "template", "local", "hidden class"])
        if not scoped and not ("class" in scope or scope in ("template", "local")):
            pre = "e%d_" % i
        else:
            pre = ""

        def ident():
            while True:
                s = r.choice(["", "", "", "_", "é", "水", "Ω", "E", "unknown", "red", "N", "T", "deep", "value_", "a" * 70])
                s = pre + s + "".join(r.choice("abcdefXYZ_09") for _ in range(r.randrange(0, 6)))
                # names which begin others
                if used and r.random() < 0.3:
                    s = r.choice(sorted(used)) + r.choice(["_", "x", "0", "é"])
                if s and not s[0].isdigit() and "__" not in s and s not in used and s != "E%d" % i and s not in ("T", "N", "X", "int", "red" if not pre and not scoped else ""):
                    used.add(s)
                    return s

        pairs = [(v, ident()) for v in vals]
        name = "E%d" % i
        body = "enum %s%s%s { %s };" % ("class " if scoped else "", name, " : " + under if under else "", ", ".join("%s = %s" % (x, lit(v)) for v, x in pairs))
        full = name
        shown = name
        if scope.startswith(("deep", "quite")):
            o.append("namespace %s { %s }" % (scope, body))
            full = shown = scope + "::" + name
        elif scope == "hidden":
            o.append("namespace { %s }" % body)
            shown = "(anonymous namespace)::" + name
        elif scope == "class":
            o.append("struct In%d { %s };" % (i, body))
            full = shown = "In%d::%s" % (i, name)
        elif scope == "hidden class":
            o.append("namespace deep { namespace { struct In%d { struct T { %s }; }; } }" % (i, body))
            full = "deep::In%d::T::%s" % (i, name)
            shown = "deep::(anonymous namespace)::In%d::T::%s" % (i, name)
        elif scope == "template":
            o.append("template<class X, int N> struct In%d { %s };" % (i, body))
            full = shown = "In%d<int, -%d>::%s" % (i, i + 1, name)
            # clang knows the enumerators of a template's enumeration once one of them was used
            if pairs:
                o.append("static auto const touch_%d = %s::%s;" % (i, full, pairs[0][1]))
        elif scope == "local":
            o.append("static auto local_%d() { %s return %s{ }; }" % (i, body, name))
            full = "decltype(local_%d())" % i
            shown = name
        else:
            o.append(body)
        # an enumeration without a type of its own holds just so many bits
        if under is None and not scoped:
            m = max([v for v in vals if v >= 0] + [0])
            neg = min(list(vals) + [0])
            b = max(m.bit_length(), (-neg - 1).bit_length() if neg < 0 else 0, 1)
            hi = 2**b - 1
            lo = -2**b if neg < 0 else 0
        else:
            lo, hi = low, top
        o.append("static Pair const pairs_%d[] = { %s };" % (i, ", ".join(["{ uint64_t(%s), %s }" % (lit(v), cq(x)) for v, x in pairs] + ["{ 0, nullptr }"])))
        entries.append("entry<%s>(%s, pairs_%d, %s, uint64_t(%s))" % (full, cq(full), i, lit(lo), lit(hi)))
        enums.append((full, shown))
    o.append("static Entry const enums[] = { %s };" % ",\n    ".join(entries))
    basic = ["int", "unsigned int", "char", "signed char", "unsigned char", "short", "unsigned short", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "long double", "bool", "wchar_t", "char16_t", "char32_t", "void", "Tag", "deep::Tag", "deep::er::Tag", "Tag::Inner", "é"]

    def ptr(t, x):
        return t + x if t[-1] in "*&" else t + " " + x

    def ty(d):
        """-> (C++, shown, kind)"""
        k = r.randrange(10)
        if k < 3 or d > 4:
            b = r.choice(basic)
            return b, b, "void" if b == "void" else "plain"
        if k == 3:
            f, sh = r.choice(enums)
            if not f.startswith("decltype"):
                return f, sh, "plain"
            return "Tag", "Tag", "plain"
        if k == 4:
            a = ty(d + 1)
            if a[2] == "array":
                return a
            m = r.choice([0, 3, -7])
            return "pair<%s, %d>" % (a[0], m), "pair<%s, %d>" % (a[1], m), "plain"
        if k == 5:
            a, b = ty(d + 1), ty(d + 1)
            return "deep::some<%s, %s>" % (a[0], b[0]), "deep::some<%s, %s>" % (a[1], b[1]), "plain"
        a = ty(d + 1)
        if k == 6 and a[2] not in ("ref", "array"):
            return a[0] + " *", ptr(a[1], "*"), "pointer"
        if k == 7 and a[2] in ("plain", "pointer"):
            x = r.choice(["&", "&&"])
            return a[0] + " " + x, ptr(a[1], x), "ref"
        if k == 8 and a[2] == "plain" and not a[1].startswith("const "):
            return "const " + a[0], "const " + a[1], "plain"
        if k == 9 and a[2] in ("plain", "pointer"):
            m = r.choice([1, 3, 100])
            return "identity<%s>[%d]" % (a[0], m), "%s[%d]" % (a[1], m), "array"
        return a

    seen = set()
    out = []
    while len(out) < 2 * n:
        a = ty(0) if len(out) >= len(basic) else (basic[len(out)],) * 2
        if a[0] in seen:
            continue
        seen.add(a[0])
        out.append("type<%s>(%s)" % (a[0], cq(a[1])))
    o.append("static Named const named[] = { %s };" % ",\n    ".join(out))
    return "\n".join(o) + "\n"


def lit(v):
    if v == -2**63:
        return "(-9223372036854775807ll - 1)"
    return "%d%s" % (v, "ull" if v > 2**63 - 1 else "ll")


COUNTS = {"logs": (250, 1500), "checks": (250, 1500), "types": (60, 250), "names": (30, 80), "lists": (70, 260), "values": (60, 240)}


def generate(what, seed, thorough, path):
    if what == "units":
        return gen_units.generate(seed, thorough, path)
    if what == "folded":
        open(path, "w").write(gen_fold.generate(seed, thorough))
        return
    text = {"logs": logs, "checks": checks, "types": types, "names": names, "lists": gen_types.lists, "values": gen_types.values}[what](seed, COUNTS[what][thorough])
    open(path, "w").write(text)
