"""Generates uses of the compile-time parts (C++ source) with what each must give, from the seed alone."""
import random


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def compose(r):
    """a random type -> C++ text, through aliases which apply one thing at a time"""
    t = r.choice(["int", "char", "double", "bool", "void", "unsigned long long", "float", "Ty<1>", "Uni", "Enm", "Scoped", "Abs", "decltype(nullptr)", "Fn", "FnC", "Mem", "MemFn", "Arr3", "ArrX", "Arr23", "int*", "char const*"])
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6])):
        t = "%s<%s>" % (r.choice(["tP", "tP", "tC", "tV", "tCV", "tL", "tR"]), t)
    return t


def lists(seed, n):
    r = random.Random(seed)
    o = ["static Row const rows[] = {"]
    want = []

    def row(kind, text, got, expect):
        o.append("    { %s, %s, uint64_t(%s), uint64_t(%s) }," % (q(kind), q(text[:150]), got, expect))

    # type lists
    for i in range(n):
        k = r.choice([0, 1, 1, 2, 3, 4, 5, 8, 16, 33, 60])
        pool = r.choice([1, 2, 3, 6, 30])
        ts = [r.randrange(pool) for _ in range(k)]
        txt = ", ".join("Ty<%d>" % t for t in ts)
        row("types", txt, "ce::types<%s>::count" % txt, k)
        if k:
            j = r.choice([0, k - 1, r.randrange(k), r.randrange(k)])
            row("select", "%d of %s" % (j, txt), "id<ce::select_t<%d, %s>>" % (j, txt), ts[j])
            row("car", txt, "id<ce::car_t<%s>>" % txt, ts[0])
            row("cdr", txt, "same<ce::cdr_t<%s>, ce::types<%s>>" % (txt, ", ".join("Ty<%d>" % t for t in ts[1:])), 1)
            # every element through car and cdr, one after the other
            row("walk", txt, "walk(ce::types<%s>{})" % txt, poly(ts))
        else:
            row("car", "nothing", "same<ce::types<>::car_t, void>", 1)
            row("cdr", "nothing", "same<ce::types<>::cdr_t, void>", 1)
        x = r.randrange(pool + 1)
        row("has", "Ty<%d> in %s" % (x, txt), "ce::has_v<Ty<%d>%s>" % (x, ", " + txt if k else ""), int(x in ts))
        if r.random() < 0.6 and k:
            ts = [ts[0]] * k
            if r.random() < 0.6:
                ts[r.randrange(k)] = pool + 1
            txt = ", ".join("Ty<%d>" % t for t in ts)
        row("are_same", txt, "ce::are_same_v<%s>" % txt, int(k > 0 and len(set(ts)) == 1))
        if k == 2:
            row("is_same", txt, "ce::is_same_v<%s>" % txt, int(ts[0] == ts[1]))
            row("is_same", txt, "ce::is_same<%s>::value" % txt, int(ts[0] == ts[1]))
        a, b = r.randrange(9), r.randrange(9)
        e = r.randrange(2)
        row("cond", "%d ? %d : %d" % (e, a, b), "id<ce::cond_t<%s, Ty<%d>, Ty<%d>>>" % ("true" if e else "false", a, b), a if e else b)
        row("enable", "%d" % e, "enabled<%s>(0)" % ("true" if e else "false"), e)
        if k:
            row("enable_same", txt, "enabled_same<%s>(0)" % txt, int(len(set(ts)) == 1))
    # traits of any type
    for i in range(n * 3):
        t = compose(r)
        if t in want:
            continue
        want.append(t)
        for f in ("remove_reference", "remove_const", "remove_volatile", "remove_cv", "remove_pointer"):
            row(f, t, "same<ce::%s_t<%s>, std::%s_t<%s>>" % (f, t, f, t), 1)
        row("remove_cvref", t, "same<ce::remove_cvref_t<%s>, std::remove_cv_t<std::remove_reference_t<%s>>>" % (t, t), 1)
        row("is_ptr", t, "ce::is_ptr<%s>::value" % t, "std::is_pointer_v<std::remove_cv_t<std::remove_reference_t<%s>>>" % t)
        row("is_enum", t, "ce::is_enum<%s>::value" % t, "std::is_enum_v<%s>" % t)
        row("identity", t, "same<ce::identity_t<%s>, %s>" % (t, t), 1)
        u = r.choice(want)
        row("is_same", "%s and %s" % (t, u), "ce::is_same_v<%s, %s>" % (t, u), "same<%s, %s>" % (t, u))
    # how to pass a type
    for i in range(n // 2):
        size = r.choice([1, 2, 3, 8, 12, 15, 16, 17, 18, 24, 31, 32, 33, 64, 100])
        for kind in ("Plain", "Owning", "Moved"):
            t = "%s<%d>" % (kind, size)
            row("pass_by_value", t, "same<ce::best_pass_by_value_t<%s>, %s>" % (t, t if kind == "Plain" and size <= 16 else t + " const&"), 1)
            row("pass_by_value", t, "ce::is_trivially_pass_by_value<%s>::value" % t, int(kind == "Plain" and size <= 16))
    o.append("};")
    # sequences: every short one, and around powers of two
    sizes = list(range(0, 66)) + [r.randrange(66, 1200) for _ in range(n // 4)] + [x for k in (7, 8, 9, 10) for x in (2**k - 1, 2**k, 2**k + 1)] + ([2047, 2048, 2049, 4095, 4096] if n > 100 else [])
    o.append("static Seq const seqs[] = {")
    for s in sizes:
        t = r.choice(["size_t", "int", "unsigned", "short", "long long"] + (["unsigned char"] if s <= 255 else []) + (["signed char", "char"] if s <= 127 else []))
        o.append("    { %s, %d, run_sequence<%s, %d> }," % (q("sequence<%s, %d>" % (t, s)), s, t, s))
    o.append("};")
    # lists of values
    o.append("static Vals const vals[] = {")
    for i in range(n // 2):
        t, lo, hi = r.choice([("unsigned char", 0, 255), ("int", -2**31, 2**31 - 1), ("unsigned long long", 0, 2**64 - 1), ("long long", -2**63, 2**63 - 1), ("short", -2**15, 2**15 - 1), ("bool", 0, 1), ("char", -128, 127), ("unsigned short", 0, 65535)])
        vs = [r.choice([lo, hi, 0, 1, r.randint(lo, hi), r.randint(lo, hi)]) for _ in range(r.choice([1, 1, 2, 3, 7, 20]))]
        c = ", ".join("%s(%s)" % (t if " " not in t else "(" + t + ")", lit(v)) if " " not in t else "(%s)(%s)" % (t, lit(v)) for v in vs)
        o.append("    { %s, %d, { %s }, run_values<%s, %s> }," % (q("%s: %s" % (t, ", ".join(map(str, vs)))[:140]), len(vs), ", ".join("uint64_t(%s)" % lit(v) for v in vs), t, c))
    o.append("};")
    return "\n".join(o) + "\n"


def poly(ts):
    h = 7
    for t in ts:
        h = (h * 1000003 + t) % 2**64
    return "%dull" % h


def lit(v):
    if v == -2**63:
        return "(-9223372036854775807ll - 1)"
    return "%d%s" % (v, "ull" if v > 2**63 - 1 else "ll")


MEMBERS = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long long", "unsigned long long", "float", "double", "char const*", "int*", "E8", "Colour", "Inner", "Deep",
           "std::string", "Text", "Owner", "void (*)(int)", "ce::tuple<int, char>", "ce::vec2<int>", "int const", "One", "std::vector<int>"]


def values(seed, n):
    r = random.Random(seed * 7 + 1)
    o = []
    names = []
    for i in range(n):
        k = 1 + r.randrange(4)
        ms = [r.choice(MEMBERS) for _ in range(k)]
        if i < len(MEMBERS):
            ms[r.randrange(k)] = MEMBERS[i]
        if r.random() < 0.1:
            ms[0] = "Fixed"  # without default constructor: as the first member only
        style = r.randrange(4)
        if style == 0:
            t = "ce::tuple<%s>" % ", ".join(ms)
            mem = ["_%d" % j for j in range(k)]
        elif style == 1 and k <= 2:
            t = "ce::%s<%s>" % ("box" if k == 1 else "pair", ", ".join(ms))
            mem = ["_%d" % j for j in range(k)]
        else:
            t = "Agg%d" % i
            mem = r.sample(["a", "b", "first", "second", "x", "value", "n", "get", "size", "_0", "data"], k)
            o.append("struct %s { %s };" % (t, " ".join("alias<%s> %s;" % (m, x) for m, x in zip(ms, mem))))
        o.append("static void members%d(Case& c)\n{\n    %s" % (i, " ".join("auto v%d = some<alias<%s>>(c.rng);" % (j, m) for j, m in enumerate(ms))))
        o.append("    %s%s t{ %s };" % (r.choice(["", "const "]), t, ", ".join("v%d" % j for j in range(k))))
        for j in range(k):
            o.append("    member<%d, %s>(c, ce::get<%d>(t), t.%s, v%d, %s);" % (j, "std::remove_cv_t<alias<%s>>" % ms[j], j, mem[j], j, q("%s in %s { %s }" % (mem[j], t, ", ".join(ms)))))
        o.append("}")
        names.append("members%d" % i)
    o.append("static void (*const members[])(Case&) = { %s };" % ", ".join(names))
    # counts of arrays and arguments; arguments are not evaluated
    o.append("static Count const counts[] = {")
    for i in range(n):
        dims = [r.choice([1, 2, 3, 7, 100, 70000]) for _ in range(r.choice([1, 1, 2, 3]))]
        if len(dims) > 1:
            dims = [min(d, 9) for d in dims]
        t = r.choice(["char", "int", "Inner", "Owner*", "long long"])
        o.append("    { %s, [] { static %s a%s; return size_t(CE_COUNTOF(a)); }, %d }," % (q("%s a%s" % (t, "".join("[%d]" % d for d in dims))), t, "".join("[%d]" % d for d in dims), dims[0]))
        k = r.choice([0, 1, 2, 3, 5, 9, 30, 64])
        args = [r.choice(["hit()", "1", "hit() + 2", "\"a, b\"", "'c'", "Inner{ hit(), 2.0 }", "nullptr", "(hit(), 3)", "text", "array", "1.5f", "std::string(\"x\")", "array[hit()]", "void_star"]) for _ in range(k)]
        o.append("    { %s, [] { return size_t(CE_COUNTOF_ARGS(%s)); }, %d }," % (q("(%s)" % ", ".join(args))[:150].rstrip("\\") + ('"' if len(q("(%s)" % ", ".join(args))) > 150 else ""), ", ".join(args), k))
        if k:
            o.append("    { \"unused\", [] { CE_REF(%s); return size_t(%d); }, %d }," % (", ".join(args), k, k))
    o.append("};")
    # macros
    o.append("static Text_ const texts[] = {")
    words = ["a", "b7", "if", "x_y", "12", "0x1F", "+", "'c'", "f(1)", "__LINE_"]
    for i in range(n):
        a, b = r.choice(["a", "b7", "x_y", "_"]), r.choice(["c", "12", "7z", "_9"])
        o.append("    { \"JOIN\", STR(CE_PP_JOIN(%s, %s)), %s }," % (a, b, q(a + b)))
        ws = [r.choice(words) for _ in range(8 + r.randrange(4))]
        j = r.randrange(8)
        o.append("    { \"GET\", STR(CE_PP_GET_%d(%s)), %s }," % (j, ", ".join(ws), q(ws[j])))
        ws = [r.choice(words[:6]) for _ in range(8)]
        o.append("    { \"MAP\", MAPPED(CE_PP_MAP(NAMED, %s)), %s }," % (", ".join(ws), q("".join("<%s>" % w for w in ws))))
        w = ", ".join(ws[:r.randrange(1, 5)])
        c = r.randrange(2)
        o.append("    { \"WHEN\", \"\" CE_PP_WHEN(%d)(%s)(%s), %s }," % (c, q("yes " + w), q("no " + w), q(("yes " if c else "no ") + w)))
        o.append("    { \"PASS\", STR(CE_PP_PASS(%s)), %s }," % (w, q(w)))
        o.append("    { \"ARGS\", STR(CE_PP_ARGS(%s)), %s }," % (w, q("(" + w + ")")))
        o.append("    { \"TEXT\", CE_PP_TEXT(%s), %s }," % (w, q(w)))
        o.append("    { \"KILL\", \"x\" CE_PP_KILL(%s), \"x\" }," % w)
        o.append("    { \"CALL\", CE_PP_CALL(CE_PP_TEXT, %s), %s }," % (w, q(w)))
    o.append("};")
    return "\n".join(o) + "\n"
