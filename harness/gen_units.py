"""Generates the units of one program: each includes some of ce's headers in some order, in some version of the language."""
import os, random

HEADERS = ["ce", "atomic", "cdt", "clock", "dictionary", "io", "lziii", "math", "mutex", "nameof", "pool", "sort", "zorder"]
STD = ["<vector>", "<string>", "<cstdint>", "<cstddef>", "<cmath>", "<cstring>", "<algorithm>", "<new>", "<type_traits>", "<atomic>", "<mutex>", "<stdint.h>", "<stdlib.h>", "<math.h>", "<string.h>", "<unistd.h>", "<time.h>"]
LANG = ["-std=c++17", "-std=c++20", "-std=c++2b", "-std=gnu++17", "-std=gnu++20"]


def generate(seed, thorough, path):
    r = random.Random(seed * 77 + 5)
    d = os.path.dirname(path)
    sets = [[h] for h in HEADERS]  # each alone
    sets.append(list(HEADERS))
    sets.append(HEADERS[::-1])
    for _ in range(45 if thorough else 7):
        k = r.sample(HEADERS, r.randint(2, len(HEADERS)))
        k += r.sample(k, r.randint(0, min(3, len(k))))
        r.shuffle(k)
        sets.append(k)
    inc = []
    for i, hs in enumerate(sets):
        flags = [LANG[i % len(LANG)] if i < 13 + 2 else r.choice(LANG)]
        if r.random() < 0.3:
            flags.append("-funsigned-char")
        for f in ["-DCE_USER_CHECKED", "-DCE_USER_MUTEX_STD"]:
            if r.random() < 0.25:
                flags.append(f)  # what a user may ask for: the headers' own checks; the standard mutexes by name
        lines = ["// flags: " + " ".join(flags)]
        for h in hs:
            if i >= 13 and r.random() < 0.3:
                lines.append("#include " + r.choice(STD))
            lines.append('#include "ce/%s.h"' % h)
        lines += ["#define W_%s 1" % h for h in sorted(set(hs))]
        lines.append("#define W_SEED %dull" % (seed * 1000 + 17))
        if i >= 13 and r.random() < 0.5:
            # what a user may well do
            lines += ["#include <cstdint>", "#include <cstddef>", "using namespace ce;", "static_assert(sizeof(uint64_t) == 8 && sizeof(int16_t) == 2 && sizeof(size_t) == sizeof(sizeof(0)), \"\");"]
        lines.append('#include "work.h"')
        if "atomic" in hs:
            lines.append("static ce::atomic<int> unit_a{ 5 };")
        if "mutex" in hs:
            lines.append("static ce::thread_mutex unit_m;\nstatic ce::thread_shared_mutex unit_s;")
        lines.append('#define W_UNIT %d' % i)
        lines.append('#include "G03unit.h"')
        open(os.path.join(d, "u_%02d.cpp" % i), "w").write("\n".join(lines) + "\n")
        inc.append((i, " ".join(hs), " ".join(flags)))
    out = ["extern \"C\" void w_unit_%d(unsigned long long);" % i for i, _, _ in inc]
    out.append("static Unit const units[] = {")
    out += ['    { w_unit_%d, "%s (%s)" },' % x for x in inc]
    out.append("};")
    open(path, "w").write("\n".join(out) + "\n")
