// G08: what the library computes at compile time is defined there and is what it computes at run time and what the definition gives.
// The compiler's evaluator of constants refuses whatever is undefined.
#include "kit.h"
#include <string>
#include "ce/ce.h"
#include "ce/math.h"
#include "ce/io.h"
using kit::Case;

static constexpr ce::uint64_t fold_byte(ce::uint64_t h, unsigned char b) { return (h ^ b) * 0x100000001b3ull; }
template<size_t N> static constexpr ce::uint64_t digest(ce::uint8_t const (&data)[N])
{
    ce::uint64_t h = 0xcbf29ce484222325ull;
    for (size_t i = 0; i < N; ++i) h = fold_byte(h, data[i]);
    return h;
}
static constexpr ce::uint32_t digest_text(char const* s)
{
    ce::uint32_t h = 0x811c9dc5;
    for (; *s; ++s) h = (h ^ (unsigned char)(*s)) * 0x01000193u;
    return h;
}
static char const* variable(char const* s) { static char const* volatile v; v = s; return v; }

template<class T> static void fold(Case& c, char const* kind, char const* what, T const& folded, T const& run, T const& want, bool known)
{
    c.ev();
    c.cover("kinds", kit::hash_bytes(kind, strlen(kind)));
    c.count("folded");
    if (folded != run) return c.fail("differs", "%s: at compile time not what it is at run time", what);
    if (known && run != want) return c.fail("wrong", "%s is wrong", what);
    c.distinct(kit::hash_bytes(what, strlen(what)) ^ kit::hash_bytes(&run, sizeof run));
}
#include "folded.inc"

void kit_main(kit::K& k)
{
    k.section_exact("folded", sizeof parts / sizeof *parts, [](Case& c) { parts[c.index](c); });
}
