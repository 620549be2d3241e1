// G06: what ce.h offers over the compiler (memory and rotation intrinsics, time stamps, types and traits, detection of the target, compile time checks)
// means the same whichever compiler is used. KIT_PLATFORM 1: as MSVC on x64 sees the code (its intrinsics are stand-ins); 2: as another compiler on another processor does.
#include "kit.h"
#include <algorithm>
#include <string>
#include <type_traits>
#include <limits>
#include <memory>
#include <ctype.h>
#include <stdarg.h>
#include <sys/wait.h>
#include <time.h>
#include <vector>
#ifndef KIT_PLATFORM
#define KIT_PLATFORM 0
#endif
#if KIT_PLATFORM
#include <emmintrin.h>
#undef __clang__
#undef CE_DEBUG_BREAK
#if KIT_PLATFORM == 1
#undef __x86_64__
#define _M_X64 100
#define _MSC_VER 1930
#define __int64 long
#define __cdecl
#define __declspec(X) __attribute__((X))
#undef __rdtsc
#define __rdtsc stand_in_rdtsc
#define _rotl stand_in_rotl
static unsigned rotations;
extern "C"
{
    unsigned int stand_in_rotl(unsigned int x, int n) { ++rotations; n &= 31; return x << n | x >> ((32 - n) & 31); }
    unsigned long stand_in_rdtsc() { return __builtin_ia32_rdtsc(); }
}
#else
#undef __x86_64__
#endif
#endif
#include "ce/ce.h"
using kit::Case;

// ---- where is it compiled
static char const* const line_a =
#line 1 "a file.h"
CE_FILELINE;
static char const* const line_b =
#line 1000000 "b/c.cpp"
CE_FILELINE; static char const* const line_c = CE_FILELINE;
#line 51 "G06.cpp"

static char const* volatile never_inline_frames[2];
template<int N> CE_NOINLINE static void const* frame() { return __builtin_frame_address(0); }

// ---- types of many kinds
struct Trivial { int a; char b[3]; };
struct WithMember { Trivial t; std::string s; };
struct UserDestructor { ~UserDestructor() { } };
struct Defaulted { ~Defaulted() = default; };
struct Virtual { virtual void f() { } };
struct VirtualDestructor { virtual ~VirtualDestructor() { } };
struct Derived : UserDestructor { };
struct DerivedTrivial : Trivial { int more; };
template<class T> struct Holder { T t; };
template<class T> struct Two { T t[2]; Holder<T> h; };
struct NoCopy { NoCopy(NoCopy const&) = delete; NoCopy() { } };
union U { int a; float b; };
enum class En : short { };
template<class T> static void destructible(Case& c, char const* what)
{
    constexpr bool got = CE_IS_TRIVIALLY_DESTRUCTIBLE(T), want = std::is_trivially_destructible<T>::value;
    c.ev();
    if (got != want) return c.fail("destructible", "%s said to be %sdestroyed by nothing", what, got ? "" : "not ");
    c.count(got ? "trivially_destructible" : "destructors");
    c.distinct(kit::hash_bytes(__PRETTY_FUNCTION__, strlen(__PRETTY_FUNCTION__)));
}
template<class T> static void destructibles(Case& c, char const* what)
{
    destructible<T>(c, what), destructible<T const>(c, what), destructible<T[3]>(c, what), destructible<T[2][2]>(c, what), destructible<T*>(c, what);
    destructible<Holder<T>>(c, what), destructible<Two<T>>(c, what), destructible<volatile T>(c, what);
}
template<class T> static void integer(Case& c, char const* name, unsigned bytes, bool is_signed)
{
    c.ev();
    c.count("integers");
    if (sizeof(T) != bytes) return c.fail("size", "%s has %zu bytes", name, sizeof(T));
    if ((T(-1) < T(0)) != is_signed) return c.fail("sign", "%s %s below zero", name, is_signed ? "does not go" : "goes");
    if (!std::is_integral<T>::value || std::is_same<std::remove_cv_t<T>, bool>::value) return c.fail("integral", "%s is no integer", name);
    T most = is_signed ? T((uint64_t(1) << (bytes * 8 - 1)) - 1) : T(~uint64_t(0));
    if (std::numeric_limits<T>::max() != most) return c.fail("limit", "%s ends elsewhere", name);
}

// ---- what the compilers say
struct Said { bool ran = false; int rc = 0; std::string out; };
static Said command(char const* f, ...)
{
    char cmd[2000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(cmd, sizeof cmd, f, ap);
    va_end(ap);
    Said s;
    for (int tries = 0; tries < 3; ++tries)
    {
        s = Said{};
        FILE* p = popen(cmd, "r");
        if (!p) continue;
        char buf[4096];
        for (size_t n; (n = fread(buf, 1, sizeof buf, p)) > 0;) s.out.append(buf, n);
        int st = pclose(p);
        s.rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
        s.ran = s.rc == 0 || s.rc == 1;
        if (s.ran) break;
    }
    return s;
}
static std::string squeeze(std::string const& t)
{
    std::string r;
    for (char ch : t) if (!isspace((unsigned char)(ch)) && ch != '\\' && ch != '"') r += ch;
    return r;
}
static char const* const compilers[] = { "clang++-18", "g++" };
static std::string scratch()
{
    char t[] = "./g06.XXXXXX";
    char* d = mkdtemp(t);
    return d ? d : "";
}
static bool spill(std::string const& path, std::string const& text)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return false;
    bool ok = fwrite(text.data(), 1, text.size(), f) == text.size();
    return fclose(f) == 0 && ok;
}
// a condition whose truth is known
static std::string condition(kit::Rng& r, bool truth, int& kind)
{
    int64_t a = r.range(-1000, 1000), b = r.range(-1000, 1000);
    char t[300];
    switch (kind = int(r.below(9)))
    {
    case 0: snprintf(t, sizeof t, "%lld %s %lld", (long long)(a), (a < b) == truth ? "<" : ">=", (long long)(b)); break;
    case 1: snprintf(t, sizeof t, "%lld + %lld == %lld", (long long)(a), (long long)(b), (long long)(a + b + (truth ? 0 : 1))); break;
    case 2: snprintf(t, sizeof t, "same<int, %s>::value", truth ? "int" : "long"); break;
    case 3: snprintf(t, sizeof t, "%ssame<wrap<int, %lld>, wrap<int, %lld>>::value", truth == (a == b) ? "" : "!", (long long)(a), (long long)(b)); break;
    case 4: { unsigned n = unsigned(r.range(1, 1000)); snprintf(t, sizeof t, "CE_COUNTOF(array_%u) == %u", n % 8, n % 8 + (truth ? 1 : 2)); break; }
    case 5: { unsigned n = unsigned(r.below(5)); snprintf(t, sizeof t, "CE_COUNTOF_ARGS(%s) == %u", n == 0 ? "" : n == 1 ? "7" : n == 2 ? "1, 'a'" : n == 3 ? "1, 2.0, \"x\"" : "1, 2, 3, 4", n + (truth ? 0 : 1)); break; }
    case 6: snprintf(t, sizeof t, "sizeof(ce::uint%d_t) == %d", 8 << int(a & 3), (1 << int(a & 3)) + (truth ? 0 : 1)); break;
    case 7: snprintf(t, sizeof t, "%s", truth ? "true" : "false"); break;
    default: snprintf(t, sizeof t, "ce::hash::fnv1a(\"%llx\") %s 0", (unsigned long long)(r.next()), truth ? "!=" : "=="); break; // (not 0 but once in 2^32)
    }
    return t;
}

static uint64_t first_stamp;
static timespec first_time;
static double seconds(timespec const& a, timespec const& b) { return double(b.tv_sec - a.tv_sec) + double(b.tv_nsec - a.tv_nsec) * 1e-9; }

void kit_main(kit::K& k)
{
    clock_gettime(CLOCK_MONOTONIC_RAW, &first_time);
    first_stamp = CE_TIMESTAMP();

    // rotation by any count, which is taken modulo 32 (a generator here rotates by 32)
    k.section("rotate", 4000 * k.pick(1, 20), [](Case& c)
    {
        for (int i = 0; i < 64; ++i)
        {
            uint32_t x = uint32_t(c.rng.wide(32));
            int n = i < 33 ? i : int(c.rng.range(-63, 63));
            ce::uint32_t got = CE_ROTL32(x, n);
            uint32_t want = 0;
            for (int b = 0; b < 32; ++b) if (x >> b & 1) want |= 1u << ((b + n + 64) % 32);
            c.ev();
            if (got != want) return c.fail("rotate", "%08x rotated left by %d is %08x", x, n, got);
            int evaluated = 0;
            (void)CE_ROTL32((++evaluated, x), n);
            if (evaluated != 1) return c.fail("rotate-evaluates", "its argument is evaluated %d times", evaluated);
            c.cover("rotations", uint64_t(n + 64));
            c.distinct(kit::mix(x) ^ uint64_t(n));
        }
#if KIT_PLATFORM == 1
        c.count("intrinsic", rotations), rotations = 0;
#endif
    });
    // memory, between bytes nobody may touch
    k.section("memory", 4000 * k.pick(1, 20), [](Case& c)
    {
        for (int i = 0; i < 16; ++i)
        {
            size_t n = c.rng.chance(1, 4) ? size_t(c.rng.wide(14)) : c.rng.below(80), at = c.rng.below(32), from = c.rng.below(32);
            std::vector<unsigned char> a(at + n + 40), b(from + n + 40);
            for (auto& x : a) x = (unsigned char)(c.rng.next());
            for (auto& x : b) x = (unsigned char)(c.rng.next());
            auto want = a, b0 = b;
            void* r;
            if (c.rng.chance(1, 2))
            {
                for (size_t j = 0; j < n; ++j) want[at + j] = b[from + j];
                r = CE_MEMCPY(a.data() + at, b.data() + from, n);
                c.count("copied");
            }
            else
            {
                int v = int(c.rng.range(-300, 300));
                for (size_t j = 0; j < n; ++j) want[at + j] = (unsigned char)(v);
                r = CE_MEMSET(a.data() + at, v, n);
                c.count("filled");
            }
            c.ev();
            if (a != want || b != b0) return c.fail("memory", "%zu bytes at +%zu from +%zu gave other bytes", n, at, from);
            if (r != a.data() + at) return c.fail("memory-result", "another pointer came back");
            // text of any bytes
            auto text = std::unique_ptr<char[]>(new char[n + 1]);
            for (size_t j = 0; j < n; ++j) text[j] = char(c.rng.range(1, 255));
            text[n] = 0;
            size_t len = CE_STRLEN(text.get());
            if (len != n) return c.fail("length", "text of %zu bytes has length %zu", n, len);
            c.cover("sizes", n < 64 ? n : 64 + uint64_t(64 - __builtin_clzll(n)));
            c.distinct(kit::mix(n) ^ kit::mix(at * 64 + from));
        }
    });
    k.section("types", 1, [](Case& c)
    {
        integer<ce::uint8_t>(c, "uint8_t", 1, false), integer<ce::uint16_t>(c, "uint16_t", 2, false), integer<ce::uint32_t>(c, "uint32_t", 4, false), integer<ce::uint64_t>(c, "uint64_t", 8, false);
        integer<ce::int8_t>(c, "int8_t", 1, true), integer<ce::int16_t>(c, "int16_t", 2, true), integer<ce::int32_t>(c, "int32_t", 4, true), integer<ce::int64_t>(c, "int64_t", 8, true);
        integer<ce::uint>(c, "uint", sizeof(unsigned), false), integer<ce::size_t>(c, "size_t", sizeof(void*), false), integer<ce::ptrdiff_t>(c, "ptrdiff_t", sizeof(void*), true);
        c.ev();
        if (!std::is_same<ce::size_t, ::size_t>::value || !std::is_same<ce::ptrdiff_t, ::ptrdiff_t>::value) c.fail("std-types", "size_t or ptrdiff_t is not the compiler's");
        if (!std::is_same<ce::uint32_t, ::uint32_t>::value || !std::is_same<ce::int32_t, ::int32_t>::value || !std::is_same<ce::uint8_t, ::uint8_t>::value || !std::is_same<ce::int8_t, ::int8_t>::value ||
            !std::is_same<ce::uint16_t, ::uint16_t>::value || !std::is_same<ce::int16_t, ::int16_t>::value) c.fail("std-types", "a type is not the one of the same name");

        destructibles<int>(c, "int"), destructibles<Trivial>(c, "Trivial"), destructibles<WithMember>(c, "WithMember"), destructibles<UserDestructor>(c, "UserDestructor"), destructibles<Defaulted>(c, "Defaulted");
        destructibles<Virtual>(c, "Virtual"), destructibles<VirtualDestructor>(c, "VirtualDestructor"), destructibles<Derived>(c, "Derived"), destructibles<DerivedTrivial>(c, "DerivedTrivial");
        destructibles<NoCopy>(c, "NoCopy"), destructibles<U>(c, "union"), destructibles<En>(c, "enum"), destructibles<std::string>(c, "string"), destructibles<std::vector<int>>(c, "vector");
        destructibles<std::unique_ptr<int>>(c, "unique_ptr"), destructibles<double>(c, "double"), destructibles<void (*)()>(c, "function"), destructibles<int Trivial::*>(c, "member");
        destructibles<ce::span<int>>(c, "span"), destructibles<std::pair<int, std::string>>(c, "pair");
        destructible<std::pair<int, double>>(c, "pair of numbers");

        if (strcmp(line_a, "a file.h(1)") || strcmp(line_b, "b/c.cpp(1000000)") || strcmp(line_c, "b/c.cpp(1000000)")) c.fail("fileline", "\"%s\", \"%s\", \"%s\"", line_a, line_b, line_c);

        void const* here = __builtin_frame_address(0);
        c.ev();
        if (frame<1>() == here) c.fail("inlined", "a function was compiled into its caller");
        never_inline_frames[0] = nullptr;

        int cpu = CE_CPU_X86_32 + CE_CPU_X86_64 + CE_CPU_WASM_32 + CE_CPU_WASM_64, api = CE_API_POSIX + CE_API_WIN32 + CE_API_UNKNOWN;
        if (cpu != (KIT_PLATFORM == 2 ? 0 : 1) || api != 1 || !CE_API_POSIX) c.fail("target", "%d processors, %d systems", cpu, api);
        if (CE_CPU_X86_64 != (KIT_PLATFORM == 2 ? 0 : 1) || CE_CPU_X86 != CE_CPU_X86_64 || CE_CPU_WASM) c.fail("target", "another processor than this");
        c.count(KIT_PLATFORM == 1 ? "msvc" : KIT_PLATFORM == 2 ? "other" : "native");
    });
    // time stamps go on, and are the processor's counter
    k.section("stamps", 40 * k.pick(1, 5), [](Case& c)
    {
        if (KIT_PLATFORM == 2)
        {
            c.ev();
            if (CE_TIMESTAMP() != 0 || CE_TIME_STAMP() != 0) c.fail("no-counter", "a processor without a counter shows one");
            c.count("stamps", 2000);
            return;
        }
        auto fence = [] { __asm__ volatile("lfence" ::: "memory"); };
        static_assert(std::is_same<decltype(CE_TIMESTAMP()), ce::uint64_t>::value && std::is_same<decltype(CE_TIME_STAMP()), ce::uint64_t>::value, "a time stamp has 64 bits");
        uint64_t t = 0;
        // (a machine moved between may upset its counter once, not each time)
        for (int attempt = 0;; ++attempt)
        {
            std::string why;
            char const* key = "";
            ce::uint64_t last = CE_TIMESTAMP();
            uint64_t steps = 0;
            for (int i = 0; i < 2000 && why.empty(); ++i)
            {
                fence();
                t = i & 1 ? CE_TIMESTAMP() : CE_TIME_STAMP();
                fence();
                c.ev();
                if (t < last) key = "backwards", why = kit::fmt("time stamp %llu after %llu", (unsigned long long)(t), (unsigned long long)(last));
                steps += t != last;
                last = t;
            }
            // high resolution: 2000 readings take tens of microseconds at least
            if (why.empty() && steps < 100) key = "resolution", why = kit::fmt("the time stamp changed only %llu times in 2000", (unsigned long long)(steps));
            fence();
            uint64_t before = __builtin_ia32_rdtsc(); fence();
            t = CE_TIMESTAMP(); fence();
            uint64_t after = __builtin_ia32_rdtsc(); fence();
            if (why.empty() && (t < before || t > after)) key = "counter", why = kit::fmt("time stamp %llu between readings %llu and %llu of the counter", (unsigned long long)(t), (unsigned long long)(before), (unsigned long long)(after));
            if (why.empty()) break;
            if (attempt == 3) return c.fail(key, "%s", why.c_str());
        }
        c.count("stamps", 2000);
        c.cover("stamp_bits", uint64_t(64 - __builtin_clzll(t)));
        c.distinct(kit::mix(t));
        if (c.index % 10 == 0) usleep(20000);
    });
#if KIT_PLATFORM == 0
    // compile time checks: what is false is refused where it stands, with its text; what is true is not
    k.section("checks", 10 * k.pick(1, 6), [](Case& c)
    {
        std::string d = scratch();
        if (d.empty()) { c.count("no_scratch"); return; }
        char const* cxx = compilers[c.index % 2];
        int std_ = (c.index / 2) % 3 == 0 ? 17 : (c.index / 2) % 3 == 1 ? 20 : 23;
        std::string text = "#include \"ce/ce.h\"\n#include \"ce/atomic.h\"\n#include \"ce/mutex.h\"\n";
        for (int i = 0; i < 8; ++i) text += kit::fmt("extern int array_%d[%d];\n", i, i + 1);
        text += "template<class, class> struct same { static constexpr bool value = false; }; template<class T> struct same<T, T> { static constexpr bool value = true; };\n"
            "template<class, int> struct wrap { }; extern int* pointer; extern int some; struct sized { int size(); }; extern sized object; extern ce::atomic<int> at;\n";
        size_t line = size_t(std::count(text.begin(), text.end(), '\n'));
        struct Want { bool bad; std::string what, said; };
        std::vector<Want> wants(line);
        bool none = c.rng.chance(1, 4); // nothing refused at all
        size_t lines = 150, refusals = 0;
        // gcc stops looking at some kinds of errors after others, so few kinds of them
        for (size_t i = 0; i < lines; ++i)
        {
            bool bad = !none && c.rng.chance(1, 3);
            Want w{ bad, "", "" };
            if (c.rng.chance(5, 6))
            {
                int kind;
                std::string cond = condition(c.rng, !bad, kind);
                c.cover("kinds", uint64_t(kind));
                w.said = cond.find("CE_COUNTOF") == std::string::npos ? cond : "";
                w.what = "CE_STATIC_ASSERT(" + cond;
                if (c.rng.chance(1, 3))
                {
                    std::string m = kit::fmt("reason %llu", (unsigned long long)(c.rng.below(1000000)));
                    w.what += ", \"" + m + "\"";
                    w.said = m;
                }
                w.what += ");";
                if (c.rng.chance(1, 4)) w.what = kit::fmt("void f_%zu() { ", i) + w.what + " }";
                else if (c.rng.chance(1, 4)) w.what = kit::fmt("struct s_%zu { ", i) + w.what + " };";
            }
            else switch (c.rng.below(4))
            {
            case 0: w.what = kit::fmt("constexpr auto n_%zu = CE_COUNTOF(%s);", i, bad ? "pointer" : "array_3"); break;
            case 1: w.what = kit::fmt("auto n_%zu = CE_COUNTOF(%s);", i, bad ? "object" : "\"text\""); break;
            case 2: w.what = kit::fmt("void f_%zu() { %s (void)x; }", i, bad ? "ce::atomic<int> x(at);" : "int x = 1;"); break;
            default: w.what = kit::fmt("char a_%zu[%s];", i, bad ? "CE_COUNTOF(object)" : "CE_COUNTOF(array_7)"); break;
            }
            if (bad) ++refusals;
            text += w.what + "\n";
            wants.push_back(w);
        }
        std::string path = d + "/u.cpp";
        if (!spill(path, text)) { c.count("no_scratch"); return; }
        Said s = command("LC_ALL=C %s -std=c++%d -w -fno-diagnostics-color %s -fsyntax-only -I %s/lib/h %s 2>&1", cxx, std_, cxx[0] == 'c' ? "-ferror-limit=0 -fno-caret-diagnostics" : "-ftrack-macro-expansion=0 -fmax-errors=0 -fno-diagnostics-show-caret", KIT_REPO, path.c_str());
        if (!s.ran) c.count("no_compiler");
        else
        {
            // what was said of each line
            std::vector<std::string> said(wants.size());
            std::vector<bool> refused(wants.size());
            std::string elsewhere;
            for (size_t p = 0; p < s.out.size();)
            {
                size_t e = s.out.find('\n', p);
                if (e == std::string::npos) e = s.out.size();
                std::string l = s.out.substr(p, e - p);
                p = e + 1;
                if (l.find("error: ") == std::string::npos) continue;
                unsigned long n;
                if (sscanf(l.c_str() + std::min(l.size(), path.size()), ":%lu:", &n) == 1 && l.compare(0, path.size(), path) == 0 && n >= 1 && n <= wants.size()) refused[n - 1] = true, said[n - 1] += l + "\n";
                else if (elsewhere.empty()) elsewhere = l;
            }
            for (size_t i = 0; i < wants.size(); ++i)
            {
                c.ev();
                if (wants[i].bad && !refused[i]) { c.fail("accepted", "%s -std=c++%d accepts: %s", cxx, std_, wants[i].what.c_str()); break; }
                if (!wants[i].bad && refused[i]) { c.fail("refused", "%s -std=c++%d refuses: %s with %s", cxx, std_, wants[i].what.c_str(), said[i].c_str()); break; }
                if (wants[i].bad && !wants[i].said.empty() && squeeze(said[i]).find(squeeze(wants[i].said)) == std::string::npos)
                {
                    c.fail("unsaid", "%s -std=c++%d refuses %s without its text: %s", cxx, std_, wants[i].what.c_str(), said[i].c_str());
                    break;
                }
                c.distinct(kit::hash_bytes(wants[i].what.data(), wants[i].what.size()) ^ uint64_t(std_));
                c.count(wants[i].bad ? "lines_refused" : "lines_accepted");
            }
            if (!refusals && s.rc) c.fail("elsewhere", "%s -std=c++%d refuses the header itself: %s", cxx, std_, elsewhere.c_str());
            c.count("compiled");
        }
        unlink(path.c_str());
        rmdir(d.c_str());
    });
    // which processor and system it is compiled for
    k.section_exact("targets", 16, [](Case& c)
    {
        struct Target { char const* name; int x86_32, x86_64, wasm_32, wasm_64, win32, posix; };
        static Target const targets[] =
        {
            { "x86_64-linux-gnu", 0, 1, 0, 0, 0, 1 }, { "i386-linux-gnu", 1, 0, 0, 0, 0, 1 }, { "i386-linux-gnu -march=i486", 1, 0, 0, 0, 0, 1 }, { "aarch64-linux-gnu", 0, 0, 0, 0, 0, 1 },
            { "riscv64-linux-gnu", 0, 0, 0, 0, 0, 1 }, { "arm-linux-gnueabihf", 0, 0, 0, 0, 0, 1 }, { "powerpc64le-linux-gnu", 0, 0, 0, 0, 0, 1 }, { "x86_64-freebsd", 0, 1, 0, 0, 0, 1 },
            { "x86_64-pc-windows-msvc", 0, 1, 0, 0, 1, 0 }, { "i686-pc-windows-msvc", 1, 0, 0, 0, 1, 0 }, { "aarch64-pc-windows-msvc", 0, 0, 0, 0, 1, 0 }, { "x86_64-w64-windows-gnu", 0, 1, 0, 0, 1, 0 },
            { "wasm32-unknown-unknown", 0, 0, 1, 0, 0, 0 }, { "wasm64-unknown-unknown", 0, 0, 0, 1, 0, 0 }, { "x86_64-unknown-openbsd", 0, 1, 0, 0, 0, 1 }, { "s390x-linux-gnu", 0, 0, 0, 0, 0, 1 },
        };
        Target const& t = targets[c.index % 16];
        std::string d = scratch(), path = d + "/t.cpp";
        if (d.empty() || !spill(path, "#include \"ce/ce.h\"\nGOT CE_CPU_X86_32 CE_CPU_X86_64 CE_CPU_X86 CE_CPU_WASM_32 CE_CPU_WASM_64 CE_CPU_WASM CE_API_WIN32 CE_API_POSIX CE_API_UNKNOWN\n")) { c.count("no_scratch"); return; }
        Said s = command("LC_ALL=C clang++-18 -target %s -std=c++17 -w -E -P -I %s/lib/h %s 2>&1", t.name, KIT_REPO, path.c_str());
        size_t at = s.out.rfind("GOT ");
        int g[9];
        c.ev();
        if (s.ran && s.rc == 0 && at != std::string::npos)
        {
            int n = sscanf(s.out.c_str() + at, "GOT %d %d %d %d %d %d %d %d %d", g, g + 1, g + 2, g + 3, g + 4, g + 5, g + 6, g + 7, g + 8);
            int want[9] = { t.x86_32, t.x86_64, t.x86_32 | t.x86_64, t.wasm_32, t.wasm_64, t.wasm_32 | t.wasm_64, t.win32, t.posix, !t.win32 && !t.posix };
            if (n != 9) c.fail("detect-form", "for %s they are no numbers: %s", t.name, s.out.substr(at, 200).c_str());
            else for (int i = 0; i < 9; ++i) if (g[i] != want[i])
            {
                c.fail("detect", "for %s: %s", t.name, s.out.substr(at, 200).c_str());
                break;
            }
            c.count("targets");
        }
        else c.count("no_compiler");
        unlink(path.c_str());
        rmdir(d.c_str());
    });
#endif
    // the time stamp keeps its pace and does not wrap over seconds
    k.section("pace", 1, [](Case& c)
    {
        if (KIT_PLATFORM == 2) { c.ev(); return; }
        timespec now;
        auto fence = [] { __asm__ volatile("lfence" ::: "memory"); };
        timespec from = first_time;
        uint64_t stamp = first_stamp;
        double last_rate = 0, rate = 0;
        for (int i = 0;; ++i)
        {
            for (;;)
            {
                clock_gettime(CLOCK_MONOTONIC_RAW, &now);
                if (seconds(from, now) > 2.2) break;
                usleep(10000);
            }
            // as close together as can be
            uint64_t t = 0, best = ~0ull;
            timespec then = now;
            for (int j = 0; j < 200; ++j)
            {
                fence();
                uint64_t a = CE_TIMESTAMP(); fence();
                timespec x;
                clock_gettime(CLOCK_MONOTONIC_RAW, &x); fence();
                uint64_t b = CE_TIMESTAMP(); fence();
                if (b - a < best) best = b - a, t = a + (b - a) / 2, then = x;
            }
            c.ev();
            bool wraps = t < stamp;
            rate = double(t - stamp) / seconds(from, then);
            // (a machine may be moved or paused between, but not each time)
            bool steady = !wraps && rate > 1e6 && last_rate > 1e6 && rate < last_rate * 1.2 && last_rate < rate * 1.2;
            if (steady) break;
            if (i == 6) return c.fail(wraps ? "wraps" : rate <= 1e6 ? "slow" : "pace", "%llu %.3f s after %llu; %.0f, then %.0f steps per second", (unsigned long long)(t), seconds(from, then), (unsigned long long)(stamp), last_rate, rate);
            from = then, stamp = t, last_rate = wraps ? 0 : rate;
        }
        c.count("paced");
        c.sample("%.0f steps per second", rate);
    });
}
