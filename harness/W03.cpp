// W03: the branches of the code for other compilers and processors give the results the properties ask for.
// KIT_PLATFORM 1: as MSVC on x64 sees the code (its intrinsics are stand-ins); 2: as another compiler on another processor does.
#include "kit.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include <new>
#include <stdio.h>
#include <emmintrin.h>
#undef __clang__
#undef CE_DEBUG_BREAK
#if KIT_PLATFORM == 1
#define _MSC_VER 1930
#define __int64 long
#define __cdecl
#define __declspec(X) __attribute__((X))
#define _mul128 stand_in_mul128
#define _div128 stand_in_div128
#define _rotl stand_in_rotl
extern "C"
{
    long stand_in_mul128(long a, long b, long* hi) { __int128 p = __int128(a) * b; *hi = long(p >> 64); return long(p); }
    long stand_in_div128(long hi, long lo, long d, long* rest)
    {
        __int128 n = __int128((unsigned __int128)(unsigned long)(hi) << 64 | (unsigned long)(lo));
        if (d == 0 || n / d != long(n / d)) __builtin_trap(); // as the instruction does
        *rest = long(n % d);
        return long(n / d);
    }
    unsigned int stand_in_rotl(unsigned int x, int n) { n &= 31; return x << n | x >> ((32 - n) & 31); }
}
#else
#undef __x86_64__
#endif
#include "ce/ce.h"
#include "ce/math.h"

#define kit_main main
namespace m01 {
#include "M01.cpp"
}
namespace m02 {
#include "M02.cpp"
}
namespace m03 {
#include "M03.cpp"
}
namespace m05 {
#include "M05.cpp"
}
namespace m06 {
#include "M06.cpp"
}
namespace m07 {
#include "M07.cpp"
}
namespace m08 {
#include "M08.cpp"
}
namespace r01 {
#include "R01.cpp"
}
namespace h01 {
#include "H01.cpp"
}
#undef kit_main

void kit_main(kit::K& k)
{
    m01::main(k), m02::main(k), m03::main(k), m05::main(k), m06::main(k), m07::main(k), m08::main(k), r01::main(k), h01::main(k);
    k.section("platform", 1, [](kit::Case& c)
    {
        c.ev();
        c.count(CE_CPU_X86 ? "x86" : "other_processor");
    });
}
