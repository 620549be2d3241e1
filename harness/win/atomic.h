// atomic_msvc_x86.h as its compiler sees it: its intrinsics are clang's own, long has 32 bits.
#pragma once
#include <emmintrin.h>
#define _MSC_VER 1930
#define long int
#include "ce/atomic_msvc_x86.h"
#undef long
#undef _MSC_VER
namespace ce
{
    // it has no bit operations; named only, for the monitors' templates
    template<class T> T atomic_fetch_xor(atomic<T>&, T);
    template<class T> T atomic_fetch_and(atomic<T>&, T);
    template<class T> T atomic_fetch_or(atomic<T>&, T);
}
