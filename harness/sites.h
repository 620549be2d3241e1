// what the generated call sites use
#pragma once
#include "kit.h"
#include "ce/ce.h"
#include <algorithm>

#ifndef SITES_NAMESPACE
#define SITES_NAMESPACE sites_on
#endif
namespace shared
{
    extern int v[6];
    extern char const* s[3];
    extern long long wide;
    extern int arr[8];
    extern std::vector<int> trace;
    extern bool flag;
    extern int tests;
}
namespace SITES_NAMESPACE
{
    enum class E : short { a = 5, b = -9 };
    struct P { int x, y; };
    static int &v0 = shared::v[0], &v1 = shared::v[1], &v2 = shared::v[2], &v3 = shared::v[3], &v4 = shared::v[4], &v5 = shared::v[5];
    static char const *&s0 = shared::s[0], *&s1 = shared::s[1], *&s2 = shared::s[2];
    static long long& wide = shared::wide;
    static int (&arr)[8] = shared::arr;
    static int hit(int id, int v) { shared::trace.push_back(id); return v; }
    static bool test() { ++shared::tests; return shared::flag; }
    static bool test_false() { return false; }
    template<class...T> static int sum(T...t) { return int((unsigned(t) + ...)); }
    template<class T, T N> static T both() { return N; }
    static inline std::string S(int v) { return std::to_string(v); }
    static inline std::string S(long long v) { return std::to_string(v); }
    static inline std::string S(bool v) { return v ? "#<T>" : "#<F>"; }
    static inline std::string S(char v) { return std::string(1, v); }
    static inline std::string S(char const* v) { return v; }
    static inline std::string S(E v) { return "#<enum " + std::to_string(short(v)) + ">"; }
}
// new values of the variables the sites print
inline void vary(kit::Rng& r, std::vector<std::string>& keep)
{
    for (int& v : shared::v) v = int(r.range(-1000000, 1000000));
    for (int& v : shared::arr) v = int(r.range(-1000, 1000));
    shared::v[3] = int(r.range(0, 100000));
    shared::wide = r.swide(64);
    keep.resize(3);
    for (int i = 0; i < 3; ++i)
    {
        keep[i].clear();
        for (size_t n = r.below(30); keep[i].size() < n;) keep[i] += char(33 + r.below(94));
        shared::s[i] = keep[i].c_str();
    }
    shared::trace.clear();
    shared::tests = 0;
}
