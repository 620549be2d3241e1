// what a module without any library needs of the program
typedef __SIZE_TYPE__ size_t;
typedef unsigned char u8;
extern "C"
{
    void* memcpy(void* d, void const* s, size_t n) { for (size_t i = 0; i < n; ++i) static_cast<u8 volatile*>(d)[i] = static_cast<u8 const*>(s)[i]; return d; }
    void* memmove(void* d, void const* s, size_t n)
    {
        if (d < s) return memcpy(d, s, n);
        while (n--) static_cast<u8 volatile*>(d)[n] = static_cast<u8 const*>(s)[n];
        return d;
    }
    void* memset(void* d, int v, size_t n) { for (size_t i = 0; i < n; ++i) static_cast<u8 volatile*>(d)[i] = u8(v); return d; }
    size_t strlen(char const* s) { size_t n = 0; while (s[n]) ++n; return n; }
    int memcmp(void const* a, void const* b, size_t n)
    {
        for (size_t i = 0; i < n; ++i) if (static_cast<u8 const*>(a)[i] != static_cast<u8 const*>(b)[i]) return static_cast<u8 const*>(a)[i] < static_cast<u8 const*>(b)[i] ? -1 : 1;
        return 0;
    }
    double sqrt(double v) { return __builtin_sqrt(v); }
    float sqrtf(float v) { return __builtin_sqrtf(v); }
    // products and quotients of 128 bits
    typedef unsigned __int128 u128;
    u128 __multi3(u128 a, u128 b)
    {
        unsigned long long a0 = (unsigned long long)(a), a1 = (unsigned long long)(a >> 64), b0 = (unsigned long long)(b), b1 = (unsigned long long)(b >> 64);
        unsigned long long al = a0 & 0xffffffff, au = a0 >> 32, bl = b0 & 0xffffffff, bu = b0 >> 32;
        unsigned long long ll = al * bl, lu = al * bu, ul = au * bl, uu = au * bu, m = (ll >> 32) + (lu & 0xffffffff) + (ul & 0xffffffff);
        return u128(uu + (lu >> 32) + (ul >> 32) + (m >> 32) + a1 * b0 + a0 * b1) << 64 | ((ll & 0xffffffff) | m << 32);
    }
    u128 __udivti3(u128 n, u128 d)
    {
        u128 q = 0, r = 0;
        for (int i = 0; i < 128; ++i)
        {
            bool over = r >> 127 != 0;
            r = r << 1 | n >> 127, n <<= 1, q <<= 1;
            if (over || r >= d) r -= d, q |= 1;
        }
        return q;
    }
    __int128 __divti3(__int128 n, __int128 d)
    {
        bool neg = (n < 0) != (d < 0);
        u128 q = __udivti3(n < 0 ? u128(0) - u128(n) : u128(n), d < 0 ? u128(0) - u128(d) : u128(d));
        return __int128(neg ? u128(0) - q : q);
    }
    u128 __umodti3(u128 n, u128 d) { return n - __multi3(__udivti3(n, d), d); }
    __int128 __modti3(__int128 n, __int128 d) { return __int128(u128(n) - __multi3(u128(__divti3(n, d)), u128(d))); }
}
