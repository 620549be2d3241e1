// G02 where the compiler has neither structured bindings nor fold expressions: get of tuples, doing things in order
#include <string>
#include <vector>
#include <stdint.h>
#include <string.h>
#undef __cpp_structured_bindings
#undef __cpp_fold_expressions
#define ce ce_old // kept apart from the other build
#include "ce/ce.h"

template<class...Ts> static std::vector<int> folded(Ts...ts)
{
    std::vector<int> o;
    CE_FOLD_LEFT_COMMA(o.push_back(ts));
    return o;
}
template<class T, class U> static bool is(T const& a, U const& b) { return ce::is_same_v<T, U> && a == b; }

char const* without_bindings(uint64_t r)
{
    int a = int(r), d = int(r >> 40);
    double b = double(r >> 7);
    std::string s(r % 40, char('a' + r % 26));
    char c = char(r >> 3);
    ce::tuple<int> t1{ a };
    ce::tuple<char, double> t2{ c, b };
    ce::tuple<double, std::string, int> const t3{ b, s, a };
    ce::tuple<char, int, std::string, int> t4{ c, a, s, d };
    if (!is(ce::get<0>(t1), a)) return "get of a tuple of one";
    if (!is(ce::get<0>(t2), c) || !is(ce::get<1>(t2), b)) return "get of a tuple of two";
    if (!is(ce::get<0>(t3), b) || !is(ce::get<1>(t3), s) || !is(ce::get<2>(t3), a)) return "get of a tuple of three";
    if (!is(ce::get<0>(t4), c) || !is(ce::get<1>(t4), a) || !is(ce::get<2>(t4), s) || !is(ce::get<3>(t4), d)) return "get of a tuple of four";
    if (t4._0 != c || t4._1 != a || t4._2 != s || t4._3 != d) return "get changed a tuple";
    if (folded(a) != std::vector<int>{ a } || folded(a, d, 3, a) != std::vector<int>{ a, d, 3, a }) return "the order of things done one after the other";
    return nullptr;
}
