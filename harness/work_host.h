// what work.h and the parts of the library it uses need of the program, where there is an operating system
#pragma once
#include <string>
static std::string& w_text();
static void w_break() { w_text() += "<break>"; }
static std::string& w_text() { static std::string& s = (kit::g_break = w_break, *new std::string); return s; }
static unsigned long long g_now = 12345;
extern "C" unsigned long long w_heard()
{
    unsigned long long h = w_text().size();
    for (unsigned char c : w_text()) h = h * 31 + c;
    w_text().clear();
    return h;
}
extern "C" void w_pass(unsigned long long t) { g_now += t; }
namespace ce
{
    namespace os
    {
        void debug_out(char const t[]) { if (t) w_text() += t; }
        uint64_t monotonic_timestamp() { return g_now; }
        uint64_t monotonic_frequency() { return 10000000; }
    }
}
