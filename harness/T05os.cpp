// call sites without user hooks, in a library of their own (the namespace is renamed so that nothing is shared with the monitored one)
#define KIT_NO_LOG_HOOK
#define KIT_NO_ERROR_HOOK
#define ce ce_os
#include "ce/ce.h"
#include "os.cpp"
#include "to_text.cpp"
#include <string>
static std::string* g_to;
void ce::os::debug_out(char const text[]) { *g_to += text ? text : ""; }
int os_count() { return 6; }
#define HEAD "******** FAILED ********\n"
void os_run(int i, std::string& out, std::string& want)
{
    g_to = &out;
    int a = 3;
    bool r = true;
    switch (i)
    {
#line 10 "x.cpp"
    case 0: CE_ASSERT(a == 4, a, a + 1); want = "F: { \"CE_ASSERT\": \"x.cpp(10)\", \"a == 4\": \"a, a + 1\", \"...\": \"3\", \"...\": \"4\" }\n" HEAD "x.cpp(10): CE_ASSERT: a == 4: (a, a + 1) = (3, 4)\nB"; break;
    case 1: r = CE_VERIFY(a < 0); want = "F: { \"CE_VERIFY\": \"x.cpp(11)\", \"a < 0\": \"\" }\n" HEAD "x.cpp(11): CE_VERIFY: a < 0: () = ()\nB"; break;
    case 2: CE_ERROR("m", a); want = "F: { \"CE_ERROR\": \"x.cpp(12)\", \"\": \"\"m\", a\", \"...\": \"m\", \"...\": \"3\" }\n" HEAD "x.cpp(12): CE_ERROR: : (\"m\", a) = (m, 3)\nB"; break;
    case 3: CE_ASSERT(a == 3, a); want = ""; break;
    case 4: r = CE_REJECT(a == 3, a); want = "F: { \"CE_REJECT\": \"x.cpp(14)\", \"a == 3\": \"a\", \"...\": \"3\" }\n" HEAD "x.cpp(14): CE_REJECT: a == 3: (a) = (3)\nB"; break;
    case 5: r = !CE_REJECT(a == 4, a); want = ""; break;
    }
    if (i == 1 ? r : !r) out += "(wrong value)";
}
