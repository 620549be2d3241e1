// call sites without a user hook, in a library of their own (the namespace is renamed so that nothing is shared with the monitored one)
#define KIT_NO_LOG_HOOK
#define ce ce_os
#include "ce/ce.h"
#include "os.cpp"
#include "to_text.cpp"
#include <string>
static std::string* g_to;
void ce::os::debug_out(char const text[]) { *g_to += text ? text : ""; }
int os_count() { return 5; }
void os_run(int i, std::string& out, std::string& want)
{
    g_to = &out;
    int a = 3;
    switch (i)
    {
    case 0: CE_LOG(info, a, a + 1); want = "I: { \"$\": \"info\", \"a\": \"3\", \"a + 1\": \"4\" }\n"; break;
    case 1: CE_LOG_MSG(fatal, "x", a, "y"); want = "F: { \"$\": \"fatal\", \"$msg\": \"x3y\" }\n"; break;
    case 2: CE_LOG(warn, "w"); want = "W: { \"$\": \"warn\", \"\"w\"\": \"w\" }\n"; break;
    case 3: CE_LOG(unheard, a); want = "M: { \"$\": \"unheard\", \"a\": \"3\" }\n"; break;
    default: CE_LOG(error); want = "E: { \"$\": \"error\" }\n"; break;
    }
}
