// the default log and error handlers, with the platform's output replaced by one which records it for its thread
#define debug_out debug_out_recorded
#include "ce/ce.h"
#include "os.cpp"
#undef debug_out
#include <string>
static thread_local std::string t_out;
void ce::os::debug_out_recorded(char const text[]) { t_out += text ? text : ""; }
std::string taken() { auto s = t_out; t_out.clear(); return s; }
