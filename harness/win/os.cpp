// The Windows back end of the operating system services, compiled as on Windows against the stand-in interface.
#define _WIN32 1
#include "os_win32.cpp"
