// The Windows mutexes, compiled as on Windows against the stand-in interface.
#define _WIN32 1
#include "mutex_win32.cpp"
