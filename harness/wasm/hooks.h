// included by ce.h itself (CE_USER_INCLUDE) in the WebAssembly build
#pragma once
extern "C" void w_break();
#undef CE_DEBUG_BREAK
#define CE_DEBUG_BREAK() ::w_break()
