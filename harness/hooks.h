// Included by ce.h itself (CE_USER_INCLUDE) in every monitored build: routes failed
// assertions to the monitor and turns the debugger trap into a recorded event.
// Uses only the user hooks ce.h documents, so nothing in /repo is changed.
#pragma once
namespace kit
{
    bool on_error(int level, int argc, char const* argv[][2]);
    void on_log(int level, int argc, char const* argv[][2]);
    void on_break();
}
#ifndef KIT_NO_ERROR_HOOK
#define CE_USER_ERROR_HOOK(...) ::kit::on_error(__VA_ARGS__)
#endif
#ifndef KIT_NO_LOG_HOOK
#define CE_USER_LOG_HOOK(...) ::kit::on_log(__VA_ARGS__)
#endif
#undef CE_DEBUG_BREAK
#define CE_DEBUG_BREAK() ::kit::on_break()
