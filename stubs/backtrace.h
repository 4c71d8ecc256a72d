// The interface of libbacktrace used by obake. The implementation is in work/strace.cpp (simulated).
#pragma once
#include <stdint.h>
extern "C" {
struct backtrace_state;
typedef void (*backtrace_error_callback)(void *data, const char *msg, int errnum);
backtrace_state *backtrace_create_state(const char *filename, int threaded, backtrace_error_callback error_callback, void *data);
typedef int (*backtrace_full_callback)(void *data, uintptr_t pc, const char *filename, int lineno, const char *function);
int backtrace_full(backtrace_state *state, int skip, backtrace_full_callback callback, backtrace_error_callback error_callback, void *data);
}
