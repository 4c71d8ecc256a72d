#define BACKTRACE_SUPPORTED 1
