// Host code which ends the program or prints messages: redirected with objcopy, it ends the run of the harness instead.
#pragma once
#include "fibers.hpp"
namespace endings
{
inline bool happened;
inline int status;
[[noreturn]] inline void end_program(int code)
{
    happened = true;
    status = code;
    fib::yield_(fib::DONE);
    abort();
}
}
extern "C"
{
#define FEND __attribute__((used))
FEND void fib_exit(int code) { endings::end_program(code); }
FEND void fib__exit(int code) { endings::end_program(code); }
FEND void fib_quick_exit(int code) { endings::end_program(code); }
FEND void fib_abort() { endings::end_program(134); }
FEND void fib_assert_fail(const char*, const char*, unsigned, const char*) { endings::end_program(134); }
FEND int fib_printf(const char*, ...) { return 0; }
FEND int fib_printf_chk(int, const char*, ...) { return 0; }
FEND int fib_puts(const char*) { return 0; }
}
